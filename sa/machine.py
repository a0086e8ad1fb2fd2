"""Transition systems of the search iterators, as the value-flow analysis derives them from the source.

`next(&mut self)` is summarised once, for a symbolic iterator: either a closed form of the result and of the state
left behind, or one unbounded loop whose round is summarised in the same way.  The rules compare this transition with
the specified one; where the two terms differ, the transition is evaluated at states of the specified search (never
followed from state to state), to find one from which it leaves the specification.
"""
import functools
import itertools

from base import *
from ground import *
from rules.commands import gval, EDGE_T
from rules.values import graph_atoms, gself, var, DG, PATH

DS = "gc_core::iter::iter_datastructure::"
SP = "gc_core::path::ScoredPath"
VID = "gc_core::graph::VertexId"
SETS = ("HashSet", "BTreeSet")
LISTS = ("Vec", "VecDeque", "LinkedList", "BinaryHeap")


def edge(a, b):
    return A(EDGE_T, a, b)


def path(*vs):
    return A(PATH, L(vs))


def adjacency(gv):
    if not (isinstance(gv, tuple) and gv[0] == "adt" and isinstance(gv[2], dict)):
        raise NoEval("graph")
    return gv[2]


GFNS = {
    "g.vertices": lambda G, t, b: L(adjacency(G.val(t.args[0], b))),
    "g.edges": lambda G, t, b: L(dict.fromkeys(x for l in adjacency(G.val(t.args[0], b)).values() for x in l)),
    "g.out": lambda G, t, b: (lambda v: L(x for x in adjacency(G.val(t.args[0], b)).get(v, ()) if x[2] == v))(G.val(t.args[1], b)),
    "g.in": lambda G, t, b: (lambda v: L(x for x in adjacency(G.val(t.args[0], b)).get(v, ()) if x[3] == v))(G.val(t.args[1], b)),
}


def short(t):
    return t["p"].split("::")[-1] if isinstance(t, dict) and t.get("k") == "adt" else None


def unref(t):
    while isinstance(t, dict) and t.get("k") == "ref":
        t = t["t"]
    return t


class Field:
    """one field of an iterator: its role and how a value of that role is represented"""

    def __init__(self, i, role, enc=None, dec=None):
        self.i, self.role = i, role
        self.enc = enc or (lambda x: x)
        self.dec = dec or (lambda x: x)


def field_of(F, i, t, frontier_item):
    """the role of a field of type t, None when it has none the rules know"""
    t = unref(t)
    if not isinstance(t, dict):
        return None
    if t.get("k") == "adt" and t["p"] == DG:
        return Field(i, "graph")
    if t.get("k") == "adt" and t["p"] == VID:
        return Field(i, "vertex")
    if t.get("k") in ("param", "closure", "fnptr", "fn"):
        return Field(i, "fn")
    if t.get("k") != "adt":
        return None
    s = short(t)
    el = unref((t.get("a") or [None])[0])
    if s in SETS:
        return Field(i, "set", lambda x: L(x), lambda x: L(x))
    if s in ("HashMap", "BTreeMap"):
        return Field(i, "map", dict, as_map)
    if short(el) == "Constraint" and s in LISTS:
        return Field(i, "constraints", L)
    if s in LISTS:
        if short(el) == frontier_item:
            return Field(i, "frontier", L, L)
        if short(el) == "Reverse" and short(unref((el.get("a") or [None])[0])) == frontier_item:
            return Field(i, "frontier", lambda x: L(A(el["p"], y) for y in x), lambda x: L(y[2] for y in x))
        return None
    a = F.adts.get(t["p"])
    if a and t["p"].startswith(DS) and len(a["variants"]) == 1 and len(a["variants"][0]["fields"]) == 1 and short(el) == frontier_item:
        u = a["variants"][0]["fields"][0]["t"]
        ul = (u.get("a") or [None])[0] if isinstance(u, dict) and short(u) in LISTS else None
        if ul is None:
            return None
        D = t["p"]
        if short(ul) == "Reverse":
            R = ul["p"]
            return Field(i, "frontier", lambda x: A(D, L(A(R, y) for y in x)), lambda v: L(y[2] for y in v[2]))
        if ul.get("k") == "param":
            return Field(i, "frontier", lambda x: A(D, L(x)), lambda v: L(v[2]))
    return None


class Machine:
    """the transition of one iterator type"""

    def __init__(self, c, D, item, roles, ov=None):
        """item: the type of the elements of the frontier; roles: the roles its fields have to have, each once"""
        self.c, self.D, self.why = c, D, None
        self.body = self.r = None
        a = c.F.adts.get(D)
        if a is None:
            c.unk("anchor", D, "the iterator %s does not exist" % D.split("::")[-1])
            self.why = "missing"
            return
        fs = a["variants"][0]["fields"]
        self.fields = {}
        self.n = len(fs)
        for i, f in enumerate(fs):
            x = field_of(c.F, i, f["t"], item)
            if x is None or x.role in self.fields:
                self.why = "the field %s has a role the rule does not know" % f["n"]
                break
            self.fields[x.role] = x
        if not self.why and set(self.fields) != set(roles):
            self.why = "the state of the iterator is not made of %s" % ", ".join(roles)
        self.body = c.F.methods_of_trait("std::iter::Iterator", D, "next")
        if self.body is None:
            c.unk("anchor", D, "%s is not an iterator" % D.split("::")[-1])
            self.why = "missing"
            return
        self.me = var("me", {"k": "adt", "p": D})
        self.ov = dict(graph_atoms())
        self.ov.update(ov or {})
        r = self.r = c.run(self.body, ov=self.ov, args=lambda ip: [ip.newroot(self.me, "it")])
        self.ret, self.out = r.ret, c.out(r, 1)
        self.where = self.body.p
        self.root = r.args[0].args[0]
        loops = [f for f in r.flat() if f.ev.sub is not None and (f.ev.rec is None or f.ev.rec.n is None)]
        self.loop = self.rec = None
        if loops:
            if len(loops) > 1 or loops[0].loops or loops[0].ev.rec is None or loops[0].ev.g is not TRUE:
                self.why = self.why or "more than one unbounded loop"
            else:
                self.loop = loops[0].ev
                self.rec = self.loop.rec
        self.states = self.blind = 0

    def f(self, role):
        """the term of a field of the iterator"""
        return fld(self.me, self.fields[role].i)

    def terms(self):
        ts = [self.ret, self.out]
        if self.rec:
            ts += [s for _, _, s, _ in self.rec.lvs] + [g for _, g in self.rec.exits]
        return ts

    def enc(self, **kw):
        v = [None] * self.n
        for role, x in kw.items():
            f = self.fields[role]
            v[f.i] = f.enc(x)
        return A(self.D, *v)

    def dec(self, st, role):
        f = self.fields[role]
        return f.dec(st[2 + f.i])

    def step(self, st, fns=None):
        """('exit', result, state) | ('cont', state) | ('panic',) | None when it cannot be evaluated"""
        self.states += 1
        r = self._step(st, fns, 0)
        if r is None:
            self.blind += 1
        elif self.rec is not None and self.rec.p is not None and self.rec.p in self.rec_free():
            # what a round does depends on how many went before it within the call: any number can
            for k in around(*self.terms(), top=10 ** 6):
                r2 = self._step(st, fns, k)
                if r2 is not None and r2 != r:
                    return r2
        return r

    def _step(self, st, fns, k):
        fn = dict(GFNS)
        fn.update(fns or {})
        env = {self.me: st}
        if self.rec is not None and self.rec.p is not None:
            env[self.rec.p] = env[self.rec.p.args[0]] = k
        try:
            if self.rec is None:
                G = Ground(env, fn)
                if self.panics(self.r.events, G):
                    return ("panic",)
                return ("exit", G.val(self.ret), G.val(self.out))
            G0 = Ground(env, fn)
            foreign = []
            for lv, init, stp, (root, pth) in self.rec.lvs:
                if root == self.root:
                    v = st
                    for p in pth:
                        v = v[2 + p.args[0]] if p.op == "pf" else self.no()
                    env[lv] = v
                else:
                    try:
                        env[lv] = G0.val(init)
                        foreign.append((lv, stp))
                    except (NoEval, Undef):
                        pass        # a variable of the body: it must not matter
            G = Ground(env, fn)
            if self.panics(self.loop.sub, G):
                return ("panic",)
            for _, g in self.rec.exits:
                if G.bool(g, Bind()):
                    after = self.r.events[self.r.events.index(self.loop) + 1:]
                    if self.panics(after, G):
                        return ("panic",)
                    return ("exit", G.val(self.ret), G.val(self.out))
            for lv, stp in foreign:
                if not any(lv in t.free for t in self.terms() if t is not stp):
                    continue
                try:
                    if G.val(stp) != env[lv]:
                        return None         # the round hands something on that the state does not show
                except (NoEval, Undef):
                    if lv in self.rec_free():
                        return None
            new = st
            for lv, init, stp, (root, pth) in self.rec.lvs:
                if root != self.root:
                    continue
                new = put(new, [p.args[0] for p in pth], G.val(stp))
            return ("cont", new)
        except NoEval:
            return None
        except Undef:
            return None

    def rec_free(self):
        out = set()
        for t in self.terms():
            out |= t.free
        return out

    def no(self):
        raise NoEval("path")

    def panics(self, evs, G):
        try:
            return walk([x for x in evs if x.sub is None or x.rec is not None and x.rec.n is not None], G, set())[1] != "ok"
        except NoEval:
            return False


def put(v, pth, x):
    if not pth:
        return x
    k = 2 + pth[0]
    return v[:k] + (put(v[k], pth[1:], x),) + v[k + 1:]


def sfold(n, inits, f):
    """the n-fold iteration of f(p, accs) -> new accs, one term per variable; every variable depends on the first"""
    p = T("pos", n, 7000)
    accs = [T("acc", 0, i) for i in range(len(inits))]
    ss, b = close(n, p, f(p, accs))
    if len(inits) == 1:
        return T("fold", n, b, 0, inits[0], ss[0])
    return T("mfold", n, b, 0, T("tup", *inits), T("tup", *ss))


# ------------------------------------------------------------------ graphs and states of the specified searches
SMALL = [((), (1,)), (((1, 1),), ()), (((1, 2),), ()), (((1, 2), (2, 1)), ()), (((1, 2), (1, 3), (2, 4), (3, 4)), ()), (((1, 2), (2, 3), (3, 1)), (9,)),
         (((1, 2), (2, 2), (2, 3), (3, 2)), ()), (((1, 3), (1, 2), (2, 3), (3, 4), (4, 1), (5, 1)), (8,)),
         (((2, 1), (1, 5), (5, 2), (5, 4), (4, 1), (2, 4), (4, 4)), ()), (((1, 2), (2, 3), (3, 4), (4, 5), (5, 2), (1, 5)), ()), (((7, 8), (8, 7), (8, 8)), (12,)), (((1, 2), (2, 2)), ()), (((1, 2), (2, 2), (2, 3)), ()), (((3, 1), (1, 1), (3, 2)), (5,)),
         (((1, 2), (2, 3), (3, 4), (4, 5), (5, 6)), ()), (((0, 1), (1, 2), (2, 3), (3, 0), (0, 2)), ()), (((1, 0), (1, 2), (2, 0), (0, 3), (3, 4)), ())]


def succ(es, v):
    return [b for a, b in es if a == v]


def shifted(es, vs, k):
    return tuple((a + k, b + k) for a, b in es), tuple(v + k for v in vs)


@functools.lru_cache(None)
def tiny():
    """every graph of up to three vertices, loops included, up to renaming; and some of four"""
    out, seen = [], set()
    for n in (2, 3):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        for mask in range(1 << len(pairs)):
            es = [x for i, x in enumerate(pairs) if mask >> i & 1]
            key = (n, min(tuple(sorted((q[a], q[b]) for a, b in es)) for q in itertools.permutations(range(n))))
            if key in seen:
                continue
            seen.add(key)
            out.append((es, n))
    pairs = [(a, b) for a in range(4) for b in range(4)]
    x = 1
    for _ in range(80):
        x = (x * 1103515245 + 12345) % 2 ** 31
        m = x >> 8
        x = (x * 1103515245 + 12345) % 2 ** 31
        m &= x >> 5 if len(out) % 2 else -1
        out.append(([p for i, p in enumerate(pairs) if m >> i & 1], 4))
    res = []
    for i, (es, n) in enumerate(out):
        ids = ((1, 2, 3, 4), (4, 1, 9, 2), (3, 8, 1, 5))[i % 3]
        es = [(ids[a], ids[b]) for a, b in es]
        k = i % max(1, len(es))
        es = es[k:] + es[:k] if i % 2 else es[::-1]
        res.append((tuple(es), tuple(v for v in ids[:n] if not any(v in x for x in es))))
    return res


def graphs_for(*ts, big=400, smalls=SMALL):
    """(edges, vertices, start): small graphs from every vertex, and ones that reach the constants of the terms"""
    yield from _graphs_for(*ts, big=big, smalls=smalls)
    if smalls is SMALL:
        for es, vs in tiny():
            for s in sorted(set(vs) | {v for x in es for v in x}):
                yield es, vs, s


def _graphs_for(*ts, big=400, smalls=SMALL):
    for es, vs in smalls:
        for s in sorted(set(vs) | {v for x in es for v in x}):
            yield es, vs, s
    for k in sorted({c + d for c in ints(*ts) for d in (-2, -1, 0) if c + d < 2 ** 64}):
        if k > 5 and k < 2 ** 63:
            for es, vs in smalls[3:5]:
                e2, v2 = shifted(es, vs, k)
                yield e2, v2, k + 1
        if k > 2 ** 62:
            yield ((1, k), (k, 2), (k, k)), (), 1
            yield ((k, 1), (1, 2), (2, k)), (), k
        if 2 < k < big:
            up = [(i, i + 1) for i in range(1, k + 3)]
            star = [(1, i) for i in range(2, k + 3)]
            yield tuple(star), (k + 9,), 1
            yield tuple(up), (), 1
            yield tuple(up) + ((k + 3, 1),), (), 1
            yield tuple(star) + tuple((i, 1) for i in range(2, k + 3)), (), 1
            yield tuple(star) + tuple((i, k + 5) for i in range(2, k + 3)), (), 1
            yield tuple(up) + tuple((i + 1, i) for i in range(1, k + 3)), (), 1
            yield tuple(up) + ((k + 3, k + 3),), (), 1
            yield tuple(up) + ((1, k + 3),), (), 1
            yield tuple(up) + ((1, k + 3), (k + 2, 1), (2, k + 2), (1, k + 2), (k + 3, k + 1)), (), 1
            yield ((k + 9, 1),) + tuple(star) + ((k + 2, k + 9),), (), k + 9


def gsay(es, vs):
    es = list(es)
    return "edges %s%s" % (", ".join("%d->%d" % x for x in es[:8]) or "none", ", ..." if len(es) > 8 else "")


def spread(l, k=8):
    """a few of a long list: the first, the last, some between"""
    l = list(l)
    return l if len(l) <= k else l[:k - 3] + [l[len(l) // 2]] + l[-2:]


class LoopFn:
    """a function that is one unbounded loop between a closed beginning and end: its loop variables, one round and the result"""

    def __init__(self, c, name, args, ov=None):
        self.c = c
        self.why = self.loop = self.rec = None
        self.states = self.blind = 0
        self.r = r = c.run(name, ov=dict(graph_atoms(), **(ov or {})), args=lambda ip: args)
        self.body = r and r.body
        if r is None:
            self.why = "missing"
            return
        self.where = r.where
        self.ret = r.ret
        loops = [f for f in r.flat() if f.ev.sub is not None and (f.ev.rec is None or f.ev.rec.n is None)]
        if not loops:
            return
        if len(loops) > 1 or loops[0].loops or loops[0].ev.rec is None:
            self.why = "more than one unbounded loop"
            return
        self.loop = loops[0].ev
        self.rec = self.loop.rec

    def terms(self):
        ts = [self.ret]
        if self.rec:
            ts += [s for _, _, s, _ in self.rec.lvs] + [i for _, i, _, _ in self.rec.lvs] + [g for _, g in self.rec.exits]
        return ts

    def lvs(self):
        """loop variables the round or the result depends on"""
        used = set()
        for t in [self.ret] + [s for _, _, s, _ in self.rec.lvs] + [g for _, g in self.rec.exits]:
            used |= t.free
        return [x for x in self.rec.lvs if x[0] in used]

    def counter(self, x):
        """the loop variable grows by a constant from a constant: (start, increment)"""
        lv, init, stp, _ = x
        if init.op != "int":
            return None
        d = sub(stp, lv)
        return (init.args[0], d.args[0]) if d.op == "int" else None

    def init(self, env, fns=None):
        """{loop variable: value before the first round}"""
        out = {}
        G = Ground(dict(env), dict(GFNS, **(fns or {})))
        for lv, i, _, _ in self.lvs():
            try:
                out[lv] = G.val(i)
            except (NoEval, Undef):
                return None
        return out

    def enters(self, env, fns=None):
        try:
            return Ground(dict(env), dict(GFNS, **(fns or {}))).bool(self.loop.g, Bind())
        except (NoEval, Undef):
            return None

    def step(self, env, vals, fns=None, k=0):
        """round k: ('exit', result) | ('cont', {loop variable: value}) | ('panic',) | None when it cannot be evaluated"""
        self.states += 1
        try:
            G = Ground(dict(env, **{}), dict(GFNS, **(fns or {})))
            G.env.update(vals)
            if self.rec.p is not None:
                G.env[self.rec.p] = G.env[self.rec.p.args[0]] = k
            if self._panics(self.loop.sub, G):
                return ("panic",)
            for _, g in self.rec.exits:
                if G.bool(g, Bind()):
                    if self._panics(self.r.events[self.r.events.index(self.loop) + 1:], G):
                        return ("panic",)
                    return ("exit", G.val(self.ret))
            return ("cont", {lv: G.val(s) for lv, _, s, _ in self.lvs()})
        except (NoEval, Undef):
            self.blind += 1
            return None

    def direct(self, env, fns=None):
        """the result when the loop is not entered (or there is none)"""
        try:
            G = Ground(dict(env), dict(GFNS, **(fns or {})))
            if self._panics(self.r.events, G):
                return ("panic",)
            return ("exit", G.val(self.ret))
        except (NoEval, Undef):
            return None

    def _panics(self, evs, G):
        try:
            return walk([x for x in evs if x.sub is None or x.rec is not None and x.rec.n is not None], G, set())[1] != "ok"
        except (NoEval, Undef):
            return False
