"""Rules C19, C20 (traversals), C22, C23 (best-first searches), C29 (cycle enumeration)."""
from machine import *

BR = "gc_core::iter::iter_breadth::"
DE = "gc_core::iter::iter_depth::"
BE = "gc_core::iter::iter_best::"
BC = "gc_core::iter::iter_best_constraint::"
CI = "gc_core::iter::iter_cycle::"
AS = "gc_core::search::a_star::"


def unwrap(m, t, role="frontier"):
    """the list term of a field of an iterator value"""
    t = fld(t, m.fields[role].i)
    fs = m.c.F.adts[m.D]["variants"][0]["fields"]
    ty = unref(fs[m.fields[role].i]["t"])
    return fld(t, 0) if ty["p"].startswith(DS) else t


def start_state(c, m, name, args, ov=None):
    r = c.run(name, ov=dict(graph_atoms(), **(ov or {})), args=lambda ip: args)
    return r


def undecided(c, m, what):
    c.unk("shape", m.where if m.body else m.D, "%s: %s" % (what, m.why))


def multiset(l):
    d = {}
    for x in l:
        d[x] = d.get(x, 0) + 1
    return d


def minus(a, b):
    """multiset difference of lists, None when b is not contained in a"""
    n = multiset(b)
    out = []
    for x in a:
        if n.get(x):
            n[x] -= 1
        else:
            out.append(x)
    return None if any(n.values()) else out


def wide(*ts, top=60000):
    """sizes next to the constants of the terms that a traversal can reach, too large for a graph explored in full"""
    return [k for k in sorted({c + d for c in ints(*ts) for d in range(-1, 4)}) if 40 < k < top][:16]


def wide_graph(k):
    """1 -> 2..k, and k -> k+1, k+2"""
    return tuple((1, i) for i in range(2, k + 1)) + ((k, k + 1), (k, k + 2))


def pop_end(m, items, mk):
    """'front' / 'back': the end a removal takes from, probed on two elements that lead nowhere"""
    r = m.step(mk(list(items)))
    if r is None or r[0] == "panic":
        return None
    try:
        left = m.dec(r[-1], "frontier")
    except (NoEval, IndexError, TypeError):
        return None
    if list(left) == list(items[1:]):
        return "front"
    if list(left) == list(items[:1]):
        return "back"
    return None


def dist(es, s):
    d = {s: 0}
    q = [s]
    for v in q:
        for w in succ(es, v):
            if w not in d:
                d[w] = d[v] + 1
                q.append(w)
    return d


# ---------------------------------------------------------------------------------------------- C19
def c19(c):
    for D, frm, head_, fifo, word in ((BR + "BreadthFirstIter", BR + "bfs_iter_from", BR + "bfs_iter", True, "breadth-first"),
                                      (DE + "DepthFirstIter", DE + "dfs_iter_from", DE + "dfs_iter", False, "depth-first")):
        m = Machine(c, D, "VertexId", ["frontier", "set", "graph"])
        if m.body is None:
            continue
        if m.why:
            undecided(c, m, "the %s traversal" % word)
            continue
        g, s = gself(), var("s")
        fi, vi, gi = (m.fields[k].i for k in ("frontier", "set", "graph"))
        # where it starts
        r = start_state(c, m, frm, [g, s])
        V0 = None
        if r:
            f0, v0 = unwrap(m, r.ret), fld(r.ret, vi)
            V0 = "start" if v0 is LIST(e(s)) else "none" if v0 is EMPTY else None
            d = Deferred(c, r.where)
            d.decide("start", r.where, f0 is LIST(e(s)) and V0 is not None and fld(r.ret, gi) is g, "the %s traversal starts at the given vertex of the given graph" % word)

            def wit():
                for es, vs, a in graphs_for(r.ret, big=60):
                    gv = gval(es, vs)
                    v = value(r.ret, {g: gv, s: a}, GFNS)
                    if v is None or v == ("undef",):
                        continue
                    try:
                        F0, S0, G0 = m.dec(v[0], "frontier"), m.dec(v[0], "set"), v[0][2 + gi]
                    except (NoEval, IndexError, TypeError):
                        return None
                    if set(F0) != {a}:
                        return "from %d it starts with the frontier %s" % (a, list(F0))
                    if not set(S0) <= {a}:
                        return "from %d, other vertices are taken as visited at the start: %s" % (a, list(S0)[:6])
                    if G0 != gv:
                        return "it does not traverse the given graph"
                    w = len(vs) < 6 and _first_rounds(m, es, vs, a, v[0])
                    if w:
                        return w
            d.finish(wit)
        r = start_state(c, m, head_, [g])
        if r:
            V = T("g.vertices", g)
            f0 = unwrap(m, r.ret)
            want = LIST(T("e", gt0(length(V)), idx(V, INT(0))))
            d = Deferred(c, r.where)
            d.decide("start", r.where, same(f0, want) and (fld(r.ret, vi) is EMPTY or same(fld(r.ret, vi), want)) and fld(r.ret, gi) is g,
                     "without a start vertex it starts at a vertex of the graph, if there is one")

            def wit():
                for es, vs, a in list(graphs_for(r.ret, big=60)) + [((), (), 0)]:
                    gv = gval(es, vs)
                    v = value(r.ret, {g: gv}, GFNS)
                    if v is None:
                        continue
                    if v == ("undef",):
                        return "%s: it fails" % gsay(es, vs)
                    try:
                        F0, S0 = m.dec(v[0], "frontier"), m.dec(v[0], "set")
                    except (NoEval, IndexError, TypeError):
                        return None
                    al = set(adjacency(gv))
                    if bool(F0) != bool(al) or not set(F0) <= al or len(set(F0)) > 1:
                        return "%s: it starts with the frontier %s" % (gsay(es, vs), list(F0)[:6])
                    if not set(S0) <= set(F0):
                        return "%s: other vertices are taken as visited at the start: %s" % (gsay(es, vs), list(S0)[:6])
                    w = len(vs) < 6 and F0 and _first_rounds(m, es, vs, list(F0)[0], v[0])
                    if w:
                        return w
            d.finish(wit)
        # one step
        d = Deferred(c, m.where)
        d.decide("step", m.where, any(_marks_on_push(m, pe, ue, V0) for pe in ("front", "back") for ue in ("front", "back") if not fifo or pe != ue),
                 "a %s step yields the next vertex of the frontier and adds its successors that were never added%s" % (word, ", behind those already there" if fifo else ""))
        d.finish(lambda: _traversal_witness(m, fifo, V0))


def _first_rounds(m, es, vs, a, st):
    """the transition applied to the state it starts with and to its first successors: no vertex twice, and only those reached"""
    got, reach = [], dist(es, a)
    for _ in range(24):
        r = m.step(st)
        if r is None or r[0] == "panic":
            return None
        st = r[-1]
        if r[0] == "exit":
            if r[1] == NONEV:
                return None if set(got) == set(reach) else "%s from %d: it ends after %s" % (gsay(es, vs), a, got)
            got.append(r[1][2])
            if len(set(got)) < len(got):
                return "%s from %d: it yields %s twice" % (gsay(es, vs), a, got[-1])
            if got[-1] not in reach:
                return "%s from %d: it yields %s" % (gsay(es, vs), a, got[-1])
    return None


def _marks_on_push(m, pe, ue, V0):
    """pops at end pe, pushes the unmarked successors at end ue and marks them"""
    if m.rec is not None or V0 != "start":
        return False
    F_, V, g = unwrap(m, m.me), m.f("set"), m.f("graph")
    has = gt0(length(F_))
    v = T("pop", F_, pe)
    O = T("g.out", g, v)
    n = length(O)

    def new(p, s):
        return fld(idx(O, p), 1)

    def addq(l, x):
        return LIST(T("src", l), e(x)) if ue == "back" else LIST(e(x), T("src", l))

    def st2(p, a):
        x = new(p, a)
        seen = isin(x, a[1])
        return [phi([(seen, a[0]), (bnot(seen), addq(a[0], x))]), phi([(seen, a[1]), (bnot(seen), LIST(T("src", a[1]), e(x)))])]

    def st1(p, a):
        x = new(p, a)
        seen = isin(x, a[0])
        return [phi([(seen, a[0]), (bnot(seen), LIST(T("src", a[0]), e(x)))])]
    F2 = sfold(n, [T("rest", F_, pe), V], st2)
    V2 = sfold(n, [V], st1)
    return same(isv(m.ret, "Some"), has) and same(pl(m.ret, "Some", 0), v, has) and same(unwrap(m, m.out), F2, has) and \
        same(fld(m.out, m.fields["set"].i), V2, has) and fld(m.out, m.fields["graph"].i) is g


def _traversal_witness(m, fifo, V0):
    g0 = gval((), (1, 2))
    end = pop_end(m, [1, 2], lambda l: m.enc(frontier=l, set=[1, 2], graph=g0)) or pop_end(m, [1, 2], lambda l: m.enc(frontier=l, set=[], graph=g0))
    if end is None:
        return None
    r = m.step(m.enc(frontier=[], set=[], graph=g0))
    if r and r[:2] != ("exit", NONEV):
        return "with an empty frontier it does not end"

    def rep(F_):
        """newest last -> representation"""
        oldest_first = list(F_)
        at_front = oldest_first if fifo else oldest_first[::-1]
        return at_front if end == "front" else at_front[::-1]

    def at_end(l):
        return l[0] if end == "front" else l[-1]

    def check(es, vs, s, F_, V, mark):
        gv = gval(es, vs)
        R = rep(F_)
        v = at_end(R)
        say = "%s, frontier %s, visited %s" % (gsay(es, vs), R[:8], sorted(V)[:8])
        r = m.step(m.enc(frontier=R, set=sorted(V), graph=gv))
        if r is None:
            return None
        if r[0] == "panic":
            return "%s: it fails" % say
        try:
            F2, V2, G2 = list(m.dec(r[-1], "frontier")), set(m.dec(r[-1], "set")), r[-1][2 + m.fields["graph"].i]
        except (NoEval, IndexError, TypeError):
            return None
        if G2 != gv:
            return "%s: the graph traversed changes" % say
        rest = minus(F2, minus(F_, [v]))
        stale = mark == "pop" and v in V
        if stale:
            if r[0] == "exit" and r[1] != NONEV:
                return "%s: it yields %s again" % (say, r[1][2])
            if rest is None:
                return "%s: the frontier becomes %s" % (say, F2[:8])
            return None
        if r[0] != "exit" or r[1] != some(v):
            return "%s: it %s instead of %s" % (say, "yields %s" % (r[1][2],) if r[0] == "exit" and r[1] != NONEV else "yields nothing", v)
        if rest is None:
            return "%s: the frontier becomes %s" % (say, F2[:8])
        sc = set(succ(es, v))
        if mark == "push":
            want = [x for x in dict.fromkeys(succ(es, v)) if x not in V | {v}]
            if sorted(rest) != sorted(want):
                return "%s: after %s, %s instead of %s are added to the frontier" % (say, v, rest[:8], want[:8])
            if V2 != V | {v} | sc:
                return "%s: after %s the visited vertices are %s" % (say, v, sorted(V2)[:8])
        else:
            want = sc - V - {v}
            if not want <= set(rest) <= sc:
                return "%s: after %s, %s instead of %s are added to the frontier" % (say, v, rest[:8], sorted(want)[:8])
            if V2 != V | {v}:
                return "%s: after %s the visited vertices are %s" % (say, v, sorted(V2)[:8])
        if fifo and F2:
            d = dist(es, s)
            if d.get(at_end(F2), 0) > min(d.get(x, 0) for x in F2):
                return "%s: after %s, vertex %s is next although %s is closer to the start" % (say, v, at_end(F2), min(F2, key=lambda x: d.get(x, 0)))
        return None

    def run(mark):
        for es, vs, s in graphs_for(*m.terms(), big=2100):
            states = []
            F_, V = [s], ({s} if mark == "push" and V0 != "none" else set())
            while F_:
                states.append((list(F_), set(V)))
                v = F_.pop(0) if fifo else F_.pop()
                if mark == "pop" and v in V:
                    continue
                V.add(v)
                for w in succ(es, v):
                    if w not in V:
                        F_.append(w)
                        if mark == "push":
                            V.add(w)
            for F_, V in spread(states, 10):
                w = check(es, vs, s, F_, V, mark)
                if w:
                    return w
        for k in wide(*m.terms()):
            es = wide_graph(k)
            for F_, V in (([k], set(range(1, k + 1)) if mark == "push" else set(range(1, k))), ):
                w = check(es, (), 1, F_, V, mark)
                if w:
                    return w
        return None
    a = run("push")
    if a and (V0 != "none" or run("pop")):
        return a
    return None


# ---------------------------------------------------------------------------------------------- C20
def c20(c):
    for D, frm, fifo, word in ((BR + "BreadthFirstPathIter", BR + "bfs_path_iter_from", True, "breadth-first"),
                               (DE + "DepthFirstPathIter", DE + "dfs_iter_path_from", False, "depth-first")):
        m = Machine(c, D, "Path", ["frontier", "graph"])
        if m.body is None:
            continue
        if m.why:
            undecided(c, m, "the %s path traversal" % word)
            continue
        g, s = gself(), var("s")
        gi = m.fields["graph"].i
        r = start_state(c, m, frm, [g, s])
        if r:
            d = Deferred(c, r.where)
            d.decide("start", r.where, unwrap(m, r.ret) is LIST(e(adt(PATH, "", LIST(e(s))))) and fld(r.ret, gi) is g,
                     "the %s path traversal starts with the path of the given vertex alone" % word)

            def wit():
                for es, vs, a in graphs_for(r.ret, big=60):
                    gv = gval(es, vs)
                    v = value(r.ret, {g: gv, s: a}, GFNS)
                    if v is None or v == ("undef",):
                        continue
                    try:
                        F0, G0 = m.dec(v[0], "frontier"), v[0][2 + gi]
                    except (NoEval, IndexError, TypeError):
                        return None
                    if list(F0) != [path(a)]:
                        return "from %d it starts with the paths %s" % (a, [list(x[2]) for x in F0][:4])
                    if G0 != gv:
                        return "it does not traverse the given graph"
            d.finish(wit)
        d = Deferred(c, m.where)
        d.decide("step", m.where, any(_extends(m, pe, ue) for pe in ("front", "back") for ue in ("front", "back") if not fifo or pe != ue),
                 "a %s step yields the next path of the frontier and adds its extensions by each successor it does not contain%s" % (word, ", behind those already there" if fifo else ""))
        d.finish(lambda: _paths_witness(m, fifo))


def _extends(m, pe, ue):
    if m.rec is not None:
        return False
    F_, g = unwrap(m, m.me), m.f("graph")
    has = gt0(length(F_))
    P = T("pop", F_, pe)
    vs = fld(P, 0)
    O = T("g.out", g, idx(vs, sub(length(vs), INT(1))))
    n = length(O)
    p = T("pos", n, 7000)
    x = fld(idx(O, p), 1)
    (cond, item), b = close(n, p, [bnot(isin(x, vs)), adt(PATH, "", LIST(T("src", vs), e(x)))])
    ext = T("for", n, b, T("e", cond, item))
    rest = T("src", T("rest", F_, pe))
    want = LIST(rest, ext) if ue == "back" else None
    return want is not None and same(isv(m.ret, "Some"), has) and same(pl(m.ret, "Some", 0), P, has) and same(unwrap(m, m.out), want, has) and \
        fld(m.out, m.fields["graph"].i) is g


def _plist(l):
    return [list(x[2]) for x in l[:5]]


def long_graph(k):
    """a chain of k + 2 vertices, the last but one of which leads back to the start and to its predecessor"""
    return tuple((i, i + 1) for i in range(1, k + 2)) + ((k + 1, 1), (k + 1, k))


def _paths_witness(m, fifo):
    g0 = gval((), (1, 2))
    end = pop_end(m, [path(1), path(2)], lambda l: m.enc(frontier=l, graph=g0))
    if end is None:
        return None
    r = m.step(m.enc(frontier=[], graph=g0))
    if r and r[:2] != ("exit", NONEV):
        return "with an empty frontier it does not end"
    skip = {}

    def skipped(gv, q):
        """a path with a repeated vertex is dropped when it is taken from the frontier"""
        r = m.step(m.enc(frontier=[q], graph=gv))
        if r is None or r[0] == "panic":
            return True
        return not (r[0] == "exit" and r[1] != NONEV)
    for es, vs, s in itertools.chain(graphs_for(*m.terms(), big=130), [(wide_graph(k), (), None) for k in wide(*m.terms(), top=6000)],
                                     [(long_graph(k), (), None) for k in around(*m.terms()) if 120 < k < 5000]):
        gv = gval(es, vs)
        F_, states = [path(s)] if s is not None else [], []
        while F_ and len(states) < (40 if len(es) < 15 else 2 * len(es)):
            states.append(list(F_))
            p = F_.pop(0) if fifo else F_.pop()
            F_ += [path(*(p[2] + (w,))) for w in succ(es, p[2][-1]) if w not in p[2]]
        if s is None:
            k = len(es) - 1
            states = [[path(1, i) for i in range(2, k + 1)], [path(1, k)]] if es[1][0] == 1 else [[path(*range(1, len(es) - 1))]]
        for F_ in spread(states, 12):
            R = F_ if fifo else F_[::-1]
            R = R if end == "front" else R[::-1]
            p = R[0] if end == "front" else R[-1]
            say = "%s, frontier %s" % (gsay(es, vs), _plist(R))
            r = m.step(m.enc(frontier=R, graph=gv))
            if r is None:
                continue
            if r[0] == "panic":
                return "%s: it fails" % say
            try:
                F2, G2 = list(m.dec(r[-1], "frontier")), r[-1][2 + m.fields["graph"].i]
            except (NoEval, IndexError, TypeError):
                return None
            if r[0] != "exit" or r[1] != some(p):
                return "%s: it %s" % (say, "yields %s" % list(r[1][2][2]) if r[0] == "exit" and r[1] != NONEV else "yields nothing")
            rest = minus(F2, minus(F_, [p]))
            if rest is None or G2 != gv:
                return "%s: the frontier becomes %s" % (say, _plist(F2))
            want = [path(*(p[2] + (w,))) for w in succ(es, p[2][-1]) if w not in p[2]]
            extra = minus(rest, want)
            if extra is None:
                return "%s: the paths added are %s" % (say, _plist(rest))
            for q in extra:
                if len(set(q[2])) == len(q[2]) or skipped(gv, q) is False:
                    return "%s: the paths added are %s" % (say, _plist(rest))
            if fifo and F2:
                nx = F2[0] if end == "front" else F2[-1]
                if len(nx[2]) > min(len(x[2]) for x in F2):
                    return "%s: %s comes next although a shorter path is left" % (say, list(nx[2]))
    return None


# ---------------------------------------------------------------------------------------------- best-first searches
def sp(p, s):
    return A(SP, p, s)


def weights(es):
    """an additive cost without ties: (weights of the edges)"""
    return {x: 2 ** i * 3 for i, x in enumerate(es)}


def cost_of(es, w):
    if "const" in w:
        return lambda vs: w["const"]

    def f(vs):
        return sum(w.get((a, b), 10 ** 9) for a, b in zip(vs, vs[1:]))
    return f


def appfn(cost, fname="scorefn"):
    def app(G, t, b):
        f = G.val(t.args[0], b)
        if f != fname:
            raise NoEval("unknown function")
        p = G.val(t.args[-1], b)
        if not (isinstance(p, tuple) and p[0] == "adt" and p[1] == PATH):
            raise NoEval("score of %r" % (p,))
        return cost(p[2])
    return app


def best_reference(es, s, w, settle, limit=60, ok=None):
    """states (frontier, settled) of the specified best-first search"""
    cost = cost_of(es, w)
    F_, V, out = [sp(path(s), cost((s,)))], set(), []
    while F_ and len(out) < limit:
        out.append((list(F_), set(V)))
        it = min(F_, key=lambda x: x[3])
        F_.remove(it)
        p = it[2][2]
        if settle:
            if p[-1] in V:
                continue
            V.add(p[-1])
        for x in succ(es, p[-1]):
            q = p + (x,)
            if (not settle or x not in V) and (ok is None or ok(q)):
                F_.append(sp(path(*q), cost(q)))
    return out


def wide_best(es):
    """states of the search over a wide graph (every edge costs 1): most of the frontier left, most of it settled"""
    k = len(es) - 1
    if es[1][0] != 1:
        return [([sp(path(*range(1, k)), k - 2)], set(range(1, k - 1)))]
    return [([sp(path(1, i), 1) for i in range(2, k + 1)], {1}), ([sp(path(1, k), 1)], set(range(1, k)))]


def on_cycle(es, v):
    return any(v == w or v in dist(es, w) for w in succ(es, v))


def _items(l):
    return ["%s:%s" % ("-".join(map(str, x[2][2])), x[3]) for x in l[:5]]


def best_start(c, m, name, args, s, g, text, ov=None):
    """the search starts with the path of the start vertex, scored"""
    r = start_state(c, m, name, args, ov)
    if r is None:
        return
    fnv = [a for a in args if a.op == "arg" and a.args[0] == "scorefn"][0]
    P0 = adt(PATH, "", LIST(e(s)))
    item = adt(SP, "", P0, T("app", fnv, g, P0))
    fr = unwrap(m, r.ret)
    oks = [LIST(e(item)), LIST(e(adt("std::cmp::Reverse", "", item)))]
    d = Deferred(c, r.where)
    ok = fr in oks and fld(r.ret, m.fields["graph"].i) is g and fld(r.ret, m.fields["fn"].i) is fnv
    if "set" in m.fields:
        ok = ok and fld(r.ret, m.fields["set"].i) is EMPTY
    if "constraints" in m.fields:
        ok = ok and any(fld(r.ret, m.fields["constraints"].i) is a for a in args if a.op == "arg" and a.args[0] == "constraints")
    d.decide("start", r.where, ok, text)

    def wit():
        for es, vs, a in graphs_for(r.ret, big=60):
            gv = gval(es, vs)
            env = {g: gv, s: a, fnv: "scorefn"}
            for x in args:
                if x.op == "arg" and x.args[0] == "constraints":
                    env[x] = L(["c1", "c2"])
            v = value(r.ret, env, dict(GFNS, app=appfn(lambda vs_: 1000 + len(vs_)), partial=lambda G, t, b: True))
            if v is None or v == ("undef",):
                continue
            try:
                F0 = m.dec(v[0], "frontier")
                if list(F0) != [sp(path(a), 1001)]:
                    return "from %d it starts with %s" % (a, _items(F0))
                if v[0][2 + m.fields["graph"].i] != gv:
                    return "it does not search the given graph"
                if "set" in m.fields and not set(m.dec(v[0], "set")) <= set():
                    return "vertices are settled before the search: %s" % list(m.dec(v[0], "set"))[:5]
                if "constraints" in m.fields and not set(v[0][2 + m.fields["constraints"].i]) <= {"c1", "c2"}:
                    return "other constraints than the given ones prune the search"
            except (NoEval, IndexError, TypeError):
                return None
    d.finish(wit)


def best_step(m, st):
    """(popped item, its path's vertices, condition that the frontier is not empty, edges out of its end) for the state term st"""
    F_ = unwrap(m, st)
    fs = m.c.F.adts[m.D]["variants"][0]["fields"]
    it = T("pop", F_, "heap")
    it = fld(it, 0)
    P = fld(it, 0)
    vs = fld(P, 0)
    return F_, it, vs, gt0(length(F_)), T("g.out", fld(st, m.fields["graph"].i), idx(vs, sub(length(vs), INT(1))))


def extension(m, st, vs, O, cond):
    """segments: the scored extensions of the path vs over O under cond(x, item)"""
    n = length(O)
    p = T("pos", n, 7000)
    x = fld(idx(O, p), 1)
    q = adt(PATH, "", LIST(T("src", vs), e(x)))
    it = adt(SP, "", q, T("app", fld(st, m.fields["fn"].i), fld(st, m.fields["graph"].i), q))
    (g_, i_), b = close(n, p, [cond(x, it), adt("std::cmp::Reverse", "", it)])
    return T("for", n, b, T("e", g_, i_))


# ---------------------------------------------------------------------------------------------- C22
def c22(c):
    from rules.commands import c22cmd
    m = Machine(c, BE + "BestFirstIter", "ScoredPath", ["frontier", "set", "graph", "fn"])
    g, s, f = gself(), var("s"), var("scorefn")
    if m.body is not None and m.why:
        undecided(c, m, "the best-first search")
    elif m.body is not None:
        best_start(c, m, BE + "best_iter_from", [g, f, s], s, g, "the search starts with the scored path of the start vertex alone, nothing settled")
        d = Deferred(c, m.where)
        d.decide("step", m.where, _settles_on_pop(m), "the best path of the frontier is taken; it settles its last vertex and is extended by every edge to a vertex not settled, unless its last vertex was settled before")
        d.finish(lambda: _best_witness(m))
    _astar(c)
    r = c.run(AS + "zero_heuristic")
    if r:
        c.decide("cost", r.where, r.ret is INT(0), "the heuristic without information is 0", understood(r.ret))
    p = var("path", {"k": "adt", "p": PATH})
    r = c.run(AS + "one_weighted_edge", args=lambda ip: [g, p])
    if r:
        d = Deferred(c, r.where)
        n = length(fld(p, 0))
        d.decide("cost", r.where, same(r.ret, sub(n, INT(1)), gt0(n)), "each edge counts one")

        def wit():
            for k in [1, 2, 3, 4, 7] + [x for x in around(r.ret) if 0 < x < 70000]:
                v = value(r.ret, {p: path(*range(1, k + 1)), g: gval(())})
                if v and v != (k - 1,):
                    return "the cost of a path of %d vertices is %s" % (k, "a failure" if v == ("undef",) else v[0])
            for x in ((1, 1), (1, 2, 1), (1, 2, 2), (2, 1, 3, 1, 2), (0, 1), (1, 0, 1), (2 ** 64 - 1, 1), (3, 2, 1)):
                v = value(r.ret, {p: path(*x), g: gval(())})
                if v and v != (len(x) - 1,):
                    return "the cost of the path %s is %s" % (list(x), "a failure" if v == ("undef",) else v[0])
        d.finish(wit)
    c22cmd(c)


def _settles_on_pop(m):
    if m.rec is None:
        return False
    me = [x for x in m.rec.lvs if x[3] == (m.root, ())]
    if len(m.rec.lvs) != 1 or len(me) != 1 or me[0][1] is not m.me:
        return False
    lv, _, stp, _ = me[0]
    F_, it, vs, has, O = best_step(m, lv)
    V = fld(lv, m.fields["set"].i)
    last = idx(vs, sub(length(vs), INT(1)))
    new = band(has, bnot(isin(last, V)))
    leave = bor(*[g for _, g in m.rec.exits])
    if not same(leave, bor(bnot(has), new)):
        return False
    rest = T("rest", F_, "heap")
    V2 = LIST(T("src", V), e(last))
    ext = extension(m, lv, vs, O, lambda x, i: bnot(isin(x, V2)))
    if not (same(isv(m.ret, "Some"), has, leave) and same(pl(m.ret, "Some", 0), it, new)):
        return False
    if not same(unwrap(m, m.out), LIST(T("src", rest), ext), new):
        return False
    if not same(fld(m.out, m.fields["set"].i), V2, new):
        return False
    if unwrap(m, stp) is not rest:
        return False
    Vs = fld(stp, m.fields["set"].i)
    if Vs is not V and Vs is not V2:
        return False
    return all(fld(t, m.fields[k].i) is fld(lv, m.fields[k].i) for t in (m.out, stp) for k in ("graph", "fn"))


def _best_witness(m):
    r = m.step(m.enc(frontier=[], set=[], graph=gval(()), fn="scorefn"))
    if r and r[:2] != ("exit", NONEV):
        return "with an empty frontier it does not end"
    ks = [{"const": k} for k in sorted({x + d for x in ints(*m.terms()) for d in (-1, 0, 1) if x > 5 and x + d < 2 ** 63})[:12]]
    for es, vs, s in itertools.chain(graphs_for(*m.terms(), big=510), [(wide_graph(k), (), None) for k in wide(*m.terms(), top=6000)],
                                     [(long_graph(k), (), None) for k in around(*m.terms()) if 500 < k < 5000]):
        gv = gval(es, vs)
        for w in [weights(es), weights(es[::-1]), {x: 5 if i % 2 else 0 for i, x in enumerate(es)}] + ks if len(es) < 15 else ({x: 1 for x in es},):
            cost = cost_of(es, w)
            fns = {"app": appfn(cost)}
            for F_, V in spread(best_reference(es, s, w, True, 60 if len(es) < 15 else 2 * len(es)), 10) if s is not None else wide_best(es):
                R = F_[::-1]
                say = "%s with costs %s, frontier %s, settled %s" % (gsay(es, vs), list(w.values())[:6], _items(R), sorted(V)[:6])
                r = m.step(m.enc(frontier=R, set=sorted(V), graph=gv, fn="scorefn"), fns)
                if r is None:
                    continue
                if r[0] == "panic":
                    return "%s: it fails" % say
                try:
                    F2, V2, G2 = list(m.dec(r[-1], "frontier")), set(m.dec(r[-1], "set")), r[-1][2 + m.fields["graph"].i]
                except (NoEval, IndexError, TypeError):
                    return None
                if G2 != gv or r[-1][2 + m.fields["fn"].i] != "scorefn":
                    return "%s: the graph or the cost function changes" % say
                lo = min(x[3] for x in F_)
                # which element was taken: any of the cheapest
                why = None
                for it in [x for x in F_ if x[3] == lo]:
                    why = _best_ok(es, it, F_, V, F2, V2, r, cost)
                    if why is None:
                        break
                if why:
                    return "%s: %s" % (say, why)
    return None


def _best_ok(es, it, F_, V, F2, V2, r, cost):
    p = it[2][2]
    v = p[-1]
    rest = minus(F2, minus(F_, [it]))
    got = "it yields %s" % (_items([r[1][2]])[0] if r[1] != NONEV else "the end") if r[0] == "exit" else "it yields nothing"
    if v in V:
        if r[0] == "exit" and not (r[1] == NONEV and len(F_) == 1):
            return got + " although the last vertex was settled before"
        if rest is None or any(x[2][2][-1] not in V for x in rest):
            return "the frontier becomes %s" % _items(F2)
        return None if V2 == V else "the settled vertices become %s" % sorted(V2)[:6]
    if r[0] != "exit" or r[1] != some(it):
        return got + " instead of the cheapest path %s" % _items([it])[0]
    if rest is None:
        return "the frontier becomes %s" % _items(F2)
    want = [sp(path(*(p + (x,))), cost(p + (x,))) for x in dict.fromkeys(succ(es, v)) if x not in V and x != v]
    allowed = [sp(path(*(p + (x,))), cost(p + (x,))) for x in succ(es, v)]
    if any(x not in rest for x in want) or any(x not in allowed for x in rest):
        return "after %s, %s instead of %s are added to the frontier" % (_items([it])[0], _items(rest), _items(want))
    if not V2 <= V | {v}:
        return "vertices %s are settled before the best path to them is known" % sorted(V2 - V - {v})[:6]
    if not V <= V2 or v not in V2 and on_cycle(es, v):
        return "vertex %s is not settled" % v
    return None


def _astar(c):
    g, G_, H, s, t = gself(), var("g"), var("h"), var("start"), var("end")
    calls = []

    def best(ip, a, call):
        fn = ip.deep(ip.deref(a[1]))
        calls.append((ip.deep(ip.deref(a[0])), fn, ip.deep(ip.deref(a[2]))))
        return T("iter", LIST(T("src", T("best", *calls[-1]))))
    r = c.run(AS + "shortest_path", ov=dict(graph_atoms(), **{BE + "best_iter_from": best}), args=lambda ip: [g, G_, H, s, t])
    if r is None:
        return
    search_call(c, r, calls, g, G_, H, s, "best")
    d = Deferred(c, r.where)
    if len(calls) != 1:
        c.unk("search", r.where, "the search makes one best-first traversal")
        return
    B = T("best", *calls[0])
    n = length(B)
    p = T("pos", n, 7000)
    vs = fld(fld(idx(B, p), 0), 0)
    cond, b = close(n, p, [band(gt0(length(vs)), eq(idx(vs, sub(length(vs), INT(1))), t))])
    want = exists(n, b, cond[0])
    d.decide("search", r.where, same(isv(r.ret, "Some"), want) and same(pl(r.ret, "Some", 0), idx(B, T("fpos", n, b, cond[0])), want),
             "the first path of the traversal that ends at the end vertex is returned, and nothing only if there is none")

    def wit():
        lists = [[], [(1,)], [(1,), (1, 2)], [(1,), (1, 3), (1, 2)], [(1,), (1, 2), (1, 2, 5), (1, 2, 3), (1, 2, 3, 4)]]
        lists += [[(1,)] + [(1, i) for i in range(2, k + 3)] for k in around(r.ret) if 2 < k < 20100]
        lists += [[tuple(range(1, i + 1)) for i in range(1, k + 2)] for k in around(r.ret) if 2 < k < 200]
        for l in lists:
            L_ = L(sp(path(*x), 10 * i) for i, x in enumerate(l))
            for a in (1, 2, 3, 4, 9) + ((len(l) + 1, len(l), len(l) - 1) if len(l) > 5 else ()):
                v = value(r.ret, {B: L_, s: 1, t: a, g: gval(())})
                if v is None:
                    continue
                w = [x for x in L_ if x[2][2][-1] == a]
                if v == ("undef",) or v[0] != (some(w[0]) if w else NONEV):
                    return "when the traversal yields %s, the path returned to %d is %s" % (
                        _items(L_), a, "a failure" if v == ("undef",) else "nothing" if v[0] == NONEV else _items([v[0][2]])[0])
    d.finish(wit)


def search_call(c, r, calls, g, G_, H, s, what):
    """the traversal is made over the given graph, from the start, with cost g + h"""
    if not calls:
        c.unk("search", r.where, "the search is a best-first traversal")
        return
    dg, p = var("dg"), var("p", {"k": "adt", "p": PATH})
    for cl in calls:
        c.decide("search", r.where, same(cl[0], g), "the given graph is searched", understood(cl[0]))
        d = Deferred(c, r.where)
        d.decide("search", r.where, same(cl[-1], s), "the search starts at the start vertex")
        d.finish(lambda x=cl[-1]: start_witness(x, s))
        if cl[1].op in ("closure", "fn"):
            sc = r.ip.deep(r.ip.apply(cl[1], [dg, p]))
            want = add(T("app", G_, dg, p), T("app", H, dg, p))
            d = Deferred(c, r.where)
            d.decide("cost", r.where, same(sc, want), "paths are compared by cost plus heuristic of the path")
            d.finish(lambda sc=sc, want=want: cost_witness(sc, want, T("app", G_, dg, p), T("app", H, dg, p)))
        else:
            c.unk("cost", r.where, "the cost function of the search")


def start_witness(x, s):
    ks = [1, 0, 2, 3, 2 ** 64 - 1] + around(x)
    for k in ks:
        for t in ks:
            v = value(x, {s: k, var("end"): t})
            if v and v != (k,):
                return "for the start vertex %d and the end vertex %d it starts at %s" % (k, t, v[0])


def cost_witness(sc, want, gt, ht):
    """a cost and a heuristic whose sum is not what the paths are compared by"""
    ks = sorted({0, 1, 2, 3, 5, -1, -4, 1000, -2 ** 31, 2 ** 40} | set(around(sc)))
    for a in ks:
        for b in ks:
            if -2 ** 63 <= a + b < 2 ** 63 and -2 ** 63 <= min(a, b) and max(a, b) < 2 ** 63:
                v = value(sc, {gt: a, ht: b})
                if v and v != (a + b,):
                    return "for the cost %d and the heuristic %d it is %s" % (a, b, "a failure" if v == ("undef",) else v[0])
    return None


# ---------------------------------------------------------------------------------------------- C23
def catoms():
    K = "gc_core::constraint::constraint::Constraint"
    return {K + "::check_partial": lambda ip, a, call: atom(T("partial", ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1])))),
            K + "::check_complete": lambda ip, a, call: atom(T("complete", ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))))}


def c23(c):
    m = Machine(c, BC + "ConstrainedBestFirstIter", "ScoredPath", ["frontier", "graph", "fn", "constraints"], catoms())
    g, s, f, cs = gself(), var("s"), var("scorefn"), var("constraints")
    if m.body is not None and m.why:
        undecided(c, m, "the constrained search")
    elif m.body is not None:
        best_start(c, m, BC + "constrained_best_iter_from", [g, f, cs, s], s, g, "the search starts with the scored path of the start vertex alone and the given constraints", catoms())
        d = Deferred(c, m.where)
        d.decide("step", m.where, _prunes(m), "the best path of the frontier is yielded and extended by every edge whose extension passes the partial check of every constraint")
        d.finish(lambda: _constrained_witness(m))
    _cstar(c)


def _prunes(m):
    if m.rec is not None:
        return False
    me = m.me
    F_, it, vs, has, O = best_step(m, me)
    C = fld(me, m.fields["constraints"].i)
    k = length(C)

    def cond(x, i):
        q = T("pos", k, 7010)
        (rej,), b = close(k, q, [bnot(atom(T("partial", idx(C, q), i)))])
        return bnot(exists(k, b, rej))
    ext = extension(m, me, vs, O, cond)
    return same(isv(m.ret, "Some"), has) and same(pl(m.ret, "Some", 0), it, has) and \
        same(unwrap(m, m.out), LIST(T("src", T("rest", F_, "heap")), ext), has) and \
        all(fld(m.out, m.fields[r].i) is fld(me, m.fields[r].i) for r in ("graph", "fn", "constraints"))


def _constrained_witness(m):
    r = m.step(m.enc(frontier=[], graph=gval(()), fn="scorefn", constraints=[]))
    if r and r[:2] != ("exit", NONEV):
        return "with an empty frontier it does not end"
    for (es, vs, s), sign in itertools.chain(((x, k) for k in (0, 1) for x in graphs_for(*m.terms(), big=310 if not k else 0)),
                                             [((wide_graph(k), (), None), 0) for k in wide(*m.terms(), top=6000)],
                                             [((long_graph(k), (), None), 0) for k in around(*m.terms()) if 300 < k < 5000]):
        gv = gval(es, vs)
        big = len(es) > 15
        w = weights(es) if not big else {x: 1 for x in es}
        if sign:
            w = {x: -y for x, y in w.items()}
        cost = cost_of(es, w)
        vall = sorted(set(vs) | {v for x in es for v in x})
        # a constraint k rejects every path that contains vertex k
        for cs in ([], [999]) if big else ([], [99], vall[-1:], [99] + vall[1:2], vall[1:3] + [98], vall[-1:] + [99, 98]):
            def passes(k, vs_):
                return k not in vs_
            fns = {"app": appfn(cost), "partial": lambda G, t, b: passes(_c(G.val(t.args[0], b)), G.val(t.args[1], b)[2][2]),
                   "complete": lambda G, t, b: passes(_c(G.val(t.args[0], b)), G.val(t.args[1], b)[2][2])}
            for F_, _ in spread(best_reference(es, s, w, False, 14 if not big else len(es) + 3, lambda q: all(passes(k, q) for k in cs)), 8) if s is not None else wide_best(es):
                R = F_[::-1]
                say = "%s, frontier %s, constraints excluding %s" % (gsay(es, vs), _items(R), cs or "nothing")
                r = m.step(m.enc(frontier=R, graph=gv, fn="scorefn", constraints=[A("cst", k) for k in cs]), fns)
                if r is None:
                    continue
                if r[0] == "panic":
                    return "%s: it fails" % say
                try:
                    F2 = list(m.dec(r[-1], "frontier"))
                    same_ = r[-1][2 + m.fields["graph"].i] == gv and r[-1][2 + m.fields["fn"].i] == "scorefn" and \
                        [x[2] for x in r[-1][2 + m.fields["constraints"].i]] == cs
                except (NoEval, IndexError, TypeError):
                    return None
                if not same_:
                    return "%s: the graph, the cost function or the constraints change" % say
                lo = min(x[3] for x in F_)
                why = None
                for it in [x for x in F_ if x[3] == lo]:
                    p = it[2][2]
                    rest = minus(F2, minus(F_, [it]))
                    alle = [sp(path(*(p + (x,))), cost(p + (x,))) for x in succ(es, p[-1])]
                    want = [x for x in alle if all(passes(k, x[2][2]) for k in cs)]
                    why = None
                    if r[0] != "exit" or r[1] != some(it):
                        why = "it does not yield the cheapest path %s" % _items([it])[0]
                    elif rest is None:
                        why = "the frontier becomes %s" % _items(F2)
                    elif any(x not in rest for x in want) or any(x not in alle for x in rest):
                        why = "after %s, %s instead of %s are added to the frontier" % (_items([it])[0], _items(rest), _items(want))
                    if why is None:
                        break
                if why:
                    return "%s: %s" % (say, why)
    return None


def _c(v):
    if isinstance(v, tuple) and v[:2] == ("adt", "cst"):
        return v[2]
    raise NoEval("constraint")


def _cstar(c):
    g, G_, H, s, t, cs = gself(), var("g"), var("h"), var("start"), var("end"), var("constraints")
    calls, passed = [], []

    def best(ip, a, call):
        x = [ip.deep(ip.deref(y)) for y in a]
        calls.append((x[0], x[1], x[3]))
        passed.append(x[2])
        return T("iter", LIST(T("src", T("best", *calls[-1]))))
    ov = dict(graph_atoms(), **{BC + "constrained_best_iter_from": best})
    ov.update(catoms())
    r = c.run(AS + "constrained_shortest_path", ov=ov, args=lambda ip: [g, G_, H, s, t, cs])
    if r is None:
        return
    search_call(c, r, calls, g, G_, H, s, "best")
    if len(calls) != 1:
        c.unk("search", r.where, "the search makes one best-first traversal")
        return
    d = Deferred(c, r.where)
    d.decide("prune", r.where, passed[0] is cs, "the search prunes with the given constraints")

    def wit0():
        for l in ([], [1], [1, 2], [1, 2, 3]) + tuple(list(range(k)) for k in around(passed[0]) if 3 < k < 500):
            v = value(passed[0], {cs: L(A("cst", k) for k in l)})
            if v and v != ("undef",) and isinstance(v[0], L) and not set(v[0]) <= {A("cst", k) for k in l}:
                return "constraints that were not given prune the search"
    d.finish(wit0)
    B = T("best", *calls[0])
    n, k = length(B), length(cs)
    p = T("pos", n, 7000)
    q = T("pos", k, 7001)
    it = idx(B, p)
    vs = fld(fld(it, 0), 0)
    (rej,), b1 = close(k, q, [bnot(atom(T("complete", idx(cs, q), it)))])
    (cond,), b = close(n, p, [band(gt0(length(vs)), eq(idx(vs, sub(length(vs), INT(1))), t), bnot(exists(k, b1, rej)))])
    want = exists(n, b, cond)
    d = Deferred(c, r.where)
    d.decide("search", r.where, same(isv(r.ret, "Some"), want) and same(pl(r.ret, "Some", 0), idx(B, T("fpos", n, b, cond)), want),
             "the first path of the traversal that ends at the end vertex and passes every constraint is returned, and nothing only if there is none")

    def wit():
        lists = [[], [(1,)], [(1,), (1, 2)], [(1,), (1, 3), (1, 2), (1, 3, 2), (1, 3, 4, 2)], [(1,), (1, 2), (1, 2, 5), (1, 2, 3), (1, 2, 3, 4), (1, 5, 3), (1, 5, 4)]]
        lists += [[(1,) * i + (2,) for i in range(1, j + 2)] for j in around(r.ret) if 2 < j < 100]
        lists += [[(1,), (1, 2), (1, 2, 1), (1, 2, 1, 2), (1, 2, 1, 2, 1)], [(1,), (1, 2), (1, 3), (1, 1), (1, 2, 2), (1, 3, 1)]]
        csets = [[], [1], [1, 99], [99, 1], [1002], [1003], [1004], [99, 1003], [3], [2], [5, 3], [99, 5], [3, 99], [4, 5], [99, 98, 3], [3, 99, 98, 97], [99, 3, 97, 96], [3] + list(range(90, 98)), list(range(90, 98)) + [3]] + [list(range(100, 100 + j)) + [3] for j in around(r.ret) if 2 < j < 60]
        # a constraint below 1000 excludes a vertex, one above asks for a length
        holds = lambda k_, vs_: len(vs_) >= k_ - 1000 if k_ > 1000 else k_ not in vs_
        fns = {"complete": lambda G, t_, b_: holds(_c(G.val(t_.args[0], b_)), G.val(t_.args[1], b_)[2][2])}
        fns["partial"] = lambda G, t_, b_: True
        for l in lists:
            L_ = L(sp(path(*x), 10 * i) for i, x in enumerate(l))
            for kk in csets:
                for a in (1, 2, 3, 4, 9):
                    v = value(r.ret, {B: L_, s: 1, t: a, g: gval(()), cs: L(A("cst", x) for x in kk)}, fns)
                    if v is None:
                        continue
                    w = [x for x in L_ if x[2][2][-1] == a and all(holds(k_, x[2][2]) for k_ in kk)]
                    if v == ("undef",) or v[0] != (some(w[0]) if w else NONEV):
                        return "when the traversal yields %s, the path returned to %d with constraints excluding (above 1000: longer than) %s is %s" % (
                            _items(L_), a, kk or "nothing", "a failure" if v == ("undef",) else "nothing" if v[0] == NONEV else _items([v[0][2]])[0])
    d.finish(wit)


# ---------------------------------------------------------------------------------------------- C29
CYC = CI + "Cycle"


def canon(vs):
    i = vs.index(min(vs))
    return vs[i:] + vs[:i]


def cyc_of(p):
    """the cycle closed by the last vertex of a path, None when it closes none"""
    for i in range(len(p) - 2, -1, -1):
        if p[i] == p[-1]:
            return canon(p[i:-1])
    return None


def c29(c):
    a = c.F.adts.get(CYC)
    if a is None or len(a["variants"][0]["fields"]) != 1:
        c.unk("shape", CYC, "a cycle is not a list of vertices")
        return
    m = Machine(c, CI + "CycleIter", "Path", ["frontier", "set", "graph"])
    g = gself()
    if m.body is not None and m.why:
        undecided(c, m, "the enumeration of cycles")
    elif m.body is not None:
        r = start_state(c, m, CI + "cycle_iter", [g])
        if r:
            V = T("g.vertices", g)
            n = length(V)
            p = T("pos", n, 7000)
            one = lambda x: adt(PATH, "", LIST(e(x)))
            (cond, item), b = close(n, p, [bnot(gt0(length(T("g.in", g, idx(V, p))))), one(idx(V, p))])
            want = LIST(T("for", n, b, T("e", cond, item)), T("e", band(bnot(exists(n, b, cond)), gt0(n)), one(idx(V, INT(0)))))
            d = Deferred(c, r.where)
            d.decide("start", r.where, same(unwrap(m, r.ret), want) and fld(r.ret, m.fields["set"].i) is EMPTY and fld(r.ret, m.fields["graph"].i) is g,
                     "the enumeration starts at every vertex without inbound edge, or at some vertex if there is none")

            def wit():
                for es, vs, _ in list(graphs_for(r.ret, big=60)) + [((), (), 0), ((), (3, 4), 3), (((1, 2), (3, 4), (4, 3)), (7,), 1)]:
                    gv = gval(es, vs)
                    v = value(r.ret, {g: gv}, GFNS)
                    if v is None:
                        continue
                    if v == ("undef",):
                        return "%s: it fails" % gsay(es, vs)
                    try:
                        F0, R0 = m.dec(v[0], "frontier"), m.dec(v[0], "set")
                        st = {x[2][0] for x in F0 if len(x[2]) == 1}
                    except (NoEval, IndexError, TypeError):
                        return None
                    al = set(adjacency(gv))
                    need = {x for x in al if not any(b_ == x for _, b_ in es)}
                    if any(len(x[2]) != 1 for x in F0) or not st <= al or not need <= st or bool(al) != bool(st):
                        return "%s: it starts with the paths %s" % (gsay(es, vs), _plist(F0))
                    if R0 or v[0][2 + m.fields["graph"].i] != gv:
                        return "%s: cycles are taken as returned at the start, or another graph is searched" % gsay(es, vs)
            d.finish(wit)
        d = Deferred(c, m.where)
        d.decide("step", m.where, _cycle_step(m), "a path whose last vertex closes a cycle yields that cycle in canonical rotation unless it was yielded before; any other path is extended by every successor")
        d.finish(lambda: _cycles_witness(m))
    me = var("cycle", {"k": "adt", "p": CYC})
    vs = var("vs")

    def check(name, args, want, ref, text):
        r = c.run(CYC + "::" + name, ov=graph_atoms(), args=lambda ip: args)
        if r is None:
            return
        got = r.ip.tolist(r.ret) if r.ret.op == "iter" else r.ret
        d = Deferred(c, r.where)
        ok = any(same(got, w) for w in want)
        d.decide("cycle", r.where, ok, text)

        def wit():
            base = [(1,), (2, 1), (1, 2), (3, 1, 2), (2, 3, 1), (1, 3, 2), (5, 9, 4, 7), (7, 5, 9, 4)]
            if args[0] is vs:
                base += [(), (1, 1), (2, 1, 2), (1, 2, 3, 1), (4, 4, 1)]
            for k in around(got):
                if 1 < k < 400:
                    base += [tuple(range(k, 0, -1)), tuple(range(1, k + 1)), tuple(range(2, k + 1)) + (1,)]
                if 3 < k < 2 ** 63:
                    base += [(k, k + 1), (k + 1, k), (k, 1), (1, k)]
            for x in base:
                v = value(got, {me: A(CYC, L(x)), vs: L(x)})
                w = ref(x)
                if v and (v == ("undef",) or v[0] != w):
                    return "for the vertices %s it is %s" % (list(x)[:8], "a failure" if v == ("undef",) else _show(v[0]))
        d.finish(wit)
    C = fld(me, 0)
    n = length(C)
    p = T("pos", n, 7000)
    (tupi, val), b = close(n, p, [T("tup", p, idx(C, p)), idx(C, p)])
    K = LIST(T("for", n, b, e(val)))
    check("canonical", [me], [adt(CYC, "", T("rotl", C, fld(T(o, LIST(T("for", n, b, e(tupi))), K2), 0))) for o in ("argmin", "argmin_last") for K2 in (K, LIST(T("src", C)), C)],
          lambda x: A(CYC, L(canon(x))), "the canonical rotation starts at the smallest vertex")
    check("is_canonical", [me], [x for l in (LIST(T("src", C)), C) for x in (band(gt0(n), eq(T("minof", l), idx(C, INT(0)))),)], lambda x: x[0] == min(x), "a cycle is canonical exactly when it starts at its smallest vertex")
    nv = length(vs)
    okv = band(gt0(sub(nv, INT(1))), eq(nv, T("setlen", vs)))
    check("from_vertices", [vs], [phi([(okv, SOME(adt(CYC, "", vs))), (bnot(okv), NONE)])], lambda x: NONEV if len(x) < 2 or len(set(x)) < len(x) else some(A(CYC, L(x))),
          "a cycle is made of at least two vertices, none repeated")
    check("as_path", [me], [adt(PATH, "", C)], lambda x: path(*x), "the path of a cycle has its vertices")
    check("len", [me], [n], len, "the length of a cycle counts each vertex once")
    check("iter", [me], [LIST(T("src", C)), C], lambda x: L(x), "a cycle lists its vertices in order")


def _show(v):
    if isinstance(v, tuple) and not isinstance(v, L) and v and v[0] == "adt":
        return "nothing" if v[1] == "None" else _show(v[2])
    return str(list(v)) if isinstance(v, L) else str(v)


def _cycle_step(m):
    if m.rec is None or len(m.rec.lvs) != 1:
        return False
    lv, init, stp, rp = m.rec.lvs[0]
    if rp != (m.root, ()) or init is not m.me:
        return False
    for pe in ("back", "front"):
        F_ = unwrap(m, lv)
        has = gt0(length(F_))
        P = T("pop", F_, pe)
        vs = fld(P, 0)
        ln = length(vs)
        last = idx(vs, sub(ln, INT(1)))
        k = sub(ln, INT(1))
        p = T("pos", k, 7000)
        (hit,), b = close(k, p, [eq(last, idx(vs, sub(sub(k, INT(1)), p)))])
        closed = band(gt0(ln), exists(k, b, hit))
        f = T("fpos", k, b, hit)
        cl = add(f, INT(1))                          # length of the cycle
        off = sub(sub(k, INT(1)), f)
        q = T("pos", cl, 7001)
        (val, ti), b2 = close(cl, q, [idx(vs, add(off, q)), T("tup", q, idx(vs, add(off, q)))])
        cyc_ = LIST(T("for", cl, b2, e(val)))
        K = cyc_
        cys = [adt(CYC, "", T("rotl", cyc_, fld(T(o, LIST(T("for", cl, b2, e(ti))), K), 0))) for o in ("argmin", "argmin_last")]
        R = fld(lv, m.fields["set"].i)
        for cy in cys:
            new = band(has, closed, bnot(isin(cy, R)))
            leave = bor(*[g_ for _, g_ in m.rec.exits])
            if not same(leave, bor(bnot(has), new)):
                continue
            if not (same(isv(m.ret, "Some"), has, leave) and same(pl(m.ret, "Some", 0), cy, new)):
                continue
            if not (same(unwrap(m, m.out), T("rest", F_, pe), new) and same(fld(m.out, m.fields["set"].i), LIST(T("src", R), e(cy)), new)):
                continue
            O = T("g.out", fld(lv, m.fields["graph"].i), last)
            n = length(O)
            p3 = T("pos", n, 7000)
            (item,), b3 = close(n, p3, [adt(PATH, "", LIST(T("src", vs), e(fld(idx(O, p3), 1))))])
            rest = T("rest", F_, pe)
            stay = band(has, bnot(leave))
            if not (same(unwrap(m, stp), rest, band(stay, closed)) and same(unwrap(m, stp), LIST(T("src", rest), T("for", n, b3, e(item))), band(stay, bnot(closed), gt0(ln)))):
                continue
            if fld(stp, m.fields["set"].i) is R and all(fld(t, m.fields["graph"].i) is fld(lv, m.fields["graph"].i) for t in (m.out, stp)):
                return True
    return False


def _cycles_witness(m):
    r = m.step(m.enc(frontier=[], set=[], graph=gval(())))
    if r and r[:2] != ("exit", NONEV):
        return "with an empty frontier it does not end"
    cyc_ = lambda x: A(CYC, L(x))
    star = lambda k: tuple((1, i) for i in range(2, k + 1)) + tuple((i, 1) for i in range(2, k + 1))
    for es, vs, s in itertools.chain(graphs_for(*m.terms(), big=210), [(star(k), (), None) for k in wide(*m.terms(), top=6000)]):
        gv = gval(es, vs)
        F_, R, states = [path(s)] if s is not None else [], [], []
        while F_ and len(states) < (40 if len(es) < 15 else 2 * len(es)):
            states.append((list(F_), list(R)))
            p = F_.pop()[2]
            cy = cyc_of(p)
            if cy is None:
                F_ += [path(*(p + (x,))) for x in succ(es, p[-1])]
            elif cyc_(cy) not in R:
                R.append(cyc_(cy))
        if s is None:
            k = len(es) // 2 + 1
            states = [([path(1, k, 1)], [cyc_((1, i)) for i in range(2, k)]), ([path(1, k, 1)], [cyc_((1, i)) for i in range(2, k + 1)]),
                      ([path(1, i) for i in range(2, k + 1)], [])]
        for F_, R in spread(states, 14):
            for ends in ((F_, R), (F_[::-1], R[::-1])):
                F1, R1 = ends
                say = "%s, frontier %s, yielded %s" % (gsay(es, vs), _plist(F1), [list(x[2]) for x in R1][:4])
                r = m.step(m.enc(frontier=F1, set=R1, graph=gv))
                if r is None:
                    continue
                if r[0] == "panic":
                    return "%s: it fails" % say
                try:
                    F2, R2, G2 = list(m.dec(r[-1], "frontier")), set(m.dec(r[-1], "set")), r[-1][2 + m.fields["graph"].i]
                except (NoEval, IndexError, TypeError):
                    return None
                if G2 != gv:
                    return "%s: the graph changes" % say
                why = None
                for it in F1:
                    why = _cycle_ok(es, it, F1, set(R1), F2, R2, r, cyc_)
                    if why is None:
                        break
                if why:
                    it = F1[-1]
                    return "%s: %s" % (say, _cycle_ok(es, it, F1, set(R1), F2, R2, r, cyc_) or why)
    return None


def _cycle_ok(es, it, F_, R, F2, R2, r, cyc_):
    p = it[2]
    cy = cyc_of(p)
    got = ("it yields %s" % list(r[1][2][2]) if r[1] != NONEV else "it ends") if r[0] == "exit" else "it yields nothing"
    rest = minus(F2, minus(F_, [it]))
    if cy is not None and cyc_(cy) not in R:
        if r[0] != "exit" or r[1] != some(cyc_(cy)):
            return got + " instead of the cycle %s" % list(cy)
        if R2 != R | {cyc_(cy)}:
            return "the cycle yielded is not recorded"
        # what is left of the frontier: nothing lost; extensions of a closed path are never needed
        return None if rest is not None else "the frontier becomes %s" % _plist(F2)
    if r[0] == "exit" and not (r[1] == NONEV and not F2):
        return got
    if R2 != R:
        return "cycles %s are recorded without being yielded" % [list(x[2]) for x in R2 - R][:3]
    if rest is None:
        return "the frontier becomes %s" % _plist(F2)
    if cy is not None:
        return None if not rest else "the path %s is extended beyond the cycle it closes" % list(p)
    want = [path(*(p + (x,))) for x in dict.fromkeys(succ(es, p[-1]))]
    if any(x not in rest for x in want) or any(x not in want for x in rest):
        return "the path %s is extended to %s instead of %s" % (list(p), _plist(rest), _plist(want))
    return None
