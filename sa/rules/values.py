"""Values: paths, commands, ordering, encapsulation."""
import itertools
import re

from base import *
from ground import *
import ground
from rules.graph import DG, E, gself, amap, lst, var, GRAPH_T

PATH = "gc_core::path::Path"
SPATH = "gc_core::path::ScoredPath"
GC = "gc_core::graph_command::GraphCommand"
PATH_T = {"k": "adt", "p": PATH}


# ---------------------------------------------------------------------------------------------- C18
def has_mut(ty):
    """the type gives mutable access to edges or vertices of a graph"""
    if not isinstance(ty, dict):
        return False
    if ty.get("k") == "ref" and ty.get("m"):
        return True
    if ty.get("k") not in ("adt", "ref") and re.search(r"&('\w+ )?mut |\b(IterMut|ValuesMut|OccupiedEntry|VacantEntry)\b", str(ty.get("s", ""))):
        return True
    if ty.get("k") == "adt" and ty["p"].split("::")[-1] in ("IterMut", "ValuesMut", "Entry", "OccupiedEntry", "VacantEntry", "Drain"):
        return True
    return any(has_mut(x) for x in (ty.get("a") or []) + ([ty["t"]] if "t" in ty else []) if isinstance(x, dict))


def c18(c):
    a = c.F.adts.get(DG)
    if a is None:
        c.bad("anchor", DG, "the directed graph type does not exist")
        return
    for f in a["variants"][0]["fields"]:
        c.decide("private-state", DG, f["vis"] != "Public" and "directed_graph" in f["vis"], "field %s of the graph is private to its module" % f["n"])
    n = 0
    for p, b in sorted(c.F.byp.items()):
        if b.d.startswith("gc_core::directed_graph") and "{closure" not in b.d and b.kind in ("AssocFn", "Fn", "fn", "assocfn"):
            n += 1
            st = b.j.get("impl_self") or {}
            if b.j.get("vis") == "Public" or b.j.get("impl_trait"):
                c.decide("no-leak", p, not has_mut(b.j.get("ret") or {}), "%s gives no mutable access to the stored adjacency" % p)
                tr = (b.j.get("impl_trait") or "")
                raw_graph(c, p, b, a)
                if tr.split("<")[0].endswith(("IndexMut", "DerefMut", "BorrowMut", "AsMut")):
                    c.bad("no-leak", p, "%s gives mutable access to the stored adjacency" % p)
            c.visited.add(p)
    c.decide("anchor", DG, n >= 10, "the operations of the graph were analysed (%d)" % n)
    for cr, u in c.F.unsafe:
        c.bad("no-unsafe", "%s %s" % (cr, u if isinstance(u, str) else u.get("span", "")), "unsafe code")
    # nothing outside the module builds or takes apart a graph other than through its operations
    for p, b in sorted(c.F.byp.items()):
        if b.d.startswith("gc_core::directed_graph"):
            continue
        if builds(b.blocks, DG):
            c.bad("private-state", p, "%s builds a graph from raw parts" % p)


def raw_graph(c, p, b, a):
    """a public function takes the adjacency as it is given"""
    kinds = {f["t"].get("p") for f in a["variants"][0]["fields"] if f["t"].get("k") == "adt"}
    ps = b.j.get("params") or []
    raw = [i for i, t in enumerate(ps) if t.get("k") == "adt" and t.get("p") in kinds]
    if not raw or b.j.get("derived"):
        return
    vs = [var("raw%d" % i, t) for i, t in enumerate(ps)]
    r = c.run(p, args=lambda ip: [ip.newroot(v, "self") if t.get("k") == "ref" else v for v, t in zip(vs, ps)])
    if r is None:
        return
    for _, v in phi_cases(r.ret):
        for x in [v] + [y for y in subterms(v) if y.op == "adt"]:
            if x.op == "adt" and x.args[0] == DG and any(y is vs[i] for y in x.args[2:] for i in raw):
                c.bad("private-state", p, "%s makes a graph of an adjacency map somebody else filled" % p)
                return


def builds(x, p):
    """the code builds a value of the type from its fields"""
    if isinstance(x, dict):
        return any(builds(y, p) for y in x.values())
    if isinstance(x, list):
        return len(x) > 2 and x[0] == "adt" and x[2] == p or any(builds(y, p) for y in x)
    return False


# ---------------------------------------------------------------------------------------------- C39
def c39(c):
    cmd = var("cmd", {"k": "adt", "p": GC})
    VS = ["AddVertex", "RemoveVertex", "AddEdge", "RemoveEdge"]
    a = c.F.adts.get(GC)
    if a is None:
        c.bad("anchor", GC, "the command type does not exist")
        return
    names = [v["n"] for v in a["variants"]]
    r = c.run(GC + "::revert", args=lambda ip: [cmd])
    opp = {"AddVertex": "RemoveVertex", "RemoveVertex": "AddVertex", "AddEdge": "RemoveEdge", "RemoveEdge": "AddEdge"}
    for v in names:
        if v not in opp:
            c.unk("revert", GC, "command %s" % v)
            continue
        nf = [len(x["fields"]) for x in a["variants"] if x["n"] == v][0]
        x = [var("x%d" % i) for i in range(nf)]
        me = adt(GC, v, *x)
        if r:
            rr = c.run(GC + "::revert", args=lambda ip: [me])
            want = adt(GC, opp[v], *x)
            d = Deferred(c, rr.where)
            d.decide("revert", rr.where, same(rr.ret, want), "revert(%s) is %s of the same operands" % (v, opp[v]))
            d.finish(lambda: revert_witness(rr, v, x, opp[v]))

        # applying a command does to the graph exactly the operation it names
        g = gself()
        ra = c.run(GC + "::apply_to", ov=graph_ops(), args=lambda ip: [me, ip.newroot(g, "g")])
        if ra:
            ops = [f for f in ra.flat() if f.ev.kind == "graphop" and f.ev.g is not FALSE]
            want = {"AddVertex": ("add_vertex", x[:1]), "RemoveVertex": ("remove_vertex", x[:1]),
                    "AddEdge": ("add_edge", [E(x[0], x[-1])]), "RemoveEdge": ("remove_edge", [E(x[0], x[-1])])}[v]
            ok = len(ops) == 1 and ops[0].ev.g is TRUE and ops[0].ev.args[0].args[0] == want[0] and list(ops[0].ev.args[1:]) == want[1]
            d = Deferred(c, ra.where)
            d.decide("apply", ra.where, ok, "applying %s performs %s with its operands, and nothing else" % (v, want[0]))
            d.finish(lambda: apply_witness(ra, g, v, x))
    # as_commands of a graph: one AddVertex per vertex and one AddEdge per edge
    g = gself()
    r = c.run(GC + "::as_commands", ov=graph_atoms(), args=lambda ip: [g])
    if r:
        L_ = aslist(r.ip.tolist(r.ret))
        vs, es = T("g.vertices", g), T("g.edges", g)
        sv = forsrc(vs, lambda x: adt(GC, "AddVertex", x))
        se = forsrc(es, lambda x: adt(GC, "AddEdge", fld(x, 0), fld(x, 1)))
        ok = set(L_.args) == {sv, se} and len(L_.args) == 2
        d = Deferred(c, r.where)
        d.decide("as-commands", r.where, ok, "the commands of a graph add every vertex and every edge, once")
        d.finish(lambda: as_commands_witness(L_, g))
        if ok:
            c.decide("as-commands", r.where, True, "order does not matter: adding an edge also adds its vertices")
    # apply_commands: every command, in order
    cs = var("cmds")

    def ap(ip, argv, call):
        ip.ev("apply", ip.deep(ip.deref(argv[0])))
        return UNIT
    r = c.run(GC + "::apply_commands", ov={GC + "::apply_to": ap}, args=lambda ip: [cs, ip.newroot(g, "g")])
    if r:
        evs = [f for f in r.flat() if f.ev.kind == "apply"]
        d = Deferred(c, r.where)
        each_in_order(d, "replay", r, evs, cs, lambda f: f.ev.args[0], "every command is applied, in order")
        d.finish(lambda: commands_witness(r, cs, g))


# graphs for the valuations: vertices and edges, in an order the map might give them
GRAPHS = [([], []), ([1], []), ([1, 2], []), ([2, 1], [(1, 2)]), ([1, 2], [(2, 1)]), ([1, 2], [(1, 2), (2, 1)]), ([1], [(1, 1)]), ([3, 1, 2], [(1, 2), (1, 3)]), ([1, 2, 3], [(1, 3), (2, 3)]),
          ([1, 2, 3], [(3, 3), (1, 2), (2, 3)]), ([4, 0, 3], [(0, 4)]), ([4, 0, 3], [(4, 0)]), ([0, 1], [(1, 0), (0, 1), (0, 0)]), ([1, 2, 3, 4], [(4, 1), (1, 2), (2, 1), (3, 4), (4, 3), (2, 2)]), ([5, 6, 7, 8, 9], [(5, 6), (6, 7), (7, 8), (8, 9), (9, 5), (5, 7)])]


def graph_after(st, x):
    """the graph after a command"""
    V, E_ = set(st[0]), set(st[1])
    k, a = x[0], tuple(x[1:])
    if k == "AddVertex":
        V.add(a[0])
    elif k == "RemoveVertex":
        V.discard(a[0])
        E_ = {y for y in E_ if a[0] not in y}
    elif k == "AddEdge":
        V |= set(a)
        E_.add(a)
    else:
        E_.discard(a)
    return V, E_


OPNAME = {"add_vertex": "AddVertex", "remove_vertex": "RemoveVertex", "add_edge": "AddEdge", "remove_edge": "RemoveEdge"}


def graph_ops():
    """queries and operations of the graph as functions of the graph, the operations recorded"""
    ov = graph_atoms()

    def mutate(nm):
        def f(ip, a, call):
            g = ip.deep(ip.deref(a[0]))
            args = [ip.deep(ip.deref(x)) for x in a[1:]]
            ip.ev("graphop", S(nm), *args)
            ip.store(a[0], T("g.set", nm, g, *args))
            return atom(T("g.res", nm, g, *args))
        return f
    for nm in OPNAME:
        ov[DG + "::" + nm] = mutate(nm)
    return ov


def operands(x):
    return tuple(x[1:]) if isinstance(x, tuple) else (x,)


def graph_fns(g, V, E_):
    """denotations of the queries for one graph"""
    def state(G, t, b):
        if t is g:
            return list(V), list(E_)
        if t.op == "g.set":
            st = state(G, t.args[1], b)
            n = graph_after(st, (OPNAME[t.args[0]],) + operands(fit(G.val(t.args[2], b))))
            return [x for x in st[0] if x in n[0]] + sorted(n[0] - set(st[0])), [x for x in st[1] if x in n[1]] + sorted(n[1] - set(st[1]))
        if t.op == "phi":
            for h, w in phi_cases(t):
                if G.bool(h, b):
                    return state(G, w, b)
        raise NoEval("graph")

    def edges(l):
        return L(A(TM.EDGE, *x) for x in l)

    def res(G, t, b):
        st = state(G, t.args[1], b)
        n = graph_after(st, (OPNAME[t.args[0]],) + operands(fit(G.val(t.args[2], b))))
        return set(st[0]) != n[0] or set(st[1]) != n[1]
    return {"g.vertices": lambda G, t, b: L(state(G, t.args[0], b)[0]), "g.edges": lambda G, t, b: edges(state(G, t.args[0], b)[1]),
            "g.out": lambda G, t, b: (lambda k: edges(x for x in state(G, t.args[0], b)[1] if x[0] == k))(G.val(t.args[1], b)),
            "g.in": lambda G, t, b: (lambda k: edges(x for x in state(G, t.args[0], b)[1] if x[1] == k))(G.val(t.args[1], b)), "g.res": res}


def fit(x):
    """operands of an operation: a vertex or the ends of an edge"""
    return ("tup",) + tuple(x[2:]) if isinstance(x, tuple) and x and x[0] == "adt" else x


def revert_witness(r, v, xs, want):
    for k in itertools.product((7, 0, 3, 18446744073709551615), repeat=len(xs)):
        try:
            got = Ground(dict(zip(xs, k))).val(r.ret)
        except (NoEval, Undef):
            continue
        if got != A(want, *k):
            return "revert of %s%s is %s" % (v, k, got[1:])
    return None


def apply_witness(r, g, v, xs):
    for V, E_ in GRAPHS:
        for k in itertools.product((1, 2, 3, 9), repeat=len(xs)):
            try:
                ops, how = ground.walk(r.events, Ground(dict(zip(xs, k)), graph_fns(g, V, E_)), {"graphop"})
            except NoEval:
                continue
            st = set(V), set(E_)
            if how != "ok":
                return "%s%s on the graph %s %s: %s" % (v, k, V, E_, how)
            for o in ops:
                st = graph_after(st, (OPNAME[o[1]],) + operands(fit(o[2])))
            if st != graph_after((V, E_), (v,) + k):
                return "%s%s turns the graph with vertices %s and edges %s into vertices %s and edges %s" % (v, k, V, E_, sorted(st[0]), sorted(st[1]))
    return None


def as_commands_witness(l, g):
    for V, E_ in GRAPHS + [(V[::-1], E_[::-1]) for V, E_ in GRAPHS]:
        try:
            got = Ground({}, graph_fns(g, V, E_)).lst(l, Bind())
        except (NoEval, Undef):
            continue
        st = set(), set()
        for x in got:
            st = graph_after(st, x[1:])
        if st != (set(V), set(E_)):
            return "for the graph with vertices %s and edges %s the commands are %s" % (V, E_, [x[1:] for x in got])
    return None


def commands_witness(r, cs, g):
    one = [("AddVertex", 1), ("RemoveVertex", 2), ("AddEdge", 1, 2), ("RemoveEdge", 1, 2), ("AddVertex", 2), ("AddEdge", 2, 1)]
    ks = [k + d for k in ints(*[x.ev.g for x in r.flat()]) for d in (-1, 0, 1, 2) if 3 < k + d < 300]
    lists = [[]] + [list(x) for n in (1, 2, 3) for x in itertools.product(one, repeat=n)] + [[one[i % 4] for i in range(n)] for n in (4, 5, 6, 7, 8)] + \
        [[one[(i + j) % 6] for i in range(n)] for n in ks for j in (0, 1, 2)]
    for l in lists:
        try:
            got, how = ground.walk(r.events, Ground({cs: L(A(*x) for x in l)}), {"apply"})
        except NoEval:
            continue
        if how != "ok":
            return "applying %s: %s" % (l, how)
        for st in (((), ()), ((1, 2), ((1, 2),)), ((1, 2), ((2, 1),))):
            a = b_ = (set(st[0]), set(st[1]))
            for x in l:
                a = graph_after(a, x)
            for x in got:
                b_ = graph_after(b_, x[1][1:])
            if a != b_:
                return "the commands %s are applied to a graph with vertices %s and edges %s as %s" % (l[:8], list(st[0]), list(st[1]), [x[1][1:] for x in got[:8]])
    return None


def each_in_order(c, rule, r, evs, cs, elem, text, tot=TRUE):
    """one event, in one loop over the whole list cs, on the element at the loop position, unconditionally"""
    ok = False
    und = len(evs) >= 1
    if len(evs) == 1 and len(evs[0].loops) == 1:
        f = evs[0]
        l = f.loops[0]
        rec = l.rec
        if rec.n is not None:
            ok = rec.n is length(cs) and elem(f) is idx(cs, rec.p) and implies(tot, band(l.g, f.ev.g)) and not rec.exits
        else:
            und = False
    c.decide(rule, r.where, ok, text, und and len(evs) == 1)


def forsrc(s, f):
    n = length(s)
    p = T("pos", n, 6000)
    (x,), b = close(n, p, [f(idx(s, p))])
    return T("for", n, b, T("e", TRUE, x))


def graph_atoms():
    """the queries of the graph as opaque collections: rules C16/C17 decide what they contain"""
    def gv(ip, a):
        return ip.deep(ip.deref(a[0]))

    def it(t):
        return T("iter", LIST(T("src", t)))
    out = {
        DG + "::vertices": lambda ip, a, c: it(T("g.vertices", gv(ip, a))),
        DG + "::edges": lambda ip, a, c: it(T("g.edges", gv(ip, a))),
        DG + "::outbound_edges": lambda ip, a, c: it(T("g.out", gv(ip, a), ip.deref(a[1]))),
        DG + "::inbound_edges": lambda ip, a, c: it(T("g.in", gv(ip, a), ip.deref(a[1]))),
        DG + "::degree_out": lambda ip, a, c: length(T("g.out", gv(ip, a), ip.deref(a[1]))),
        DG + "::degree_in": lambda ip, a, c: length(T("g.in", gv(ip, a), ip.deref(a[1]))),
        DG + "::vertex_count": lambda ip, a, c: length(T("g.vertices", gv(ip, a))),
        DG + "::edge_count": lambda ip, a, c: length(T("g.edges", gv(ip, a))),
        DG + "::is_empty": lambda ip, a, c: bnot(gt0(length(T("g.vertices", gv(ip, a))))),
        DG + "::contains_vertex": lambda ip, a, c: isin(ip.deref(a[1]), T("g.vertices", gv(ip, a))),
        DG + "::contains_edge": lambda ip, a, c: isin(ip.deep(ip.deref(a[1])), T("g.edges", gv(ip, a))),
        DG + "::head_option": lambda ip, a, c: head(T("g.vertices", gv(ip, a))),
    }
    return out


# ---------------------------------------------------------------------------------------------- C40
def edge_witness(r, ends, want):
    ks = sorted({0, 1, 2, 3, 10, 2 ** 64 - 1} | {max(0, k + d) for k in ints(r.ret) for d in (-1, 0, 1) if k < 2 ** 64 - 1})
    for p in itertools.product(ks, repeat=2):
        try:
            G = Ground(dict(zip(ends, p)))
            got = G.val(fld(r.ret, 0)), G.val(fld(r.ret, 1))
        except (NoEval, Undef):
            continue
        if got != (p[want[0]], p[want[1]]):
            return "%d, %d gives %s -> %s" % (p + got)
    return None


def c40(c):
    me = var("path", PATH_T)
    V = fld(me, 0)
    a = c.F.adts.get(PATH)
    if a is None or len(a["variants"][0]["fields"]) != 1:
        c.unk("path", PATH, "a path is not a list of vertices")
        return
    n = length(V)
    v = var("v")
    x = E(var("a"), var("b"))

    def q(name, args, want, self_=True):
        r = c.run(PATH + "::" + name, args=lambda ip: ([me] if self_ else []) + args)
        if r:
            got = r.ret
            if got.op == "iter":
                got = r.ip.tolist(got)
            ok = any(same(got, w) for w in want)
            d = Deferred(c, r.where)
            d.decide("path", r.where, ok, "Path::%s is defined by the vertex sequence" % name)
            d.finish(lambda: path_witness(name, me, args, got))
        return r
    q("empty", [], [adt(PATH, "", EMPTY)], False)
    q("from", [v], [adt(PATH, "", v)], False)
    q("is_empty", [], [bnot(gt0(n))])
    q("size", [], [n])
    q("first", [], [phi([(gt0(n), SOME(idx(V, INT(0)))), (bnot(gt0(n)), NONE)])])
    q("last", [], [phi([(gt0(n), SOME(idx(V, sub(n, INT(1))))), (bnot(gt0(n)), NONE)])])
    q("contains_vertex", [v], [isin(v, V)])
    q("to_vertex_list", [], [LIST(T("src", V))])
    m = sub(n, INT(1))
    p = T("pos", m, 6001)
    (eg, ex), b = close(m, p, [band(eq(idx(V, p), fld(x, 0)), eq(idx(V, add(p, INT(1))), fld(x, 1))),
                              E(idx(V, p), idx(V, add(p, INT(1))))])
    q("to_edge_list", [], [LIST(T("for", m, b, T("e", TRUE, ex)))])
    q("contains_edge", [x], [exists(m, b, eg)])
    q("append", [v], [adt(PATH, "", concat(LIST(T("src", V)), LIST(e(v))))])
    r = c.run(PATH + "::contains_cycle", args=lambda ip: [me])
    if r:
        got = r.ret
        ws = [pairs(V, n)]
        u = length(T("uniq", V))
        ws += [bnot(ieq(u, n)), lt(u, n), pairs_after(V, n)]
        d = Deferred(c, r.where)
        d.decide("path", r.where, any(same(got, w) for w in ws), "a path contains a cycle exactly when a vertex repeats")
        d.finish(lambda: path_witness("contains_cycle", me, [], got) or visited_witness(r, V))
    # edges: the reverse swaps the ends, a pair gives the edge from its first to its second vertex
    EDGE = "gc_core::graph::Edge"
    for b_, arg, want in ((c.F.fn(EDGE + "::reverse"), x, (1, 0)), (c.F.methods_of_trait("std::convert::From", EDGE, "from"), T("tup", var("a"), var("b")), (0, 1))):
        if b_ is None:
            continue        # a type that does not offer it cannot get it wrong: callers would not compile
        r = c.run(b_, args=lambda ip: [arg])
        ends = (var("a"), var("b"))
        d = Deferred(c, r.where)
        d.decide("edge", r.where, same(fld(r.ret, 0), ends[want[0]]) and same(fld(r.ret, 1), ends[want[1]]),
                 "%s keeps the direction it is named after" % r.where.rsplit("::", 1)[-1])
        d.finish(lambda: edge_witness(r, ends, want))
    # ordering of scored paths: by score, smaller first
    s1, s2 = var("s1", {"k": "adt", "p": SPATH}), var("s2", {"k": "adt", "p": SPATH})
    ad = c.F.adts.get(SPATH)
    if ad is None:
        c.bad("anchor", SPATH, "the scored path type does not exist")
        return
    fi = [i for i, f in enumerate(ad["variants"][0]["fields"]) if f["t"].get("k") == "prim"]
    if len(fi) == 1:
        i = fi[0]
        for tr, nm in (("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp")):
            b = c.F.methods_of_trait(tr, SPATH, nm)
            if b is None:
                c.bad("order", SPATH, "scored paths are not ordered by %s" % tr)
                continue
            if c_derived(c, b):
                c.bad("order", b.p, "derived ordering compares the paths before the scores")
                continue
            r = c.run(b, args=lambda ip: [s1, s2])
            got = r.ret if nm == "cmp" else pl(r.ret, "Some", 0)
            A_, B_ = fld(s1, i), fld(s2, i)
            if nm == "partial_cmp":
                c.decide("order", b.p, isv(r.ret, "Some") is TRUE, "any two scored paths are comparable", understood(r.ret))
            prim_order(c, b.p, got, A_, B_, s1, s2, i, len(ad["variants"][0]["fields"]))


def prim_order(c, w, got, A_, B_, s1, s2, i, nf):
    less, gr = isv(got, "Less"), isv(got, "Greater")
    d = Deferred(c, w)
    d.decide("order", w, implies(lt(A_, B_), less), "a smaller score compares as less")
    d.decide("order", w, implies(lt(B_, A_), gr), "a greater score compares as greater")
    d.decide("order", w, implies(band(le(A_, B_), le(B_, A_)), bnot(bor(less, gr))), "equal scores compare as equal")

    def wit():
        big = [k for k in around(got, top=2 ** 63)] + [2 ** 63 - 1]
        ns = [-2, -1, 0, 1, 5] + big + [-k for k in big]
        for x, y in itertools.product(ns, repeat=2):
            v = value(got, {A_: x, B_: y})
            if v and v != ("undef",) and v[0][1] != ("Less" if x < y else "Greater" if x > y else "Equal"):
                return "score %d compared with %d is %s" % (x, y, v[0][1])
        if nf != 2:
            return None
        for x, y in itertools.product([0, 1, -1] + around(got)[:8], repeat=2):
            for p, q in itertools.product([(1,), (2,), (1, 2), (1, 2, 3), (3, 2, 1), ()], repeat=2):
                a, b = [A(PATH, L(p)), x], [A(PATH, L(q)), y]
                v = value(got, {s1: A(SPATH, *(a if i else a[::-1])), s2: A(SPATH, *(b if i else b[::-1]))})
                if v and v != ("undef",) and v[0][1] != ("Less" if x < y else "Greater" if x > y else "Equal"):
                    return "%s with score %d compared with %s with score %d is %s" % (show_path(p), x, show_path(q), y, v[0][1])
    d.finish(wit)


def c_derived(c, b):
    for im in c.F.impls:
        if im.get("derived") and b.d.startswith(im["d"] + "::"):
            return True
    return False


def pairs(V, n):
    """some position holds a vertex found at an earlier position"""
    p = T("pos", n, 6002)
    q = T("pos", p, 6003)
    (g,), b = close(p, q, [eq(idx(V, q), idx(V, p))])
    inner = exists(p, b, g)
    (g2,), b2 = close(n, p, [inner])
    return exists(n, b2, g2)


def pairs_after(V, n):
    p = T("pos", n, 6002)
    k = sub(sub(n, p), INT(1))
    q = T("pos", k, 6003)
    (g,), b = close(k, q, [eq(idx(V, add(add(p, q), INT(1))), idx(V, p))])
    inner = exists(k, b, g)
    (g2,), b2 = close(n, p, [inner])
    return exists(n, b2, g2)


PVAL = [(), (1,), (1, 2), (2, 1), (1, 1), (1, 2, 3), (1, 2, 1), (3, 1, 2, 3), (2, 2, 2), (5, 4, 3, 2, 1), (1, 2, 3, 4, 5, 1), (4, 1, 2, 1, 3)]
PSPEC = {
    "empty": lambda p: (), "is_empty": lambda p: not p, "size": lambda p: len(p), "first": lambda p: some(p[0]) if p else NONEV,
    "last": lambda p: some(p[-1]) if p else NONEV, "contains_vertex": lambda p, v: v in p, "to_vertex_list": lambda p: p,
    "to_edge_list": lambda p: tuple(zip(p, p[1:])), "contains_edge": lambda p, a, b: (a, b) in list(zip(p, p[1:])), "append": lambda p, v: p + (v,),
    "contains_cycle": lambda p: len(set(p)) < len(p),
}


def path_witness(name, me, args, got):
    ops = []
    for a in args:
        ops += list(a.args[2:]) if a.op == "adt" else [a]
    ks = around(got)
    ps = PVAL + [(1, k, 2) for k in ks] + [tuple(range(1, k + 1)) for k in ks if 5 < k < 300] + [tuple(range(1, k + 1)) + (1,) for k in ks if 5 < k < 300]
    ps += [tuple(range(1, k + 3)) for k in ks if 300 <= k < (1100 if name == "contains_cycle" else 20100)]
    for p in ps:
        if name == "from":
            v = value(got, {ops[0]: L(p)})
            if v and v != ("undef",) and v[0] != A(PATH, L(p)):
                return "the path of %s is %s" % (list(p), v[0][2:])
            continue
        for vals in itertools.product(list(dict.fromkeys(p[:3] + p[-2:] + (1, 2, 9))), repeat=len(ops)):
            env = dict(zip(ops, vals))
            env[me] = A(PATH, L(p))
            try:
                x = Ground(env).val(got)
            except NoEval:
                continue
            except Undef:
                return "%s(%s) fails on the path %s" % (name, ", ".join(map(str, vals)), show_path(p))
            if isinstance(x, tuple) and x and x[0] == "adt" and x[1] == PATH:
                x = x[2]
            if isinstance(x, L):
                x = tuple(y[2:] if isinstance(y, tuple) and y and y[0] == "adt" else y for y in x)
            if x != PSPEC[name](p, *vals):
                return "%s(%s) of the path %s is %s" % (name, ", ".join(map(str, vals)), show_path(p), x)
    return None


def show_path(p):
    return str(list(p[:8])) + ("… of %d vertices" % len(p) if len(p) > 8 else "")


def visited_witness(r, V):
    """the walk over the vertices that remembers those seen: one step from a set of distinct vertices"""
    for f in r.flat():
        rec = f.ev.rec
        if rec is None or rec.n is not length(V) or len(rec.lvs) != 1 or not rec.exits:
            continue
        lv, init, step, _ = rec.lvs[0]
        x = idx(V, rec.p)
        for k in [0, 1, 2, 3] + [j for j in around(step, *[g for _, g in rec.exits]) if j < 5000]:
            for el in (k + 1,):
                env = {lv: L(range(1, k + 1)), x: el, rec.p: k, V: L(range(1, k + 2))}
                v = value(step, env)
                if v and v != ("undef",) and isinstance(v[0], L) and all(truth(g, env) is False for _, g in rec.exits) and set(v[0]) != set(range(1, k + 2)):
                    return "after %d distinct vertices the next one is not remembered" % k
    return None
