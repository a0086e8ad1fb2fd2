"""Rules C21 (frontiers), C30 (cycle queries), C31 (hamiltonian paths), C33 (DAG token), C37 (attribute mappings)."""
import itertools

from base import *
from ground import *
from rules.commands import gval, GRAPHS
from rules.values import graph_atoms, each_in_order, gself, var, builds, DG, PATH

CY = "gc_core::algorithm::cycle::"
HAM = "gc_core::algorithm::hamiltonian::"
CYC = "gc_core::iter::iter_cycle::Cycle"
TOPO = "gc_core::algorithm::topo_sort::"
DS = "gc_core::iter::iter_datastructure::"
AM = "gc_core::attribute::mapping::AttributeMapping"
AC = "gc_core::attribute::attribute_command::AttributeCommand"


# ---------------------------------------------------------------------------------------------- C30
def c30(c):
    g = gself()
    C = T("cycles", g)
    ov = dict(graph_atoms())
    ov["gc_core::iter::iter_cycle::cycle_iter"] = lambda ip, a, call: T("iter", LIST(T("src", T("cycles", ip.deep(ip.deref(a[0]))))))
    n = length(C)
    k = var("n", {"k": "prim", "s": "usize"})
    p = T("pos", n, 7000)
    ln = length(fld(idx(C, p), 0))
    (lens, ham), b = close(n, p, [ln, eq(ln, length(T("g.vertices", g)))])
    LN = LIST(T("for", n, b, e(lens)))
    LC = LIST(T("src", C))
    has = gt0(n)

    def opt(cond, v):
        return phi([(cond, SOME(v)), (bnot(cond), NONE)])
    first = opt(has, idx(C, INT(0)))
    spec = {
        "first": ([first], lambda cs, N, q: some(cs[0]) if cs else NONEV),
        "count": ([n], lambda cs, N, q: len(cs)),
        "take": ([T("take", LC, k), T("take", C, k)], lambda cs, N, q: L(cs[:q])),
        "take_all": ([LC, C], lambda cs, N, q: L(cs)),
        "girth": ([opt(has, T("minof", LN))], lambda cs, N, q: some(min(len(x[2]) for x in cs)) if cs else NONEV),
        "shortest": ([opt(has, T(o, x, LN)) for o in ("argmin", "argmin_last") for x in (LC, C)], None),
        "longest": ([opt(has, T(o, x, LN)) for o in ("argmax", "argmax_first") for x in (LC, C)], None),
        "hamiltonian": ([opt(exists(n, b, ham), idx(C, T("fpos", n, b, ham)))], None),
    }
    for name, (terms, fn) in spec.items():
        args = [g] + ([k] if name == "take" else [])
        r = c.run(CY + name, ov=ov, args=lambda ip: list(args))
        if r is None:
            continue
        got = r.ip.tolist(r.ret) if r.ret.op == "iter" else r.ret
        d = Deferred(c, r.where)
        ok = any(same(got, t) for t in terms) or name == "take" and _is_take(got, C, k)
        d.decide("cycles", r.where, ok, "%s is the %s of the enumerated cycles" % (name, name.replace("_", " ")))
        d.finish(lambda: cycle_witness(name, got, g, C, k, fn))


def _is_take(t, C, k):
    """the first nmin(k, len) elements"""
    if t.op != "list" or len(t.args) != 1 or t.args[0].op != "for":
        return False
    n, b, s = t.args[0].args
    return n.op == "nmin" and set(n.args) == {k, length(C)} and s is e(idx(C, b))


def cyc(*vs):
    return A(CYC, L(vs))


def real_cycles(es):
    """the simple cycles of a graph, each from its smallest vertex"""
    return [p for s in sorted({a for a, _ in es}) for p in all_simple([x for x in es if x[0] >= s and x[1] >= s], s) if (p[-1], s) in es]


def found_cycles(es, s):
    """.. in the order in which the specified depth-first search from s finds them"""
    from machine import succ
    st, out = [(s,)], []
    while st:
        p = st.pop()
        if p[-1] in p[:-1]:
            x = canon_(p[p.index(p[-1]):-1])
            if x not in out:
                out.append(x)
        else:
            st += [p + (v,) for v in succ(es, p[-1])]
    return out


def canon_(vs):
    i = vs.index(min(vs))
    return tuple(vs[i:] + vs[:i])


def cycle_witness(name, got, g, C, k, fn):
    return _cycle_lists(name, got, g, C, k, fn) or _cycle_graphs(name, got, g, C, k, fn)


def _cycle_graphs(name, got, g, C, k, fn):
    """.. on graphs with the cycles they have"""
    from machine import GFNS, SMALL, gsay, tiny
    more = [(((1, 2), (2, 1)), (5,)), (((1, 2), (2, 3), (3, 1), (3, 4)), ()), (((5, 1), (1, 2), (2, 1)), ()), (((1, 2), (2, 3), (3, 1), (1, 3), (3, 3)), ())]
    # more cycles than edges, the shortest and the longest of them last
    k5 = tuple((a, b) for a in range(2, 7) for b in range(2, 7) if a != b)
    ring = tuple((i, i + 1) for i in range(7, 13)) + ((13, 1),)
    dense = [(((1, 7),) + ring + ((1, 2),) + k5, ()), (((1, 1), (1, 2)) + k5, ()), (((1, 7), (7, 1), (1, 2)) + k5, ()), (((1, 7), (7, 7), (1, 2)) + k5[::-1], ())]
    for es, vs in SMALL + more + tiny() + dense:
        gv = gval(es, vs)
        N = len(set(vs) | {v for x in es for v in x})
        cs = L(cyc(*x) for x in (real_cycles(es) if len(es) < 15 else found_cycles(es, 1)))
        for order in (cs, L(cs[::-1])) if len(es) < 15 else (cs,):
            for q in ((0, 1, 2, 3) if name == "take" else (0,)):
                v = value(got, {C: order, k: q, g: gv}, GFNS)
                if v is None:
                    continue
                why = _cycle_wrong(name, fn, order, N, q, v)
                if why:
                    return "%s%s: the cycles are %s and it is %s" % (gsay(es, vs), " and the vertices %s" % list(vs) if vs else "", [list(x[2]) for x in order][:6], _show(v))
    return None


def _cycle_wrong(name, fn, cs, N, q, v):
    if v == ("undef",):
        return True
    v = v[0]
    if fn is not None:
        return v != fn(cs, N, q)
    if name == "hamiltonian":
        okv = [x for x in cs if len(x[2]) == N]
    else:
        m = (min if name == "shortest" else max)([len(x[2]) for x in cs], default=0)
        okv = [x for x in cs if len(x[2]) == m]
    return (v == NONEV) != (not okv) or v != NONEV and v[2] not in okv


def _cycle_lists(name, got, g, C, k, fn):
    from machine import edge
    lists = [[], [cyc(1)], [cyc(1, 2)], [cyc(1, 2, 3), cyc(1, 2)], [cyc(1, 2), cyc(1, 2, 3)], [cyc(5, 6), cyc(1, 2), cyc(1, 2, 3, 4), cyc(9), cyc(3, 4, 5, 6)],
             [cyc(1, 2, 3, 4, 5), cyc(1, 2, 3), cyc(4, 5, 6), cyc(7), cyc(8), cyc(1, 2, 3, 4, 9)]]
    ks = [x for x in around(got) if x < 3000]
    lists += [[cyc(*range(1, x + 1))] for x in ks if x > 0]
    lists += [[cyc(x, x + 1) for x in range(j)] + last for j in ks if j > 2 for last in ([cyc(1)], [cyc(1, 2, 3)])]
    lists += [[cyc(*range(1, x + 2)), cyc(*range(1, x + 1))] for x in ks if x > 1]
    for cs in lists:
        cs = L(cs)
        least = len({v for x in cs for v in x[2]})
        for N in sorted({x for x in {0, 1, 2, 3, 4, 5, 7} | {len(x[2]) for x in cs} if x > least} | {least}):
            # a graph with these cycles: their vertices and edges, and as many more vertices
            al = list(dict.fromkeys(v for x in cs for v in x[2]))
            al = L(al + [max(al, default=0) + 1 + i for i in range(N - least)])
            on = L(dict.fromkeys(edge(a, b) for x in cs for a, b in zip(x[2], x[2][1:] + x[2][:1])))
            if g in got.free and len(cs) > 1 and (least > 8 or sorted(canon_(x[2]) for x in cs) != sorted(real_cycles([(x[2], x[3]) for x in on]))):
                continue
            for q in ((0, 1, 2, 3, 100) if name == "take" else (0,)):
                env = {C: cs, k: q, T("g.vertices", g): al, T("g.edges", g): on, g: A(DG, {v: L(x for x in on if v in (x[2], x[3])) for v in al})}
                v = value(got, env)
                if v is None:
                    continue
                say = "when the cycles are %s%s it is %s" % ([list(x[2]) for x in cs][:6], " and n is %d" % q if name == "take" else
                                                            " and the graph has %d vertices" % N, _show(v))
                if _cycle_wrong(name, fn, cs, N, q, v):
                    return say
    return None


def _show(v):
    if v == ("undef",):
        return "a panic"
    v = v[0]
    if isinstance(v, tuple) and not isinstance(v, L) and v and v[0] == "adt":
        return "nothing" if v[1] == "None" else _show((v[2],)) if v[1] == "Some" else _show((v[2],))
    if isinstance(v, L):
        return "[" + ", ".join(_show((x,)) for x in v[:8]) + "]"
    return str(v)


# ---------------------------------------------------------------------------------------------- C31
def c31(c):
    g = gself()
    ov = dict(graph_atoms())

    def paths(ip, a, call):
        return T("iter", LIST(T("src", T("simple", ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))))))
    for f in ("gc_core::iter::iter_depth::dfs_iter_path_from", "gc_core::iter::iter_breadth::bfs_path_iter_from"):
        ov[f] = paths
    V = T("g.vertices", g)
    n = length(V)
    p = T("pos", n, 7000)
    S_ = T("simple", g, idx(V, p))
    m = length(S_)
    q = T("pos", m, 7001)
    full = eq(length(fld(idx(S_, q), 0)), n)
    (cond, item), b = close(m, q, [full, idx(S_, q)])
    inner = T("for", m, b, T("e", cond, item))
    (seg, anyc), b2 = close(n, p, [inner, exists(m, b, cond)])
    ALL = LIST(T("for", n, b2, seg))
    some_ = exists(n, b2, anyc)
    r = c.run(HAM + "iter_hamiltonian_paths", ov=ov, args=lambda ip: [g])
    if r:
        got = r.ip.deep(r.ip.tolist(r.ret))
        d = Deferred(c, r.where)
        d.decide("hamiltonian", r.where, same(aslist(got), ALL), "the hamiltonian paths are the simple paths from any vertex that have as many vertices as the graph")
        d.finish(lambda: ham_witness("iter", got, g))
    r = c.run(HAM + "first_path", ov=ov, args=lambda ip: [g])
    if r:
        d = Deferred(c, r.where)
        d.decide("hamiltonian", r.where, isv(r.ret, "Some") is some_ or same(isv(r.ret, "Some"), some_), "a path is found exactly when there is a hamiltonian path")
        d.decide("hamiltonian", r.where, _first_ok(r.ret, g), "the path found is one of the hamiltonian paths")
        d.finish(lambda: ham_witness("first", r.ret, g))
    r = c.run(HAM + "is_hamiltonian", ov=ov, args=lambda ip: [g])
    if r:
        d = Deferred(c, r.where)
        d.decide("hamiltonian", r.where, same(r.ret, bor(bnot(gt0(n)), some_)), "a graph is hamiltonian exactly when it is empty or has a hamiltonian path")
        d.finish(lambda: ham_witness("is", r.ret, g))
    P = var("path", {"k": "adt", "p": PATH})
    ov2 = dict(ov)
    ov2[PATH + "::contains_cycle"] = lambda ip, a, call: atom(T("repeats", ip.deep(ip.deref(a[0]))))
    r = c.run(HAM + "is_path_hamiltonian", ov=ov2, args=lambda ip: [P, g])
    if r:
        d = Deferred(c, r.where)
        want = band(bnot(atom(T("repeats", P))), eq(length(fld(P, 0)), n))
        d.decide("hamiltonian", r.where, same(r.ret, want), "a path is hamiltonian exactly when no vertex repeats and it has as many vertices as the graph")

        def wit():
            for vs in [(), (1,), (1, 2), (1, 1), (2, 1, 3), (1, 2, 1), (1, 2, 3, 4)] + [tuple(range(1, k + 1)) for k in around(r.ret) if 4 < k < 300]:
                for N in {0, 1, 2, 3, 4, len(vs), len(set(vs))}:
                    env = {P: A(PATH, L(vs)), T("g.vertices", g): L(range(1, N + 1)), g: A(DG, {v: L() for v in range(1, N + 1)}), T("repeats", P): len(set(vs)) < len(vs)}
                    v = value(r.ret, env)
                    if v and v != ("undef",) and v[0] != (len(set(vs)) == len(vs) == N):
                        return "the path %s in a graph of %d vertices: %s" % (list(vs)[:8], N, v[0])
        d.finish(wit)


def _first_ok(t, g):
    """payload of Some: a simple path from a vertex, chosen among those with as many vertices as the graph"""
    V = T("g.vertices", g)
    for gd, v in phi_cases(t):
        if isv(v, "Some") is FALSE:
            continue
        x = pl(v, "Some", 0)
        if x.op != "idx" or x.args[0].op != "simple" or x.args[0].args[0] is not g:
            return False
        S_, at = x.args
        s = S_.args[1]
        if s.op != "idx" or s.args[0] is not V or at.op != "fpos" or at.args[0] is not length(S_):
            return False
        cond = subst(at.args[2], {at.args[1]: T("pos", length(S_), 7002)})
        if not same(cond, eq(length(fld(idx(S_, T("pos", length(S_), 7002)), 0)), length(V))):
            return False
    return True


def all_simple(es, s):
    out = []

    def go(p):
        out.append(p)
        for a, b in es:
            if a == p[-1] and b not in p:
                go(p + (b,))
    go((s,))
    return out


HG = [((), ()), ((), (7,)), ((), (7, 8)), (((1, 2),), ()), (((1, 2), (2, 1), (3, 3)), ()), (((1, 2), (2, 3), (3, 1)), ()), (((1, 2), (2, 3), (2, 4)), ()),
      (((3, 2), (2, 1)), ()), (((1, 2), (2, 3), (3, 4), (1, 3)), (9,)), (((1, 1),), ()), (((5, 1), (1, 3), (3, 2), (2, 5), (5, 2)), ())]


def ham_witness(kind, got, g):
    from machine import GFNS, tiny
    extra = [k for k in around(got) if 4 < k < 120]
    for es, vs in HG + tiny() + [(tuple((i, i + 1) for i in range(1, k)), ()) for k in extra] + [(tuple((i + 1, i) for i in range(1, k + 2)), ()) for k in extra]:
        V = sorted(set(vs) | {v for e_ in es for v in e_})
        fns = dict(GFNS, simple=lambda G, t, b: L(A(PATH, L(p)) for p in all_simple(es, _vid(G.val(t.args[1], b)))))
        env = {g: gval(es, vs), T("g.vertices", g): L(V), T("g.edges", g): L(A("gc_core::graph::Edge", *e_) for e_ in es)}
        v = value(got, env, fns)
        if v is None:
            continue
        want = [p for s in V for p in all_simple(es, s) if len(p) == len(V)]
        say = "for the edges %s and vertices %s" % (list(es)[:8], V[:12])
        if v == ("undef",):
            return "%s it fails" % say
        v = v[0]
        if kind == "is":
            if v != (not V or bool(want)):
                return "%s it is %s" % (say, v)
        elif kind == "first":
            if (v == NONEV) != (not want) or v != NONEV and tuple(v[2][2]) not in want:
                return "%s it is %s" % (say, _show((v,)))
        elif sorted(tuple(x[2]) for x in v) != sorted(want):
            return "%s they are %s" % (say, [list(x[2]) for x in v][:6])
    return None


def _vid(v):
    return v[2] if isinstance(v, tuple) and v and v[0] == "adt" else v


# ---------------------------------------------------------------------------------------------- C33
def _mentions_type(t, p):
    if not isinstance(t, dict):
        return False
    if t.get("k") == "adt" and t.get("p") == p:
        return True
    return any(_mentions_type(x, p) for x in t.values() if isinstance(x, dict)) or \
        any(_mentions_type(y, p) for x in t.values() if isinstance(x, list) for y in x)


def c33(c):
    D = TOPO + "DAG"
    a = c.F.adts.get(D)
    if a is None:
        c.bad("anchor", D, "the type of acyclic graphs does not exist")
        return
    fs = a["variants"][0]["fields"]
    c.decide("private", D, bool(fs) and all(f["vis"] != "Public" for f in fs), "the token cannot be built outside its module: its fields are private")
    c.decide("private", D, all("topo_sort" in f["vis"] for f in fs if f["vis"] != "Public"), "the fields of the token are visible in its module only")
    for f in fs:
        if _mentions_type(f["t"], DG):
            c.decide("frozen", D, f["t"].get("k") != "ref" or not f["t"].get("m"), "the token only shares its graph: no mutable reference is kept")
            if f["t"].get("k") == "adt" and f["t"]["p"] != DG:
                c.unk("frozen", D, "the token keeps its graph in %s" % f["t"]["p"])
    ov = dict(graph_atoms())

    def isdag(ip, a, call):
        return atom(T("acyclic", ip.deep(ip.deref(a[0]))))

    def sort(ip, a, call):
        return T("topo", ip.deep(ip.deref(a[0])))
    ov[TOPO + "is_dag"] = isdag
    ov[TOPO + "topological_sort"] = sort
    n = 0
    for p, b in sorted(c.F.byp.items()):
        if not builds(b.blocks, D) or b.kind == "Ctor":
            continue
        if b.j.get("impl_trait") and b.j["impl_trait"].split("<")[0].endswith(("Clone", "Copy")):
            continue        # a copy of an existing token
        n += 1
        if "{closure" in b.d:
            host = c.F.byp.get(b.p.split("::{closure")[0])
            if host is None:
                c.unk("only-if-acyclic", p, "a token built in a closure")
                continue
            b = host
        r = c.run(b, ov=ov)
        where_ = r.where
        bad = unk = False
        found = False
        for gd, v in guarded(r.ret):
            for x in subterms(v):
                if x.op == "adt" and x.args[0] == D:
                    found = True
                    gs = [y for y in x.args[2:] if isinstance(y, Term)]
                    ok = any(implies(gd, atom(T("acyclic", y))) or implies(gd, isv(T("topo", y), "Some")) for y in gs)
                    if not ok:
                        if understood(gd):
                            bad = True
                        else:
                            unk = True
        if not found:
            c.unk("only-if-acyclic", where_, "the token built here is not the result of the function")
        elif bad:
            c.bad("only-if-acyclic", where_, "a token is built for a graph that was not found to be acyclic")
        elif unk:
            c.unk("only-if-acyclic", where_, "a token is only built for a graph found to be acyclic")
        else:
            c.ok("only-if-acyclic", where_, "a token is only built for a graph found to be acyclic")
    c.decide("anchor", D, n >= 1, "the constructions of the token were found (%d)" % n)
    g = gself()
    r = c.run(TOPO + "try_dag", ov=ov, args=lambda ip: [g])
    if r:
        cond = isv(r.ret, "Some")
        c.decide("every-acyclic", r.where, any(same(cond, x) for x in (atom(T("acyclic", g)), isv(T("topo", g), "Some"))), "a token is given for every graph found to be acyclic",
                 understood(cond))
        for gd, v in guarded(r.ret):
            for t in subterms(v):
                if t.op == "adt" and t.args[0] == D:
                    c.decide("same-graph", r.where, any(y is g for y in t.args[2:]), "the token refers to the graph that was checked", understood(t))
    r = c.run(TOPO + "is_dag", ov={TOPO + "topological_sort": sort}, args=lambda ip: [g])
    if r:
        c.decide("check", r.where, same(r.ret, isv(T("topo", g), "Some")), "a graph counts as acyclic exactly when it has a topological order", understood(r.ret))
    t = var("dag", {"k": "adt", "p": D})
    r = c.run(TOPO + "DAG::as_graph", args=lambda ip: [t])
    if r:
        c.decide("same-graph", r.where, r.ret in [fld(t, i) for i in range(len(fs))], "the graph of a token is the one it was given for", understood(r.ret))
    # every operation that documents an acyclic input asks for the token
    for m, f in (("shortest_path", "dag_shortest_path"), ("shortest_path", "dag_shortest_paths"), ("longest_path", "dag_longest_path"), ("longest_path", "dag_longest_paths")):
        b = c.fn("gc_core::algorithm::%s::%s" % (m, f))
        if b is not None:
            ps = b.j.get("params") or []
            c.decide("asked-for", b.p, any(_mentions_type(x, D) for x in ps) and not any(_mentions_type(x, DG) and not _fnty(x) for x in ps),
                     "%s only accepts a graph through a token" % f)
    for p, b in sorted(c.F.byp.items()):
        if b.j.get("impl_self", {}).get("p") == D and b.kind != "Ctor" and "{closure" not in b.d:
            ret = b.j.get("ret") or {}
            c.decide("frozen", p, not _mut_in(ret), "%s gives no mutable access to the graph of a token" % p)


def _fnty(t):
    return t.get("k") in ("param", "fnptr", "dyn", "opaque", "closure")


def _mut_in(t):
    if t.get("k") == "ref" and t.get("m"):
        return True
    return any(_mut_in(x) for x in t.values() if isinstance(x, dict)) or any(_mut_in(y) for x in t.values() if isinstance(x, list) for y in x if isinstance(y, dict))


def guarded(t, g=TRUE):
    """alternatives of a value, also below constructors"""
    if t.op == "phi":
        for g2, v in phi_cases(t):
            for r in guarded(v, band(g, g2)):
                yield r
    elif t.op == "adt" and any(isinstance(x, Term) and x.op == "phi" for x in t.args[2:]):
        for x in t.args[2:]:
            for r in guarded(x, g):
                yield r
    else:
        yield g, t


# ---------------------------------------------------------------------------------------------- C37
def c37(c):
    a = c.F.adts.get(AM)
    if a is None:
        c.bad("anchor", AM, "the mapping type does not exist")
        return
    fs = a["variants"][0]["fields"]
    mi = [i for i, f in enumerate(fs) if f["t"].get("k") == "adt" and f["t"]["p"].split("::")[-1] in ("HashMap", "BTreeMap")]
    if len(mi) != 1:
        c.unk("mapping", AM, "the mapping is not kept in one map")
        return
    mi = mi[0]
    for f in fs:
        c.decide("private", AM, f["vis"] != "Public", "field %s of a mapping is private" % f["n"])
    me = var("mapping", {"k": "adt", "p": AM})
    M = fld(me, mi)
    k, v = var("k"), var("v")

    def step(name, args):
        return c.run(AM + "::" + name, args=lambda ip: [ip.newroot(me, "m")] + args)
    maps = [{}, {1: 10}, {2: 20}, {1: 10, 2: 20}, {1: 11, 2: 20, 3: 30}]

    def maps_for(t):
        return maps + [{i: i for i in range(1, n + 1)} for n in around(t) if 3 < n < 70000]

    def env(m, kk, vv):
        fsv = ["n"] * len(fs)
        fsv[mi] = dict(m)
        return {me: A(AM, *fsv), k: kk, v: vv}
    r = step("add", [k, v])
    if r:
        out = fld(c.out(r, 1), mi)
        d = Deferred(c, r.where)
        d.decide("add", r.where, out is T("list", *(LIST(T("src", M), e(T("tup", k, v))).args)) or same(out, LIST(T("src", M), e(T("tup", k, v)))),
                 "adding a value sets the entry of its key and no other")
        d.decide("add", r.where, r.ret is TRUE, "adding a value succeeds")

        def wit():
            for m in maps_for(out):
                for kk in (1, 2, 5, len(m) + 1):
                    for vv in (7, 10, 20):
                        x = value(out, env(m, kk, vv))
                        if x == ("undef",):
                            return "adding %d to %s fails" % (kk, str(m)[:60])
                        if x and as_map(x[0]) != dict(m, **{}) | {kk: vv}:
                            return "after adding the value %d for %d to %s the mapping is %s" % (vv, kk, str(m)[:60], str(as_map(x[0]))[:60])
                        y = value(r.ret, env(m, kk, vv))
                        if y and y[0] is not True:
                            return "adding the value %d for %d to %s is reported as a failure" % (vv, kk, str(m)[:60])
        d.finish(lambda: _safe(wit))
    r = step("remove", [k])
    if r:
        out = fld(c.out(r, 1), mi)
        d = Deferred(c, r.where)
        d.decide("remove", r.where, same(out, T("mremove", M, k)), "removing a value removes the entry of its key and no other")
        d.decide("remove", r.where, same(r.ret, isv(T("get", M, k), "Some")), "removal tells whether there was a value")

        def wit():
            for m in maps_for(out):
                for kk in (1, 2, 5, len(m) + 1):
                    x = value(out, env(m, kk, 0))
                    want = {i: j for i, j in m.items() if i != kk}
                    if x == ("undef",):
                        return "removing %d from %s fails" % (kk, str(m)[:60])
                    if x and as_map(x[0]) != want:
                        return "after removing %d from %s the mapping is %s" % (kk, str(m)[:60], str(as_map(x[0]))[:60])
                    y = value(r.ret, env(m, kk, 0))
                    if y and y != ("undef",) and y[0] != (kk in m):
                        return "removing %d from %s returns %s" % (kk, str(m)[:60], y[0])
        d.finish(lambda: _safe(wit))
    for name, extra in (("as_closure", []), ("as_closure_with_defaults", [var("default")])):
        b = c.fn(AM + "::" + name)
        if b is None:
            continue
        ip = Interp(c.F, {})
        f = ip.deep(ip.run_body(b, [me] + extra))
        c.visited |= ip.visited | {b.p}
        got = ip.deep(ip.apply(f, [k])) if f.op in ("closure", "fn") else None
        if got is None:
            c.unk("lookup", b.p, "the closure returned by %s" % name)
            continue
        gt = T("get", M, k)
        want = gt if not extra else phi([(isv(gt, "Some"), pl(gt, "Some", 0)), (isv(gt, "None"), extra[0])])
        d = Deferred(c, b.p)
        ok = got is want or same(got, want) or (not extra and same(isv(got, "Some"), isv(gt, "Some")) and same(pl(got, "Some", 0), pl(gt, "Some", 0), isv(gt, "Some")))
        d.decide("lookup", b.p, ok, "looking up a key gives its value, or %s if there is none" % ("the default" if extra else "nothing"))

        def wit():
            for m in maps_for(got):
                for kk in (1, 2, 5, len(m) + 1):
                    en = env(m, kk, 0)
                    if extra:
                        en[extra[0]] = 99
                    x = value(got, en)
                    want = m.get(kk, 99) if extra else some(m[kk]) if kk in m else NONEV
                    if x and (x == ("undef",) or x[0] != want):
                        return "looking up %d in %s gives %s" % (kk, str(m)[:60], x[0] if x != ("undef",) else "a panic")
        d.finish(wit)
    for nm in ("new", "no_vertex_mapping", "no_edge_mapping"):
        p = AM + "::new" if nm == "new" else "gc_core::attribute::mapping::" + nm
        b = c.fn(p)
        if b is None:
            continue
        r = c.run(b)
        c.decide("empty", r.where, fld(r.ret, mi) is EMPTY, "a new mapping has no entry", understood(fld(r.ret, mi)))
    # commands
    x = [var("x0"), var("x1")]
    y = var("y")
    E_ = "gc_core::graph::Edge"
    SPEC = {
        ("vertex", "AddVertexAttr"): ("add", [x[0], y]), ("vertex", "RemoveVertexAttr"): ("remove", [x[0]]),
        ("edge", "AddEdgeAttr"): ("add", [adt(E_, "", *x), y]), ("edge", "RemoveEdgeAttr"): ("remove", [adt(E_, "", *x)]),
    }
    ad = c.F.adts.get(AC)
    if ad is None:
        c.bad("anchor", AC, "the attribute commands do not exist")
        return

    def mk(nm):
        def f(ip, argv, call):
            ip.ev("op", S(nm), *[ip.deep(ip.deref(z)) for z in argv[1:]])
            return atom(T("opres", nm))
        return f
    ov = {b.p: mk(nm) for nm in ("add", "remove") for b in [c.F.fn(AM + "::" + nm)] if b}
    for kind in ("vertex", "edge"):
        for vr in ad["variants"]:
            nf = len(vr["fields"])
            vals = {"AddVertexAttr": [x[0], y], "RemoveVertexAttr": [x[0]], "AddEdgeAttr": x + [y], "RemoveEdgeAttr": x}.get(vr["n"])
            if vals is None or len(vals) != nf:
                c.unk("command", AC, "command %s" % vr["n"])
                continue
            r = c.run(AC + "::apply_%s_command_to" % kind, ov=ov, args=lambda ip: [adt(AC, vr["n"], *vals), ip.newroot(me, "m")])
            if r is None:
                continue
            ops = [f for f in r.flat() if f.ev.kind == "op" and f.ev.g is not FALSE]
            want = SPEC.get((kind, vr["n"]))
            out = c.out(r, 2)
            if want is None:
                ok = not ops and out is me
                tx = "%s has no effect on a mapping of %s attributes" % (vr["n"], kind)
            else:
                ok = len(ops) == 1 and ops[0].ev.g is TRUE and ops[0].ev.args[0].args[0] == want[0] and list(ops[0].ev.args[1:]) == want[1] and out is me
                tx = "%s performs %s with its operands on the mapping, and nothing else" % (vr["n"], want[0])
            if ok:
                c.ok("command", r.where, tx)
                continue
            # without the operations of the mapping as primitives: the resulting map
            r2 = c.run(AC + "::apply_%s_command_to" % kind, args=lambda ip: [adt(AC, vr["n"], *vals), ip.newroot(me, "m")])
            out2 = fld(c.out(r2, 2), mi)
            d = Deferred(c, r.where)
            d.unk("command", r.where, tx)

            def wit():
                keys = [1, 2, 3] if kind == "vertex" else [A(E_, 1, 2), A(E_, 2, 1), A(E_, 2, 2), A(E_, 1, 1)]
                for sz in range(3):
                    for ks in itertools.combinations(keys, sz):
                        m = {kk: 10 + i for i, kk in enumerate(ks)}
                        for p_, q_ in ((1, 2), (2, 1), (1, 1), (3, 1)):
                            en = env(m, 0, 0)
                            en.update({x[0]: p_, x[1]: q_, y: 7})
                            kk = p_ if kind == "vertex" else A(E_, p_, q_)
                            w = dict(m)
                            if want and want[0] == "add":
                                w[kk] = 7
                            elif want:
                                w.pop(kk, None)
                            z = value(out2, en)
                            if z and (z == ("undef",) or as_map(z[0]) != w):
                                return "%s%s on %s gives %s" % (vr["n"], (p_, q_) if nf - ("Add" in vr["n"]) > 1 else (p_,), m, "a failure" if z == ("undef",) else as_map(z[0]))
            d.finish(lambda: _safe(wit))
        cs = var("cmds")

        def ap(ip, argv, call):
            ip.ev("apply", ip.deep(ip.deref(argv[0])))
            return atom(T("opres", "apply"))
        fb = c.F.fn(AC + "::apply_%s_command_to" % kind)
        if fb is None:
            continue
        r = c.run(AC + "::apply_%s_commands_to" % kind, ov={fb.p: ap}, args=lambda ip: [cs, ip.newroot(me, "m")])
        if r:
            evs = [f for f in r.flat() if f.ev.kind == "apply"]
            d = Deferred(c, r.where)
            each_in_order(d, "commands", r, evs, cs, lambda f: f.ev.args[0], "every attribute command of a list is applied, in order")
            d.finish(lambda: order_witness(r, cs))


def order_witness(r, cs):
    """a list of commands that is not applied one by one, in order"""
    for n in list(range(8)) + [k + d for k in ints(*[x.ev.g for x in r.flat()]) for d in (0, 1) if 7 < k + d < 300]:
        for done in (True, False):
            l = [A("AddVertexAttribute" if done else "RemoveVertexAttribute", i, 100 + i) for i in range(n)]
            try:
                got, how = walk(r.events, Ground({cs: L(l)}, {"opres": lambda G, t, b: done}), {"apply"})
            except (NoEval, Undef):
                continue
            if how != "ok":
                return "applying %d commands: %s" % (n, how)
            if [x[1] for x in got] != l:
                return "of %d commands%s, %d are applied%s" % (n, "" if done else " that change nothing", len(got), "" if len(got) != n else ", in another order")
    return None


def _safe(f):
    try:
        return f()
    except NoEval:
        return None


# ---------------------------------------------------------------------------------------------- C21
def fill(push, me, x, st0, n):
    """the frontier after the insertions 0, 1 .. n-1, each of which adds its element to the one list in it"""
    one = Ground({me: st0, x: 7}).val(push)
    two = Ground({me: one, x: 8}).val(push)

    def put(v, w):
        if isinstance(v, L):
            if len(v) != 1 or len(w) != 2:
                raise NoEval("frontier")
            a, b = str(v[0]), str([y for y in w if y != v[0]][0])
            if a.replace("7", "8") != b:
                raise NoEval("frontier")
            return L((sub7(v[0], i) for i in (range(n) if w[0] == v[0] else range(n - 1, -1, -1))))
        if isinstance(v, tuple):
            return tuple(put(p, q) for p, q in zip(v, w))
        if v != w:
            raise NoEval("frontier")
        return v
    return put(one, two)


def sub7(v, i):
    if isinstance(v, tuple):
        return type(v)(sub7(y, i) for y in v)
    return i if v == 7 and v is not True else v


def c21(c):
    tr = DS + "SearchQueue"
    for name, kind in (("Stack", "lifo"), ("Queue", "fifo"), ("MinPriorityQueue", "min"), ("MaxPriorityQueue", "max")):
        D = DS + name
        a = c.F.adts.get(D)
        if a is None:
            c.bad("anchor", D, "the frontier %s does not exist" % name)
            continue
        bs = [c.F.methods_of_trait(tr, D, "push"), c.F.methods_of_trait(tr, D, "pop")]
        if None in bs:
            c.bad("anchor", D, "%s is not a frontier" % name)
            continue
        me = var("me", {"k": "adt", "p": D})
        x = var("x")
        rp = c.run(bs[0], args=lambda ip: [ip.newroot(me, "q"), x])
        ro = c.run(bs[1], args=lambda ip: [ip.newroot(me, "q")])
        rn = c.run(c.F.fn(D + "::new") or (D + "::new"), args=lambda ip: [])
        if rp is None or ro is None or rn is None:
            continue
        fsn = len(a["variants"][0]["fields"])
        push, popped, rest, new = c.out(rp, 1), ro.ret, c.out(ro, 1), rn.ret
        text = {"lifo": "a stack returns the newest element", "fifo": "a queue returns the oldest element",
                "min": "a min-priority queue returns a smallest element", "max": "a max-priority queue returns a greatest element"}[kind]
        l = fld(me, 0)
        d = Deferred(c, bs[1].p)
        ok = False
        if fsn == 1:
            P, R = fld(push, 0), fld(rest, 0)
            item = {"min": lambda t: fld(t, 0)}.get(kind, lambda t: t)
            for pe in ("back", "front"):
                w = x
                if kind == "min":
                    w = adt("std::cmp::Reverse", "", x)
                ps = LIST(T("src", l), e(w)) if pe == "back" else LIST(e(w), T("src", l))
                if P is not ps and not same(P, ps):
                    continue
                for end in ("back", "front", "heap"):
                    good = (end == pe) if kind == "lifo" else (end != "heap" and end != pe) if kind == "fifo" else end == "heap"
                    v = T("pop", l, end)
                    if good and same(isv(popped, "Some"), gt0(length(l))) and same(pl(popped, "Some", 0), item(v), gt0(length(l))) and \
                            (R is T("rest", l, end) or same(R, T("rest", l, end), gt0(length(l)))):
                        ok = True
            d.decide("empty", D, fld(new, 0) is EMPTY, "a new %s is empty" % name)
        d.decide("discipline", bs[1].p, ok, text + ", once, and an empty one nothing")

        def wit():
            import random
            rnd = random.Random(7)
            seqs = [[3, None], [None], [1, 2, None, None, None], [2, 1, None, None], [1, 2, 3, None, 4, None, None, None], [5, 5, 4, None, None, None],
                    [-3, 2, -1, None, None, None]]
            for _ in range(30):
                s = [rnd.choice([None, rnd.randrange(6)]) if i > 2 else rnd.randrange(6) for i in range(9)]
                seqs.append(s)
            for n in [k + 3 for k in around(push, popped, rest) if 3 < k < 10000]:
                up = list(range(n))
                seqs.append((up[::-1] if kind == "min" else up) + [None] * (n if kind in ("lifo", "fifo") or n < 100 else 4))
            try:
                st0 = Ground({}).val(new)
            except (NoEval, Undef):
                return None
            seqs = [(st0, [], s) for s in seqs]
            # frontiers as big as the constants of the code, made directly
            for n in [k for k in around(push, popped, rest) if 300 < k < 300000]:
                try:
                    seqs.append((fill(push, me, x, st0, n), list(range(n)), [n, n + 1, n + 2, None, None]))
                except (NoEval, Undef):
                    pass
            for st, ref, s in seqs:
                for i, o in enumerate(s):
                    env = {me: st, x: o}
                    if o is not None:
                        ref.append(o)
                        z = value(push, env)
                        if z is None:
                            break
                        if z == ("undef",):
                            return "inserting %s after %s fails" % (o, s[:i])
                        st = z[0]
                        continue
                    z, w = value(popped, env), value(rest, env)
                    if z is None or w is None:
                        break
                    if not ref:
                        want = NONEV
                    else:
                        y = ref[-1] if kind == "lifo" else ref[0] if kind == "fifo" else min(ref) if kind == "min" else max(ref)
                        ref.remove(y) if kind != "lifo" else ref.pop()
                        want = some(y)
                    if z == ("undef",) or z[0] != want:
                        return "after the insertions and removals %s the next removal returns %s" % (
                            [("+%s" % q if q is not None else "-") for q in s[:i]], "a panic" if z == ("undef",) else _show((z[0],)))
                    if w == ("undef",):
                        return "a removal fails"
                    st = w[0]
            return None
        d.finish(wit)
