"""The directed graph structure: what its operations do to the adjacency map."""
import itertools

from base import *
from ground import *

DG = "gc_core::directed_graph::DirectedGraph"
EDGE_T = {"k": "adt", "p": "gc_core::graph::Edge"}
GRAPH_T = {"k": "adt", "p": DG}


def var(name, ty=None):
    t = T("arg", name)
    if ty:
        TY[t] = ty
    return t


def E(u, v):
    return adt(TM.EDGE, "", u, v)


def gself():
    return var("g", GRAPH_T)


def amap(g):
    return fld(g, 0)


def inv(m, u, v):
    """an edge is filed under both its vertices or under none"""
    x = E(u, v)
    a = band(has(m, u), isin(x, lst(m, u)))
    b = band(has(m, v), isin(x, lst(m, v)))
    return bnot(bxor(a, b))


def lst(m, k):
    return pl(get(m, k), "Some", 0)


def rooted(g):
    def f(ip, extra=()):
        return [ip.newroot(g, "g")] + list(extra)
    return f


def only_field(c, rule):
    """the graph is one map from vertices to lists of edges"""
    a = c.F.adts.get(DG)
    if a is None:
        c.bad("anchor", DG, "the directed graph type does not exist")
        return False
    fs = a["variants"][0]["fields"]
    ok = len(fs) == 1 and fs[0]["t"].get("k") == "adt" and fs[0]["t"]["p"].endswith("HashMap") or \
        len(fs) == 1 and fs[0]["t"].get("k") == "adt" and fs[0]["t"]["p"].endswith("BTreeMap")
    if not ok:
        d = Deferred(c, DG)
        d.unk(rule, DG, "the graph is not represented by a single adjacency map")
        d.finish(lambda: history(c)[0 if rule == "adjacency" else 1])
    return ok


# ------------------------------------------------------------------ whatever the representation: histories of operations
UPDATES = [("add_vertex", (1,)), ("add_vertex", (2,)), ("remove_vertex", (1,)), ("remove_vertex", (2,)), ("add_edge", (1, 2)), ("add_edge", (2, 1)), ("add_edge", (1, 1)),
           ("remove_edge", (1, 2)), ("remove_edge", (2, 1)), ("remove_edge", (1, 1)), ("add_edge", (3, 1)), ("remove_edge", (3, 1)), ("remove_vertex", (3,))]


def frozen(v):
    if isinstance(v, dict):
        return ("map", tuple(sorted(((frozen(k), frozen(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, tuple):
        return (type(v).__name__,) + tuple(frozen(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((frozen(x) for x in v), key=repr))
    return v


def history(c):
    """(updates, queries): a history of updates after which the graph is another one, or after which two queries disagree.
    The state after an update is the value of the term derived for the update, whatever fields the graph has."""
    key = id(c.F)
    if key not in _hist:
        try:
            _hist[key] = _history(c)
        except NoEval:
            _hist[key] = (None, None)
    return _hist[key]


_hist = {}


def _history(c, limit=2500):
    g = gself()
    u, v = var("u"), var("v")
    rn = c.run(DG + "::new")
    if rn is None:
        return None, None
    try:
        s0 = Ground({}).val(rn.ret)
    except (NoEval, Undef):
        return None, None
    ups, qs = {}, {}
    for nm in ("add_vertex", "remove_vertex", "add_edge", "remove_edge"):
        one = nm.endswith("vertex")
        r = c.run(DG + "::" + nm, args=lambda ip: [ip.newroot(g, "g"), u if one else E(u, v)])
        if r is None:
            return None, None
        ups[nm] = (r, c.out(r, 1))
    for nm in QUERY:
        n = 1 if nm in ("contains_vertex", "outbound_edges", "inbound_edges", "degree_out", "degree_in") else 2 if nm == "contains_edge" else 0
        r = c.run(DG + "::" + nm, args=lambda ip: [g] + ([u] if n == 1 else [E(u, v)] if n == 2 else []))
        if r is None:
            continue
        got = r.ret
        if got.op == "iter":
            got = r.ip.tolist(got)
        qs[nm] = (r, got, n)
    w16 = w17 = None
    seen = {frozen(s0): (set(), set())}
    work = [(s0, (set(), set()), ())]
    while work and len(seen) < limit and not (w16 and w17):
        st, (V, E_), hist = work.pop(0)
        said = "after %s" % (", ".join("%s%s" % (o, a) for o, a in hist) or "nothing")
        ans = {}
        for nm, (r, got, n) in qs.items():
            for vals in itertools.product((1, 2, 3), repeat=n):
                env = {g: st, **dict(zip((u, v), vals))}
                try:
                    G = Ground(env)
                    x = G.val(got)
                    if isinstance(x, L):
                        x = sorted(y[2:] if isinstance(y, tuple) and y and y[0] == "adt" else y for y in x)
                    ans[nm, vals] = x
                except (NoEval, Undef):
                    pass
                try:
                    if walk(r.events, Ground(env), set())[1] == "panic":
                        w17 = w17 or "%s, %s%s panics" % (said, nm, vals)
                except (NoEval, Undef):
                    pass
        if ("vertices", ()) in ans and ("edges", ()) in ans:
            V2, E2 = ans["vertices", ()], ans["edges", ()]
            for (nm, vals), x in ans.items():
                if x != QUERY[nm](set(V2), set(E2), *vals) or len(set(V2)) < len(V2) or len(set(E2)) < len(E2):
                    w17 = w17 or "%s the vertices are %s and the edges %s, but %s%s is %s" % (said, V2, E2, nm, vals if vals else "", x)
            if (set(V2), set(E2)) != (V, E_):
                w16 = w16 or "%s the graph has the vertices %s and the edges %s" % (said, V2, E2)
        for nm, a in UPDATES:
            r, out = ups[nm]
            env = {g: st, **dict(zip((u, v), a))}
            try:
                if walk(r.events, Ground(env), set())[1] == "panic":
                    w16 = w16 or "%s, %s%s panics" % (said, nm, a)
                    continue
            except (NoEval, Undef):
                pass
            try:
                nst = Ground(env).val(out)
            except (NoEval, Undef):
                continue
            V2, E2 = set(V), set(E_)
            if nm == "add_vertex":
                V2.add(a[0])
            elif nm == "remove_vertex":
                V2.discard(a[0])
                E2 = {x for x in E2 if a[0] not in x}
            elif nm == "add_edge":
                V2 |= set(a)
                E2.add(a)
            else:
                E2.discard(a)
            k = frozen(nst)
            if k not in seen:
                seen[k] = (V2, E2)
                work.append((nst, (V2, E2), hist + ((nm, a),)))
            elif seen[k] != (V2, E2):
                w16 = w16 or "%s, %s%s gives the same graph as other updates with another outcome" % (said, nm, a)
    global states
    states = len(seen)
    return w16, w17


def probe_list(c, rule, w, O, m, k, care, adds, removes, what):
    """list of key k after the operation: the elements before, plus adds, minus removes; no duplicates introduced"""
    before_has = has(m, k)
    after = get(O, k)
    x = E(var("xa"), var("xb"))
    el = assume(pl(after, "Some", 0), care)
    if any(s.op == "fold" for s in subterms(el)):
        c.unk(rule, w, what)
        return
    got = isin(x, el)
    exp = band(before_has, isin(x, lst(m, k)))
    for y in removes:
        exp = band(exp, bnot(eq(x, y)))
    for y in adds:
        exp = bor(exp, eq(x, y))
    gate = band(care, isv(after, "Some"))
    und = understood(got)
    c.decide(rule, w, same(got, exp, gate), what + " (membership)", und)
    n = length(el)
    if not removes:
        base = phi([(before_has, length(lst(m, k))), (bnot(before_has), INT(0))])
        want = add(base, INT(len(adds)))
        c.decide(rule, w, same(n, want, gate), what + " (no duplicate)", understood(n))


def c16(c):
    if not only_field(c, "adjacency"):
        return
    g = gself()
    m = amap(g)
    # add_vertex
    v = var("v")
    w0 = var("w")
    r = c.run(DG + "::add_vertex", args=lambda ip: [ip.newroot(g, "g"), v])
    if r:
        O = fld(c.out(r, 1), 0)
        d = Deferred(c, r.where)
        care = bnot(eq(v, w0))
        d.decide("add-vertex", r.where, has(O, v) is TRUE, "after add_vertex(v), v is a vertex", understood(O))
        d.decide("add-vertex", r.where, same(get(O, v), get(m, v), has(m, v)), "add_vertex of an existing vertex keeps its edges", understood(O))
        probe = assume(pl(get(O, v), "Some", 0), bnot(has(m, v)))
        d.decide("add-vertex", r.where, probe is EMPTY, "a new vertex has no edge", understood(O))
        d.decide("add-vertex", r.where, same(get(O, w0), get(m, w0), care), "add_vertex leaves other vertices unchanged", understood(O))
        d.finish(lambda: update_witness("add_vertex", g, [v], r.ret, O))
    # add_edge / remove_edge on an edge between distinct vertices and on a self-loop
    for u, v, what in ((var("u"), var("v"), "edge"), (var("u"), var("u"), "self-loop")):
        ne = bnot(eq(u, v))
        if u is v:
            ne = TRUE
        x = E(u, v)
        I = band(ne, inv(m, u, v))
        C = band(has(m, u), has(m, v), isin(x, lst(m, u)))
        r = c.run(DG + "::add_edge", args=lambda ip: [ip.newroot(g, "g"), x])
        if r:
            O = fld(c.out(r, 1), 0)
            und = understood(O)
            d = Deferred(c, r.where)
            d.decide("add-edge", r.where, same(r.ret, bnot(C), I), "add_edge tells whether the %s was new" % what, understood(r.ret))
            for k in {u, v}:
                w = r.where
                d.decide("add-edge", w, implies(I, has(O, k)), "both vertices of an added %s are vertices" % what, und)
                d.decide("add-edge", w, same(get(O, k), get(m, k), band(I, C)), "adding an existing %s changes nothing" % what, und)
                probe_list(d, "add-edge", w, O, m, k, band(I, bnot(C)), [x], [], "a new %s is filed once under each of its vertices" % what)
            care = band(I, bnot(eq(u, w0)), bnot(eq(v, w0)))
            d.decide("add-edge", r.where, same(get(O, w0), get(m, w0), care), "add_edge leaves other vertices unchanged", und)
            d.finish(lambda: update_witness("add_edge", g, [u, v], r.ret, O))
        r = c.run(DG + "::remove_edge", args=lambda ip: [ip.newroot(g, "g"), x])
        if r:
            O = fld(c.out(r, 1), 0)
            und = understood(O)
            d = Deferred(c, r.where)
            for k in {u, v}:
                d.decide("remove-edge", r.where, same(has(O, k), has(m, k), I), "remove_edge keeps the vertices", und)
                probe_list(d, "remove-edge", r.where, O, m, k, I, [], [x], "a removed %s is filed under none of its vertices, other edges stay" % what)
            care = band(I, bnot(eq(u, w0)), bnot(eq(v, w0)))
            d.decide("remove-edge", r.where, same(get(O, w0), get(m, w0), care), "remove_edge leaves other vertices unchanged", und)
            d.finish(lambda: update_witness("remove_edge", g, [u, v], r.ret, O))
    # remove_vertex: the vertex and every edge filed under it disappear
    v = var("v")

    def rm(ip, a, call):
        gg = ip.deref(a[0])
        ip.store(a[0], upd(gg, 0, T("rmedge", fld(gg, 0), ip.deep(ip.deref(a[1])))))
        ip.ev("rmedge", ip.deep(ip.deref(a[1])))
        return TRUE
    r = c.run(DG + "::remove_vertex", ov={DG + "::remove_edge": rm}, args=lambda ip: [ip.newroot(g, "g"), v])
    if r:
        O = fld(c.out(r, 1), 0)
        d = Deferred(c, r.where)
        d.decide("remove-vertex", r.where, same(r.ret, has(m, v)), "remove_vertex tells whether the vertex was present", understood(r.ret))
        und = all(s.op != "opq" and s.op != "ext" for s in subterms(O))
        removed = removed_key(O, v, m)
        d.decide("remove-vertex", r.where, removed, "the vertex is no longer a vertex", und)
        L = lst(m, v)
        rms = [f for f in r.flat() if f.ev.kind == "rmedge"]
        if rms:
            ok = False
            for f in rms:
                if len(f.loops) == 1 and f.loops[0].rec.n is not None:
                    l = f.loops[0]
                    rec = l.rec
                    covers = implies(has(m, v), constrain(band(l.g, f.ev.g), gt0(sub(rec.n, rec.p)))) and not rec.exits
                    if same(rec.n, length(L), has(m, v)) and same(f.ev.args[0], idx(L, rec.p), has(m, v)) and covers:
                        ok = True
            simple = len(rms) == 1 and all(len(f.loops) == 1 and f.loops[0].rec.n is not None for f in rms)
            d.decide("remove-vertex", r.where, ok, "every edge of the vertex is removed from its other vertex", simple)
        else:
            # written without remove_edge: every remaining list drops the edges of the vertex
            k = var("w")
            ret = [f for f in r.flat() if f.ev.kind in ("retain", "modify", "put", "sremove")]
            d.decide("remove-vertex", r.where, bool(ret), "the edges of the vertex are removed from their other vertex")
            if ret:
                d.unk("remove-vertex", r.where, "edges are removed without remove_edge")
        foreign = [f for f in r.flat() if f.ev.kind in ("mremove", "clear", "put", "insert") and
                   not (f.ev.kind == "mremove" and f.ev.args[1] is v)]
        d.decide("remove-vertex", r.where, not [f for f in foreign if f.ev.kind in ("mremove", "clear")], "no other vertex is removed")

        def wit():
            r2 = c.run(DG + "::remove_vertex", args=lambda ip: [ip.newroot(g, "g"), v])
            return update_witness("remove_vertex", g, [v], r2.ret, fld(c.out(r2, 1), 0))
        d.finish(wit)


# ------------------------------------------------------------------ valuations
def graph_value(vs, es):
    m = {}
    for x in vs:
        m.setdefault(x, [])
    for a, b in es:
        m.setdefault(a, []).append(A(TM.EDGE, a, b))
        if b not in m:
            m[b] = []
        if a != b:
            m[b].append(A(TM.EDGE, a, b))
    return A(DG, {k: L(x) for k, x in m.items()})


SMALL = [((), ()), ((1,), ()), ((1, 2), ()), ((), ((1, 2),)), ((), ((1, 1),)), ((3,), ((1, 2), (2, 1))), ((), ((1, 2), (2, 3), (3, 1))), ((4,), ((1, 2), (1, 3), (2, 3), (3, 3))),
         ((), ((2, 1), (3, 1), (1, 1), (1, 2), (1, 3))), ((0,), ((0, 1), (1, 0), (0, 0)))]


def graphs_for(*ts):
    """graphs of the valuations: small ones, and ones with ids and sizes next to the constants of the terms"""
    out = list(SMALL)
    for k in around(*ts):
        if k > 3:
            out.append(((k,), ((1, 2),)))
            out.append(((), ((1, k), (k, 2), (k, k), (2, 3))))
    for k in around(*ts, top=300):
        if k > 3:
            out.append((tuple(range(1, k + 1)), ((1, 2),)))
            out.append(((), tuple((1, j) for j in range(2, k + 2))))
            out.append(((), tuple((j, 1) for j in range(2, k + 2))))
    return out


def show_graph(vs, es):
    f = lambda l: str(list(l[:6])) + ("…" if len(l) > 6 else "")
    return "the graph with vertices %s and edges %s" % (f(tuple(vs)), f(tuple(es)))


def sets_of(vs, es):
    return set(vs) | {x for y in es for x in y}, set(es)


def update_witness(op, g, args, ret, O):
    """a graph and operands on which the update does not do what it should"""
    for vs, es in graphs_for(ret, O):
        V, E_ = sets_of(vs, es)
        cand = sorted(V)[:4] + sorted(V)[-1:] + [1, 2, 9] + around(ret, O)[:12]
        cand = list(dict.fromkeys(cand))
        names = list(dict.fromkeys(args))
        combos = [(x,) for x in cand] if len(names) == 1 else [(x, y) for x in cand for y in cand if x != y]
        for vals in combos:
            env = dict(zip(names, vals))
            ops = [env[a] for a in args]
            env[g] = graph_value(vs, es)
            try:
                G = Ground(env)
                m = {k: list(x) for k, x in as_map(G.val(O)).items()}
                rv = G.val(ret)
            except (NoEval, Undef):
                continue
            V2, E2 = set(V), set(E_)
            want = None
            if op == "add_vertex":
                V2.add(ops[0])
            elif op == "remove_vertex":
                want = ops[0] in V
                V2.discard(ops[0])
                E2 = {x for x in E_ if ops[0] not in x}
            elif op == "add_edge":
                want = tuple(ops) not in E_
                V2 |= set(ops)
                E2.add(tuple(ops))
            else:
                E2.discard(tuple(ops))
            what = "%s(%s) on %s" % (op, ", ".join(map(str, ops)), show_graph(vs, es))
            if set(m) != V2:
                return "%s leaves the vertices %s" % (what, sorted(m))
            for k in m:
                got = sorted(x[2:] for x in m[k])
                exp = sorted(x for x in E2 if k in x)
                if got != exp:
                    return "%s files %s under vertex %d" % (what, got, k)
            if want is not None and isinstance(rv, bool) and rv != want:
                return "%s returns %s" % (what, rv)
    return None


def removed_key(O, v, m):
    """v is not a key of O, whatever edges are removed before or after"""
    def go(t):
        if t.op == "phi":
            return all(go(x) or same(T("adt", "Option", "None"), get(m, v), g) for g, x in phi_cases(t))
        if t.op == "mremove":
            return t.args[1] is v or go(t.args[0])
        if t.op == "rmedge":
            return go(t.args[0])
        if t.op == "fold":
            # remove_edge never adds a key
            return go(t.args[3]) and all(s.op != "put" for s in subterms(t.args[4]))
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "src":
            return go(t.args[0].args[0])
        return implies(TRUE, bnot(has(t, v))) if t.op in ("list",) else False
    return go(O)


# ---------------------------------------------------------------------------------------------- C17
def c17(c):
    if not only_field(c, "query"):
        return
    g = gself()
    m = amap(g)
    u, v = var("u"), var("v")
    x = E(u, v)

    def q(name, args, want, care=TRUE, text=""):
        r = c.run(DG + "::" + name, args=lambda ip: [g] + args)
        if r:
            got = r.ret
            if got.op == "iter" or want.op == "list" and got.op != "list":
                got = r.ip.tolist(got)
            d = Deferred(c, r.where)
            d.decide("query", r.where, same(got, want, care), text or "%s agrees with the stored adjacency" % name, understood(got))
            pan = [f for f in r.flat() if f.ev.kind == "panic" and band(care, *[l.g for l in f.loops], f.ev.g) is not FALSE]
            dp = Deferred(c, r.where)
            dp.decide("total", r.where, not pan, "%s does not panic" % name)
            dp.finish(lambda: panic_witness(name, g, args, r))
            d.finish(lambda: query_witness(name, g, args, got))
        return r
    nv = length(T("keys", m))
    q("vertex_count", [], nv)
    q("is_empty", [], bnot(gt0(nv)))
    q("contains_vertex", [v], has(m, v))
    q("vertices", [], LIST(T("src", T("keys", m))))
    for a, b in ((u, v), (u, u)):
        e1 = E(a, b)
        q("contains_edge", [e1], band(has(m, a), has(m, b), isin(e1, lst(m, a))),
          band(inv(m, a, b), implied_vertices(m, a, b)), "contains_edge agrees with the stored adjacency")
    r = c.run(DG + "::head_option", args=lambda ip: [g])
    if r:
        hv = pl(r.ret, "Some", 0)
        d = Deferred(c, r.where)
        d.decide("query", r.where, isv(r.ret, "Some") is gt0(nv) and (has(m, hv) is TRUE or hv.op == "idx" and hv.args[0] is T("keys", m)),
                 "head_option is a vertex exactly when there is one", understood(r.ret))
        d.finish(lambda: query_witness("head_option", g, [], r.ret))

    def filt(k, side):
        L = lst(m, k)
        n = length(L)
        p = T("pos", n, 5000)
        (gg, xx), b = close(n, p, [band(has(m, k), eq(fld(idx(L, p), side), k)), idx(L, p)])
        return LIST(T("for", n, b, T("e", gg, xx)))
    for name, side in (("outbound_edges", 0), ("inbound_edges", 1)):
        q(name, [v], filt(v, side), text="%s are the stored edges that %s the vertex" % (name, "leave" if side == 0 else "enter"))
    q("degree_out", [v], length(filt(v, 0)))
    q("degree_in", [v], length(filt(v, 1)))
    ip = None
    re_ = c.run(DG + "::edges", args=lambda ip: [g])
    if re_:
        L = re_.ip.tolist(re_.ret)
        # every edge once: under each vertex, the edges that leave it (or that enter it)
        K = T("keys", m)
        n = length(K)
        wants = []
        for side in (0, 1):
            p = T("pos", n, 5001)
            k = idx(K, p)
            LL = lst(m, k)
            n2 = length(LL)
            p2 = T("pos", n2, 5002)
            (gg, xx), b2 = close(n2, p2, [eq(fld(idx(LL, p2), side), k), idx(LL, p2)])
            (inner,), b1 = close(n, p, [T("for", n2, b2, T("e", gg, xx))])
            wants.append(LIST(T("for", n, b1, inner)))
        d = Deferred(c, re_.where)
        d.decide("query", re_.where, any(same(L, w) for w in wants), "edges lists every edge exactly once", understood(L))
        d.finish(lambda: query_witness("edges", g, [], L))
        rc = c.run(DG + "::edge_count", args=lambda ip: [g])
        if rc:
            d2 = Deferred(c, rc.where)
            d2.decide("query", rc.where, any(same(rc.ret, length(w)) for w in wants), "edge_count is the number of edges", understood(rc.ret))
            d2.finish(lambda: query_witness("edge_count", g, [], rc.ret))
    rn = c.run(DG + "::new")
    if rn:
        c.decide("query", rn.where, fld(rn.ret, 0) is EMPTY, "a new graph is empty", understood(rn.ret))


QUERY = {
    "vertex_count": lambda V, E_: len(V), "is_empty": lambda V, E_: not V, "contains_vertex": lambda V, E_, v: v in V, "vertices": lambda V, E_: sorted(V),
    "contains_edge": lambda V, E_, u, v: (u, v) in E_, "outbound_edges": lambda V, E_, v: sorted(x for x in E_ if x[0] == v),
    "inbound_edges": lambda V, E_, v: sorted(x for x in E_ if x[1] == v), "degree_out": lambda V, E_, v: sum(x[0] == v for x in E_),
    "degree_in": lambda V, E_, v: sum(x[1] == v for x in E_), "edges": lambda V, E_: sorted(E_), "edge_count": lambda V, E_: len(E_),
}


def query_witness(name, g, args, got):
    """a graph and operands on which the query has another result"""
    ops = []
    for a in args:
        ops += list(a.args[2:]) if a.op == "adt" else [a]
    names = list(dict.fromkeys(ops))
    for vs, es in graphs_for(got):
        V, E_ = sets_of(vs, es)
        cand = list(dict.fromkeys(sorted(V)[:4] + sorted(V)[-1:] + [1, 9] + around(got)[:12]))
        for vals in itertools.product(cand, repeat=len(names)):
            env = dict(zip(names, vals))
            o = [env[x] for x in ops]
            env[g] = graph_value(vs, es)
            try:
                x = Ground(env).val(got)
            except Undef:
                return "%s(%s) fails on %s" % (name, ", ".join(map(str, o)), show_graph(vs, es))
            except NoEval:
                continue
            if isinstance(x, L):
                x = sorted(y[2:] if isinstance(y, tuple) and y and y[0] == "adt" else y for y in x)
            if name == "head_option":
                if (x == NONEV) == bool(V) or x != NONEV and x[2] not in V:
                    return "head_option is %s on %s" % (x[1:], show_graph(vs, es))
                continue
            if x != QUERY[name](V, E_, *o):
                return "%s(%s) is %s on %s" % (name, ", ".join(map(str, o)), x, show_graph(vs, es))
    return None


def panic_witness(name, g, args, r):
    """a graph and operands on which the query panics"""
    ops = []
    for a in args:
        ops += list(a.args[2:]) if a.op == "adt" else [a]
    names = list(dict.fromkeys(ops))
    gs = [f.ev.g for f in r.flat()]
    for vs, es in graphs_for(T("tup", *gs)):
        V, E_ = sets_of(vs, es)
        cand = list(dict.fromkeys(sorted(V)[:4] + sorted(V)[-1:] + [1, 9] + around(*gs)[:12]))
        for vals in itertools.product(cand, repeat=len(names)):
            env = dict(zip(names, vals))
            env[g] = graph_value(vs, es)
            try:
                _, how = walk(r.events, Ground(env), set())
            except (NoEval, Undef):
                continue
            if how == "panic":
                return "%s(%s) panics on %s" % (name, ", ".join(str(env[x]) for x in ops), show_graph(vs, es))
    return None


def implied_vertices(m, a, b):
    """an edge filed under a vertex has both its vertices in the map"""
    x = E(a, b)
    f = bor(band(has(m, a), isin(x, lst(m, a))), band(has(m, b), isin(x, lst(m, b))))
    return bor(bnot(f), band(has(m, a), has(m, b)))
