"""Rules C32 (topological sort), C34 (paths in DAGs), C35 (Bellman-Ford, SPFA), C36 (maximum flow), C38 (random graphs)."""
from machine import *

from rules.commands import searches, optgiven, n1, cli_fns, Val

TS = "gc_core::algorithm::topo_sort::"
SH = "gc_core::algorithm::shortest_path::"
LO = "gc_core::algorithm::longest_path::"
MF = "gc_core::algorithm::max_flow::"
DAGT = TS + "DAG"


def bare(x):
    return x[0] == "adt" and len(x) == 4 and (x[2], x[3]) or None


def acyclic(es):
    """vertices in a topological order, None with a cycle"""
    vs = sorted({v for x in es for v in x})
    es, out = set(es), []
    while vs:
        r = [v for v in vs if not any(b == v for _, b in es)]
        if not r:
            return None
        out += r
        vs = [v for v in vs if v not in r]
        es = {x for x in es if x[0] not in r}
    return out


TOPO = {TS + "topological_sort": lambda ip, a, k: T("topo", ip.deep(ip.deref(a[0])))}


def topo_of(G, t, b):
    """some topological order of the graph (rule C32 decides that this is what the sort returns)"""
    a = adjacency(G.val(t.args[0], b))
    es = {(x[2], x[3]) for l in a.values() for x in l}
    if acyclic(es) is None:
        return NONEV
    o = [v for v in a if not any(y == v for _, y in es)]
    left = set(es)
    for v in o:
        for l in a.values():
            for x in l:
                if x[2] == v and (x[2], x[3]) in left:
                    left.discard((x[2], x[3]))
                    if not any(y == x[3] for _, y in left):
                        o.append(x[3])
    return some(L(o))


# ---------------------------------------------------------------------------------------------- C32
def _kahn_terms(f, g):
    """is it: take a vertex without remaining incoming edge, append it, remove its outgoing edges, add those that have none left"""
    V, E_ = T("g.vertices", g), T("g.edges", g)
    lvs = f.lvs()
    if len(lvs) != 3 or len(f.rec.exits) != 1 or f.loop.g is not TRUE:
        return False
    n = length(V)
    p = T("pos", n, 7000)
    (gd, x), b = close(n, p, [bnot(gt0(length(T("g.in", g, idx(V, p))))), idx(V, p)])
    starts = LIST(T("for", n, b, T("e", gd, x)))
    for Q in lvs:
        for pe in ("front", "back"):
            q = Q[0]
            v = T("pop", q, pe)
            O = T("g.out", g, v)
            for res in lvs:
                for rem in lvs:
                    if len({Q[0], res[0], rem[0]}) != 3:
                        continue
                    m = length(O)
                    p = T("pos", m, 7000)
                    x = idx(O, p)
                    w = fld(x, 1)
                    I = T("g.in", g, w)
                    k = length(I)
                    p2 = T("pos", k, 7001)
                    (left,), b2 = close(k, p2, [band(bnot(isin(idx(I, p2), rem[0])), bnot(eq(v, fld(idx(I, p2), 0))))])
                    new = bnot(isin(x, rem[0]))
                    ready = band(new, bnot(exists(k, b2, left)))
                    (new_, x_, ready_, w_), b = close(m, p, [new, x, ready, w])
                    if Q[1] is starts and res[1] is EMPTY and rem[1] is EMPTY and \
                            same(Q[2], LIST(T("src", T("rest", q, pe)), T("for", m, b, T("e", ready_, w_)))) and \
                            same(res[2], LIST(T("src", res[0]), e(v))) and \
                            same(rem[2], LIST(T("src", rem[0]), T("for", m, b, T("e", new_, x_)))) and \
                            same(f.rec.exits[0][1], bnot(gt0(length(q)))):
                        full = ieq(T("setlen", rem[0]), length(E_))
                        return same(isv(f.ret, "Some"), full) and same(pl(f.ret, "Some", 0), res[0], full)
    return False


def _kahn_roles(f, g):
    """which loop variable is the frontier, the order so far, the removed edges; counters; None when others are left"""
    gv = gval(((1, 2),), ())
    init = f.init({g: gv})
    if init is None:
        return None
    ed = edge(1, 2)
    roles = {}
    for x in f.lvs():
        i = init[x[0]]
        if f.counter(x):
            roles[x[0]] = ("counter", f.counter(x))
        elif i == L([1]):
            roles[x[0]] = ("frontier",)
        elif isinstance(i, (L, dict)) and not i:
            roles[x[0]] = None
        elif isinstance(i, dict) and set(i) <= {1, 2} and i.get(2) == 1 and i.get(1, 0) == 0:
            roles[x[0]] = ("degrees", 1 in i)
        else:
            return None
    r = f.step({g: gv}, init)
    if r is None or r[0] != "cont":
        return None
    for lv, k in roles.items():
        if k is None:
            n = r[1][lv]
            if n == L([1]):
                roles[lv] = ("order",)
            elif set(n) == {ed}:
                roles[lv] = ("removed",)
            else:
                return None
    ks = [k[0] for k in roles.values()]
    if ks.count("frontier") != 1 or ks.count("order") != 1 or any(ks.count(k) > 1 for k in ("removed", "degrees")):
        return None
    return roles


def _kahn_witness(f, g):
    if f.why or f.rec is None:
        if f.why:
            return None
        # without a loop over the graph's vertices: a closed form
        for es, vs, _ in graphs_for(*f.terms(), big=60):
            w = _order_wrong(es, vs, f.direct({g: gval(es, vs)}))
            if w:
                return w
        return None
    roles = _kahn_roles(f, g)
    if roles is None:
        return None
    by = {}
    for lv, k in roles.items():
        by.setdefault(k[0], []).append(lv)

    def vals(es, k, order, Q, removed, init):
        out = {}
        for lv, r in roles.items():
            if r[0] == "frontier":
                out[lv] = L(Q)
            elif r[0] == "order":
                out[lv] = L(order)
            elif r[0] == "removed":
                out[lv] = L(edge(*x) for x in removed)
            elif r[0] == "counter":
                out[lv] = r[1][0] + k * r[1][1]
            elif r[0] == "degrees":
                d = {v: 0 for v in init[lv]}
                for x in es:
                    if x not in removed:
                        d[x[1]] = d.get(x[1], 0) + 1
                out[lv] = d
        return out
    fr, orr = by["frontier"][0], by["order"][0]
    seen = set()
    for es, vs, _ in graphs_for(*f.terms(), big=400):
        es = tuple(dict.fromkeys(es))
        if (es, vs) in seen:
            continue
        seen.add((es, vs))
        gv = gval(es, vs)
        env = {g: gv}
        say = gsay(es, vs)
        en = f.enters(env)
        if en is None:
            continue
        if not en:
            w = _order_wrong(es, vs, f.direct(env))
            if w:
                return w
            continue
        init = f.init(env)
        if init is None:
            continue
        al = list(adjacency(gv))
        starts = [v for v in al if not any(b == v for _, b in es)]
        if sorted(init[fr]) != sorted(starts):
            return "%s: it starts with %s instead of the vertices without incoming edge %s" % (say, list(init[fr])[:6], starts[:6])
        for lv, r in roles.items():
            if r[0] == "degrees":
                want = {v: sum(1 for x in es if x[1] == v) for v in al}
                if any(init[lv].get(v, 0) != want[v] for v in al):
                    return "%s: the degrees at the start are %s" % (say, list(init[lv].items())[:6])
        states = []
        order, Q, removed, k = [], list(init[fr]), [], 0
        while True:
            states.append((list(order), list(Q), list(removed), k))
            if not Q:
                break
            v = Q.pop(0)
            order.append(v)
            for x in es:
                if x[0] == v:
                    removed.append(x)
                    if not any(y[1] == x[1] and y not in removed for y in es):
                        Q.append(x[1])
            k += 1
        for order, Q, removed, k in spread(states[:-1], 12) + states[-1:]:
            r = f.step(env, vals(es, k, order, Q, removed, init), None, k)
            s = "%s, order so far %s, next %s" % (say, order[:6], Q[:6])
            if r is None:
                continue
            if r[0] == "panic":
                return "%s: it fails" % s
            if r[0] == "exit":
                w = _order_wrong(es, vs, r)
                if w:
                    return "%s (%s)" % (w, s)
                continue
            if not Q:
                return "%s: it does not end" % s
            o2, q2 = r[1][orr], r[1][fr]
            if len(o2) != len(order) + 1 or list(o2[:-1]) != order or o2[-1] not in Q:
                return "%s: the order becomes %s" % (s, list(o2)[:8])
            v = o2[-1]
            rem2 = set(removed) | {x for x in es if x[0] == v}
            want = [w for w in al if any(x[1] == w and x[0] == v for x in es) and not any(x[1] == w and x not in rem2 for x in es)]
            rest = minus_(q2, [w for w in Q if w != v])
            if rest is None or sorted(rest) != sorted(want):
                return "%s: after %s, %s comes next instead of %s" % (s, v, list(q2)[:8], ([w for w in Q if w != v] + want)[:8])
            for lv, role in roles.items():
                if role[0] == "removed" and set(r[1][lv]) != {edge(*x) for x in rem2}:
                    return "%s: after %s the edges removed are %s" % (s, v, [bare(x) for x in r[1][lv]][:8])
                if role[0] == "degrees" and any(r[1][lv].get(w, 0) != sum(1 for x in es if x[1] == w and x not in rem2) for w in al):
                    return "%s: after %s the degrees left are %s" % (s, v, list(r[1][lv].items())[:8])
    return None


def evenly(l, k):
    if len(l) <= k:
        return l
    return [l[i * (len(l) - 1) // (k - 1)] for i in range(k)]


def minus_(a, b):
    a = list(a)
    for x in b:
        if x not in a:
            return None
        a.remove(x)
    return a


def _order_wrong(es, vs, r):
    """what is wrong about the result of a topological sort"""
    if r is None:
        return None
    if r[0] == "panic":
        return "%s: it fails" % gsay(es, vs)
    v = r[1]
    dag = acyclic(es) is not None
    if v == NONEV:
        return "%s: no order is returned although there is no cycle" % gsay(es, vs) if dag else None
    if not (isinstance(v, tuple) and v[:2] == ("adt", "Some") and isinstance(v[2], L)):
        return None
    if not dag:
        return "%s: an order is returned although there is a cycle" % gsay(es, vs)
    o = list(v[2])
    if sorted(o) != sorted(set(vs) | {x for y in es for x in y}):
        return "%s: the order returned is %s" % (gsay(es, vs), o[:8])
    at = {x: i for i, x in enumerate(o)}
    for a, b in es:
        if at[a] >= at[b]:
            return "%s: in the order returned, %d does not come before %d" % (gsay(es, vs), a, b)
    return None


def c32(c):
    g = gself()
    f = LoopFn(c, TS + "topological_sort", [g])
    if f.r is None:
        return
    d = Deferred(c, f.where)
    d.decide("sort", f.where, f.rec is not None and _kahn_terms(f, g),
             "it starts with the vertices without incoming edge, appends one of them at a time and adds those whose incoming edges are all removed; an order is returned iff every edge was removed")
    d.finish(lambda: _kahn_witness(f, g))
    r = c.run(TS + "is_dag", ov=dict(graph_atoms(), **TOPO), args=lambda ip: [g])
    if r:
        d = Deferred(c, r.where)
        d.decide("is_dag", r.where, same(r.ret, isv(T("topo", g), "Some")), "a graph is taken for acyclic iff it has a topological order")

        def wit():
            for es, vs, _ in list(graphs_for(r.ret, big=60)) + [((), (), 0)]:
                v = value(r.ret, {g: gval(es, vs)}, dict(GFNS, topo=topo_of))
                if v is not None and isinstance(v[0], bool) and v[0] != (acyclic(es) is not None):
                    return "%s: the answer is %s" % (gsay(es, vs), v[0])
        d.finish(wit)


# ---------------------------------------------------------------------------------------------- shortest paths: C34, C35
def nfold(n, init, f, lvl=0):
    p = T("pos", n, 7100 + lvl)
    (s,), b = close(n, p, [f(p, T("acc", lvl, 0))])
    return T("fold", n, b, lvl, init, s)


def relax(m, x, u, fn, limit):
    """(condition, map) after relaxing the edge x, which leaves u, in the map m"""
    S_ = get(m, u)
    w = fld(x, 1)
    ns = add(fld(pl(S_, "Some", 0), 1), T("app", fn, x))
    cur = get(m, w)
    better = lt(ns, fld(pl(cur, "Some", 0), 1))
    nothing = lt(ns, INT(2 ** 63 - 1)) if limit else TRUE
    cond = band(isv(S_, "Some"), bite(isv(cur, "Some"), better, nothing))
    new = adt(SP, "", adt(PATH, "", LIST(T("src", fld(fld(pl(S_, "Some", 0), 0), 0)), e(w))), ns)
    return cond, LIST(T("src", m), e(T("tup", w, new)))


def relaxed(m, x, u, fn, limit):
    cond, m2 = relax(m, x, u, fn, limit)
    return phi([(bnot(cond), m), (cond, m2)])


def first_map(s):
    return LIST(e(T("tup", s, adt(SP, "", adt(PATH, "", LIST(e(s))), INT(0)))))


def scorer(w, fname="scorefn"):
    def app(G, t, b):
        if G.val(t.args[0], b) != fname:
            raise NoEval("unknown function")
        x = G.val(t.args[-1], b)
        if not (isinstance(x, tuple) and x[0] == "adt" and x[1] == EDGE_T):
            raise NoEval("score of %r" % (x,))
        return w.get((x[2], x[3]), 10 ** 6)
    return app


def optimum(es, w, s):
    """{vertex: smallest score} of the vertices reachable from s, None with a negative cycle that can be reached"""
    d = {s: 0}
    vs = {v for x in es for v in x} | {s}
    for k in range(len(vs) + 1):
        ch = False
        for a, b in es:
            if a in d and (b not in d or d[a] + w[(a, b)] < d[b]):
                d[b] = d[a] + w[(a, b)]
                ch = True
        if not ch:
            return d
    return None


def wsay(es, w):
    l = ["%d->%d (%d)" % (a, b, w[(a, b)]) for a, b in es]
    return "edges %s%s" % (", ".join(l[:8]) or "none", ", ..." if len(l) > 8 else "")


def map_wrong(es, w, s, m, best):
    """what is wrong about a map of paths from s; best: {vertex: score}"""
    try:
        m = dict(m) if isinstance(m, dict) else as_map(m)
        got = {}
        for v, x in m.items():
            if x[:2] != ("adt", SP) or x[2][:2] != ("adt", PATH):
                return None
            got[v] = (list(x[2][2]), x[3])
    except (NoEval, TypeError, IndexError, KeyError):
        return None
    if set(got) != set(best):
        more, less = sorted(set(got) - set(best)), sorted(set(best) - set(got))
        return "there is an entry for %s" % more[:4] if more else "there is no entry for %s" % less[:4]
    for v, (p, sc) in sorted(got.items()):
        if sc != best[v]:
            return "the score of %d is %s instead of %s" % (v, sc, best[v])
        if not p or p[0] != s or p[-1] != v or any(x not in w for x in zip(p, p[1:])):
            return "the path to %d is %s" % (v, p[:8])
        if sum(w[x] for x in zip(p, p[1:])) != sc:
            return "the path to %d is %s, whose score is not %d" % (v, p[:8], sc)
    return None


def weightings(es, neg):
    """edge scores: powers, ties, zeros, mixed and large ones; with and without negative ones"""
    es = list(es)
    n = len(es)
    yield {x: 2 ** (i % 20) * 3 for i, x in enumerate(es)}
    yield {x: 2 ** ((n - 1 - i) % 20) for i, x in enumerate(es)}
    yield {x: 1 for x in es}
    yield {x: 0 for x in es}
    yield {x: (10 - 7 * (i % 2)) * (i + 1) for i, x in enumerate(es)}
    yield {x: 2 ** 33 + i for i, x in enumerate(es)}
    yield {x: abs(x[1] - x[0]) ** 2 for x in es}
    if neg:
        # potentials: cycles keep their sign, single edges become negative
        for pot in (lambda v: 5 * v, lambda v: -9 * v, lambda v: v * v % 17):
            yield {x: 3 + pot(x[1]) - pot(x[0]) for x in es}
            yield {x: pot(x[1]) - pot(x[0]) for x in es}
        yield {x: -(i + 1) for i, x in enumerate(es)}
        yield {x: -1 if i == n - 1 else 1 for i, x in enumerate(es)}
        yield {x: (-1) ** i * (i + 2) for i, x in enumerate(es)}


DAGS = [(((1, 2), (1, 3), (2, 4), (3, 4)), (9,)), (((1, 2), (2, 3), (3, 4), (1, 4), (1, 3), (2, 4)), ()), (((5, 3), (3, 1), (5, 1), (4, 1), (1, 2), (4, 2)), (7,)),
        (((1, 5), (1, 2), (2, 5), (5, 3), (2, 3), (3, 4), (6, 3), (6, 4)), ()), (((2, 1),), (3,)), ((), (1,)), (((1, 2), (2, 3), (4, 3), (3, 5), (4, 5), (1, 5)), ()),
        (tuple((i, j) for i in range(1, 9) for j in range(i + 1, 9)), ()), (tuple((i, j) for i in range(1, 8) for j in range(7, i, -1)), ())]


def thresholds(ts, es_max):
    return sorted({k + d for k in ints(*ts) for d in (-1, 0, 1) if 2 < k + d < es_max})


def shapes(ts, dag, big=60):
    """(edges, vertices) of graphs, small ones and ones as large as the constants of the terms"""
    for es, vs in DAGS:
        yield es, vs
    yield ((1, 2), (2, 3), (3, 4)), (1, 8, 9, 10, 11)
    yield ((8, 9), (1, 2), (2, 3), (9, 4), (8, 3)), (5, 6, 7)
    yield from ((es, vs) for es, vs in tiny() if not dag or acyclic(es) is not None)
    if not dag:
        for es, vs in SMALL:
            yield es, vs
        yield ((1, 2), (2, 3), (3, 4), (4, 2), (1, 4)), ()
        yield ((1, 2), (5, 6), (6, 5), (5, 1)), ()
    for k in sorted({c + d for c in ints(*ts) for d in (-1, 0, 1)}):
        if 5 < k < 2 ** 62:
            for es, vs in DAGS[:2]:
                yield shifted(es, vs, k)
        if 2 < k < big:
            up = tuple((i, i + 1) for i in range(1, k + 2))
            yield up, ()
            yield up[::-1], ()
            # a long way that is better than a short one known before, and the other way round
            yield ((1, k + 2),) + up, ()
            yield up + ((1, k + 2), (2, k + 2)), ()
            if k < 60:
                star = tuple((1, i) for i in range(2, k + 3))
                yield star + tuple((i, k + 4) for i in range(2, k + 3)), ()
                yield ((k + 9, 1),) + star + ((k + 2, k + 10),), ()
            if not dag:
                yield up + ((k + 2, 1),), ()


def scored_limits(ts):
    """scores beyond the constants compared with"""
    return [x for x in sorted(ints(*ts)) if 50 < x < 2 ** 62][:6]


def map_witness(f, ts, dag, mkenv, fns, judge, neg=True, big=300):
    """a graph, scores and start for which the result is not the specified one"""
    for es, vs in shapes(ts, dag, big):
        ws = list(weightings(es, neg))
        for k in scored_limits(ts):
            ws.append({x: k // 2 + 1 for x in es})
            ws.append({x: k + 2 ** (len(es) - 1 - i) if i < 40 else k for i, x in enumerate(es)})
            ws.append({x: k + 1 if i % 2 else 1 for i, x in enumerate(es)})
            ws.append({x: 1 if i % 2 else k + 1 for i, x in enumerate(es)})
            ws.append({x: k * (x[1] - x[0]) ** 2 for x in es})
            ws.append({x: k + 1 for x in es})
            if neg:
                ws.append({x: -1 if i % 2 else k + 2 for i, x in enumerate(es)})
                ws.append({x: k + 2 if i % 2 else -1 for i, x in enumerate(es)})
                ws.append({x: -k - 2 if i % 2 else 1 for i, x in enumerate(es)})
                ws.append({x: -k - 1 for x in es})
        if len(es) > 12:
            ws = ws[:3] + ws[6:7] + ws[-2:]
        al = sorted({v for x in es for v in x} | set(vs))
        seen = []
        for w in ws:
            if w in seen:
                continue
            seen.append(w)
            for s in al if len(al) < 9 else [al[0], al[len(al) // 2], al[-2]]:
                v = f.direct(mkenv(gval(es, vs), s), dict(app=scorer(w), **fns))
                if v is None:
                    continue
                x = "it fails" if v[0] == "panic" else judge(es, w, s, v[1])
                if x:
                    return "%s, from %d: %s" % (wsay(es, w), s, x)
    return None


def c34(c):
    dag, fn, s, end = var("dag"), var("scorefn"), var("s"), var("end")
    g = fld(dag, 0)
    ov = dict(graph_atoms(), **TOPO)
    # shortest paths
    r = LoopFn(c, SH + "dag_shortest_paths", [dag, fn, s], ov)
    if r.r:
        O = pl(T("topo", g), "Some", 0)
        n = length(O)
        p = T("pos", n, 7200)
        (differs,), b = close(n, p, [bnot(eq(s, idx(O, p)))])
        sk = T("tw", n, b, differs)

        def outer(p, m):
            v = idx(O, add(sk, p))
            X = T("g.out", g, v)
            return nfold(length(X), m, lambda q, m2: relaxed(m2, idx(X, q), v, fn, False), 0)
        want = nfold(sub(n, sk), first_map(s), outer, 1)
        d = Deferred(c, r.where)
        d.decide("shortest", r.where, same(r.ret, want), "from the start on, in topological order, each outgoing edge of a vertex with a score is relaxed")
        d.finish(lambda: dag_witness(r, dag, fn, s, False))
    # longest paths: the negated shortest paths for the negated scores
    r2 = LoopFn(c, LO + "dag_longest_paths", [dag, fn, s], ov)
    if r.r and r2.r:
        r = r2
        def outer(p, m):
            v = idx(O, add(sk, p))
            X = T("g.out", g, v)
            return nfold(length(X), m, lambda q, m2: relaxed_neg(m2, idx(X, q), v, fn), 0)
        inner = nfold(sub(n, sk), first_map(s), outer, 1)
        d = Deferred(c, r.where)
        K = T("keys", inner)

        def neg(p, m):
            k = idx(K, p)
            x = pl(get(m, k), "Some", 0)
            return LIST(T("src", m), e(T("tup", k, upd(x, 1, sub(INT(0), fld(x, 1))))))
        d.decide("longest", r.where, same(r.ret, nfold(length(K), inner, neg, 2)), "each score and each result is negated, and the shortest paths of that are taken")
        d.finish(lambda: dag_witness(r, dag, fn, s, True))
    for name, of in ((SH + "dag_shortest_path", SH + "dag_shortest_paths"), (LO + "dag_longest_path", LO + "dag_longest_paths")):
        res = T("paths", dag, s)
        r = c.run(name, ov=dict(ov, **{of: paths_atom(dag, fn, s)}), args=lambda ip: [dag, fn, s, end])
        if r:
            d = Deferred(c, r.where)
            d.decide("one", r.where, same(r.ret, get(res, end)), "the entry of the end vertex, if there is one")

            def wit():
                for m in ({1: sp_(1, 0)}, {1: sp_(1, 0), 2: sp_(2, 5)}, {1: sp_(1, 0), 2: sp_(2, -7), 3: sp_(3, 2 ** 40)}, {1: sp_(1, 0), 4: sp_(4, 0)}):
                    for e_ in sorted(set(around(r.ret, top=2 ** 62)) | {1, 2, 3, 4}):
                        v = value(r.ret, {dag: A(DAGT, "g"), s: 1, end: e_, res: dict(m)}, {})
                        want = some(m[e_]) if e_ in m else NONEV
                        if v is not None and v != (want,):
                            return "the paths reach %s, asked for %d it returns %s" % (sorted(m), e_, "nothing" if v[0] == NONEV else v[0])
            d.finish(wit)


def sp_(v, sc):
    return A(SP, path(1, v) if v != 1 else path(1), sc)


def paths_atom(dag, fn, s):
    def f(ip, a, k):
        x = [ip.deep(ip.deref(y)) for y in a]
        if x[0] is dag and x[1] is fn and x[2] is s:
            return T("paths", dag, s)
        return T("paths", T("tup", *x))
    return f


def relaxed_neg(m, x, u, fn):
    S_ = get(m, u)
    w = fld(x, 1)
    ns = sub(fld(pl(S_, "Some", 0), 1), T("app", fn, x))
    cur = get(m, w)
    cond = band(isv(S_, "Some"), bor(bnot(isv(cur, "Some")), lt(ns, fld(pl(cur, "Some", 0), 1))))
    new = adt(SP, "", adt(PATH, "", LIST(T("src", fld(fld(pl(S_, "Some", 0), 0), 0)), e(w))), ns)
    return phi([(bnot(cond), m), (cond, LIST(T("src", m), e(T("tup", w, new))))])


def dag_witness(f, dag, fn, s, longest):
    def judge(es, w, a, v):
        k = -1 if longest else 1
        best = optimum(es, {x: k * y for x, y in w.items()}, a)
        return map_wrong(es, w, a, v, {v_: k * sc for v_, sc in best.items()})
    return None if f.why or f.rec else map_witness(f, [f.ret], True, lambda gv, a: {dag: A(DAGT, gv), fn: "scorefn", s: a}, {"topo": topo_of}, judge)


# ---------------------------------------------------------------------------------------------- C35
def c35(c):
    g, fn, s = gself(), var("scorefn"), var("s")
    V, E_ = T("g.vertices", g), T("g.edges", g)
    f = LoopFn(c, SH + "bellman_ford", [g, fn, s])
    if f.r:
        n = length(E_)
        M = nfold(sub(length(V), INT(1)), first_map(s), lambda p, m: nfold(n, m, lambda q, m2: relaxed(m2, idx(E_, q), fld(idx(E_, q), 0), fn, True), 0), 1)
        p = T("pos", n, 7300)
        (cond,), b = close(n, p, [relax(M, idx(E_, p), fld(idx(E_, p), 0), fn, True)[0]])
        more = exists(n, b, cond)
        d = Deferred(c, f.where)
        d.decide("bellman-ford", f.where, same(isv(f.ret, "None"), more) and same(pl(f.ret, "Some", 0), M, bnot(more)),
                 "every edge is relaxed once less often than there are vertices, from the start with score 0 on; the result is nothing iff an edge could still be relaxed")

        def judge(es, w, a, v):
            best = optimum(es, w, a)
            if v == NONEV:
                return "nothing is returned although no negative cycle can be reached" if best is not None else None
            if not (isinstance(v, tuple) and v[:2] == ("adt", "Some")):
                return None
            if best is None:
                return "a result is returned although a negative cycle can be reached"
            return map_wrong(es, w, a, v[2], best)
        d.finish(lambda: None if f.why or f.rec else map_witness(f, [f.ret], False, lambda gv, a: {g: gv, fn: "scorefn", s: a}, {}, judge, big=34))
    h = LoopFn(c, SH + "spfa", [g, fn, s])
    if h.r:
        d = Deferred(c, h.where)
        d.decide("spfa", h.where, h.rec is not None and not h.why and _spfa_terms(h, g, fn, s),
                 "it starts with the start vertex and score 0; a round takes a vertex from the queue, relaxes its outgoing edges and queues the vertices improved; it ends with an empty queue")
        d.finish(lambda: _spfa_witness(h, g, fn, s))


def _spfa_terms(f, g, fn, s):
    lvs = f.lvs()
    if len(lvs) != 2 or len(f.rec.exits) != 1 or f.loop.g is not TRUE:
        return False
    for (m, mi, ms, _), (q, qi, qs, _) in (lvs, lvs[::-1]):
        if not (same(mi, first_map(s)) and qi is LIST(e(s)) and f.ret is m and same(f.rec.exits[0][1], bnot(gt0(length(q))))):
            continue
        for pe in ("front", "back"):
            v = T("pop", q, pe)
            X = T("g.out", g, v)
            n = length(X)

            def st(p, a):
                cond, m2 = relax(a[1], idx(X, p), v, fn, True)
                return [phi([(bnot(cond), a[0]), (cond, LIST(T("src", a[0]), e(fld(idx(X, p), 1))))]), phi([(bnot(cond), a[1]), (cond, m2)])]
            if same(ms, nfold(n, m, lambda p, a: relaxed(a, idx(X, p), v, fn, True))) and same(qs, sfold(n, [T("rest", q, pe), m], st)):
                return True
    return False


def _spfa_witness(f, g, fn, s):
    if f.why or f.rec is None:
        return None

    def mkenv(gv, a):
        return {g: gv, fn: "scorefn", s: a}
    # roles: the map of scores and the queue
    gv, w0 = gval(((1, 2),), ()), {(1, 2): 4}
    init = f.init(mkenv(gv, 1), {"app": scorer(w0)})
    if init is None:
        return None
    roles = {}
    for x in f.lvs():
        i = init[x[0]]
        if f.counter(x):
            roles[x[0]] = "counter"
        elif i == L([1]):
            roles[x[0]] = "queue"
        else:
            try:
                if as_map(i) == {1: sp_(1, 0)}:
                    roles[x[0]] = "scores"
                    continue
            except (NoEval, TypeError, IndexError):
                pass
            return None
    if sorted(roles.values())[-2:] != ["queue", "scores"] or list(roles.values()).count("queue") != 1 or list(roles.values()).count("scores") != 1:
        return None
    inv = {k: lv for lv, k in roles.items()}
    r = f.step(mkenv(gv, 1), dict(init, **{}), {"app": scorer(w0)})
    if r is None or r[0] != "cont" or list(r[1][inv["queue"]]) != [2]:
        return None
    for es, vs in shapes(f.terms(), False, 130):
        gv = gval(es, vs)
        ws = [w for w in weightings(es, True)]
        for k in scored_limits(f.terms()):
            ws += [{x: k // 2 + 1 for x in es}, {x: k + 1 for x in es}, {x: -k for x in es}]
        al = sorted({v for x in es for v in x} | set(vs))
        if len(es) > 12:
            ws = ws[:2] + ws[6:7] + ws[-2:]
        for w in ws:
            for a in al if len(al) < 9 else [al[0], al[-2]]:
                best = optimum(es, w, a)
                if best is None:
                    continue
                env, fns = mkenv(gv, a), {"app": scorer(w)}
                say = "%s, from %d" % (wsay(es, w), a)
                if f.enters(env, fns) is False:
                    r = f.direct(env, fns)
                    x = r and ("it fails" if r[0] == "panic" else map_wrong(es, w, a, r[1], best))
                    if x:
                        return "%s: %s" % (say, x)
                    continue
                i = f.init(env, fns)
                if i is None:
                    continue
                try:
                    m0 = as_map(i[inv["scores"]])
                except (NoEval, TypeError, IndexError):
                    continue
                if list(i[inv["queue"]]) != [a] or m0 != {a: A(SP, path(a), 0)}:
                    return "%s: it does not start with this vertex and score 0" % say
                x = _spfa_states(f, es, w, a, env, fns, inv, best, say)
                if x:
                    return x
    return None


def _spfa_states(f, es, w, a, env, fns, inv, best, say):
    S_, Q, k, states = {a: ((a,), 0)}, [a], 0, []
    while len(states) < 400:
        states.append((dict(S_), list(Q), k))
        if not Q:
            break
        v = Q.pop(0)
        for x in es:
            if x[0] == v:
                ns = S_[v][1] + w[x]
                if x[1] not in S_ or ns < S_[x[1]][1]:
                    S_[x[1]] = (S_[v][0] + (x[1],), ns)
                    Q.append(x[1])
        k += 1
    zero = any(optimum(es, {y: (z if y != x else z - 1) for y, z in w.items()}, a) is None for x in es)
    for S_, Q, k in evenly(states, 14):
        vals = {inv["queue"]: L(Q), inv["scores"]: {v: A(SP, path(*p), sc) for v, (p, sc) in S_.items()}}
        for x in f.lvs():
            cn = f.counter(x)
            if cn:
                vals[x[0]] = cn[0] + k * cn[1]
        r = f.step(env, vals, fns, k)
        s2 = "%s, queue %s, scores %s" % (say, Q[:5], {v: sc for v, (p, sc) in list(S_.items())[:6]})
        if r is None:
            continue
        if r[0] == "panic":
            return "%s: it fails" % s2
        if r[0] == "exit":
            x = map_wrong(es, w, a, r[1], best)
            if x:
                return "%s: it ends: %s" % (s2, x)
            continue
        if not Q:
            return "%s: it does not end" % s2
        q2 = list(r[1][inv["queue"]])
        try:
            m2 = as_map(r[1][inv["scores"]])
            got = {v: (tuple(x[2][2]), x[3]) for v, x in m2.items()}
        except (NoEval, TypeError, IndexError):
            continue
        problem = None
        for v in (Q[0], Q[-1]):
            want = dict(S_)
            imp, ties = [], []
            for x in es:
                if x[0] == v:
                    ns = want[v][1] + w[x]
                    if x[1] not in want or ns < want[x[1]][1]:
                        want[x[1]] = (want[v][0] + (x[1],), ns)
                        imp.append(x[1])
                    elif ns == want[x[1]][1]:
                        ties.append(x[1])
            rest = list(Q)
            rest.remove(v)
            pr = None
            if set(got) != set(want) or any(got[x][1] != want[x][1] for x in want) or \
                    any(got[x] != want[x] and not (x in ties and got[x][0] == want[v][0] + (x,)) for x in want):
                pr = "after %d the scores are %s instead of %s" % (v, {x: y[1] for x, y in list(got.items())[:6]}, {x: y[1] for x, y in list(want.items())[:6]})
                if {x: y[1] for x, y in got.items()} == {x: y[1] for x, y in want.items()}:
                    pr = "after %d the paths are %s" % (v, [list(y[0]) for y in list(got.values())[:6]])
            elif set(q2) != set(rest) | set(imp) and not (set(rest) | set(imp) <= set(q2) <= set(rest) | set(imp) | set(ties) and not zero):
                pr = "after %d the queue is %s instead of %s" % (v, q2[:6], (rest + imp)[:6])
            if pr is None:
                problem = None
                break
            problem = problem or pr
        if problem:
            return "%s: %s" % (s2, problem)
    return None


# ---------------------------------------------------------------------------------------------- C36
API = MF + "AugmentingPathIter"
AP = MF + "AugmentingPath"
FWD, BWD = A("Forward"), A("Backward")


def apath(*steps):
    """[(vertex, forward)]"""
    return A(AP, L(("tup", v, FWD if f else BWD) for v, f in steps))


def steps_of(p):
    if not (isinstance(p, tuple) and p[:2] == ("adt", AP)):
        raise NoEval("augmenting path")
    return [(x[1], x[2] == FWD) for x in p[2]]


def residual(flow, p):
    """of an augmenting path [(vertex, forward)]; None when it does not follow the edges"""
    r = None
    for (a, _), (b, f) in zip(p, p[1:]):
        x = (a, b) if f else (b, a)
        if x not in flow:
            return None
        fl, cap = flow[x]
        k = cap - fl if f else fl
        r = k if r is None or k < r else r
    return 0 if r is None else r


def extensions(es, p):
    v = p[-1][0]
    out = [p + [(b, True)] for a, b in es if a == v] + [p + [(a, False)] for a, b in es if b == v]
    return [q for q in out if q[-1][0] not in {x for x, _ in p}]


def augmenting(es, flow, s, t, deep=False):
    Q = [[(s, True)]]
    while Q:
        p = Q.pop() if deep else Q.pop(0)
        if p[-1][0] == t and len(p) > 1 and residual(flow, p) > 0:
            return p
        if p[-1][0] != t:
            Q += [q for q in extensions(es, p) if residual(flow, q) > 0]
    return None


def augmented(flow, p, k):
    flow = dict(flow)
    for (a, _), (b, f) in zip(p, p[1:]):
        x = (a, b) if f else (b, a)
        fl, cap = flow[x]
        flow[x] = (fl + k if f else fl - k, cap)
    return flow


def flows(es, cap, s, t, deep=False, limit=30):
    """[(value, flow)]: the successive flows of the specified algorithm"""
    flow, v, out = {x: (0, cap[x]) for x in es}, 0, []
    while len(out) < limit:
        out.append((v, flow))
        p = augmenting(es, flow, s, t, deep)
        if p is None:
            break
        k = residual(flow, p)
        flow, v = augmented(flow, p, k), v + k
    return out


NETS = [(((1, 2), (2, 3)), 1, 3), (((1, 2), (1, 3), (2, 3), (2, 4), (3, 4)), 1, 4), (((1, 2), (2, 1), (2, 3), (3, 2), (1, 3)), 1, 3),
        (((1, 2), (1, 3), (2, 4), (3, 2), (3, 5), (4, 3), (4, 6), (5, 4), (5, 6)), 1, 6), (((1, 1), (1, 2), (2, 2), (3, 2)), 1, 2), (((1, 2), (3, 4)), 1, 4),
        (((1, 3), (3, 2), (1, 4), (4, 5), (5, 3), (4, 2), (6, 2), (1, 6)), 1, 2), (((9, 5), (5, 7), (9, 7), (7, 5), (5, 2), (7, 2), (2, 9)), 9, 2), (((1, 2),), 2, 1), (((1, 2),), 1, 1),
        # the only path left reroutes flow twice
        (((1, 2), (2, 5), (5, 8), (1, 3), (3, 6), (6, 8), (2, 6), (3, 5), (1, 4), (4, 6)), 1, 8), (((1, 2), (1, 3), (2, 4), (3, 4)), 1, 4), (((1, 3), (1, 2), (3, 2), (2, 4), (3, 4)), 1, 4),
        # the shortest path blocks two longer ones
        (((1, 2), (2, 3), (3, 8), (1, 4), (4, 5), (5, 3), (2, 6), (6, 7), (7, 8)), 1, 8)]


def capacities(es, ts):
    n = len(es)
    yield {x: 1 for x in es}
    yield {x: 3 + 2 * i for i, x in enumerate(es)}
    yield {x: 3 + 2 * (n - i) for i, x in enumerate(es)}
    yield {x: 0 if i % 3 == 1 else 4 for i, x in enumerate(es)}
    yield {x: 1 if i == 2 else 10 for i, x in enumerate(es)}
    for k in sorted(ints(*ts)):
        if 4 < k < 2 ** 62:
            yield {x: k + 1 for x in es}
            yield {x: k + i for i, x in enumerate(es)}
            yield {x: k + 3 if i % 2 else 1 for i, x in enumerate(es)}


def nets(ts, big=40):
    for x in NETS:
        yield x
    for k in sorted({c + d for c in ints(*ts) for d in (-1, 0, 1)}):
        if 4 < k < 2 ** 62:
            es, s, t = NETS[1]
            yield tuple((a + k, b + k) for a, b in es), s + k, t + k
        if 2 < k < big:
            yield tuple((i, i + 1) for i in range(1, k + 3)), 1, k + 3
            yield tuple((i, i + 1) for i in range(1, k + 3)), 1, k + 2
            yield tuple((1, i) for i in range(2, k + 3)) + tuple((i, k + 4) for i in range(2, k + 3)), 1, k + 4
            # a long way back: rerouted flow at the end of a long path
            yield tuple((i, i + 1) for i in range(1, k + 3)) + ((k + 10, k + 2), (2, k + 11)), 1, k + 3


def nsay(flow, s, t):
    l = ["%d->%d (%d of %d)" % (a, b, f, c) for (a, b), (f, c) in flow.items()]
    return "flow %s%s from %d to %d" % (", ".join(l[:9]), ", ..." if len(l) > 9 else "", s, t)


def psay(p):
    return "".join(("" if i == 0 else "->" if f else "<-") + str(v) for i, (v, f) in enumerate(p[:9]))


def gflow(flow):
    return {edge(*x): ("tup", f, c) for x, (f, c) in flow.items()}


def unflow(m):
    m = as_map(m) if not isinstance(m, dict) else m
    return {(x[2], x[3]): (v[1], v[2]) for x, v in m.items()}


def c36(c):
    g, cap, s, t = gself(), var("capacity"), var("s"), var("t")
    m = Machine(c, API, "AugmentingPath", ["frontier", "graph", "map", "vertex"])
    if m.body is None:
        return
    if m.why:
        c.unk("shape", m.where, "the search of augmenting paths: %s" % m.why)
    else:
        d = Deferred(c, m.where)
        d.decide("search", m.where, any(_aug_terms(m, pe) for pe in ("front", "back")),
                 "a path is taken from the frontier and extended by every edge, forward or backward, to a vertex it does not contain; it is returned iff it ends at the target and its residual capacity is positive")
        d.finish(lambda: _aug_witness(m))
    f = LoopFn(c, MF + "max_flow", [g, cap, s, t], {m.body.p: lambda ip, a, k: T("aug", ip.deep(ip.deref(a[0])))})
    if f.r is None:
        return
    if m.why:
        c.unk("shape", f.where, "the search of augmenting paths is not one the rule knows")
        return
    d = Deferred(c, f.where)
    d.decide("flow", f.where, f.rec is not None and not f.why and _flow_terms(f, m, g, cap, s, t),
             "from no flow on, as long as there is an augmenting path from start to end, its residual capacity is added to the flow of its forward edges, taken from that of its backward edges and added to the value returned")
    d.finish(lambda: _flow_witness(f, m, g, cap, s, t))


def _aug_terms(m, pe):
    if m.rec is None or len(m.rec.lvs) != 1:
        return False
    lv, init, stp, rp = m.rec.lvs[0]
    if rp != (m.root, ()) or init is not m.me:
        return False
    F_, g, fl, tgt = unwrap_(m, lv), fld(lv, m.fields["graph"].i), fld(lv, m.fields["map"].i), fld(lv, m.fields["vertex"].i)
    has = gt0(length(F_))
    P = T("pop", F_, pe)
    vs = fld(P, 0)
    n = length(vs)
    last = fld(idx(vs, sub(n, INT(1))), 0)

    def dirs(v):
        # the direction is the one of an enum of the module
        return adt(MF + "Direction", v)

    def ext(op, i, word):
        X = T(op, g, last)
        k = length(X)
        p = T("pos", k, 7000)
        y = fld(idx(X, p), i)
        q = T("pos", n, 7001)
        (hit,), b2 = close(n, q, [eq(y, fld(idx(vs, q), 0))])
        (cond, item), b = close(k, p, [bnot(exists(n, b2, hit)), adt(AP, "", LIST(T("src", vs), e(T("tup", y, dirs(word)))))])
        return T("for", k, b, T("e", cond, item))
    want = LIST(T("src", T("rest", F_, pe)), ext("g.out", 1, "Forward"), ext("g.in", 0, "Backward"))
    k = sub(n, INT(1))
    p = T("pos", k, 7000)
    a, b_ = fld(idx(vs, p), 0), fld(idx(vs, add(p, INT(1))), 0)
    fw = isv(fld(idx(vs, add(p, INT(1))), 1), "Forward")
    f1, f2 = pl(get(fl, adt(EDGE_T, "", a, b_)), "Some", 0), pl(get(fl, adt(EDGE_T, "", b_, a)), "Some", 0)
    (item,), b = close(k, p, [phi([(fw, sub(fld(f1, 1), fld(f1, 0))), (bnot(fw), fld(f2, 0))])])
    res = T("minof", LIST(T("for", k, b, T("e", TRUE, item))))
    good = band(has, eq(last, tgt), gt0(k), gt0(res))
    leave = bor(*[x for _, x in m.rec.exits])
    if not same(leave, bor(bnot(has), good)):
        return False
    if not (same(isv(m.ret, "Some"), has, leave) and same(fld(pl(m.ret, "Some", 0), 0), P, good) and same(fld(pl(m.ret, "Some", 0), 1), res, good)):
        return False
    return same(unwrap_(m, stp), want, has) and all(fld(stp, m.fields[r].i) is fld(lv, m.fields[r].i) for r in ("graph", "map", "vertex"))


def unwrap_(m, t):
    t = fld(t, m.fields["frontier"].i)
    ty = unref(m.c.F.adts[m.D]["variants"][0]["fields"][m.fields["frontier"].i]["t"])
    return fld(t, 0) if ty["p"].startswith(DS) else t


def _flow_terms(f, m, g, cap, s, t):
    lvs = f.lvs()
    if len(lvs) != 2 or len(f.rec.exits) != 1 or f.loop.g is not TRUE:
        return False
    au = find_ops(f.rec.exits[0][1], "aug")
    if len(au) != 1:
        return False
    au = list(au)[0]
    E_ = T("g.edges", g)
    n = length(E_)
    p = T("pos", n, 7000)
    (x, y), b = close(n, p, [idx(E_, p), T("app", cap, idx(E_, p))])
    init = LIST(T("for", n, b, T("e", TRUE, T("tup", x, T("tup", INT(0), y)))))
    it = au.args[0]
    for (F_, fi, fs, _), (v, vi, vs_, _) in (lvs, lvs[::-1]):
        if fi is not init or vi is not INT(0):
            continue
        fr = unwrap_(m, it)
        if not (fr.op == "list" and len(fr.args) == 1 and fr.args[0].op == "e" and fr.args[0].args[0] is TRUE):
            continue
        ps = fld(fr.args[0].args[1], 0)
        if not (ps.op == "list" and len(ps.args) == 1 and ps.args[0].op == "e" and fld(ps.args[0].args[1], 0) is s):
            continue
        if not (fld(it, m.fields["graph"].i) is g and fld(it, m.fields["map"].i) is F_ and fld(it, m.fields["vertex"].i) is t):
            continue
        P, k = fld(fld(pl(au, "Some", 0), 0), 0), fld(pl(au, "Some", 0), 1)

        def upd_(p, acc):
            a, b_ = fld(idx(P, p), 0), fld(idx(P, add(p, INT(1))), 0)
            fw = isv(fld(idx(P, add(p, INT(1))), 1), "Forward")
            e1, e2 = adt(EDGE_T, "", a, b_), adt(EDGE_T, "", b_, a)
            h1, h2 = isv(get(acc, e1), "Some"), isv(get(acc, e2), "Some")
            x1, x2 = pl(get(acc, e1), "Some", 0), pl(get(acc, e2), "Some", 0)
            return phi([(bite(fw, bnot(h1), bnot(h2)), acc), (band(fw, h1), LIST(T("src", acc), e(T("tup", e1, upd(x1, 0, add(fld(x1, 0), k)))))),
                        (band(bnot(fw), h2), LIST(T("src", acc), e(T("tup", e2, upd(x2, 0, sub(fld(x2, 0), k))))))])
        if same(f.rec.exits[0][1], bnot(isv(au, "Some"))) and vs_ is add(v, k) and same(fs, nfold(sub(length(P), INT(1)), F_, upd_)) and f.ret is T("tup", v, F_):
            return True
    return False


def _aug_witness(m):
    g0 = gval((), (1, 2, 3))

    def enc(Q, gv, flow, t):
        return m.enc(frontier=[apath(*p) for p in Q], graph=gv, map=gflow(flow), vertex=t)
    r = m.step(enc([], g0, {}, 1))
    if r and r[:2] != ("exit", NONEV):
        return "with an empty frontier it does not end"
    end = None
    r = m.step(enc([[(1, True)], [(2, True)]], g0, {}, 3))
    if r is None or r[0] != "cont":
        return None
    try:
        left = [steps_of(x) for x in m.dec(r[1], "frontier")]
    except (NoEval, IndexError, TypeError):
        return None
    if left == [[(2, True)]]:
        end = 0
    elif left == [[(1, True)]]:
        end = -1
    else:
        return None
    for es, s, t in nets(m.terms(), 40):
        gv = gval(es, (s, t))
        for cap in capacities(es, m.terms()):
            for deep in (False, True):
                for _, flow in spread(flows(es, cap, s, t, deep), 5):
                    w = _aug_states(m, es, s, t, gv, flow, end, enc)
                    if w:
                        return "%s: %s" % (nsay(flow, s, t), w)
    return None


def _aug_states(m, es, s, t, gv, flow, end, enc):
    Q, states = [[(s, True)]], []
    more = augmenting(es, flow, s, t) is not None
    while Q and len(states) < (80 if len(es) < 15 else 2 * len(es)):
        states.append(list(Q))
        p = Q.pop(end)
        if p[-1][0] == t and residual(flow, p) > 0:
            break
        Q += [q for q in extensions(es, p)]
    for Q in spread(states, 8):
        r = m.step(enc(Q, gv, flow, t))
        if r is None:
            continue
        p = Q[end]
        say = "taking %s" % psay(p)
        res = residual(flow, p)
        if r[0] == "panic":
            return "%s: it fails" % say
        good = p[-1][0] == t and res > 0
        if r[0] == "exit":
            if r[1] == NONEV:
                if more:
                    return "%s: no path is returned although there is an augmenting path" % say
                continue
            try:
                q, k = steps_of(r[1][2][1]), r[1][2][2]
            except (NoEval, IndexError, TypeError):
                return None
            if not good or q != p or not 0 < k <= res:
                return "%s: %s with residual capacity %s is returned" % (say, psay(q), k)
            continue
        if good:
            return "%s: this augmenting path is not returned" % say
        try:
            F2 = [steps_of(x) for x in m.dec(r[1], "frontier")]
            same_ = m.dec(r[1], "graph") == gv and unflow(m.dec(r[1], "map")) == flow and m.dec(r[1], "vertex") == t
        except (NoEval, IndexError, TypeError, AttributeError):
            return None
        if not same_:
            return "%s: graph, flow or target of the search change" % say
        rest = list(Q)
        rest.pop(end)
        ext = extensions(es, p)
        must = [q for q in rest + ([] if p[-1][0] == t else ext) if residual(flow, q) > 0 or len(q) == 1]
        left = minus_(F2, [q for q in must])
        if left is None:
            miss = [q for q in must if q not in F2]
            return "%s: the path %s is not tried" % (say, psay(miss[0]) if miss else "")
        for q in left:
            if q not in rest and q not in ext:
                return "%s: %s is added to the paths to try" % (say, psay(q))
    return None


def _flow_witness(f, m, g, cap, s, t):
    if f.why or f.rec is None:
        return None
    ed = (1, 2)
    env0 = {g: gval((ed,), ()), cap: "capacity", s: 1, t: 2}
    init = f.init(env0, {"app": scorer({ed: 7}, "capacity")})
    if init is None:
        return None
    roles = {}
    for x in f.lvs():
        i = init[x[0]]
        if f.counter(x):
            continue
        if i == 0 and not isinstance(i, bool):
            roles.setdefault("value", x[0])
            continue
        try:
            if unflow(i) == {ed: (0, 7)} and "flow" not in roles:
                roles["flow"] = x[0]
                continue
        except (NoEval, IndexError, TypeError, AttributeError):
            pass
        return None
    if set(roles) != {"value", "flow"} or len(roles) + sum(1 for x in f.lvs() if f.counter(x)) != len(f.lvs()):
        return None
    wrong = []

    def search(es, src, tgt, flow, deep):
        def aug(G, tm, b):
            it = G.val(tm.args[0], b)
            try:
                Q = [steps_of(x) for x in m.dec(it, "frontier")]
                gv, fl, tg = m.dec(it, "graph"), unflow(m.dec(it, "map")), m.dec(it, "vertex")
            except (NoEval, IndexError, TypeError, AttributeError):
                raise NoEval("search")
            if [v for q in Q for v, _ in q] != [src]:
                wrong.append("the search of an augmenting path starts with %s" % [psay(q) for q in Q][:4])
            elif tg != tgt:
                wrong.append("augmenting paths to %s are searched for" % tg)
            elif fl != flow:
                wrong.append("the search of an augmenting path does not use the current flow")
            p = augmenting(es, fl, src, tgt, deep) if not wrong else None
            return NONEV if p is None else some(("tup", apath(*p), residual(fl, p)))
        return aug
    for es, a, z in nets(f.terms(), 40):
        gv = gval(es, (a, z))
        env = {g: gv, cap: "capacity", s: a, t: z}
        for cp in capacities(es, f.terms()):
            fns = {"app": scorer(cp, "capacity")}
            start = {x: (0, cp[x]) for x in es}
            if f.enters(env, fns) is False:
                r = f.direct(env, fns)
                if r and r[0] == "panic":
                    return "%s: it fails" % nsay(start, a, z)
                try:
                    v, fl = r[1][1], unflow(r[1][2])
                except (TypeError, IndexError, NoEval, AttributeError):
                    continue
                if set(fl) == set(es) and (augmenting(es, fl, a, z) or v != 0):
                    return "%s: the flow returned is not maximal" % nsay(fl, a, z)
                continue
            i = f.init(env, fns)
            if i is not None:
                try:
                    if unflow(i[roles["flow"]]) != start or i[roles["value"]] != 0:
                        return "%s: it does not start without flow and with the capacities given" % nsay(start, a, z)
                except (NoEval, IndexError, TypeError, AttributeError):
                    return None
            for deep in (False, True):
                fs = flows(es, cp, a, z, deep)
                for k, (v, flow) in spread(list(enumerate(fs)), 6):
                    vals = {roles["flow"]: gflow(flow), roles["value"]: v}
                    for x in f.lvs():
                        cn = f.counter(x)
                        if cn and x[0] not in vals:
                            vals[x[0]] = cn[0] + k * cn[1]
                    r = f.step(env, vals, dict(fns, aug=search(es, a, z, flow, deep)), k)
                    say = nsay(flow, a, z)
                    if wrong:
                        return "%s: %s" % (say, wrong[0])
                    if r is None:
                        continue
                    if r[0] == "panic":
                        return "%s: it fails" % say
                    p = augmenting(es, flow, a, z, deep)
                    try:
                        if r[0] == "exit":
                            v2, fl2 = r[1][1], unflow(r[1][2])
                            if p is not None and augmenting(es, fl2, a, z) is not None:
                                return "%s: it ends although %s is an augmenting path" % (say, psay(p))
                            if p is None and (fl2 != flow or v2 != v):
                                return "%s, value %d: it returns the value %s and %s" % (say, v, v2, "this flow" if fl2 == flow else "another flow")
                            continue
                        if p is None:
                            return "%s: it does not end" % say
                        fl2, v2 = unflow(r[1][roles["flow"]]), r[1][roles["value"]]
                    except (NoEval, IndexError, TypeError, AttributeError):
                        continue
                    kk = residual(flow, p)
                    want = augmented(flow, p, kk)
                    if fl2 != want:
                        bad = [x for x in want if fl2.get(x) != want[x]]
                        return "%s: augmented along %s by %d, the flow of %d->%d becomes %s" % (say, psay(p), kk, bad[0][0], bad[0][1], fl2.get(bad[0])) if bad else \
                            "%s: augmented along %s there is a flow along %s" % (say, psay(p), sorted(set(fl2) - set(want))[:3])
                    if v2 != v + kk:
                        return "%s: augmented along %s by %d, the value becomes %s instead of %s" % (say, psay(p), kk, v2, v + kk)
    return None


# ---------------------------------------------------------------------------------------------- C38
def c38(c):
    name = "gc-random"

    def add_edge(ip, a, k):
        old, x = ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))
        ip.ev("add_edge", old, x)
        ip.store(a[0], T("added", old, x))
        return T("tup")
    r = searches(c, name, {DG + "::add_edge": add_edge, DG + "::edge_count": lambda ip, a, k: T("edge_count", ip.deep(ip.deref(a[0])))})
    if r is None:
        return
    fl = r.flat()
    adds = [f for f in fl if f.ev.kind == "add_edge"]
    saves = [f for f in fl if f.ev.kind == "call" and f.ev.args[0] is S("save_graph_as_commands")]
    if not adds or not saves:
        c.unk("generate", r.where, "no edge is added one by one, or the graph is not stored by the command: nothing to decide")
        return
    # every edge goes upward
    for f in adds:
        x = f.ev.args[1]
        d = Deferred(c, r.where)
        d.decide("upward", r.where, _upward(f, x), "each edge added goes from a smaller to a greater vertex, so that there can be no cycle")
        d.finish(lambda: _cycle_witness(f, x))
    # the number of edges
    want = phi([(optgiven("edge-count"), n1("usize", "edge-count")), (bnot(optgiven("edge-count")), mul(INT(3), n1("usize", "vertex-count")))])
    loops = [f for f in fl if f.ev.sub is not None and (f.ev.rec is None or f.ev.rec.n is None) and any(a.ev in [y.ev for y in flatten(f.ev.sub)] for a in adds)]
    if len(loops) == 1 and loops[0].ev.rec is not None and not loops[0].loops:
        rec = loops[0].ev.rec
        gl = [lv for lv, i, s, _ in rec.lvs if any(x.op == "added" for x in subterms(s))]
        leave = bor(*[g for _, g in rec.exits])
        if len(gl) == 1:
            d = Deferred(c, r.where)
            n = T("edge_count", gl[0])
            lv = gl[0]
            d.decide("count", r.where, len(rec.exits) == 1 and (same(leave, bnot(lt(n, want))) or same(leave, bnot(le(n, want)))), "edges are added as long as there are fewer than asked for")
            d.finish(lambda: _count_witness(leave, n, [l for l, i, s, _ in rec.lvs if i is INT(0) and s is add(l, INT(1))] + ([rec.p] if rec.p is not None else [])))
            d = Deferred(c, r.where)
            d.decide("stored", r.where, all(f.ev.args[2] is lv for f in saves), "the graph stored is the one generated")
            d.finish(lambda: next(("%s is stored" % pp(f.ev.args[2])[:80] for f in saves if understood(f.ev.args[2], ("lv",)) and not any(x.op == "lv" for x in subterms(f.ev.args[2])) and f.ev.args[2].op in ("adt", "list")), None))
            return
    c.unk("count", r.where, "the graph is not generated by one loop")


def _upward(f, x):
    """the condition of the event implies src < dst, by one of its linear literals"""
    src, dst = fld(x, 0), fld(x, 1)
    for g1, a in phi_cases(src):
        for g2, b in phi_cases(dst):
            g = band(f.ev.g, g1, g2)
            if g is FALSE:
                continue
            w = sub(b, a)
            for cube in cubes(g):
                if not any(_entails(l, v, w) for l, v in (cube.items() if isinstance(cube, dict) else cube)):
                    return False
    return True


def _entails(l, v, w):
    """the literal implies w > 0"""
    if l.op != "gt0":
        return False
    a = l.args[0]
    # a > 0 gives a >= 1;  not a > 0 gives -a >= 0
    rest = sub(w, a) if v else sub(add(w, a), INT(1))
    c0, d = lin_parts(rest)
    return c0 >= 0 and all(k >= 0 and _natural(t) for t, k in d.items())


def _natural(t):
    return t.op in ("len", "setlen", "edge_count", "pos") or t.op == "div" and all(_natural(x) or x.op == "int" and x.args[0] >= 0 for x in t.args) or \
        t.op == "pl" and t.args[0].op == "parse" and t.args[0].args[0] in ("usize", "u64")


def _cycle_witness(f, x):
    """a cycle among the edges that can be added"""
    ps = [y.rec.p for y in f.loops if y.rec is not None and y.rec.p is not None]
    rands = {s for s in subterms(T("tup", f.ev.g, x)) if s.op == "rand"}
    if len(rands) > 2 or any(len(s.args) > 1 for s in rands):
        return None
    n = 8
    es = {}
    more = sorted({v for k in ints(T("tup", f.ev.g, x)) if 0 < k < 10 ** 6 for v in (k + 2, 10 * k + 20)} - {n, 40})[:12]
    for vc in [n, 40] + more:
        for vals in itertools.product(range(0, min(vc - 1, 39 if vc == 40 else 14)), repeat=len(ps)) if len(ps) < 3 else ():
            for rs in itertools.product(list(range(0, 14)) + [30, 31, 2 ** 63], repeat=len(rands)):
                env = dict(zip(ps, vals))
                env.update(zip(sorted(rands, key=lambda s: s.id), rs))
                G = Ground(env, dict(cli_fns(Val({"vertex-count": [str(vc)], "edge-count": [str(3 * vc)]})), edge_count=lambda G, t, b: 0))
                try:
                    if G.bool(f.ev.g, Bind()):
                        v = G.val(x)
                        es.setdefault((v[2], v[3]), env)
                except (NoEval, Undef, IndexError, TypeError):
                    continue
    for (a, b) in es:
        if a == b:
            return "it can add %d->%d" % (a, b)
    for (a, b) in es:
        if (b, a) in es:
            return "it can add both %d->%d and %d->%d" % (a, b, b, a)
    if es and acyclic(es) is None:
        return "the edges it can add contain a cycle"
    return None


def _count_witness(leave, n, counters=()):
    big = [str(k + d) for k in sorted(ints(leave)) if 0 < k < 2 ** 62 for d in (2, 1)]
    for vc, ec in [("100", None), ("10", "5"), ("1000", "4000"), ("3", "1"), ("100", "101")] + [(b, x) for b in big for x in (None, b)] + [("100", b) for b in big]:
        o = {"vertex-count": [vc]}
        if ec:
            o["edge-count"] = [ec]
        want = int(ec) if ec else 3 * int(vc)
        for k in [0, 1, want // 2, want - 1] + [int(b) - 2 for b in big]:
            if k >= want:
                continue
            # a round need not add any edge
            for rounds in [0] if not counters else [10 ** 9] + [int(b) for b in big]:
                G = Ground({n: k, **{l: rounds for l in counters}}, cli_fns(Val(o)))
                try:
                    if G.bool(leave, Bind()):
                        return "with %s it stops at %d edges" % (Val(o), k)
                except (NoEval, Undef):
                    continue
    return None
