"""Constraints: the complete check, the partial check and the validation of a set of constraints."""
import itertools

from base import *
from ground import *

CON = "gc_core::constraint::constraint::Constraint"
SP = "gc_core::path::ScoredPath"
PT = "gc_core::path::Path"
EDGE_T = "gc_core::graph::Edge"
COMPLETE = CON + "::check_complete"
PARTIAL = CON + "::check_partial"
BASE = ["ContainsVertex", "ContainsEdge", "OrderedVertices", "ContainsCycle", "MinLength", "MaxLength", "MinScore", "MaxScore"]
ARITY = dict({v: 1 for v in BASE}, ContainsCycle=0, Or=2, Xor=2, And=2, Not=1)


def var(name, ty=None):
    t = T("arg", name)
    if ty:
        TY[t] = ty
    return t


# ------------------------------------------------------------------ meaning of a constraint on a path (vertices, score)
def has_edge(vs, a, b):
    return any(x == a and y == b for x, y in zip(vs, vs[1:]))


def in_order(vs, o):
    pos = {v: i for i, v in enumerate(o)}
    l = [pos[v] for v in vs if v in pos]
    return l == sorted(l)


def complete(k, vs, score):
    t, a = k[1], k[2:]
    vs = list(vs)
    if t == "ContainsVertex":
        return a[0] in vs
    if t == "ContainsEdge":
        return has_edge(vs, a[0][2], a[0][3])
    if t == "OrderedVertices":
        return in_order(vs, list(a[0]))
    if t == "ContainsCycle":
        return len(set(vs)) < len(vs)
    if t == "MinLength":
        return len(vs) >= a[0]
    if t == "MaxLength":
        return len(vs) <= a[0]
    if t == "MinScore":
        return score >= a[0]
    if t == "MaxScore":
        return score <= a[0]
    s = [complete(x, vs, score) for x in a]
    return {"Or": any(s), "And": all(s), "Xor": sum(s) == 1, "Not": not s[0]}[t]


def sp_parts(v, names):
    d = dict(zip(names, v[2:]))
    return list(d["path"][2]), d["score"]


def fn_complete(names):
    """ground meaning of a recursive complete check"""
    def f(G, t, b):
        if t.args[0] != COMPLETE or len(t.args) != 3:
            raise NoEval("fn " + str(t.args[0]))
        k = G.val(t.args[1], b)
        if not (isinstance(k, tuple) and k and k[0] == "adt"):
            raise NoEval("constraint")
        vs, s = sp_parts(G.val(t.args[2], b), names)
        return complete(k, vs, s)
    return f


def sp_names(c):
    a = c.F.adts.get(SP)
    return [f["n"] for f in a["variants"][0]["fields"]] if a else ["path", "score"]


# ------------------------------------------------------------------ symbolic side
class Sym:
    """a symbolic scored path"""

    def __init__(self, c):
        names = sp_names(c)
        self.vs = var("vs")
        self.score = var("score")
        self.names = names
        self.t = adt(SP, "", *[{"path": adt(PT, "", self.vs), "score": self.score}[n] for n in names])

    def value(self, vs, score):
        return A(SP, *[{"path": A(PT, L(vs)), "score": score}[n] for n in self.names])


def payload(v):
    if v == "ContainsEdge":
        return (adt(EDGE_T, "", var("ea"), var("eb")),)
    if v == "ContainsCycle":
        return ()
    if v in ("Or", "Xor", "And"):
        return (var("k1", {"k": "adt", "p": CON}), var("k2", {"k": "adt", "p": CON}))
    if v == "Not":
        return (var("k1", {"k": "adt", "p": CON}),)
    return (var("k"),)


def spec_base(v, s, pl_):
    """specified truth of a base constraint as a term; None when it has no closed form"""
    n = length(s.vs)
    if v == "ContainsVertex":
        return isin(pl_[0], s.vs)
    if v == "ContainsEdge":
        m = sub(n, INT(1))
        p = T("pos", m, 7001)
        (g,), b = close(m, p, [band(eq(idx(s.vs, p), fld(pl_[0], 0)), eq(idx(s.vs, add(p, INT(1))), fld(pl_[0], 1)))])
        return exists(m, b, g)
    if v == "ContainsCycle":
        p = T("pos", n, 7002)
        q = T("pos", p, 7003)
        (g,), b = close(p, q, [eq(idx(s.vs, p), idx(s.vs, q))])
        (h,), b2 = close(n, p, [exists(p, b, g)])
        return exists(n, b2, h)
    if v == "MinLength":
        return le(pl_[0], n)
    if v == "MaxLength":
        return le(n, pl_[0])
    if v == "MinScore":
        return le(pl_[0], s.score)
    if v == "MaxScore":
        return le(s.score, pl_[0])
    return None


PATHS = [((), 0), ((1,), 0), ((1, 2), 3), ((2, 1), 3), ((1, 2, 3), 5), ((3, 1, 2, 3), 7), ((2, 2), 1), ((4, 5, 1, 6, 2), 4), ((1, 3, 2), -2), ((1, 2, 1), 2)]
PAY = {"ContainsVertex": [{"k": x} for x in (1, 2, 3, 9)], "ContainsEdge": [{"ea": a, "eb": b} for a, b in ((1, 2), (2, 1), (3, 1), (2, 2), (2, 3), (3, 3))],
       "OrderedVertices": [{"k": L(o)} for o in ((1, 2), (2, 1), (1, 2, 3), (3, 2, 1), (3, 1, 2), (9,), (), (6, 1, 2), (1, 6))],
       "ContainsCycle": [{}], "MinLength": [{"k": x} for x in range(0, 6)], "MaxLength": [{"k": x} for x in range(0, 6)],
       "MinScore": [{"k": x} for x in range(-3, 8)], "MaxScore": [{"k": x} for x in range(-3, 8)]}


def paths_for(*ts):
    """PATHS and paths with lengths, vertices and scores next to the constants of the terms"""
    out = list(PATHS) + [((1, 2, 3), -5), ((2, 1), -3), ((1, 1), 0), ((3, 2, 1), 0), ((0, 1), 0), ((1, 0, 1), 1)]
    for k in around(*ts)[:30]:
        if 3 < k < 1300:
            out += [(tuple(range(1, k + 1)), k - 1), (tuple(range(1, k)) + (1,), k - 1), (tuple(range(k, 0, -1)), 1)]
        if k > 6:
            out += [((k, 1, 2), k), ((1, k, 2, k), -k), ((1, 2), k), ((2, k), 3)]
    out += [((2 ** 64 - 1, 1), 2), ((1, 2 ** 64 - 1), 2 ** 62), ((1, 2, 3), -2 ** 62), ((2 ** 64 - 1, 1, 2 ** 64 - 1), 2)]
    return out


def pay_for(v, *ts):
    """PAY and payloads next to the constants of the terms"""
    ks = [k for k in around(*ts)[:30] if k > 6] + [2 ** 64 - 1]
    out = list(PAY[v])
    if v == "ContainsVertex":
        out += [{"k": 0}] + [{"k": k} for k in ks]
    elif v == "ContainsEdge":
        out += [{"ea": 1, "eb": 1}, {"ea": 0, "eb": 1}] + [{"ea": a, "eb": b} for k in ks for a, b in ((k, 1), (1, k), (k, k), (k - 1, k), (k, 2))]
    elif v == "OrderedVertices":
        out += [{"k": L(o)} for o in ((3, 1), (2, 3, 1), (0, 1), (2, 2))[:3]]
        out += [{"k": L(o)} for k in ks for o in ((k, 1), (1, k), (2, k))]
        out += [{"k": L(o)} for k in around(*ts)[:20] if 2 < k < 300 for o in (range(1, k + 1), range(k, 0, -1), list(range(3, k + 2)) + [2, 1], list(range(100000, 100000 + k)) + [2, 1])]
    elif v in ("MinLength", "MaxLength"):
        out += [{"k": k} for k in ks]
    elif v in ("MinScore", "MaxScore"):
        out += [{"k": x} for k in ks if k < 2 ** 63 for x in (k, -k)] + [{"k": 2 ** 63 - 1}, {"k": -2 ** 63}]
    return out


def conv(v, env):
    """the constraint value of a valuation of its payload"""
    if v == "ContainsEdge":
        return A(v, A(EDGE_T, env["ea"], env["eb"]))
    return A(v, *[env["k"]] if v != "ContainsCycle" else [])


def genv(s, vs, score, env):
    g = {s.vs: L(vs), s.score: score}
    for k, x in env.items():
        g[var(k)] = x
    return g


def reads(t, x, seen):
    """t mentions x outside the terms of seen"""
    return t is x or t not in seen and any(hasattr(a, "op") and reads(a, x, seen) for a in t.args)


def ordered_rule(c, rule, r, s, o, text):
    """the check of an order as a walk over the path that remembers the greatest index seen"""
    ret = r.ret
    for k in (1, 2, 3) if rule == "complete" else ():
        for f in r.flat():
            rec = f.ev.rec
            if rec is None or f.loops or len(rec.lvs) != 1 or rec.n is not sub(length(s.vs), INT(k)) or rec.lvs[0][1].op != "int":
                continue
            # all the loop and the result look at is what comes after the first k vertices
            if not any(reads(x, s.vs, {idx(s.vs, add(rec.p, INT(k))), length(s.vs)}) for x in [rec.lvs[0][2]] + [g for _, g in rec.exits]):
                own = [x for x in subterms(ret) if x.op == "exists" and rec.lvs[0][0] in subterms(x)]
                if len(own) == 1 and ret is bnot(atom(own[0])):
                    c.bad(rule, r.where, text + ": the first %s of the path is not compared: [2, 1] is accepted for the order [1, 2]" % ("vertex" if k == 1 else "%d vertices" % k))
                    return
    loops = [f for f in r.flat() if f.ev.rec is not None and f.ev.rec.n is length(s.vs) and f.ev.rec.exits and not f.loops]
    if len(loops) == 1 and len(loops[0].ev.rec.lvs) == 1:
        rec = loops[0].ev.rec
        lv, init, step, _ = rec.lvs[0]
        g = bor(*[x for _, x in rec.exits])
        gets = {x for x in find_ops(g, "get") if x.args[1] is idx(s.vs, rec.p)}
        if len(gets) == 1:
            q = gets.pop()
            n = length(o)
            b = T("bv", n, 0)
            if q.args[0] is LIST(T("for", n, b, e(T("tup", idx(o, b), b)))):
                bad = None
                und = False
                for look in (None, 0, 1, 2, 3):
                    for cur in (0, 1, 2, 3):
                        env = {q: NONEV if look is None else some(look), lv: cur, o: L((10, 11, 12, 13))}
                        x = truth(g, env)
                        st = value(step, env)
                        want = look is not None and look < cur
                        if x is None:
                            und = True
                        elif x != want:
                            bad = "a vertex of index %s after one of index %s is %s" % (look, cur, "rejected" if x else "accepted")
                        elif not want and st is None:
                            und = True
                        elif not want and st != (cur if look is None else look,):
                            bad = "after a vertex of index %s the next one is compared with %s" % (look, st[0])
                if value(init, {}) not in ((0,), None):
                    bad = bad or "the first vertex of the path is compared with index %s" % value(init, {})[0]
                if bad:
                    c.bad(rule, r.where, text + ": " + bad)
                    return
                ex = [t for t in support(ret) if t.op == "exists" and lv in subterms(t)] if ret.op == "B" else []
                if not und and init is INT(0) and len(ex) == 1:
                    if ret is bnot(atom(ex[0])):
                        c.ok(rule, r.where, text)
                        return
                    # the order test is right: what is made of it
                    for vs, sc in paths_for(ret):
                        for env in pay_for("OrderedVertices", ret):
                            ge = genv(s, vs, sc, env)
                            good = in_order(vs, list(env["k"]))
                            ge[ex[0]] = not good
                            x = truth(ret, ge)
                            if x is not None and (x != good if rule == "complete" else good and not x):
                                c.bad(rule, r.where, text + ": the path %s is %s for the order %s" % (list(vs), "accepted" if x else "rejected", list(env["k"])))
                                return
    c.unk(rule, r.where, text)


def c25(c):
    s = Sym(c)
    a = c.F.adts.get(CON)
    if a is None:
        c.bad("anchor", CON, "the constraint type does not exist")
        return
    for v in [x["n"] for x in a["variants"]]:
        if v not in ARITY:
            c.unk("complete", CON, "constraint %s is not documented here" % v)
            continue
        pv = payload(v)
        r = c.run(COMPLETE, args=lambda ip: [adt(CON, v, *pv), s.t])
        if r is None:
            return
        text = "the complete check of %s accepts exactly the paths it documents" % v
        if v in ("Or", "Xor", "And", "Not"):
            f = [atom(T("fn", COMPLETE, x, s.t)) for x in pv]
            want = {"Or": lambda: bor(*f), "And": lambda: band(*f), "Xor": lambda: bxor(*f), "Not": lambda: bnot(f[0])}[v]()
            if same(r.ret, want):
                c.ok("complete", r.where, text)
                continue
            bad = None
            for tv in itertools.product((False, True), repeat=len(f)):
                env = {T("fn", COMPLETE, x, s.t): y for x, y in zip(pv, tv)}
                x = truth(r.ret, env)
                w = {"Or": any(tv), "And": all(tv), "Xor": sum(tv) == 1, "Not": not tv[0]}[v]
                if x is not None and x != w:
                    bad = "it is %s when its parts are %s" % (x, ", ".join(map(str, tv)))
            if not bad:
                bad = nested_witness(c, r.ret, v, pv, s)
            (c.bad if bad else c.unk)("complete", r.where, text + (": " + bad if bad else ""))
            continue
        want = spec_base(v, s, pv)
        if want is not None and same(r.ret, want):
            c.ok("complete", r.where, text)
            continue
        bad = None
        for (vs, sc), env in itertools.islice(itertools.product(paths_for(r.ret), pay_for(v, r.ret)), 20000):
            if not bad:
                x = truth(r.ret, genv(s, vs, sc, env))
                if x is None:
                    continue
                if x != complete(conv(v, env), vs, sc):
                    bad = "for %s on the path %s of score %d it is %s" % (show_con(conv(v, env)), brief(vs), sc, x)
        if bad:
            c.bad("complete", r.where, text + ": " + bad)
        elif v == "OrderedVertices":
            ordered_rule(c, "complete", r, s, pv[0], text)
        else:
            c.unk("complete", r.where, text)


def nested_witness(c, ret, v, pv, s):
    """parts of a combination, with the partial check of a part by its own summary"""
    parts = {}

    def fn(G, t, b):
        k = G.val(t.args[1], b)
        vs, sc = sp_parts(G.val(t.args[2], b), s.names)
        if t.args[0] == COMPLETE:
            return complete(k, vs, sc)
        if t.args[0] != PARTIAL or k[1] not in PAY:
            raise NoEval("fn")
        if k[1] not in parts:
            parts[k[1]] = c.run(PARTIAL, args=lambda ip: [adt(CON, k[1], *payload(k[1])), s.t]).ret
        env = {"ea": k[2][2], "eb": k[2][3]} if k[1] == "ContainsEdge" else {"k": k[2]} if len(k) > 2 else {}
        x = truth(parts[k[1]], genv(s, vs, sc, env))
        if x is None:
            raise NoEval("partial")
        return x
    for t in NEST:
        kv = t(v)
        for vs, sc in PATHS:
            env = {s.vs: L(vs), s.score: sc}
            env.update(zip(pv, kv[2:]))
            x = truth(ret, env, {"fn": fn})
            if x is not None and x != complete(kv, vs, sc):
                return "for %s on the path %s of score %d it is %s" % (show_con(kv), list(vs), sc, x)
    return None


def brief(vs):
    vs = list(vs)
    return str(vs) if len(vs) < 12 else "[%s, .. %s] of %d vertices" % (", ".join(map(str, vs[:3])), vs[-1], len(vs))


def show_con(x):
    return x[1] + ("(%s)" % ", ".join(show_con(y) if isinstance(y, tuple) and y and y[0] == "adt" else str(y) for y in x[2:]) if len(x) > 2 else "")


# ------------------------------------------------------------------ C24
def may_reject(v, s, pv):
    """the partial paths a partial check of v may discard, as a term (None: no closed form)"""
    if v in ("ContainsVertex", "ContainsEdge", "ContainsCycle", "MinLength", "MinScore"):
        return FALSE
    x = spec_base(v, s, pv)
    return None if x is None else bnot(x)


def may_reject_val(v, k, vs, sc):
    if v in ("ContainsVertex", "ContainsEdge", "ContainsCycle", "MinLength", "MinScore"):
        return False
    return not complete(k, vs, sc)


def not_reject(v, s, pv):
    """.. and a partial check of Not(v)"""
    if v in ("ContainsVertex", "ContainsEdge", "ContainsCycle", "MinLength", "MinScore"):
        return spec_base(v, s, pv)
    return FALSE


def not_reject_val(v, k, vs, sc):
    if v in ("ContainsVertex", "ContainsEdge", "ContainsCycle", "MinLength", "MinScore"):
        return complete(k, vs, sc)
    return False


def complete_atom():
    return {COMPLETE: lambda ip, a, call: atom(T("fn", COMPLETE, ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))))}


def c24(c):
    s = Sym(c)
    a = c.F.adts.get(CON)
    if a is None:
        c.bad("anchor", CON, "the constraint type does not exist")
        return
    names = [x["n"] for x in a["variants"]]
    cases = []
    for v in names:
        if v in BASE:
            cases.append((v, payload(v), False))
            cases.append((v, payload(v), True))
    for v, pv, neg in cases:
        k = adt(CON, v, *pv)
        r = c.run(PARTIAL, args=lambda ip: [adt(CON, "Not", k) if neg else k, s.t])
        if r is None:
            return
        nm = "Not(%s)" % v if neg else v
        text = "the partial check of %s discards no path that can still satisfy it" % nm
        rej = (not_reject if neg else may_reject)(v, s, pv)
        if rej is not None and implies(bnot(rej), atom_b(r.ret)):
            c.ok("partial", r.where, text)
            continue
        rejv = not_reject_val if neg else may_reject_val
        bad = None
        for (vs, sc), env in itertools.islice(itertools.product(paths_for(r.ret), pay_for(v, r.ret)), 20000):
            if not bad:
                x = truth_fn(r.ret, genv(s, vs, sc, env), s)
                if x is None:
                    continue
                kv = conv(v, env)
                if v == "OrderedVertices" and neg and len(set(env["k"])) < 2:
                    continue
                if not x and not rejv(v, kv, vs, sc):
                    bad = "%s discards the partial path %s of score %d" % (show_con(A("Not", kv) if neg else kv), brief(vs), sc)
        if bad:
            c.bad("partial", r.where, text + ": " + bad)
        elif v == "OrderedVertices" and not neg:
            ordered_rule(c, "partial", r, s, pv[0], text)
        else:
            c.unk("partial", r.where, text)
    k1, k2 = payload("Or")
    p1, p2 = T("fn", PARTIAL, k1, s.t), T("fn", PARTIAL, k2, s.t)
    f1, f2 = T("fn", COMPLETE, k1, s.t), T("fn", COMPLETE, k2, s.t)
    for v in ("Or", "And", "Xor"):
        if v not in names:
            continue
        r = c.run(PARTIAL, ov=complete_atom(), args=lambda ip: [adt(CON, v, k1, k2), s.t])
        text = "the partial check of %s discards no path that can still satisfy it" % v
        # hypothesis: what the partial check of a part discards can no longer satisfy that part
        keep = {"Or": bor(atom(p1), atom(p2)), "And": band(atom(p1), atom(p2)), "Xor": bor(atom(p1), atom(p2))}[v]
        if implies(keep, atom_b(r.ret)):
            c.ok("partial", r.where, text)
            continue
        bad = None
        for a1, a2, b1, b2 in itertools.product((False, True), repeat=4):
            # parts that are still open in both directions: satisfied or not now, and either later
            env = {p1: a1, p2: a2, f1: b1, f2: b2}
            x = truth(r.ret, env)
            need = a1 and a2 if v == "And" else a1 or a2
            if (b1 and not a1) or (b2 and not a2):
                continue
            if x is False and need:
                bad = "it discards a path that the parts %s" % ("both keep" if a1 and a2 else "may still satisfy")
        for t in [] if bad else NEST:
            kv = t(v)
            for vs, sc in PATHS:
                if not bad and truth_fn(r.ret, {s.vs: L(vs), s.score: sc, k1: kv[2], k2: kv[3]}, s) is False and still(kv, vs, sc):
                    bad = "%s discards the partial path %s of score %d" % (show_con(kv), list(vs), sc)
        (c.bad if bad else c.unk)("partial", r.where, text + (": " + bad if bad else ""))
    # negated combinations
    inner = var("kn", {"k": "adt", "p": CON})
    for v in ("Or", "And", "Xor", "Not"):
        pv = payload(v)
        r = c.run(PARTIAL, args=lambda ip: [adt(CON, "Not", adt(CON, v, *pv)), s.t])
        text = "the partial check of Not(%s) discards no path that can still satisfy it" % v
        if v == "Not":
            want = atom(T("fn", PARTIAL, pv[0], s.t))
            if implies(want, atom_b(r.ret)):
                c.ok("partial", r.where, text)
                continue
        elif r.ret is TRUE:
            c.ok("partial", r.where, text)
            continue
        else:
            q = [atom(T("fn", PARTIAL, adt(CON, "Not", x), s.t)) for x in pv]
            keep = {"Or": band(*q), "And": bor(*q), "Xor": TRUE}[v]
            if implies(keep, atom_b(r.ret)):
                c.ok("partial", r.where, text)
                continue
        bad = None
        for t in NEST:
            for vs, sc in PATHS:
                env = {s.vs: L(vs), s.score: sc}
                kv = t(v)
                for x, y in zip(pv, kv[2:]):
                    env[x] = y
                got = truth_fn(r.ret, env, s)
                if got is False and still(A("Not", kv), vs, sc):
                    bad = "%s discards the partial path %s of score %d" % (show_con(A("Not", kv)), list(vs), sc)
        (c.bad if bad else c.unk)("partial", r.where, text + (": " + bad if bad else ""))


NEST = [lambda v, a=a, b=b: A(v, *([a, b][:ARITY[v]])) for a, b in (
    (A("MaxLength", 2), A("MaxScore", 4)), (A("ContainsVertex", 1), A("ContainsVertex", 9)), (A("MinLength", 4), A("ContainsVertex", 2)),
    (A("MinScore", 6), A("MinLength", 3)), (A("ContainsCycle"), A("ContainsVertex", 3)))]


def still(k, vs, sc):
    """some extension by a few vertices satisfies k"""
    for n in range(0, 4):
        for ext in itertools.product((1, 2, 3, 9), repeat=n):
            for d in (0, 3, 9):
                if complete(k, tuple(vs) + ext, sc + d):
                    return True
    return False


def truth_fn(t, env, s):
    """truth with recursive checks: complete by its meaning, partial as the most precise one"""
    def fn(G, x, b):
        k = G.val(x.args[1], b)
        vs, sc = sp_parts(G.val(x.args[2], b), s.names)
        if x.args[0] == COMPLETE:
            return complete(k, vs, sc)
        if x.args[0] == PARTIAL:
            return still(k, vs, sc)
        raise NoEval("fn")
    return truth(t, env, {"fn": fn})


# ------------------------------------------------------------------ C26
def contradiction(cs):
    V = {k[2] for k in cs if k[1] == "ContainsVertex"} | {x for k in cs if k[1] == "ContainsEdge" for x in k[2][2:]}
    E_ = {k[2] for k in cs if k[1] == "ContainsEdge"}
    N = [k[2] for k in cs if k[1] == "Not"]
    if V & {k[2] for k in N if k[1] == "ContainsVertex"} or E_ & {k[2] for k in N if k[1] == "ContainsEdge"}:
        return True
    if any(k[1] == "ContainsCycle" for k in cs) and any(k[1] == "ContainsCycle" for k in N):
        return True
    for a, b in (("MinLength", "MaxLength"), ("MinScore", "MaxScore")):
        x = [k[2] for k in cs if k[1] == a]
        y = [k[2] for k in cs if k[1] == b]
        if len(x) > 1 or len(y) > 1 or x and y and x[0] > y[0]:
            return True
    return False


def spec_invalid(cs):
    n = length(cs)

    def ex(f, d=0):
        p = T("pos", n, 7100 + d)
        (g,), b = close(n, p, [f(idx(cs, p))])
        return exists(n, b, g)

    def neg(x, v, f=lambda y: TRUE):
        y = pl(x, "Not", 0)
        return band(isv(x, "Not"), isv(y, v), f(y))
    vx = lambda t: ex(lambda y: neg(y, "ContainsVertex", lambda z: eq(pl(z, "ContainsVertex", 0), t)), 1)
    exd = lambda t: ex(lambda y: neg(y, "ContainsEdge", lambda z: eq(pl(z, "ContainsEdge", 0), t)), 1)
    out = [ex(lambda x: bor(band(isv(x, "ContainsVertex"), vx(pl(x, "ContainsVertex", 0))),
                            band(isv(x, "ContainsEdge"), bor(vx(fld(pl(x, "ContainsEdge", 0), 0)), vx(fld(pl(x, "ContainsEdge", 0), 1)))))),
           ex(lambda x: band(isv(x, "ContainsEdge"), exd(pl(x, "ContainsEdge", 0)))),
           band(ex(lambda x: isv(x, "ContainsCycle")), ex(lambda x: neg(x, "ContainsCycle")))]
    for a, b in (("MinLength", "MaxLength"), ("MinScore", "MaxScore")):
        p = T("pos", n, 7100)
        fs = []
        for v in (a, b):
            (g,), bv = close(n, p, [isv(idx(cs, p), v)])
            out.append(lt(INT(1), count(n, bv, g)))
            fs.append((exists(n, bv, g), pl(idx(cs, fpos(n, bv, g)), v, 0)))
        out.append(band(fs[0][0], fs[1][0], lt(fs[1][1], fs[0][1])))
    return out


E12, E23, E22 = A(EDGE_T, 1, 2), A(EDGE_T, 2, 3), A(EDGE_T, 2, 2)
ATOMS = [A("ContainsVertex", 1), A("ContainsVertex", 3), A("Not", A("ContainsVertex", 1)), A("Not", A("ContainsVertex", 2)), A("ContainsEdge", E12),
         A("ContainsEdge", E23), A("Not", A("ContainsEdge", E12)), A("ContainsCycle"), A("Not", A("ContainsCycle")), A("MinLength", 3), A("MaxLength", 3),
         A("MinLength", 4), A("MaxLength", 5), A("MinScore", 2), A("MaxScore", 2), A("MaxScore", 1), A("MinScore", -1), A("OrderedVertices", L((1, 2))),
         A("ContainsEdge", E22), A("Not", A("ContainsEdge", E22)), A("ContainsVertex", 2), A("MinScore", -4), A("MaxScore", -5), A("MaxScore", -1),
         A("MinLength", 0), A("MaxLength", 0), A("Not", A("ContainsEdge", A(EDGE_T, 2, 1))), A("Not", A("MinLength", 3)), A("Not", A("OrderedVertices", L((1, 2))))]


def sets_for(*ts):
    """sets of constraints: small ones, and ones with values or sizes next to the constants of the terms"""
    yield ()
    for n in (1, 2):
        yield from itertools.product(ATOMS, repeat=n)
    O = [A("OrderedVertices", L(x)) for x in ([1, 2, 1], [1, 1], [1, 2], [2, 1], [1], [], [3, 2, 1], list(range(1, 40)))]
    for n in (1, 2, 3):
        yield from itertools.product(O[:6] if n == 3 else O, repeat=n)
    for o in O:
        for x in ATOMS:
            yield from ((o, x), (x, o))
    yield tuple(O) * 3
    for k in [x for x in around(*ts) if x > 5][:24] + [2 ** 64 - 1]:
        V, N, E_ = A("ContainsVertex", k), A("Not", A("ContainsVertex", k)), A("ContainsEdge", A(EDGE_T, k, 1))
        yield from ((V, N), (N, V), (E_, N), (N, E_), (V, A("Not", E_)), (E_, A("Not", E_)), (A("MinLength", k), A("MaxLength", k - 1)),
                    (A("MinLength", k), A("MaxLength", k)), (A("MinLength", k), A("MaxLength", 2)), (A("MinLength", 2), A("MaxLength", k)))
        if k < 2 ** 63:
            yield from ((A("MinScore", k), A("MaxScore", k - 1)), (A("MinScore", k), A("MaxScore", k)), (A("MinScore", -k), A("MaxScore", k)),
                        (A("MinScore", -k + 1), A("MaxScore", -k)), (A("MinScore", 0), A("MaxScore", -k)))
        if k < 1200:
            fill = tuple(A("ContainsVertex", 100 + i) for i in range(k - 1))
            for x in ((A("Not", A("ContainsVertex", 100)),), (A("ContainsVertex", 1), A("Not", A("ContainsVertex", 1))), (A("MinLength", 3), A("MaxLength", 2)), ()):
                yield fill + x
                yield x + fill
    yield from itertools.combinations(ATOMS, 3)


def c26(c):
    cs = var("cs", {"k": "adt", "p": "std::vec::Vec", "a": [{"k": "adt", "p": CON}]})
    r = c.run("gc_core::constraint::checker::validate", args=lambda ip: [cs])
    if r is None:
        return
    text = "validation rejects exactly the contradictory sets"
    err = bor(*[g for g, v in phi_cases(r.ret) if v.op == "adt" and v.args[1] == "Err"])
    out = spec_invalid(cs)
    dis = sum(1 for g, v in phi_cases(r.ret) if v.op != "adt")
    pan = [f for f in r.flat() if f.ev.kind == "panic"]
    if not dis and not pan and same(err, bor(*out)):
        c.ok("validate", r.where, text)
        for o in out:
            c.ok("validate", r.where, "condition " + pp(o)[:160])
        return
    bad = None
    for cv in sets_for(r.ret):
        x = value(isv(r.ret, "Err"), {cs: L(cv)})
        if x is None:
            continue
        w = contradiction(cv)
        if x == ("undef",):
            bad = "it fails on [%s]" % ", ".join(map(show_con, cv[:12]))
            break
        if x[0] != w:
            bad = "[%s] is %s" % (", ".join(map(show_con, cv if len(cv) < 12 else cv[:2] + cv[-2:])), "rejected" if x[0] else "accepted")
            break
    (c.bad if bad else c.unk)("validate", r.where, text + (": " + bad if bad else ""))
