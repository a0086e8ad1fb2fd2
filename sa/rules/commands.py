"""Rules on what the commands do with their options: edits stored, searches asked for, output printed."""
import itertools
import re

from base import *
from ground import *
from rules.effects import closed, total

GCMD = "gc_core::graph_command::GraphCommand"
CON = "gc_core::constraint::constraint::Constraint"
EDGE_T = "gc_core::graph::Edge"


def VALS(o):
    return T("values", S(o))


def VAL(o):
    return T("value", S(o))


def PRES(o):
    return atom(T("present", S(o)))


def given(o):
    return isv(VALS(o), "Some")


def given1(o):
    return isv(VAL(o), "Some")


def linked(o, many=True):
    """an option that takes values is present exactly when values are given"""
    a, b = PRES(o), given(o) if many else given1(o)
    return bor(band(a, b), band(bnot(a), bnot(b)))


def vlist(o):
    return pl(VALS(o), "Some", 0)


def vone(o):
    return pl(VAL(o), "Some", 0)


def num(ty, x):
    return T("parse", ty, x)


def ids(o):
    """the numbers given for a list option"""
    return lambda i: pl(num("u64", idx(vlist(o), i)), "Ok", 0)


def forn(n, f):
    """[f(0), .., f(n-1)] as one segment"""
    p = T("pos", n, 6001)
    (x,), b = close(n, p, [f(p)])
    return T("for", n, b, T("e", TRUE, x))


# ------------------------------------------------------------------ denotation of what a command does
class Val:
    """a command line: option -> list of values (flags: [])"""

    def __init__(self, opts, results=None):
        self.o = dict(opts)
        self.o.setdefault("path", ["."])
        self.results = results or {}

    def __repr__(self):
        return " ".join("--%s %s" % (k, " ".join(v)) if v else "--" + k for k, v in sorted(self.o.items()) if k != "path")


def cli_fns(val):
    def opt(t):
        if t.args[0].op != "s":
            raise NoEval("option")
        return t.args[0].args[0]

    def values(G, t, b):
        o = opt(t)
        return some(L(val.o[o])) if val.o.get(o) else NONEV

    def value(G, t, b):
        o = opt(t)
        return some(val.o[o][0]) if val.o.get(o) else NONEV

    def present(G, t, b):
        return opt(t) in val.o

    def parse(G, t, b):
        ty, s = t.args[0], G.val(t.args[1], b)
        if not isinstance(s, str):
            raise NoEval("parse")
        x = parse_int(ty, s)
        return A("Err", "invalid digit") if x is None else A("Ok", x)

    def fn(G, t, b):
        from rules.constraints import fn_complete
        return fn_complete(["path", "score"])(G, t, b)

    def res(G, t, b):
        if t.args[0] in val.results:
            return val.results[t.args[0]]
        raise NoEval("res")
    return {"values": values, "value": value, "present": present, "parse": parse, "res": res, "fn": fn,
            "io": lambda G, t, b: A("Ok", ("io", t.id)), "stored": lambda G, t, b: A("Ok", ("tup",)),
            "utf8": lambda G, t, b: some("path"), "join": lambda G, t, b: "path"}


def trace(run, val, kinds):
    """what the command does on a command line: ([(kind, values)], outcome); NoEval when not understood"""
    return walk(run.events, Ground({}, cli_fns(val)), kinds)


def log(kind, ip, a, drop=()):
    ip.ev(kind, *[ip.deep(ip.tolist(x) if False else ip.deref(x)) for i, x in enumerate(a) if i not in drop])


def with_store(c, name):
    """the command with the write of the edits to the stored history as one event"""
    def ov(ip, a, call):
        ip.ev("store", ip.deep(ip.tolist(a[1])))
        return T("stored", len(ip.events))
    return c.run(c.F.bins[BINS[name]], ov={"gc_core::format::gcmd::add_commands": ov}) if BINS[name] in c.F.bins else None


def stored(run):
    """all the edits stored, in order, each under its condition"""
    segs = []
    for f in run.flat():
        if f.ev.kind == "store":
            if f.loops:
                return None
            for s in aslist(f.ev.args[0]).args:
                segs.append(guard_seg(s, f.ev.g))
    return LIST(*segs)


def io_ok(t):
    """the condition that every file operation the term mentions succeeds"""
    return band(*[isv(x, "Ok") for x in find_ops(t, "io")])


EDIT_OPTS = {"gc-add": ["vertex", "edge", "chain", "cycle", "star", "clique"], "gc-delete": ["vertex", "edge"]}


def pairs(f, rev):
    return (lambda a, b: f(b, a)) if rev else f


def edit_spec(name, o, rev):
    """(segments, f(list of numbers) -> list of edits) of one option"""
    V = vlist(o)
    n = length(V)
    x = ids(o)
    add_e = lambda a, b: adt(GCMD, "AddEdge", a, b)
    ge = lambda a, b: A("AddEdge", a, b)
    if name == "gc-delete":
        if o == "vertex":
            return [forn(n, lambda i: adt(GCMD, "RemoveVertex", x(i)))], lambda v: [A("RemoveVertex", y) for y in v]
        m = T("cdiv", n, INT(2))
        return [forn(m, lambda i: adt(GCMD, "RemoveEdge", x(mul(INT(2), i)), x(add(mul(INT(2), i), INT(1)))))], \
            lambda v: [A("RemoveEdge", v[i], v[i + 1]) for i in range(0, len(v), 2)]
    te, ve = pairs(add_e, rev), pairs(ge, rev)
    if o == "vertex":
        return [forn(n, lambda i: adt(GCMD, "AddVertex", x(i)))], lambda v: [A("AddVertex", y) for y in v]
    if o == "edge":
        m = T("cdiv", n, INT(2))
        return [forn(m, lambda i: te(x(mul(INT(2), i)), x(add(mul(INT(2), i), INT(1)))))], \
            lambda v: [ve(v[i], v[i + 1]) for i in range(0, len(v), 2)]
    if o == "chain":
        m = sub(n, INT(1))
        return [forn(m, lambda i: te(x(i), x(add(i, INT(1)))))], lambda v: [ve(a, b) for a, b in zip(v, v[1:])]
    if o == "cycle":
        b = T("bv", n, 0)
        full = LIST(T("for", n, b, e(x(b))), e(x(INT(0))))
        return [forn(n, lambda i: te(idx(full, i), idx(full, add(i, INT(1)))))], lambda v: [ve(a, b) for a, b in zip(v, v[1:] + v[:1])]
    if o == "star":
        m = sub(n, INT(1))
        return [forn(m, lambda i: te(x(INT(0)), x(add(i, INT(1)))))], lambda v: [ve(v[0], b) for b in v[1:]]
    if o == "clique":
        p, q = T("pos", n, 6002), T("pos", n, 6003)
        (inner,), b = close(n, q, [T("e", bnot(ieq(p, q)), add_e(x(p), x(q)))])
        (seg,), b2 = close(n, p, [T("for", n, b, inner)])
        return [T("for", n, b2, seg)], lambda v: [ge(a, b) for i, a in enumerate(v) for j, b in enumerate(v) if i != j]


LISTS = {2: [["3", "5"], ["7", "7"], ["0", "18446744073709551615"], ["18446744073709551615", "9"], ["8", "10"], ["4294967296", "3"]], 3: [["1", "2", "3"], ["9", "4", "9"]], 4: [["4", "3", "2", "1"], ["5", "6", "6", "5"], ["5", "5", "6", "7"], ["1", "2", "3", "3"]],
         1: [["8"], ["0"], ["18446744073709551615"], ["9223372036854775808"], ["4294967296"]],
         6: [["1", "2", "3", "4", "5", "6"], ["6", "5", "6", "5", "6", "5"]], 5: [["10", "20", "30", "40", "50"], ["1", "2", "3", "2", "1"]]}


def consts(r):
    """the integer constants in what the command does"""
    ks = getattr(r, "consts_", None)
    if ks is None:
        ks = set()
        for f in r.flat():
            for t in list(f.ev.args) + [f.ev.g] + [l.rec.n for l in f.loops if l.rec is not None]:
                if isinstance(t, Term):
                    ks |= ints(t)
        r.consts_ = ks
    return ks


def lengths_for(r, low=6, top=130):
    return sorted({n for k in consts(r) for n in (k - 1, k, k + 1, k + 2, k + 3) if low < n <= top} | {n for n in (12, 70) if low < n <= top})


def numbers_for(r, hi=2 ** 64 - 1, lo=0):
    """numbers next to the constants of the code and to the ends of the ranges of the integer types"""
    ks = {x for k in consts(r) for x in (k - 1, k, k + 1, -k)} | {0, 1, 255, 256, 2 ** 16, 2 ** 31, 2 ** 32 + 5, 2 ** 40, 2 ** 63 - 1, hi, lo, -3, -2 ** 40}
    return sorted(k for k in ks if lo <= k <= hi)


def lists_for(r):
    """lists of values to look at: short ones, and those whose length or ids are next to a constant of the code"""
    out = [l for ls in LISTS.values() for l in ls]
    ks = consts(r)
    for k in sorted(ks):
        for n in (k - 1, k, k + 1, k + 2, k + 3):
            if 6 < n <= 140:
                out.append([str(100 + i) for i in range(n)])
                out.append([str(100 + i // 2) for i in range(n)])
        if 1 < k < 2 ** 64 - 1:
            out += [[str(k - 1), "3"], ["3", str(k)], [str(k + 1), str(k)], [str(k), str(k)], [str(k)], ["1", "2", str(k), "3"]]
    return out


def check_edits(c, name, opts, rule, ordered):
    r = with_store(c, name)
    if r is None:
        c.bad("anchor", name, "the command %s does not exist" % name)
        return
    tot = stored(r)
    allopts = EDIT_OPTS[name]
    flags = [False, True] if name == "gc-add" else [False]
    for o in opts:
        for rev in flags:
            segs, spec = edit_spec(name, o, rev)
            text = "%s --%s%s stores exactly the documented edits" % (name, o, " --reverse" if rev else "")
            wh = r.where
            if tot is not None:
                care = band(given(o), *[bnot(given(p)) for p in allopts if p != o])
                care = band(care, PRES("reverse") if rev else bnot(PRES("reverse")), io_ok(tot), *[linked(p) for p in allopts])
                got = assume(tot, care)
                if got is LIST(*segs) or same_list(got, LIST(*segs), care):
                    c.ok(rule, wh, text)
                    continue
            vals = []
            for l in lists_for(r):
                if len(l) < (1 if o == "vertex" else 2) or (o == "edge" and len(l) % 2):
                    continue
                vals.append((Val(dict({o: l}, **({"reverse": []} if rev else {}))), [int(y) for y in l]))
            bad = refute_edits(r, vals, spec, ordered)
            if bad:
                c.bad(rule, wh, text + ": " + bad)
            else:
                c.unk(rule, wh, text)
    # options given together do not disturb each other
    text = "options of %s given together each have their own effect" % name
    done = False
    if tot is not None:
        parts = []
        care0 = band(io_ok(tot), *[linked(p) for p in allopts])
        for o in allopts:
            parts += assume(tot, band(given(o), care0, *[bnot(given(p)) for p in allopts if p != o])).args
        whole = assume(tot, band(care0, *[given(p) for p in allopts])).args
        done = sorted(x.id for x in parts) == sorted(x.id for x in whole)
    if done:
        c.ok(rule, r.where, text)
    else:
        bad = None
        combos = [dict(zip(allopts, [["1", "2"]] * len(allopts)))]
        combos += [{a: ["1", "2", "3", "4"], b: ["5", "6"]} for a in allopts for b in allopts if a != b]
        combos += [{"vertex": ["3"], b: ["5", "6"]} for b in allopts if b != "vertex"] + [{"vertex": ["5", "6", "5"], b: ["5", "6", "6", "5"]} for b in allopts if b != "vertex"]
        for cmb in combos:
            try:
                got, how = trace(r, Val(cmb), {"store"})
            except NoEval:
                continue
            want = []
            for o in allopts:
                if o in cmb:
                    want += edit_spec(name, o, False)[1]([int(y) for y in cmb[o]])
            g = [x for k in got for x in k[1]]
            if how != "ok" or set(g) != set(want):
                bad = "%s gives %s (%s)" % (Val(cmb), g, how)
                break
        if bad:
            c.bad(rule, r.where, text + ": " + bad)
        else:
            c.unk(rule, r.where, text)


def refute_edits(r, vals, spec, ordered):
    for v, ns in vals:
        try:
            got, how = trace(r, v, {"store"})
        except NoEval:
            continue
        g = [x for k in got for x in k[1]]
        w = spec(ns)
        if how != "ok" or (g != w if ordered else set(g) != set(w)):
            return "%s denotes %s (%s)" % (v, g, how)
    return None


def c13(c):
    check_edits(c, "gc-add", ["vertex", "edge"], "edits", True)
    check_edits(c, "gc-delete", ["vertex", "edge"], "edits", True)


def c14(c):
    check_edits(c, "gc-add", ["chain", "cycle", "star", "clique"], "pattern", False)


# ------------------------------------------------------------------ C15
def searches(c, name, more=None):
    """the command with loading, searching and storing as events"""
    def mk(nm):
        def f(ip, a, call):
            ip.ev("call", S(nm), *[ip.deep(ip.deref(x)) for x in a])
            return T("res", nm)
        return f

    def st(ip, a, call):
        ip.ev("store", ip.deep(ip.tolist(a[1])))
        return T("stored", len(ip.events))
    ov = {"gc_core::format::gcmd::add_commands": st,
          "gc_core::search::a_star::shortest_path": mk("shortest_path"),
          "gc_core::search::a_star::constrained_shortest_path": mk("constrained_shortest_path"),
          "gc_core::iter::iter_cycle::cycle_iter": mk("cycle_iter"),
          "gc_core::algorithm::topo_sort::topological_sort": mk("topological_sort"),
          "gc_command::graph_utils::load_graph": mk("load_graph"),
          "gc_command::graph_utils::save_graph_as_commands": mk("save_graph_as_commands"),
          "gc_command::graph_utils::clean": mk("clean"), "gc_command::graph_utils::init": mk("init")}
    ov.update(more or {})
    b = c.F.bins.get(BINS[name])
    if b is None:
        c.bad("anchor", name, "the command %s does not exist" % name)
        return None
    return c.run(b, ov=ov)


def options_parsed(run):
    """option -> (type, list?) of every number parsed from an option"""
    out = {}
    for f in run.flat():
        for t in list(f.ev.args) + [f.ev.g]:
            if not isinstance(t, Term):
                continue
            for x in find_ops(t, "parse"):
                y = x.args[1]
                il = False
                if y.op == "idx":
                    y, il = y.args[0], True
                if y.op == "pl" and y.args[0].op in ("value", "values"):
                    out[y.args[0].args[0].args[0]] = (x.args[0], il)
    return out


PAIRED = {("gc-add", "edge"), ("gc-delete", "edge"), ("gc-cycle", "include-all-edges"), ("gc-cycle", "exclude-all-edges")}
NUMERIC = {"gc-add": EDIT_OPTS["gc-add"], "gc-delete": EDIT_OPTS["gc-delete"],
           "gc-csp": ["start", "end", "include", "exclude", "ordered", "min-length", "max-length", "exact-length", "min-score",
                      "max-score", "exact-score"],
           "gc-cycle": ["take-n", "include-all", "exclude-all", "include-all-edges", "exclude-all-edges", "min-length", "max-length",
                        "exact-length", "min-score", "max-score", "exact-score"],
           "gc-short-path": ["start", "end"], "gc-random": ["vertex-count", "edge-count"]}
REQUIRED = {"gc-csp": {"start": ["1"], "end": ["2"]}, "gc-short-path": {"start": ["1"], "end": ["2"]}, "gc-random": {"vertex-count": ["5"]}}


UNSIGNED, SIGNED = ("u64", "usize"), ("i64",)


def c15(c):
    for name in ("gc-add", "gc-delete", "gc-csp", "gc-cycle", "gc-short-path", "gc-random"):
        r = searches(c, name)
        if r is None:
            continue
        parsed = options_parsed(r)
        fl = r.flat()
        for o in NUMERIC[name]:
            text = "an invalid value of --%s makes %s fail before it acts on it" % (o, name)
            il = name in ("gc-add", "gc-delete") or o in LISTOPT or o in CLISTS
            ty, il = parsed.get(o, ("u64", il))
            # the first event that uses the option for something other than failing
            acts = [f.i for f in fl if f.ev.kind in ("store", "call") and any(_about(t, o) for t in f.ev.args if isinstance(t, Term))]
            first = min(acts) if acts else 10 ** 9
            rounds = {id(f.loops[0]) for f in fl if f.i in acts and f.loops}       # a later round comes after an earlier one has acted
            fails = []
            for f in fl:
                if f.i < first and not (f.loops and id(f.loops[0]) in rounds) and (f.ev.kind == "panic" or f.ev.kind == "exit" and f.ev.args and f.ev.args[0] is not INT(0)):
                    g = closed(f, f.ev.g)
                    if g is not None:
                        fails.append(g)
            fails = bor(*fails)
            conds = []
            if o in parsed:
                if il:
                    n = length(vlist(o))
                    b = T("bv", n, 0)
                    conds.append(band(given(o), exists(n, b, bnot(isv(num(ty, idx(vlist(o), b)), "Ok")))))
                    if (name, o) in PAIRED:
                        conds.append(band(given(o), bnot(eq(T("rem", n, INT(2)), INT(0)))))
                else:
                    conds.append(band(given1(o), bnot(isv(num(ty, vone(o)), "Ok"))))
            if (name, o) == ("gc-cycle", "take-n"):
                conds = [band(k, bnot(PRES("head"))) for k in conds]
            fits = ty in (SIGNED if o.endswith("score") else UNSIGNED)
            if conds and fits and all(implies(k, fails) for k in conds):
                c.ok("invalid-value", r.where, text)
                continue
            bad = None
            tried = 0
            cases = [["x"], ["1", "x"], ["x", "2"], ["1", "2x", "3", "4"], [""], ["-1x"], ["99999999999999999999999"],
                     ["1,2"], ["1,x"], ["3", "12abc"], ["abc12", "4"], ["18446744073709551616"], ["1;2"]] if il else \
                [["x"], ["1.5"], [""], ["99999999999999999999999"], ["1,2"], ["1,x"], ["12abc"], ["abc12"], ["18446744073709551616"], ["1;2"]]
            odd = ['"5"', "'5'", "0x5", "0b1", "#5", "v5", "5_0", "(5)", "[5]", "1e3", "5.", "5.0", "\u0663", "5%", "5k", "=5", ":5", "5/1", "1-2", "--5"]
            cases += [["1", x] if il else [x] for x in odd]
            if not o.endswith("score"):
                cases += [["-1"], ["-1", "2"]] if il else [["-1"]]
            if (name, o) in PAIRED:
                cases += [["1", "2", "3"], ["1", "2", "3", "4", "5"]]
            cases = [{o: v} for v in cases] + [{o: ["x"] * (2 if il else 1), p: ["1", "2"] if parsed[p][1] else ["1"]} for p in NUMERIC[name] if p != o and p in parsed]
            for v in cases:
                val = Val(dict(REQUIRED.get(name, {}), **v), {"load_graph": A("Ok", ("graph",)), "cycle_iter": L(),
                                                                  "clean": A("Ok", ("tup",)), "init": A("Ok", ("tup",)),
                                                                  "constrained_shortest_path": NONEV, "shortest_path": NONEV,
                                                                  "save_graph_as_commands": A("Ok", ("tup",))})
                try:
                    got, how = trace(r, val, {"store"})
                except NoEval:
                    continue
                tried += 1
                if how in ("ok", "exit 0"):
                    bad = "%s is accepted" % val
                    break
                if len(v) == 1 and any(k[0] == "store" for k in got):
                    bad = "%s stores %s before failing" % (val, [k[1] for k in got if k[0] == "store"])
                    break
            if bad:
                c.bad("invalid-value", r.where, text + ": " + bad)
            else:
                c.unk("invalid-value", r.where, text)


def _about(t, o):
    return any(x.op in ("value", "values") and x.args[0].args[0] == o for x in subterms(t))


# ------------------------------------------------------------------ C27
def cadt(v, *a):
    return adt(CON, v, *a)


def n1(ty, o):
    return pl(num(ty, vone(o)), "Ok", 0)


# option -> (terms of its constraints, python constraints for a list of numbers)
CSP = {
    "include": (lambda o: [forn(length(vlist(o)), lambda i: cadt("ContainsVertex", ids(o)(i)))], lambda v: [A("ContainsVertex", x) for x in v]),
    "exclude": (lambda o: [forn(length(vlist(o)), lambda i: cadt("Not", cadt("ContainsVertex", ids(o)(i))))],
                lambda v: [A("Not", A("ContainsVertex", x)) for x in v]),
    "ordered": (lambda o: [e(cadt("OrderedVertices", LIST(forn(length(vlist(o)), ids(o)))))], lambda v: [A("OrderedVertices", L(v))]),
    "include-cycle": (lambda o: [e(cadt("ContainsCycle"))], lambda v: [A("ContainsCycle")]),
    "no-cycle": (lambda o: [e(cadt("Not", cadt("ContainsCycle")))], lambda v: [A("Not", A("ContainsCycle"))]),
    "min-length": (lambda o: [e(cadt("MinLength", n1("usize", o)))], lambda v: [A("MinLength", v[0])]),
    "max-length": (lambda o: [e(cadt("MaxLength", n1("usize", o)))], lambda v: [A("MaxLength", v[0])]),
    "exact-length": (lambda o: [e(cadt("MinLength", n1("usize", o))), e(cadt("MaxLength", n1("usize", o)))],
                     lambda v: [A("MinLength", v[0]), A("MaxLength", v[0])]),
    "min-score": (lambda o: [e(cadt("MinScore", n1("i64", o)))], lambda v: [A("MinScore", v[0])]),
    "max-score": (lambda o: [e(cadt("MaxScore", n1("i64", o)))], lambda v: [A("MaxScore", v[0])]),
    "exact-score": (lambda o: [e(cadt("MinScore", n1("i64", o))), e(cadt("MaxScore", n1("i64", o)))],
                    lambda v: [A("MinScore", v[0]), A("MaxScore", v[0])]),
}
LISTOPT = {"include", "exclude", "ordered"}
FLAGOPT = {"include-cycle", "no-cycle"}


def optgiven(o):
    return given(o) if o in LISTOPT else PRES(o) if o in FLAGOPT else given1(o)


def norm_con(x):
    """constraints up to the order of conjunction: And(a, b) counts as a, b"""
    if x[1] == "And":
        return norm_con(x[2]) | norm_con(x[3])
    if x[1] == "Not" and x[2][1] == "Not":
        return norm_con(x[2][2])
    return frozenset([x])


def norm_cons(l):
    out = frozenset()
    for x in l:
        out |= norm_con(x)
    return out


GRAPHV = A("gc_core::directed_graph::DirectedGraph", {1: L(), 2: L()})
SP = "gc_core::path::ScoredPath"
PT = "gc_core::path::Path"


def spath(c, vs, score):
    """a scored path with the fields in the order of the type"""
    a = c.F.adts.get(SP)
    fs = [f["n"] for f in a["variants"][0]["fields"]] if a else ["path", "score"]
    v = {"path": A(PT, L(vs)), "score": score}
    return A(SP, *[v.get(n) for n in fs])


def search_call(c, r, name, fn, nargs):
    evs = [f for f in r.flat() if f.ev.kind == "call" and f.ev.args[0] is S(fn)]
    if not evs:
        c.unk("search", r.where, "the search of %s" % name)
        return None
    if len(evs) != 1 or evs[0].loops or len(evs[0].ev.args) != nargs + 1:
        c.unk("search", r.where, "the search of %s" % name)
        return None
    return evs[0]


def var_(n, ty):
    from rules.values import var
    return var(n, ty)


def valid(r, name):
    """what the user gives is well-formed: the required options are there, and every number is one"""
    gs = [given1(o) for o in REQUIRED.get(name, {})] + [given1("path")]
    for o, (ty, many) in options_parsed(r).items():
        gs.append(linked(o, many))
        if many:
            n = length(vlist(o))
            q = T("pos", n, 7400)
            (wrong,), b = close(n, q, [bnot(isv(num(ty, idx(vlist(o), q)), "Ok"))])
            gs.append(bor(bnot(given(o)), bnot(exists(n, b, wrong))))
        else:
            gs.append(bor(bnot(given1(o)), isv(num(ty, vone(o)), "Ok")))
    return band(*gs)


def unsearched(r, name, ev, fn):
    """a well-formed command line on which the search is not made, or not on the graph loaded"""
    lines = [{}] + ([{o: [] if o in FLAGOPT else [str(x) for x in v]} for o in CSP for v in csp_values(r, o)[:12]] if name == "gc-csp" else [])
    big = numbers_for(r)
    for s, e_ in [(4, 9), (9, 4), (5, 5)] + [(z, 9) for z in big] + [(4, z) for z in big] + [(z, z) for z in big[-3:]]:
        for g in (GRAPHV, A("gc_core::directed_graph::DirectedGraph", {}), A("gc_core::directed_graph::DirectedGraph", {s: L(), e_: L()})):
            for o in lines if (s, e_) == (4, 9) else lines[:1]:
                val = Val(dict(o, start=[str(s)], end=[str(e_)]), {"load_graph": A("Ok", g), fn: NONEV})
                G = Ground({}, cli_fns(val))
                try:
                    if trace(r, val, {"print"})[1] not in ("ok", "exit 0"):
                        return "%s fails" % val
                    if not G.bool(ev.ev.g, Bind()):
                        return "%s makes no search" % val
                    if G.val(ev.ev.args[1]) != g:
                        return "%s searches another graph than the one loaded" % val
                except (NoEval, Undef):
                    continue
    return None


def loads_path(c, rule, r, ld, name):
    """the graph is loaded from the directory given"""
    d = Deferred(c, r.where)
    d.decide(rule, r.where, len(ld) >= 1 and all(same(f.ev.args[1], vone("path"), given1("path")) for f in ld), "%s loads the graph at --path" % name)

    def wit():
        for p in (".", "a", "a/b", "/a/b/", "..", "a b", "x" * 300):
            val = Val(dict(REQUIRED.get(name, {}), path=[p]), {})
            for f in ld:
                v = value(f.ev.args[1], {}, cli_fns(val))
                if v is not None and v != ("undef",) and isinstance(v[0], str) and v[0].rstrip("/") != p.rstrip("/"):
                    return "for --path %s it loads the graph at %s" % (p[:20], v[0][:40])
    d.finish(wit)


def check_search(c, r, name, ev, fn):
    """graph, costs and end points of the search"""
    a = ev.ev.args
    g = pl(T("res", "load_graph"), "Ok", 0)
    care = band(valid(r, name), isv(T("res", "load_graph"), "Ok"))
    d = Deferred(c, r.where)
    d.decide("search", r.where, ev.ev.g is TRUE or implies(care, ev.ev.g), "%s always searches" % name)
    d.decide("search", r.where, same(a[1], g, care), "%s searches the loaded graph" % name)
    d.finish(lambda: unsearched(r, name, ev, fn))
    p = var_("path", {"k": "adt", "p": PT})
    n = length(fld(p, 0))
    for k, want, pv, what in ((2, sub(n, INT(1)), lambda q: len(q) - 1, "cost"), (3, INT(0), lambda q: 0, "heuristic")):
        text = "the %s of the search of %s is %s" % (what, name, "the number of edges" if k == 2 else "0")
        try:
            t = r.ip.deep(r.ip.apply(a[k], [T("arg", "dg"), p]))
        except Exception:
            t = None
        d = Deferred(c, r.where)
        d.decide("search", r.where, t is not None and same(t, want, gt0(n)), text)

        def wit():
            for q in ((1,), (1, 2), (3, 2, 1), (4, 4), (0, 5, 9, 2), (1, 2, 1, 2, 1)) + tuple(tuple(range(x)) for x in around(t) if 0 < x < 3000):
                v = value(t, {p: A(PT, L(q)), T("arg", "dg"): GRAPHV})
                if v is not None and v != (pv(q),):
                    return "for the path %s it is %s" % (list(q)[:8], "a failure" if v == ("undef",) else v[0])
        d.finish(lambda: t is not None and wit())
    for k, o in ((4, "start"), (5, "end")):
        want = n1("u64", o)
        care = band(given1(o), isv(num("u64", vone(o)), "Ok"))
        if same(a[k], want, care):
            c.ok("search", r.where, "the search of %s uses --%s" % (name, o))
            continue
        bad = None
        big = numbers_for(r)
        for x, y in [(4, 9), (9, 4), (5, 5)] + [(z, 9) for z in big] + [(4, z) for z in big] + [(z, z) for z in big[-3:]]:
            for g_ in (GRAPHV, A("gc_core::directed_graph::DirectedGraph", {x: L(), y: L()})):
                val = Val({"start": [str(x)], "end": [str(y)]}, {"load_graph": A("Ok", g_), fn: NONEV})
                try:
                    v = Ground({}, cli_fns(val)).val(a[k])
                    if v != {"start": x, "end": y}[o]:
                        bad = "the %s vertex of the search of %s is %s for --start %d --end %d" % (o, name, v, x, y)
                except (NoEval, Undef):
                    pass
                if not bad:
                    try:
                        how = trace(r, val, {"print"})[1]
                        if how not in ("ok", "exit 0"):
                            bad = "%s fails (%s)" % (val, how)
                    except NoEval:
                        pass
                if bad:
                    break
            if bad:
                break
        if bad:
            c.bad("search", r.where, bad)
        else:
            c.unk("search", r.where, "the search of %s uses --%s" % (name, o))
    ld = [f for f in r.flat() if f.ev.kind == "call" and f.ev.args[0] is S("load_graph")]
    loads_path(c, "search", r, ld, name)


def check_path_output(c, r, name, fn):
    """the path found is printed, one vertex a line, with its cost; nothing of the kind when there is none"""
    res = T("res", fn)
    found = pl(res, "Some", 0)
    ok = False
    prints = [f for f in r.flat() if f.ev.kind == "print"]
    loops = [f for f in prints if f.loops and any(x is res for x in subterms(f.ev.args[0]))]
    bad = None
    tried = 0
    ks = [k for k in numbers_for(r) if 1 < k < 2000]
    for vs in [[4, 7, 9], [4], [4, 9], [9, 4], [0], [0, 18446744073709551615], [4, 5, 6, 9], list(range(1, 41)), [7, 3, 12, 1, 0, 5]] + [list(range(1, k + d)) for k in ks for d in (0, 1, 2)]:
        score = len(vs) - 1
        val = Val({"start": [str(vs[0])], "end": [str(vs[-1])]}, {"load_graph": A("Ok", GRAPHV), fn: some(spath(c, vs, score))})
        try:
            got, how = trace(r, val, {"print"})
        except NoEval:
            continue
        tried += 1
        text = "".join(x[1] for x in got)
        lines = [l.strip() for l in text.split("\n")]
        nums = [int(l) for l in lines if l.isdigit()]
        if how != "ok" or nums != vs:
            bad = "for the path %s found it prints %s" % (vs, nums)
            break
        if not any(str(score) in _ints(l) for l in lines if not l.isdigit()):
            bad = "the cost %s of the path found is not printed" % score
            break
    if not bad:
        try:
            got, how = trace(r, Val({"start": ["4"], "end": ["9"]}, {"load_graph": A("Ok", GRAPHV), fn: NONEV}), {"print"})
            text = "".join(x[1] for x in got)
            if how != "ok" or any(l.strip().isdigit() for l in text.split("\n")):
                bad = "without a path it prints %r (%s)" % (text, how)
        except NoEval:
            tried = 0
    text = "%s prints the path found, vertex by vertex, and its cost" % name
    # structural: one loop over the vertices of the path found, printing each
    want = None
    if len(loops) == 1 and len(loops[0].loops) == 1:
        f = loops[0]
        rec = f.loops[0].rec
        if rec is not None and rec.n is not None:
            a = c.F.adts.get(SP)
            fs = [x["n"] for x in a["variants"][0]["fields"]] if a else ["path", "score"]
            vs = fld(fld(found, fs.index("path") if "path" in fs else 0), 0)
            ok = rec.n is length(vs) and f.ev.args[0] is T("str", T("disp", idx(vs, rec.p)), S("\n")) and not rec.exits and \
                same(band(f.loops[0].g, f.ev.g), isv(res, "Some"), band(valid(r, name), isv(T("res", "load_graph"), "Ok")))
    if bad:
        c.bad("output", r.where, text + ": " + bad)
    elif ok or tried:
        c.ok("output", r.where, text) if ok else c.unk("output", r.where, text)
    else:
        c.unk("output", r.where, text)


def _ints(l):
    import re
    return re.findall(r"-?\d+", l)


def c27(c):
    name = "gc-csp"
    r = searches(c, name)
    if r is None:
        return
    ev = search_call(c, r, name, "constrained_shortest_path", 6)
    if ev is None:
        return
    check_search(c, r, name, ev, "constrained_shortest_path")
    tot = aslist(r.ip.tolist(ev.ev.args[6]))
    allo = list(CSP)
    for o in allo:
        segs, spec = CSP[o]
        text = "--%s contributes exactly the constraint it documents" % o
        care = band(optgiven(o), *[bnot(optgiven(p)) for p in allo if p != o])
        care = band(care, valid(r, name))
        got = assume(tot, care)
        want = LIST(*segs(o))
        if got is want or same_list(got, want, care):
            c.ok("constraint", r.where, text)
            continue
        bad = None
        tried = 0
        for vs in csp_values(r, o):
            base = {"start": ["4"], "end": ["9"]}
            base[o] = [] if o in FLAGOPT else [str(x) for x in vs]
            bad = csp_differs(r, tot, base, spec(vs), True)
            if bad:
                break
        if bad:
            c.bad("constraint", r.where, text + ": " + bad)
        else:
            c.unk("constraint", r.where, text)
    care = band(*[bnot(optgiven(p)) for p in allo])
    text = "without options the search has no constraint"
    if assume(tot, care) is EMPTY:
        c.ok("constraint", r.where, text)
    else:
        try:
            l = Ground({}, cli_fns(Val({"start": ["4"], "end": ["9"]}, {"load_graph": A("Ok", GRAPHV)}))).lst(tot, {})
            if l:
                c.bad("constraint", r.where, text + ": " + str([show_con(x) for x in l]))
            else:
                c.unk("constraint", r.where, text)
        except (NoEval, Undef):
            c.unk("constraint", r.where, text)
    care = band(valid(r, name), *[optgiven(p) for p in allo])
    parts = [s for o in allo for s in CSP[o][0](o)]
    whole = assume(tot, care).args
    text = "options given together each contribute their constraint"
    if sorted(x.id for x in whole) == sorted(x.id for x in parts):
        c.ok("constraint", r.where, text)
    else:
        bad = None
        # options that can be given together without a contradiction
        most = ["include", "ordered", "include-cycle", "min-length", "max-length", "min-score", "max-score"]
        sets = [{a: [3, 4], b: [3, 4]} for a, b in itertools.combinations(allo, 2)] + [{o: [3, 4] for o in allo}, {o: [3, 4] for o in most}]
        sets += [dict({o: [3, 4] for o in most}, exclude=[50]), dict({o: [3, 4] for o in most}, exclude=list(range(50, 60)), include=list(range(70, 80)))]
        sets += [{"include": list(range(100, 100 + n)), "exclude": list(range(500, 500 + m)), "max-length": [40]} for n in lengths_for(r, 1, 40) for m in (1, 2)]
        for st in sets:
            st = {o: v if o in LISTOPT else [] if o in FLAGOPT else [5] for o, v in st.items()}
            base = {"start": ["4"], "end": ["9"]}
            base.update({o: [str(x) for x in v] for o, v in st.items()})
            bad = csp_differs(r, tot, base, [x for o in st for x in CSP[o][1](st[o])])
            if bad:
                break
        if bad:
            c.bad("constraint", r.where, text + ": " + bad)
        else:
            c.unk("constraint", r.where, text)
    check_path_output(c, r, name, "constrained_shortest_path")


def csp_values(r, o):
    if o in FLAGOPT:
        return [[]]
    if o not in LISTOPT:
        return [[7]] + [[k] for k in (numbers_for(r, 2 ** 63 - 1, -2 ** 63) if o.endswith("score") else numbers_for(r))]
    out = [[3], [5, 2], [2, 2, 8], [0], [4], [9], [4, 9], [8, 3, 8]] + [[5, k] for k in numbers_for(r)] + [[k, 5] for k in numbers_for(r)]
    out += [list(range(100, 100 + n)) for n in lengths_for(r)] + [list(range(300, 300 - n, -1)) for n in lengths_for(r)]
    return [l for l in out if o != "ordered" or len(l) > 1]


def csp_differs(r, tot, base, want, ends=False):
    """what is wrong with the constraints of the search on a command line, or None"""
    val = Val(base, {"load_graph": A("Ok", GRAPHV), "constrained_shortest_path": NONEV})
    try:
        l = Ground({}, cli_fns(val)).lst(tot, {})
        if norm_cons(l) != norm_cons(want):
            return "%s searches with %s" % (val, [show_con(x) for x in l])
    except (NoEval, Undef):
        pass
    try:
        how = trace(r, val, {"print"})[1] if ends else "ok"
        if how not in ("ok", "exit 0"):
            return "%s fails (%s)" % (val, how)
    except NoEval:
        pass
    return None


def show_con(x):
    return x[1] + ("(%s)" % ", ".join(show_con(y) if isinstance(y, tuple) and y and y[0] == "adt" else str(y) for y in x[2:]) if len(x) > 2 else "")


# ------------------------------------------------------------------ C28
CYC = {
    "include-all": CSP["include"], "exclude-all": CSP["exclude"],
    "include-all-edges": (lambda o: [forn(T("cdiv", length(vlist(o)), INT(2)), lambda i: cadt("ContainsEdge", _pair(o, i)))], None),
    "exclude-all-edges": (lambda o: [forn(T("cdiv", length(vlist(o)), INT(2)), lambda i: cadt("Not", cadt("ContainsEdge", _pair(o, i))))], None),
    "min-length": CSP["min-length"], "max-length": CSP["max-length"], "exact-length": CSP["exact-length"],
    "min-score": CSP["min-score"], "max-score": CSP["max-score"], "exact-score": CSP["exact-score"],
}
CLISTS = {"include-all", "exclude-all", "include-all-edges", "exclude-all-edges"}
ACTIONS = ["girth", "hamiltonian", "count", "shortest", "longest", "head", "take-n", "all"]


def _pair(o, i):
    return adt(EDGE_T, "", ids(o)(mul(INT(2), i)), ids(o)(add(mul(INT(2), i), INT(1))))


def cgiven(o):
    return given(o) if o in CLISTS else given1(o)


def closes(vs, a, b):
    return any(x == a and y == b for x, y in zip(vs, vs[1:] + vs[:1]))


CYCLE_OK = {
    "include-all": lambda vs, v: all(x in vs for x in v),
    "exclude-all": lambda vs, v: not any(x in vs for x in v),
    "include-all-edges": lambda vs, v: all(closes(vs, v[i], v[i + 1]) for i in range(0, len(v), 2)),
    "exclude-all-edges": lambda vs, v: not any(closes(vs, v[i], v[i + 1]) for i in range(0, len(v), 2)),
    "min-length": lambda vs, v: len(vs) >= v[0], "max-length": lambda vs, v: len(vs) <= v[0], "exact-length": lambda vs, v: len(vs) == v[0],
    "min-score": lambda vs, v: len(vs) >= v[0], "max-score": lambda vs, v: len(vs) <= v[0], "exact-score": lambda vs, v: len(vs) == v[0],
}
CYCLE_T = "gc_core::iter::iter_cycle::Cycle"
CYCLES = [[], [[1, 2, 3]], [[4]], [[1, 2, 3], [2, 5], [1, 3, 4, 5], [6, 7]], [[1, 2, 3, 4, 5], [1, 2], [3, 4, 5]], [[2, 3], [1, 4, 3], [5]], [[1, 5, 3, 4, 2], [6, 9, 7, 8]]]
CVALUES = {"include-all": [[1], [3, 2], [2, 5]], "exclude-all": [[1], [5, 6], [3, 9]],
           "include-all-edges": [[1, 2], [3, 1], [2, 5, 5, 2], [1, 2, 2, 3, 3, 1], [5, 1], [4, 4]], "exclude-all-edges": [[1, 2], [3, 1], [5, 2, 7, 6], [2, 1], [5, 1], [4, 4]]}


def long_cycles(r):
    """one or many cycles, of lengths and numbers next to the constants of the code"""
    out = []
    for n in lengths_for(r, 4, 300):
        out.append([list(range(1, n + 1))])
        if n <= 40 or n > 250:
            out.append([[3 * i + 1, 3 * i + 2, 3 * i + 3] for i in range(n)])
    return out


def cycle_cases(r, o):
    """(cycles, values of an option)"""
    for cy in CYCLES:
        for v in CVALUES.get(o, [[1], [2], [3], [4]]):
            yield cy, v
    if o not in CLISTS:
        for k in numbers_for(r, 2 ** 63 - 1, -2 ** 63 if o.endswith("score") else 0):
            yield CYCLES[3], [k]
            if 0 < k < 130:
                yield [list(range(1, n + 1)) for n in (k - 1, k, k + 1) if n], [k]
        return
    for k in numbers_for(r):
        yield [[1, k], [k], [1, 2]] if k > 2 else [[k + 3, 2]], [k] if "edges" not in o else [1, k]
        yield [[1, 2], [2, 3, 4]], [k] if "edges" not in o else [k, 2]
    for n in lengths_for(r, 2):
        vs = list(range(1, n + 1))
        es = [x for i in range(n) for x in (vs[i], vs[(i + 1) % n])]
        yield [vs, vs[:-1], [n, n + 1], [n]], es if "edges" in o else vs
        yield [vs, [n - 1, n], [n + 7, n + 8]], ([1000 + i // 2 for i in range(2 * n - 2)] + [n - 1, n]) if "edges" in o else list(range(1000, 999 + n)) + [n]


def graph_of(cycles, extra=()):
    vs = sorted({v for cy in cycles for v in cy} | set(extra))
    return A("gc_core::directed_graph::DirectedGraph", {v: L() for v in vs})


def cycle_run(c, abstract):
    """gc-cycle; abstract: the complete check of a constraint is left uninterpreted"""
    if not abstract:
        return searches(c, "gc-cycle")
    name = "gc-cycle"

    def chk(ip, a, call):
        return atom(T("okc", ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))))
    return searches(c, name, {"gc_core::constraint::constraint::Constraint::check_complete": chk})


def strip_text(t):
    """the values a printed text is made of, without the literal parts"""
    if t.op == "phi":
        return PHI([(g, strip_text(v)) for g, v in phi_cases(t)]) if False else t
    if t.op == "str":
        return tuple(x for x in t.args if x.op != "s")
    return () if t.op == "s" else (t,)


def split_cases(t, g):
    """alternatives of a printed text as {values: condition}"""
    out = {}
    for h, v in phi_cases(t):
        h = band(g, h)
        if h is FALSE:
            continue
        k = strip_text(v)
        out[k] = bor(out.get(k, FALSE), h)
    return out


def run_cycle(r, opts, cycles, extra=()):
    """(lines of numbers printed, outcome)"""
    val = Val(opts, {"load_graph": A("Ok", graph_of(cycles, extra)), "cycle_iter": L(A(CYCLE_T, L(x)) for x in cycles)})
    got, how = trace(r, val, {"print"})
    text = "".join(x[1] for x in got)
    return [[int(x) for x in _ints(l)] for l in text.split("\n") if l.strip()], how


def action_ok(a, v, F, allc, nv, lines):
    """does the report answer the action for the filtered cycles F"""
    one = lambda ok: (any(lines[0] == x for x in ok) if ok else lines[0] == []) if len(lines) == 1 else not lines and not ok
    if a == "girth":
        return len(lines) == 1 and lines[0] == ([min(map(len, allc))] if allc else [])
    if a == "hamiltonian":
        return one([x for x in allc if len(x) == nv])
    if a == "count":
        return lines == [[len(F)]]
    if a == "shortest":
        return one([x for x in F if len(x) == min(map(len, F))])
    if a == "longest":
        return one([x for x in F if len(x) == max(map(len, F))])
    n = 1 if a == "head" else v if a == "take-n" else len(F)
    return len(lines) == min(n, len(F)) and all(x in F for x in lines) and len({tuple(x) for x in lines}) == len(lines)


def filter_spec(c, o, vs, n):
    """the condition under which a cycle passes option o, with the complete check uninterpreted"""
    a = c.F.adts.get(SP)
    fs = [f["n"] for f in a["variants"][0]["fields"]]
    b = T("bv", n, 0)
    closedp = LIST(T("src", vs), e(idx(vs, INT(0))))
    P = lambda l: adt(SP, "", *[{"path": adt(PT, "", l), "score": length(vs)}[k] for k in fs])
    out = []
    for s in CYC[o][0](o):
        conses = [s.args[1]] if s.op == "e" else [s.args[2].args[1]]
        plain = conses[0].args[1] in ("MinLength", "MaxLength")
        ok = atom(T("okc", conses[0], P(vs if plain else closedp)))
        out.append(ok if s.op == "e" else bnot(exists(s.args[0], s.args[1], bnot(ok))))
    return band(*out)


def c28(c):
    name = "gc-cycle"
    r = searches(c, name)
    if r is None:
        return
    ra = cycle_run(c, True)
    res = T("res", "cycle_iter")
    ld = [f for f in r.flat() if f.ev.kind == "call" and f.ev.args[0] is S("load_graph")]
    loads_path(c, "input", r, ld, name)
    ci = [f for f in r.flat() if f.ev.kind == "call" and f.ev.args[0] is S("cycle_iter")]
    c.decide("input", r.where, len(ci) >= 1 and all(same(f.ev.args[1], pl(T("res", "load_graph"), "Ok", 0), isv(T("res", "load_graph"), "Ok")) for f in ci),
             "%s enumerates the cycles of the loaded graph" % name, bool(ci) and all(understood(f.ev.args[1], ("ext",)) for f in ci))
    n = length(res)
    noact = lambda *a: band(*[bnot(PRES(x)) if x != "take-n" else bnot(given1(x)) for x in ACTIONS if x not in a])
    # the condition under which --all prints a cycle, from the abstracted run
    cond = pos = None
    allp = [f for f in ra.flat() if f.ev.kind == "print" and len(f.loops) == 1 and f.loops[0].rec is not None and f.loops[0].rec.n is n]
    if len(allp) == 1 and not allp[0].loops[0].rec.exits:
        care = band(PRES("all"), noact("all"))
        if same(assume(allp[0].loops[0].g, care), TRUE, care):
            pos = allp[0].loops[0].rec.p
            cond = assume(allp[0].ev.g, care)
    for o in CYC:
        text = "--%s keeps exactly the cycles that satisfy it" % o
        done = False
        if cond is not None:
            vs = fld(idx(res, pos), 0)
            care = band(cgiven(o), *[bnot(cgiven(p)) for p in CYC if p != o])
            care = band(care, lt(INT(0), length(vs)))
            done = same(assume(cond, care), filter_spec(c, o, vs, n), care)
        if done:
            c.ok("filter", r.where, text)
            continue
        bad = None
        for cy, v in cycle_cases(r, o):
            if True:
                opts = {"all": [], o: [str(x) for x in v]}
                try:
                    lines, how = run_cycle(r, opts, cy)
                except NoEval:
                    continue
                F = [x for x in cy if CYCLE_OK[o](x, v)]
                if how != "ok" or sorted(lines) != sorted(F):
                    bad = "of the cycles %s, %s prints %s (%s)" % (cy, Val(opts), lines, how)
                    break
            if bad:
                break
        if bad:
            c.bad("filter", r.where, text + ": " + bad)
        else:
            c.unk("filter", r.where, text)
    text = "constraint options given together all apply, and none is applied when none is given"
    done = False
    if cond is not None:
        vs = fld(idx(res, pos), 0)
        care = lt(INT(0), length(vs))
        want = band(*[bor(bnot(cgiven(o)), filter_spec(c, o, vs, n)) for o in CYC])
        done = same(assume(cond, care), assume(want, care), care)
    if done:
        c.ok("filter", r.where, text)
    else:
        bad = None
        sets = [{}] + [dict(zip(p, q)) for p in itertools.combinations(CYC, 2) for q in [[CVALUES.get(x, [[3]])[0] for x in p], [CVALUES.get(x, [[2]])[-1] for x in p]]]
        sets = [(st, cy) for st in sets for cy in CYCLES[3:]]
        for k in sorted({4, 6, 8} | {k for k in numbers_for(r) if 3 < k < 70}):
            cy = [list(range(1, k + 1)), list(range(1, k + 2)), list(range(2, k + 4))]
            for o in ("include-all", "exclude-all"):
                w = list(range(1, k + 1)) if o == "include-all" else list(range(101, k + 101))
                sets += [({o: w, q: [k + 1] if "length" in q or "score" in q else [1, 2]}, cy) for q in CYC if q != o]
        for st, cy in sets:
            opts = {"all": []}
            opts.update({o: [str(x) for x in v] for o, v in st.items()})
            try:
                lines, how = run_cycle(r, opts, cy)
            except NoEval:
                continue
            F = [x for x in cy if all(CYCLE_OK[o](x, v) for o, v in st.items())]
            if how != "ok" or sorted(lines) != sorted(F):
                bad = "of the cycles %s, %s prints %s (%s)" % (cy, Val(opts), lines, how)
                break
        if bad:
            c.bad("filter", r.where, text + ": " + bad)
        else:
            c.unk("filter", r.where, text)
    # actions
    for a in ACTIONS:
        text = "--%s reports what it documents" % a
        if cond is not None and action_term(ra, a, cond, pos, n, res, noact):
            c.ok("action", r.where, text)
            continue
        bad = None
        for cy in CYCLES + long_cycles(r):
            for v in ([0, 1, 2, 3] + [k for k in numbers_for(r) if k > 3] if a == "take-n" else [0]):
                for st in [{}] if a in ("girth", "hamiltonian") else [{}, {"min-length": [3]}, {"max-length": [2]}, {"include-all": [3]}]:
                    for extra in ((), (99,)) if a == "hamiltonian" else ((),):
                        opts = {a: [str(v)] if a == "take-n" else []}
                        opts.update({o: [str(x) for x in w] for o, w in st.items()})
                        try:
                            lines, how = run_cycle(r, opts, cy, extra)
                        except NoEval:
                            continue
                        F = [x for x in cy if all(CYCLE_OK[o](x, w) for o, w in st.items())]
                        nv = len({x for q in cy for x in q} | set(extra))
                        if how != "ok" or not action_ok(a, v, F, cy, nv, lines):
                            bad = "with the cycles %s, %s prints %s (%s)" % (cy, Val(opts), lines, how)
        if bad:
            c.bad("action", r.where, text + ": " + bad)
        else:
            c.unk("action", r.where, text)


def action_term(r, a, cond, pos, n, res, noact):
    """structural: the text printed under the action is made of the specified value"""
    care = band(PRES(a) if a != "take-n" else given1(a), noact(a))
    if a == "take-n":
        care = band(care, isv(num("usize", vone(a)), "Ok"))
    (cb,), b = close(n, pos, [cond])
    F = LIST(T("for", n, b, T("e", cb, idx(res, b))))
    shown = lambda cy: {LIST(T("src", fld(cy, 0))), fld(cy, 0)}
    live = []
    for f in r.flat():
        if f.ev.kind != "print":
            continue
        if f.loops:
            g = assume(band(f.loops[0].g), care)
        else:
            g = assume(f.ev.g, care)
        if g is not FALSE:
            live.append((f, g))
    if len(live) != 1:
        return False
    f, g = live[0]
    if f.loops:
        if a not in ("head", "take-n", "all") or len(f.loops) != 1 or g is not TRUE:
            return False
        rec = f.loops[0].rec
        if rec is None or rec.exits:
            return False
        t = strip_text(f.ev.args[0])
        if len(t) != 1 or t[0].op != "dbg":
            return False
        t = t[0].args[0]
        if a == "all":
            return rec.n is n and t in shown(idx(res, rec.p)) and f.ev.g is cond
        tk = T("take", F, INT(1) if a == "head" else n1("usize", a))
        l = assume(rec.n, care)
        k = assume(t, care)
        return l is length(tk) and k in shown(idx(tk, rec.p)) and assume(f.ev.g, care) is TRUE
    if g is not TRUE:
        return False
    cases = split_cases(assume(f.ev.args[0], care), TRUE)
    some_ = exists(n, b, cb)
    lens = LIST(T("for", n, b, T("e", cb, length(fld(idx(res, b), 0)))))
    alllens = LIST(T("for", n, b, e(length(fld(idx(res, b), 0)))))
    if a == "count":
        return list(cases) == [(T("disp", T("cnt", n, b, cb)),)]
    if a in ("shortest", "longest"):
        best = [T(k, F, lens) for k in (("argmin", "argmin_last") if a == "shortest" else ("argmax", "argmax_first"))]
        return _two(cases, some_, best, shown)
    if a == "hamiltonian":
        g = fld(pl(T("res", "load_graph"), "Ok", 0), 0)
        h = eq(length(fld(idx(res, b), 0)), length(T("keys", g)))
        return _two(cases, exists(n, b, h), [idx(res, T("fpos", n, b, h))], shown)
    if a == "girth":
        m = T("minof", alllens)
        care2 = bor(bnot(lt(INT(0), n)), bnot(eq(INT(0), m)))
        return all(k in ((), (T("disp", m),)) for k in cases) and same(assume(cases.get((T("disp", m),), FALSE), care2), lt(INT(0), n), care2)
    return False


def _two(cases, cond, vals, shown):
    for k, g in cases.items():
        if k == ():
            if not same(g, bnot(cond)):
                return False
        elif len(k) == 1 and k[0].op == "dbg" and any(k[0].args[0] in shown(v) for v in vals):
            if not same(g, cond):
                return False
        else:
            return False
    return True


# ------------------------------------------------------------------ graphs as values
def gval(edges, vertices=()):
    """a graph value: the adjacency map of the given edges and vertices"""
    m = {v: [] for v in vertices}
    for a, b in edges:
        for v in dict.fromkeys((a, b)):
            m.setdefault(v, []).append(A(EDGE_T, a, b))
    for e_ in edges:
        for v in e_:
            m.setdefault(v, [])
    return A("gc_core::directed_graph::DirectedGraph", {k: L(v) for k, v in m.items()})


GRAPHS = [((), ()), ((), (7,)), (((1, 2),), ()), (((1, 2), (2, 1), (3, 3)), (9,)), (((4, 2), (2, 8), (8, 4), (4, 8)), (11, 5)), (((0, 0),), ())]


# ------------------------------------------------------------------ C44
def c44(c):
    name = "gc-desc"
    r = searches(c, name)
    if r is None:
        return
    g = pl(T("res", "load_graph"), "Ok", 0)
    ld = [f for f in r.flat() if f.ev.kind == "call" and f.ev.args[0] is S("load_graph")]
    loads_path(c, "input", r, ld, name)
    spec = {}
    DGP = "gc_core::directed_graph::DirectedGraph::"
    for k, fn in (("vertices", "vertex_count"), ("edges", "edge_count")):
        q = c.run(DGP + fn, args=lambda ip: [g])
        if q is None:
            return
        spec[k] = q.ret
    ks = T("keys", fld(g, 0))
    some_ = lt(INT(0), length(ks))
    FIELDS = (("vert", lambda V, E_: [len(V)], spec["vertices"]), ("edge", lambda V, E_: [len(E_)], spec["edges"]),
              ("min", lambda V, E_: [min(V)] if V else [], "minof"), ("max", lambda V, E_: [max(V)] if V else [], "maxof"))
    prints = [f for f in r.flat() if f.ev.kind == "print"]
    for key, want, term in FIELDS:
        text = "gc-desc reports the %s of the loaded graph" % {"vert": "number of vertices", "edge": "number of edges", "min": "smallest vertex id",
                                                             "max": "greatest vertex id"}[key]
        mine = [f for f in prints if not f.loops and _label(f.ev.args[0], key)]
        done = False
        if len(mine) == 1 and mine[0].ev.g is TRUE:
            cases = split_cases(mine[0].ev.args[0], TRUE)
            if isinstance(term, Term):
                done = list(cases) == [(T("disp", term),)]
            else:
                ds = [T("disp", T(term, x)) for x in (ks, LIST(T("src", ks)))]
                done = all(k == () or len(k) == 1 and k[0] in ds for k in cases) and any(k and same(gd, some_) for k, gd in cases.items())
        if done:
            c.ok("report", r.where, text)
            continue
        bad = None
        more = [((), (k, 5)) for k in numbers_for(r) if k != 5] + [(((5, k), (k, 5)), ()) for k in numbers_for(r) if k != 5]
        more += [((), tuple(range(3, k + 4))) for k in lengths_for(r, 4, 1100)] + [(tuple((3, i) for i in range(4, k + 5)), ()) for k in lengths_for(r, 4, 1100)]
        more += [(tuple((i, 3) for i in range(4, k + 5)), ()) for k in lengths_for(r, 4, 1100)]
        for es, vs in GRAPHS + more:
            val = Val({}, {"load_graph": A("Ok", gval(es, vs))})
            val.o["path"] = ["x"]
            try:
                got, how = trace(r, val, {"print"})
            except NoEval:
                continue
            lines = [l for l in "".join(x[1] for x in got).split("\n") if _key(l) == key]
            V = sorted(set(vs) | {v for e_ in es for v in e_})
            if how != "ok" or len(lines) != 1 or [int(x) for x in _ints(lines[0])] != want(V, es):
                bad = "for the edges %s and vertices %s it prints %r (%s)" % (list(es)[:8], V[:8], lines, how)
                break
        if bad:
            c.bad("report", r.where, text + ": " + bad)
        else:
            c.unk("report", r.where, text)


def _key(l):
    l = l.lower()
    for k in ("min", "max", "edge", "vert"):
        if l.startswith(k):
            return k
    return None


def _label(t, key):
    def lit(v):
        if v.op == "s":
            return v.args[0]
        if v.op == "str" and v.args and v.args[0].op == "s":
            return v.args[0].args[0]
        return ""
    return any(_key(lit(v)) == key for _, v in phi_cases(t))


# ------------------------------------------------------------------ C22, C32: what the commands print
def c22cmd(c):
    name = "gc-short-path"
    r = searches(c, name)
    if r is None:
        return
    ev = search_call(c, r, name, "shortest_path", 5)
    if ev is None:
        return
    check_search(c, r, name, ev, "shortest_path")
    check_path_output(c, r, name, "shortest_path")


def c32cmd(c):
    name = "gc-topo-sort"
    r = searches(c, name)
    if r is None:
        return
    fn = "topological_sort"
    res = T("res", fn)
    ev = [f for f in r.flat() if f.ev.kind == "call" and f.ev.args[0] is S(fn)]
    ld = [f for f in r.flat() if f.ev.kind == "call" and f.ev.args[0] is S("load_graph")]
    g = pl(T("res", "load_graph"), "Ok", 0)
    loads_path(c, "command", r, ld, name)
    if not ev:
        c.unk("command", r.where, "%s sorts the loaded graph" % name)
        return
    c.decide("command", r.where, all(same(f.ev.args[1], g, isv(T("res", "load_graph"), "Ok")) for f in ev), "%s sorts the loaded graph" % name, all(understood(f.ev.args[1], ("ext",)) for f in ev))
    text = "%s prints the order found, or that the graph is not a DAG" % name
    loops = [f for f in r.flat() if f.ev.kind == "print" and f.loops]
    ok = False
    if len(loops) == 1 and len(loops[0].loops) == 1 and loops[0].loops[0].rec is not None:
        f, rec = loops[0], loops[0].loops[0].rec
        vs = pl(res, "Some", 0)
        ok = rec.n is length(vs) and not rec.exits and strip_text(f.ev.args[0]) == (T("disp", idx(vs, rec.p)),) and \
            f.ev.args[0].op == "str" and f.ev.args[0].args[-1].op == "s" and f.ev.args[0].args[-1].args[0] in (" ", "\n") and \
            same(band(f.loops[0].g, f.ev.g), isv(res, "Some"))
        for x in r.flat():
            if x.ev.kind == "print" and not x.loops and any(k != () for k in split_cases(x.ev.args[0], x.ev.g)):
                ok = False
    bad = None
    for vs in [None, [], [5], [3, 1, 2], [10, 11, 12, 9]] + [[4, k, 7] for k in numbers_for(r) if k not in (4, 7)] + [list(range(3, k + 4)) for k in lengths_for(r, 4, 20100)]:
        try:
            # a graph of which this is an order
            es = [(1, 2), (2, 1)] if vs is None else [] if len(vs) < 2 else list(dict.fromkeys([(vs[0], vs[1]), (vs[0], vs[-1]), (vs[-2], vs[-1])]))
            got, how = trace(r, Val({}, {"load_graph": A("Ok", gval(es, vs or ())), fn: NONEV if vs is None else some(L(vs))}), {"print"})
        except NoEval:
            continue
        t = "".join(x[1] for x in got)
        nums = [int(x) for x in _ints(t)]
        if how != "ok" or nums != (vs or []) or (vs is None) != ("not a dag" in t.lower()):
            bad = "when the sort returns %s it prints %r (%s)" % (vs[:8] if vs and len(vs) > 8 else vs, t[:80], how)
            break
    if bad:
        c.bad("command", r.where, text + ": " + bad)
    elif ok:
        c.ok("command", r.where, text)
    else:
        c.unk("command", r.where, text)


# ------------------------------------------------------------------ C45
FLAG, ONE, MANY = "flag", "value", "values"
NUM1 = ["min-length", "max-length", "exact-length", "min-score", "max-score", "exact-score"]
# what the README and the help texts document: option -> (kind, short letter, required)
OPTIONS = {
    "gc-add": {"path": (ONE, "p"), "vertex": (MANY, "v"), "edge": (MANY, "e"), "chain": (MANY, "c"), "cycle": (MANY, "O"), "star": (MANY, "X"),
               "clique": (MANY, "C"), "reverse": (FLAG, "r")},
    "gc-build": {"path": (ONE, "p"), "verbose": (None, "v")},
    "gc-clean": {"path": (ONE, "p"), "force": (FLAG, "f"), "silent": (FLAG, "s")},
    "gc-csp": dict({"path": (ONE, "p"), "start": (ONE, "s"), "end": (ONE, "e"), "include": (MANY, None), "exclude": (MANY, None),
                    "ordered": (MANY, None), "include-cycle": (FLAG, None), "no-cycle": (FLAG, None)}, **{o: (ONE, None) for o in NUM1}),
    "gc-cycle": dict({"path": (ONE, "p"), "girth": (FLAG, None), "hamiltonian": (FLAG, None), "count": (FLAG, "c"), "head": (FLAG, "h"),
                      "take-n": (ONE, "n"), "all": (FLAG, "a"), "shortest": (FLAG, "s"), "longest": (FLAG, "L"), "include-all": (MANY, None),
                      "exclude-all": (MANY, None), "include-all-edges": (MANY, None), "exclude-all-edges": (MANY, None)}, **{o: (ONE, None) for o in NUM1}),
    "gc-delete": {"path": (ONE, "p"), "vertex": (MANY, "v"), "edge": (MANY, "e")},
    "gc-desc": {"path": (ONE, "p")},
    "gc-init": {"path": (ONE, "p")},
    "gc-random": {"path": (ONE, "p"), "force": (FLAG, "f"), "vertex-count": (ONE, "v"), "edge-count": (ONE, "e"), "connected": (FLAG, "c"), "cycle": (None, "O")},
    "gc-short-path": {"path": (ONE, "p"), "start": (ONE, "s"), "end": (ONE, "e")},
    "gc-topo-sort": {"path": (ONE, "p")},
}
MUST = {("gc-csp", "start"), ("gc-csp", "end"), ("gc-short-path", "start"), ("gc-short-path", "end"), ("gc-random", "vertex-count")}


def builder(t):
    """calls of a builder, in order; None when it is not one"""
    out = []
    while t.op == "b":
        out.append((t.args[0].split("::")[-1], t.args[2:]))
        if len(t.args) < 2 or not isinstance(t.args[1], Term):
            return None
        t = t.args[1]
    out.append(("base", (t,)))
    return out[::-1]


def arg_def(t):
    """an option definition: name, long, short, takes, many, default, required; None when not understood"""
    ch = builder(t)
    if ch is None or ch[0][1][0].op != "s":
        return None
    d = {"name": ch[0][1][0].args[0], "long": None, "short": None, "takes": False, "multiple": False, "min": None, "max": None, "num": None,
         "default": None, "required": False, "other": []}

    def const(x):
        if x is TRUE or x is FALSE:
            return x is TRUE
        return x.args[0] if x.op in ("s", "int") else None
    for m, a in ch[1:]:
        v = const(a[0]) if a and isinstance(a[0], Term) else None
        if m in ("with_name", "help", "long_help", "value_name", "display_order", "hide_default_value", "empty_values"):
            continue
        if m == "multiple" and v is not None:
            d["multiple"] = v
        elif m == "takes_value" and v is not None:
            d["takes"] = v
        elif m == "required" and v is not None:
            d["required"] = v
        elif m == "long" and v is not None:
            d["long"] = v.lstrip("-")
        elif m == "short" and v is not None:
            d["short"] = v.lstrip("-")[:1]
        elif m == "default_value":
            d["default"] = v if v is not None else "?"
            d["takes"] = True
        elif m in ("min_values", "max_values", "number_of_values") and v is not None:
            d[{"min_values": "min", "max_values": "max", "number_of_values": "num"}[m]] = v
            d["takes"] = True
        else:
            d["other"].append(m)
    return d


def accepts_many(d):
    if d["num"] is not None:
        return d["num"] > 1 or d["multiple"]
    if d["max"] is not None:
        return d["max"] > 1
    return d["multiple"] or d["min"] is not None


def c45(c):
    for name, opts in OPTIONS.items():
        b = c.F.bins.get(BINS[name])
        if b is None:
            c.bad("anchor", name, "the command %s does not exist" % name)
            continue
        r = searches(c, name)
        cl = [f.ev.args[0] for f in r.flat() if f.ev.kind == "clap"]
        used = {}
        for f in r.flat():
            if f.ev.kind == "option":
                o = f.ev.args[0]
                if o.op == "s":
                    used.setdefault(o.args[0], set()).add(f.ev.args[1].args[0])
                else:
                    used = None
                    break
        if len(cl) != 1 or used is None or builder(cl[0]) is None:
            c.unk("options", r.where, "the options of %s" % name)
            continue
        defs, opaque = {}, False
        for m, a in builder(cl[0]):
            if m == "arg":
                d = arg_def(a[0])
                if d is None:
                    opaque = True
                else:
                    defs[d["name"]] = d
            elif m in ("args", "arg_from_usage", "args_from_usage", "subcommand"):
                opaque = True
        if opaque:
            c.unk("options", r.where, "the options of %s" % name)
            continue
        bylong = {d["long"]: d for d in defs.values() if d["long"]}
        byshort = {d["short"]: d for d in defs.values() if d["short"]}
        longs = [d["long"] for d in defs.values() if d["long"]]
        shorts = [d["short"] for d in defs.values() if d["short"]]
        c.decide("distinct", r.where, len(set(longs)) == len(longs) and len(set(shorts)) == len(shorts), "the options of %s have distinct names" % name)
        for o, (kind, short) in opts.items():
            w = "%s --%s" % (name, o)
            d = bylong.get(o)
            if d is None:
                c.bad("documented", w, "the documented option --%s of %s is not defined" % (o, name))
                continue
            if d["other"]:
                c.unk("documented", w, "definition of --%s of %s (%s)" % (o, name, ", ".join(d["other"])))
                continue
            if short:
                c.decide("documented", w, byshort.get(short) is d, "-%s is the short form of --%s of %s" % (short, o, name))
            acc = used.get(d["name"], set())
            c.decide("read", w, bool(acc), "--%s of %s has an effect: the command reads it" % (o, name))
            if kind == FLAG:
                c.decide("kind", w, not d["takes"], "--%s of %s takes no value" % (o, name))
            if kind in (ONE, MANY):
                c.decide("kind", w, d["takes"], "--%s of %s takes a value" % (o, name))
            if kind == MANY:
                c.decide("kind", w, accepts_many(d), "--%s of %s accepts several values" % (o, name))
                if acc:
                    c.decide("kind", w, "values" in acc, "all the values of --%s of %s are read" % (o, name))
            if kind == ONE and acc:
                c.decide("kind", w, acc & {"value", "values"}, "the value of --%s of %s is read" % (o, name))
                c.decide("kind", w, d["max"] is None or d["max"] >= 1, "--%s of %s accepts a value" % (o, name))
            if "present" in acc:
                c.decide("default", w, d["default"] is None, "--%s of %s is absent unless given" % (o, name))
            if o == "path":
                c.decide("default", w, d["default"] == ".", "--path of %s defaults to the current directory" % name, d["default"] != "?")
            else:
                c.decide("default", w, d["default"] is None or (name, o) == ("gc-random", "vertex-count"),
                         "--%s of %s has no value unless given" % (o, name))
                if (name, o) not in MUST:
                    c.decide("required", w, not d["required"], "--%s of %s is optional" % (o, name))
        for o in used:
            c.decide("defined", "%s %s" % (name, o), o in defs, "the option %s read by %s is defined" % (o, name))


# ------------------------------------------------------------------ C46
def _graph(v):
    """(vertices, edges) of a graph value"""
    m = v[2] if isinstance(v[2], dict) else {}
    return frozenset(m), frozenset((e_[2], e_[3]) for l in m.values() for e_ in l)


def c46(c):
    from rules.effects import classify

    def rd(ip, a, call):
        ip.ev("load", ip.deep(ip.deref(a[0])))
        return T("res", "read")

    def sv(ip, a, call):
        ip.ev("save", ip.deep(ip.deref(a[0])))
        return T("res", "save")

    def st(ip, a, call):
        ip.ev("store", ip.deep(ip.tolist(a[1])))
        return T("res", "store")
    ov = {"gc_core::format::gcmd::read": rd, "gc_core::format::gcmd::save": sv, "gc_core::format::gcmd::add_commands": st}
    DGT = "gc_core::directed_graph::DirectedGraph"
    g = pl(T("res", "read"), "Ok", 0)
    runs = [(c.run(GU + "rebuild_graph", ov=ov), True)]
    b = c.F.bins.get(BINS["gc-build"])
    if b is None:
        c.bad("anchor", "gc-build", "the command gc-build does not exist")
    else:
        runs.append((c.run(b, ov=ov), False))
    for r, lib in runs:
        if r is None:
            continue
        d = Deferred(c, r.where)
        fl = r.flat()
        saves = [f for f in fl if f.ev.kind == "save"]
        d.decide("rebuild", r.where, bool(saves) and all(same(f.ev.args[0], g, f.ev.g) and not f.loops for f in saves), "the graph written back is the graph read")
        d.decide("rebuild", r.where, all(implies(f.ev.g, isv(T("res", "read"), "Ok")) for f in saves), "nothing is written back when the stored graph cannot be read")
        if lib:
            okg = isv(r.ret, "Ok")
            d.decide("rebuild", r.where, same(pl(r.ret, "Ok", 0), g, okg), "the graph returned is the graph read")
            d.decide("rebuild", r.where, implies(okg, bor(*[band(f.ev.g, isv(T("res", "save"), "Ok")) for f in saves])), "success means that the graph was written back")
        d.finish(lambda: _rebuild_witness(r, lib))
    r = c.run(GU + "save_graph_as_commands", ov=ov)
    if r:
        d = Deferred(c, r.where)
        saves = [f for f in r.flat() if f.ev.kind == "save"]
        d.decide("save", r.where, bool(saves) and all(same(f.ev.args[0], T("arg", 2), f.ev.g) and not f.loops for f in saves), "the graph written is the graph given")
        d.decide("save", r.where, implies(isv(r.ret, "Ok"), bor(*[band(f.ev.g, isv(T("res", "save"), "Ok")) for f in saves])), "success means that the graph was written")
        d.finish(lambda: _save_witness(r))
    a2, a3 = T("arg", 2), T("arg", 3)
    E_ = lambda n, *x: LIST(e(adt(GCMD, n, *x)))
    each = lambda f: LIST(forn(length(a2), f))
    pair = lambda n: lambda i: adt(GCMD, n, fld(idx(a2, i), 0), fld(idx(a2, i), 1))
    one = lambda n: lambda i: adt(GCMD, n, idx(a2, i))
    nums = [0, 1, 2, 7, 2 ** 32, 2 ** 64 - 1]
    vl = [L(x) for x in ([], [4], [1, 2, 3], [3, 1, 2], [5, 5], [9, 4, 9], [2 ** 63, 0, 1], list(range(40, 0, -1)))]
    tp = lambda a, b_: ("tup", a, b_)
    el = [L(x) for x in ([], [tp(1, 2)], [tp(1, 2), tp(2, 1)], [tp(3, 3), tp(1, 2), tp(1, 2)], [tp(9, 1), tp(2, 8), tp(8, 2)], [tp(i, 50 - i) for i in range(40)])]
    for fn, spec, ins, gs in (
            ("add_vertex", E_("AddVertex", a2), [(x,) for x in nums], lambda x: [A("AddVertex", x)]),
            ("remove_vertex", E_("RemoveVertex", a2), [(x,) for x in nums], lambda x: [A("RemoveVertex", x)]),
            ("add_edge", E_("AddEdge", a2, a3), [(x, y) for x in nums for y in nums], lambda x, y: [A("AddEdge", x, y)]),
            ("add_vertices", each(one("AddVertex")), [(l,) for l in vl], lambda l: [A("AddVertex", x) for x in l]),
            ("remove_vertices", each(one("RemoveVertex")), [(l,) for l in vl], lambda l: [A("RemoveVertex", x) for x in l]),
            ("add_edges", each(pair("AddEdge")), [(l,) for l in el], lambda l: [A("AddEdge", x[1], x[2]) for x in l]),
            ("remove_edges", each(pair("RemoveEdge")), [(l,) for l in el], lambda l: [A("RemoveEdge", x[1], x[2]) for x in l])):
        r = c.run(GU + fn, ov=ov)
        if r is None:
            continue
        d = Deferred(c, r.where)
        stores = [f for f in r.flat() if f.ev.kind == "store"]
        ks = consts(r)
        big = {n for k in ks for n in (k - 1, k, k + 1, k + 2) if 40 < n < 2100} | {130}
        if ins and isinstance(ins[0][0], L):
            pairs = fn.endswith("edges")
            ins = ins + [(L(tp(i, 7 * i) if pairs else 3 * i for i in range(n)),) for n in sorted(big)]
            ins += [(L([tp(x, 5), tp(5, x), tp(x, x)] if pairs else [x, 5, x]),) for x in numbers_for(r)]
        else:
            ins = ins + [(x,) if len(t_) == 1 else (x, 5) for t_ in ins[:1] for x in numbers_for(r)] + \
                [(5, x) for x in numbers_for(r) if len(ins[0]) == 2]
        d.decide("append", r.where, len(stores) == 1 and not stores[0].loops and same(aslist(stores[0].ev.args[0]), spec, stores[0].ev.g),
                 "%s stores exactly the commands it is named after, in order" % fn)
        d.decide("append", r.where, implies(isv(r.ret, "Ok"), bor(*[band(f.ev.g, isv(T("res", "store"), "Ok")) for f in stores])), "success means that the commands were stored")
        d.finish(lambda: _append_witness(r, ins, gs))
    r = c.run(GU + "clean", ov=ov)
    if r:
        rm = [f for f in r.flat() if f.ev.kind == "io" and f.ev.args[0].args[0] == "remove_dir_all" and classify(f.ev.args[2], T("arg", 1)) == "dir"]
        files = [f for f in r.flat() if f.ev.kind == "io" and f.ev.args[0].args[0].startswith("remove")]
        need = isv(r.ret, "Ok")
        for t in list(support(need)):
            if t.op == "fexists":
                need = cofactor(need, t, True)
        done = bor(*[band(f.ev.g, isv(f.ev.args[1], "Ok")) for f in rm])
        for t in list(support(done)):
            if t.op == "fexists":
                done = cofactor(done, t, True)
        c.decide("clean", r.where, implies(need, done), "a successful clean has removed the whole graph directory",
                 understood(T("tup", need, done)) and all(not f.loops for f in files) and all(classify(f.ev.args[2], T("arg", 1)) for f in files))


def _rebuild_witness(r, lib):
    for es, vs in GRAPHS:
        G = gval(es, vs)
        val = Val({"path": ["x"]}, {"read": A("Ok", G), "save": A("Ok", ("tup",)), "store": A("Ok", ("tup",))})
        try:
            got, how = walk(r.events, Ground({}, cli_fns(val)), {"save"})
            ret = Ground({}, cli_fns(val)).val(r.ret) if lib else None
        except (NoEval, Undef):
            continue
        if how != "ok":
            continue
        seen = [_graph(x[1]) for x in got]
        if not seen or seen[-1] != _graph(G):
            return "the stored graph %s is rewritten as %s" % (_show(_graph(G)), [_show(x) for x in seen])
        if lib and (ret[1] != "Ok" or _graph(ret[2]) != _graph(G)):
            return "for the stored graph %s it returns %s" % (_show(_graph(G)), ret)
    val = Val({"path": ["x"]}, {"read": A("Err", "line 1"), "save": A("Ok", ("tup",)), "store": A("Ok", ("tup",))})
    try:
        got, how = walk(r.events, Ground({}, cli_fns(val)), {"save"})
    except (NoEval, Undef):
        return None
    if got:
        return "a stored graph that cannot be read is rewritten as %s" % [_show(_graph(x[1])) for x in got]
    return None


def _save_witness(r):
    for es, vs in GRAPHS:
        G = gval(es, vs)
        val = Val({"path": ["x"]}, {"save": A("Ok", ("tup",))})
        try:
            got, how = walk(r.events, Ground({T("arg", 2): G, T("arg", 1): "x"}, cli_fns(val)), {"save"})
        except (NoEval, Undef):
            continue
        seen = [_graph(x[1]) for x in got]
        if not seen or seen[-1] != _graph(G):
            return "%s is saved as %s (%s)" % (_show(_graph(G)), [_show(x) for x in seen], how)
    return None


def _append_witness(r, ins, spec):
    for a in ins:
        env = {T("arg", 1): "x"}
        env.update({T("arg", i + 2): v for i, v in enumerate(a)})
        try:
            got, how = walk(r.events, Ground(env, cli_fns(Val({}, {"store": A("Ok", ("tup",))}))), {"store"})
        except (NoEval, Undef):
            continue
        g = [x for k in got for x in k[1]]
        if how != "ok" or g != spec(*a):
            return "%s stores %s (%s)" % (list(a), g[:8], how)
    return None


def _show(g):
    return "{%s; %s}" % (" ".join(str(v) for v in sorted(g[0])), " ".join("%d>%d" % x for x in sorted(g[1])))
