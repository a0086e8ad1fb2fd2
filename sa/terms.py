"""Hash-consed value terms used by the value-flow analysis.

A term denotes a value computed by the analysed code in terms of its inputs.  Constructors normalise,
so that two ways of writing the same computation (a loop or an iterator chain, `len() == 0` or
`is_empty()`, ...) yield the same term.  Booleans are ordered decision diagrams over atoms, so two
guards are equal exactly when they are the same Boolean function of their atoms.
"""


class Term:
    __slots__ = ("op", "args", "id", "free")

    def __repr__(self):
        return pp(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def T(op, *args):
    key = (op,) + tuple(("#", a.id) if isinstance(a, Term) else (type(a).__name__, a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = _n[0]
        _n[0] += 1
        f = frozenset()
        for a in args:
            if isinstance(a, Term) and a.free:
                f = f | a.free if f else a.free
        if op in ("pos", "bv", "lv", "acc"):
            f = f | {t}
        t.free = f
        _tab[key] = t
    return t


# loop variable -> the abstractions of the bounded loops it was introduced for
LOOPS = {}


# ------------------------------------------------------------------ booleans
TRUE = T("true")
FALSE = T("false")
_ite = {}


def _B(a, hi, lo):
    return hi if hi is lo else T("B", a, hi, lo)


def atom(t):
    if t is TRUE or t is FALSE or t.op == "B":
        return t
    if t.op == "phi":
        return bor(*[band(g, atom(v)) for g, v in phi_cases(t)])
    return T("B", t, TRUE, FALSE)


def _top(*bs):
    return min(b.args[0].id for b in bs if b.op == "B")


_byid = {}


def _cof(b, aid):
    if b.op == "B" and b.args[0].id == aid:
        return b.args[1], b.args[2]
    return b, b


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is None:
        top = None
        for x in (c, a, b):
            if x.op == "B" and (top is None or x.args[0].id < top.id):
                top = x.args[0]
        c1, c0 = _cof(c, top.id)
        a1, a0 = _cof(a, top.id)
        b1, b0 = _cof(b, top.id)
        r = _B(top, bite(c1, a1, b1), bite(c0, a0, b0))
        _ite[k] = r
    return r


def band(*bs):
    r = TRUE
    for b in bs:
        r = bite(r, b, FALSE)
    return r


def bor(*bs):
    r = FALSE
    for b in bs:
        r = bite(r, TRUE, b)
    return r


def bnot(b):
    return bite(b, FALSE, TRUE)


def bxor(a, b):
    return bite(a, bnot(b), b)


def implies(a, b):
    return bite(a, b, TRUE) is TRUE


def support(b, acc=None):
    """atoms a guard depends on"""
    seen = set()
    out = []

    def go(x):
        if x.id in seen or x.op != "B":
            return
        seen.add(x.id)
        if x.args[0] not in out:
            out.append(x.args[0])
        go(x.args[1])
        go(x.args[2])
    go(b)
    return out


def cofactor(b, a, val):
    if b.op != "B":
        return b
    memo = {}

    def go(x):
        if x.op != "B" or x.args[0].id > a.id:
            return x
        r = memo.get(x.id)
        if r is None:
            if x.args[0] is a:
                r = x.args[1] if val else x.args[2]
            else:
                r = _B(x.args[0], go(x.args[1]), go(x.args[2]))
            memo[x.id] = r
        return r
    return go(b)


def bmap(b, f):
    """rebuild a guard with every atom a replaced by the boolean f(a)"""
    memo = {}

    def go(x):
        if x.op != "B":
            return x
        r = memo.get(x.id)
        if r is None:
            r = bite(f(x.args[0]), go(x.args[1]), go(x.args[2]))
            memo[x.id] = r
        return r
    return go(b)


def cubes(b):
    """paths to TRUE as lists of (atom, polarity)"""
    if b is TRUE:
        return [[]]
    if b is FALSE:
        return []
    a, hi, lo = b.args
    return [[(a, True)] + c for c in cubes(hi)] + [[(a, False)] + c for c in cubes(lo)]


def is_bool(t):
    return t is TRUE or t is FALSE or t.op == "B"


# ------------------------------------------------------------------ guarded values
def phi_cases(t):
    if t.op == "phi":
        a = t.args
        return [(a[i], a[i + 1]) for i in range(0, len(a), 2)]
    return [(TRUE, t)]


def phi(cases):
    acc = []
    for g, v in cases:
        if g is FALSE:
            continue
        if v.op == "phi":
            for g2, v2 in phi_cases(v):
                acc.append((band(g, g2), v2))
        else:
            acc.append((g, v))
    by = {}
    order = []
    for g, v in acc:
        if g is FALSE:
            continue
        if v.id in by:
            by[v.id] = (bor(by[v.id][0], g), v)
        else:
            by[v.id] = (g, v)
            order.append(v.id)
    out = [by[i] for i in order]
    if not out:
        return NEVER
    if len(out) > 1:
        out2 = [(g, v) for g, v in out if v is not NEVER]
        out = out2 or out
    if len(out) == 1:
        return out[0][1]
    vs = [v for _, v in out]
    if any(is_bool(v) for v in vs):
        return bor(*[band(g, atom_b(v)) for g, v in out])
    if all(v.op in ("list", "iter") for v in vs) and any(v.op == "list" for v in vs):
        r = _merge_lists(out)
        if r is not None:
            return r
    v0 = vs[0]
    if v0.op in ("adt", "tup") and all(v.op == v0.op and len(v.args) == len(v0.args) and
                                      (v.op == "tup" or v.args[:2] == v0.args[:2]) for v in vs):
        o = 2 if v0.op == "adt" else 0
        n = len(v0.args)
        if n > o:
            fs = [phi([(g, v.args[i]) for g, v in out]) for i in range(o, n)]
            return mk(v0.op, *(v0.args[:o] + tuple(fs)))
    if any(v.op == "upd" for v in vs):
        bases = set()
        keys = set()
        for v in vs:
            while v.op == "upd":
                keys.add(v.args[1])
                v = v.args[0]
            bases.add(v)
        if len(bases) == 1:
            r = bases.pop()
            for i in sorted(keys):
                r = upd(r, i, phi([(g, fld(v, i)) for g, v in out]))
            return r
    out.sort(key=lambda x: x[1].id)
    flat = []
    for g, v in out:
        flat += [g, v]
    return T("phi", *flat)


def restrict(t, ctx):
    """drop alternatives of a guarded value that the context excludes"""
    if t.op != "phi" or ctx is TRUE:
        return t
    cs = [(g, v) for g, v in phi_cases(t) if band(g, ctx) is not FALSE]
    if len(cs) == len(t.args) // 2:
        return t
    return phi(cs) if cs else t


def lift(f, *args):
    """apply f to the alternatives of guarded arguments"""
    tot = 1
    for a in args:
        if isinstance(a, Term) and a.op == "phi":
            tot *= len(a.args) // 2
    if tot == 1 or tot > 24:
        return f(*args)
    combos = [(TRUE, [])]
    for a in args:
        nxt = []
        cs = phi_cases(a) if isinstance(a, Term) else [(TRUE, a)]
        for g, vs in combos:
            for g2, v in cs:
                gg = band(g, g2)
                if gg is not FALSE:
                    nxt.append((gg, vs + [v]))
        combos = nxt
    return phi([(g, f(*vs)) for g, vs in combos])


NEVER = T("never")
UNIT = T("tup")


# ------------------------------------------------------------------ integers
def INT(n):
    return T("int", n)


def S(s):
    return T("s", s)


NONNEG = {"len", "cnt", "b2i", "pos", "bv", "setlen", "fpos", "tw", "cdiv", "nmin"}


def lin_parts(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        c = t.args[0]
        d = {}
        for i in range(1, len(t.args), 2):
            d[t.args[i]] = t.args[i + 1]
        return c, d
    return 0, {t: 1}


def lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    flat = []
    for t in sorted(d, key=lambda x: x.id):
        flat += [t, d[t]]
    return T("lin", c, *flat)


def _addk(a, b, k):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, x in db.items():
        d[t] = d.get(t, 0) + k * x
    return lin(ca + k * cb, d)


def add(a, b):
    return lift(lambda x, y: _addk(x, y, 1), a, b)


def sub(a, b):
    return lift(lambda x, y: _addk(x, y, -1), a, b)


def mul(a, b):
    def f(x, y):
        if y.op == "int":
            x, y = y, x
        if x.op == "int":
            return _addk(INT(0), y, x.args[0])
        if y.id < x.id:
            x, y = y, x
        return T("mul", x, y)
    return lift(f, a, b)


def _nonneg(t):
    return t.op in NONNEG or (t.op == "int" and t.args[0] >= 0)


def gt0(L):
    def f(L):
        c, d = lin_parts(L)
        if not d:
            return TRUE if c > 0 else FALSE
        lead = min(d, key=lambda x: x.id)
        if d[lead] < 0:
            return bnot(f(_addk(INT(1), L, -1)))
        if all(k > 0 and _nonneg(t) for t, k in d.items()):
            if c > 0:
                return TRUE
            if c == 0:
                return bor(*[_pos1(t) for t in d])
        return T("B", T("gt0", L), TRUE, FALSE)
    r = lift(f, L)
    return r if is_bool(r) else atom(r)


def _pos1(t):
    if t.op == "b2i":
        return t.args[0]
    if t.op == "cnt":
        return exists(*t.args)
    return T("B", T("gt0", t), TRUE, FALSE)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return gt0(add(sub(b, a), INT(1)))


def ieq(a, b):
    return _ieq0(sub(a, b))


def _ieq0(L):
    def f(L):
        c, d = lin_parts(L)
        if not d:
            return TRUE if c == 0 else FALSE
        lead = min(d, key=lambda x: x.id)
        if d[lead] < 0:
            return f(_addk(INT(0), L, -1))
        if all(k > 0 and _nonneg(t) for t, k in d.items()):
            if c > 0:
                return FALSE
            if c == 0:
                return bnot(gt0(L))
        if len(d) == 2 and c == 0 and sorted(d.values()) == [-1, 1]:
            x, y = sorted(d, key=lambda x: x.id)
            return T("B", T("eq", x, y), TRUE, FALSE)
        return T("B", T("eq", *sorted_pair(lin(0, d), INT(-c))), TRUE, FALSE)
    r = lift(f, L)
    return r if is_bool(r) else atom(r)


def sorted_pair(a, b):
    return (a, b) if a.id <= b.id else (b, a)


class _Hint:
    """type name of a term, for type-directed equality and dispatch"""

    def get(self, t):
        ty = type_of(t)
        return ty["p"] if ty and ty.get("k") == "adt" else None


TY = {}        # term -> type (facts format), for inputs
ADTS = {}      # adt path -> facts
_ty = {}
HINT = _Hint()


def strip_ref(ty):
    while ty and (ty.get("k") in ("ref", "ptr") or (ty.get("k") == "adt" and ty["p"] == "std::boxed::Box")):
        ty = ty.get("t") if ty.get("k") in ("ref", "ptr") else (ty.get("a") or [None])[0]
    return ty


def type_of(t):
    if t in TY:
        return TY[t]
    r = _ty.get(t.id, 0)
    if r == 0:
        _ty[t.id] = None
        r = _ty[t.id] = strip_ref(_type_of(t))
    return r


def _inst(ty, owner):
    """substitute the owner's type arguments"""
    if not ty or ty.get("k") != "param":
        return ty
    a = owner.get("a") or []
    i = ty.get("i")
    if i is not None and i < len(a):
        return a[i]
    return None


def _type_of(t):
    o = t.op
    if o == "adt":
        return {"k": "adt", "p": t.args[0]}
    if o == "upd":
        return type_of(t.args[0])
    if o == "fld":
        b = type_of(t.args[0])
        if b and b.get("k") == "adt" and b["p"] in ADTS and not ADTS[b["p"]]["enum"]:
            fs = ADTS[b["p"]]["variants"][0]["fields"]
            if t.args[1] < len(fs):
                return _inst(fs[t.args[1]]["t"], b)
        if b and b.get("k") == "tuple" and t.args[1] < len(b.get("a") or []):
            return b["a"][t.args[1]]
        return None
    if o in ("idx", "pop"):
        l = t.args[0]
        if l.op in ("g.out", "g.in", "g.edges"):
            return {"k": "adt", "p": EDGE}
        if l.op in ("rest", "uniq", "rotl"):
            l = l.args[0]
        if l.op == "lv":
            return None
        b = type_of(l)
        if b and b.get("k") == "adt" and b.get("a") and b["p"].split("::")[-1] in ("Vec", "LinkedList", "VecDeque", "HashSet", "BinaryHeap"):
            return b["a"][0]
        if b and b.get("k") in ("slice", "array"):
            return b.get("t")
        return None
    if o == "pl":
        v, var, i = t.args
        if v.op == "get":
            b = type_of(v.args[0])
            if b and b.get("k") == "adt" and len(b.get("a") or []) > 1:
                return b["a"][1]
            return None
        b = type_of(v)
        if b and b.get("k") == "adt":
            if b["p"].split("::")[-1] == "Option" and b.get("a"):
                return b["a"][0]
            if b["p"].split("::")[-1] == "Result" and b.get("a"):
                return b["a"][0 if var == "Ok" else 1]
            a = ADTS.get(b["p"])
            if a:
                for vv in a["variants"]:
                    if vv["n"] == var and i < len(vv["fields"]):
                        return _inst(vv["fields"][i]["t"], b)
    return None


EDGE = "gc_core::graph::Edge"
NUMOPS = {"int", "lin", "len", "cnt", "b2i", "pos", "bv", "mul", "div", "rem", "setlen", "fpos", "tw", "cdiv", "nmin"}


def eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if is_bool(a) and is_bool(b):
            return bnot(bxor(a, b))
        if a.op in NUMOPS or b.op in NUMOPS:
            return ieq(a, b)
        if a.op == "s" and b.op == "s":
            return FALSE
        if a.op in ("adt", "tup") and b.op == a.op:
            if a.op == "adt" and a.args[:2] != b.args[:2]:
                return FALSE
            o = 2 if a.op == "adt" else 0
            return band(*[atom_b(eq(x, y)) for x, y in zip(a.args[o:], b.args[o:])])
        if a.op in ("adt", "tup") or b.op in ("adt", "tup"):
            x, y = (a, b) if a.op in ("adt", "tup") else (b, a)
            if x.op == "tup":
                return band(*[atom_b(eq(v, fld(y, i))) for i, v in enumerate(x.args)])
            if x.args[1] == "":
                return band(*[atom_b(eq(v, fld(y, i))) for i, v in enumerate(x.args[2:])])
            return band(isv(y, x.args[1]), *[atom_b(eq(v, pl(y, x.args[1], i))) for i, v in enumerate(x.args[2:])])
        if HINT.get(a) == EDGE or HINT.get(b) == EDGE:
            return band(atom_b(eq(fld(a, 0), fld(b, 0))), atom_b(eq(fld(a, 1), fld(b, 1))))
        if a.op in ("list",) and b.op in ("list",):
            if all(x.op == "e" and x.args[0] is TRUE for x in a.args + b.args):
                if len(a.args) != len(b.args):
                    return FALSE
                return band(*[atom_b(eq(x.args[1], y.args[1])) for x, y in zip(a.args, b.args)])
        x, y = sorted_pair(a, b)
        return T("B", T("eq", x, y), TRUE, FALSE)
    r = lift(f, a, b)
    return r if is_bool(r) else atom(r)


def atom_b(t):
    return t if is_bool(t) else atom(t)


# ------------------------------------------------------------------ structures
TWO = {"None": ("Some", False), "Some": ("Some", True), "Ok": ("Ok", True), "Err": ("Ok", False),
       "Continue": ("Continue", True), "Break": ("Continue", False)}
VARIANTS = {}   # variant name -> ordered variant list of its enum (filled from the ADT facts)


def adt(ty, var, *fs):
    if var == "" and len(fs) >= 1 and fs[0].op == "fld" and fs[0].args[1] == 0:
        b = fs[0].args[0]
        if all(f.op == "fld" and f.args[0] is b and f.args[1] == i for i, f in enumerate(fs)) and HINT.get(b) == ty:
            return b
    return T("adt", ty, var, *fs)


def SOME(x):
    return adt("Option", "Some", x)


NONE = T("adt", "Option", "None")


def OK(x):
    return adt("Result", "Ok", x)


def ERR(x):
    return adt("Result", "Err", x)


def isv(t, var):
    """is enum value t the given variant"""
    def f(t):
        if t.op == "adt":
            return TRUE if t.args[1] == var else FALSE
        if t.op == "cmp":
            a, b = t.args
            return lt(a, b) if var == "Less" else lt(b, a) if var == "Greater" else eq(a, b)
        if t.op == "entry":
            h = has(t.args[1], t.args[2])
            return h if var == "Occupied" else bnot(h)
        if var in TWO:
            base, pol = TWO[var]
            b = T("B", T("is", t, base), TRUE, FALSE)
            return b if pol else bnot(b)
        vs = VARIANTS.get(var)
        if vs and len(vs) > 1:
            # chain encoding: variants are mutually exclusive and exhaustive
            g = TRUE
            for v in vs[:-1]:
                a = T("B", T("is", t, v), TRUE, FALSE)
                if v == var:
                    return band(g, a)
                g = band(g, bnot(a))
            return g
        return T("B", T("is", t, var), TRUE, FALSE)
    r = lift(f, t)
    return r if is_bool(r) else atom(r)


def pl(t, var, i):
    """payload i of enum value t known to be the given variant"""
    if t.op == "phi":
        cs = [(g, pl(v, var, i)) for g, v in phi_cases(t) if isv(v, var) is not FALSE]
        cs = [(g, v) for g, v in cs if v is not NEVER]
        return phi(cs) if cs else NEVER
    if t.op == "adt":
        if t.args[1] == var and len(t.args) > 2 + i:
            return t.args[2 + i]
        return NEVER
    if t.op == "never":
        return NEVER
    if t.op == "get" and var == "Some":
        return T("pl", t, var, i)
    return T("pl", t, var, i)


def fld(t, i):
    def f(t):
        if t.op == "tup":
            return t.args[i] if i < len(t.args) else NEVER
        if t.op == "adt":
            return t.args[2 + i] if 2 + i < len(t.args) else NEVER
        if t.op == "upd":
            b, j, v = t.args
            return v if i == j else fld(b, i)
        if t.op == "closure":
            return t.args[1 + i]
        if t.op == "idx" and t.args[0].op == "g.out" and i == 0 or t.op == "idx" and t.args[0].op == "g.in" and i == 1:
            return t.args[0].args[1]
        if t.op == "never":
            return NEVER
        return T("fld", t, i)
    return lift(f, t)


def upd(t, i, v):
    if t.op == "tup":
        a = list(t.args)
        while len(a) <= i:
            a.append(NEVER)
        a[i] = v
        return T("tup", *a)
    if t.op == "adt":
        a = list(t.args)
        while len(a) <= 2 + i:
            a.append(NEVER)
        a[2 + i] = v
        return T("adt", *a)
    if t.op == "phi":
        return phi([(g, upd(x, i, v)) for g, x in phi_cases(t)])
    if t.op == "upd":
        b, j, w = t.args
        if i == j:
            return upd(b, i, v)
        if j > i:
            return upd(upd(b, i, v), j, w)
    if v.op == "fld" and v.args[0] is t and v.args[1] == i:
        return t
    h = HINT.get(t) if t.op != "upd" else None
    if h in ADTS and not ADTS[h]["enum"]:
        n = len(ADTS[h]["variants"][0]["fields"])
        return adt(h, "", *[v if j == i else fld(t, j) for j in range(n)])
    return T("upd", t, i, v)


# ------------------------------------------------------------------ lists (vectors, sets, maps, iterators)
# a list is a concatenation of segments:
#   e(g, x)            the element x, present when g
#   src(S)             all the elements of the opaque collection S
#   for(n, seg...)     for each position bv(n,h) in 0..n, the segments
EMPTY = T("list")


def e(x, g=TRUE):
    return T("e", g, x)


def dead_seg(s):
    """a segment without elements"""
    return s.op == "e" and s.args[0] is FALSE or s.op == "for" and all(dead_seg(x) for x in s.args[2:])


def LIST(*segs):
    out = []
    for s in segs:
        if s.op == "e" and s.args[0] is FALSE:
            continue
        if s.op == "for":
            body = [x for x in s.args[2:] if not dead_seg(x)]
            if not body:
                continue
            if len(body) != len(s.args) - 2:
                s = T("for", s.args[0], s.args[1], *body)
            n = s.args[0]
            if n.op == "int" and n.args[0] <= 0:
                continue
            if len(s.args) == 3 and n.op == "len":
                q = s.args[2]
                if q.op == "e" and q.args[0] is TRUE and q.args[1] is idx(n.args[0], s.args[1]):
                    s = T("src", n.args[0])
        if s.op == "e" and out and out[-1].op == "e" and out[-1].args[1] is s.args[1] and band(out[-1].args[0], s.args[0]) is FALSE:
            s = T("e", bor(out[-1].args[0], s.args[0]), s.args[1])
            out.pop()
        out.append(s)
    return T("list", *out)


def aslist(t):
    """view a value as a list"""
    if t.op == "list":
        return t
    if t.op == "phi":
        r = _merge_lists([(g, aslist(v)) for g, v in phi_cases(t)])
        if r is not None:
            return r
    return T("list", T("src", t))


def concat(a, b):
    return LIST(*(aslist(a).args + aslist(b).args))


def guard_seg(s, g):
    if g is TRUE:
        return s
    if s.op == "e":
        return T("e", band(s.args[0], g), s.args[1])
    if s.op == "for":
        return T("for", s.args[0], s.args[1], *[guard_seg(x, g) for x in s.args[2:]])
    return guard_seg(open_src(s), g)


def open_src(s):
    """src(S) as a for"""
    if s.op != "src":
        return s
    n = length(s.args[0])
    b = T("bv", n, _maxbv(s.args[0], n))
    return T("for", n, b, T("e", TRUE, idx(s.args[0], b)))


def _merge_lists(cases):
    ls = [(g, aslist(v)) for g, v in cases]
    k = 0
    m = min(len(l.args) for _, l in ls)
    while k < m and all(l.args[k] is ls[0][1].args[k] for _, l in ls):
        k += 1
    if k == 0 and any(s.op != "e" for _, l in ls for s in l.args) and \
            sum(1 for _, l in ls if l.args and l.args[0].op == "src") > 1:
        return None
    out = list(ls[0][1].args[:k])
    for g, l in ls:
        for s in l.args[k:]:
            out.append(guard_seg(s, g))
    return LIST(*out)


def close(n, p, ts):
    """abstract the open position p of range n in the terms ts: pos -> bv"""
    h = 0
    for t in ts:
        h = max(h, _maxbv(t, n))
    b = T("bv", n, h)
    return [subst(t, {p: b}) for t in ts], b


_mb = {}


def _maxbv(t, n):
    # one more than the highest bv(n, .) occurring in t (bound or free)
    k = (t.id, n.id)
    r = _mb.get(k)
    if r is None:
        r = 0
        if t.op == "bv" and t.args[0] is n:
            r = t.args[1] + 1
        for a in t.args:
            if isinstance(a, Term):
                r = max(r, _maxbv(a, n))
        _mb[k] = r
    return r


def binder_of(s):
    """the bv bound by a for segment / exists / cnt / fpos term"""
    return s.args[1]


def length(t):
    if t.op == "list":
        r = INT(0)
        for s in t.args:
            r = add(r, seg_count(s))
        return r
    if t.op == "phi":
        return phi([(g, length(v)) for g, v in phi_cases(t)])
    if t.op == "s":
        return INT(len(t.args[0]))
    if t.op == "entries":
        return T("len", T("keys", t.args[0]))
    return T("len", t)


def seg_count(s):
    if s.op == "e":
        g = s.args[0]
        return INT(1) if g is TRUE else T("b2i", g)
    if s.op == "src":
        return length(s.args[0])
    n = s.args[0]
    leaves = s.args[2:]
    if all(l.op == "e" and l.args[0] is TRUE for l in leaves):
        return mul(n, INT(len(leaves)))
    if all(l.op == "e" for l in leaves):
        r = INT(0)
        for l in leaves:
            r = add(r, n if l.args[0] is TRUE else count(n, *rebind(s, l.args[0])))
        return r
    return T("cntfor", s)


def rebind(s, g):
    """a leaf guard of for-segment s, re-abstracted as the only body of a binder on the same range"""
    b = binder_of(s)
    p = T("pos", b.args[0], -1)
    (g2,), b2 = close(b.args[0], p, [subst(g, {b: p})])
    return b2, g2


def count(n, b, g):
    if g is FALSE:
        return INT(0)
    if g is TRUE:
        return n
    if n.op == "int":
        if n.args[0] <= 0:
            return INT(0)
    if b not in g.free:
        return phi([(g, n), (bnot(g), INT(0))])
    return T("cnt", n, b, g)


def exists(n, b, g):
    """some position b of 0..n satisfies g"""
    if g is FALSE:
        return FALSE
    if g is TRUE:
        return gt0(n)
    for a in support(g):
        if b not in a.free:
            return bite(atom(a), exists(n, b, cofactor(g, a, True)), exists(n, b, cofactor(g, a, False)))
    r = _as_in(n, g, b)
    if r is not None:
        return r
    return T("B", T("exists", n, b, g), TRUE, FALSE)


def _as_in(n, g, b):
    # exists p: S[p] == x   ->   x in S
    if n.op != "len":
        return None
    S_ = n.args[0]
    el = idx(S_, b)
    cs = cubes(g)
    if len(cs) != 1:
        return None
    got = {}
    for a, pol in cs[0]:
        if not pol or a.op != "eq":
            return None
        x, y = a.args
        for u, v in ((x, y), (y, x)):
            if b in v.free:
                continue
            if u is el:
                got[()] = v
                break
            if u.op == "fld" and u.args[0] is el:
                got[(u.args[1],)] = v
                break
        else:
            return None
    if set(got) == {()}:
        return isin(got[()], S_)
    if set(got) == {(0,), (1,)}:
        return isin(adt(EDGE, "", got[(0,)], got[(1,)]), S_)
    return None


def isin(x, S_):
    """x is an element of the collection S_"""
    def f(x, S_):
        if S_.op == "list":
            return bor(*[_in_seg(x, s) for s in S_.args])
        if S_.op == "never":
            return FALSE
        if S_.op == "keys":
            return has(S_.args[0], x)
        if S_.op == "uniq":
            return isin(x, S_.args[0])
        return T("B", T("in", x, S_), TRUE, FALSE)
    r = lift(f, x, S_)
    return r if is_bool(r) else atom(r)


def _in_seg(x, s):
    if s.op == "src":
        return isin(x, s.args[0])
    if s.op == "e":
        return band(s.args[0], eq(x, s.args[1]))
    n = s.args[0]
    if s.op == "for" and n.op == "len" and all(y.op == "e" and y.args[1] is idx(n.args[0], s.args[1]) for y in s.args[2:]):
        # a filtered collection: x is in it when x is in the collection and passes the filter
        b = s.args[1]
        gs = [subst(y.args[0], {y.args[1]: x}) for y in s.args[2:]]
        if all(b not in g.free for g in gs):
            return band(isin(x, n.args[0]), bor(*gs))
    return exists_seg(s, lambda y: eq(x, y))


_openk = [0]


def open_for(s, p):
    """segments of a for with its bound position replaced by the term p"""
    b = binder_of(s)
    return [subst(x, {b: p}) for x in s.args[2:]]


def exists_seg(s, pred):
    s = open_src(s)
    if s.op == "e":
        return band(s.args[0], atom_b(pred(s.args[1])))
    n = s.args[0]
    _openk[0] += 1
    p = T("pos", n, 1000 + _openk[0])
    body = bor(*[exists_seg(x, pred) for x in open_for(s, p)])
    (g,), b = close(n, p, [body])
    _openk[0] -= 1
    return exists(n, b, g)


def exists_list(l, pred):
    return bor(*[exists_seg(s, pred) for s in aslist(l).args])


def has(m, k):
    """map m has key k"""
    return isv(get(m, k), "Some")


def get(m, k):
    """value of key k in map m, as an Option"""
    def f(m, k):
        if m.op == "list":
            r = NONE
            for s in m.args:
                if s.op == "src":
                    r = get(s.args[0], k) if r is NONE else phi([(has(s.args[0], k), get(s.args[0], k)), (bnot(has(s.args[0], k)), r)])
                elif s.op == "e":
                    kv = s.args[1]
                    c = band(s.args[0], eq(fld(kv, 0), k))
                    r = phi([(c, SOME(fld(kv, 1))), (bnot(c), r)])
                else:
                    return T("get", m, k)
            return r
        if m.op == "mremove":
            c = eq(m.args[1], k)
            return phi([(c, NONE), (bnot(c), get(m.args[0], k))])
        return T("get", m, k)
    return lift(f, m, k)


def idx(l, i):
    """element i of list l (which has one)"""
    def f(l, i):
        if l.op == "list":
            if len(l.args) == 1 and l.args[0].op == "src":
                return idx(l.args[0].args[0], i)
            if i.op == "int" and i.args[0] >= 0:
                k = i.args[0]
                for j, s in enumerate(l.args):
                    if s.op == "e" and s.args[0] is TRUE:
                        if k == 0:
                            return s.args[1]
                        k -= 1
                        continue
                    if s.op == "for" and len(s.args) == 3 and s.args[2].op == "e" and s.args[2].args[0] is TRUE and j == len(l.args) - 1:
                        return open_for(s, INT(k))[0].args[1]
                    if s.op == "src" and j == len(l.args) - 1:
                        return idx(s.args[0], INT(k))
                    break
            if l.args:
                d = sub(length(l), i)
                s = l.args[-1]
                if d.op == "int" and d.args[0] == 1 and s.op == "e" and s.args[0] is TRUE:
                    return s.args[1]
                if len(l.args) == 1 and s.op == "for" and len(s.args) == 3 and s.args[2].op == "e" and s.args[2].args[0] is TRUE:
                    return open_for(s, i)[0].args[1]
                # prefix src/for followed by elements: position is inside the prefix when it is a position of it
                s0 = l.args[0]
                if s0.op == "src" and i.op in ("pos", "bv") and i.args[0] is length(s0.args[0]):
                    return idx(s0.args[0], i)
            return T("idx", l, i)
        if l.op == "entries":
            k = idx(T("keys", l.args[0]), i)
            return T("tup", k, pl(get(l.args[0], k), "Some", 0))
        if l.op == "never":
            return NEVER
        return T("idx", l, i)
    return lift(f, l, i)


def head(l):
    """first element as an Option"""
    l = aslist(l)
    cases = []
    rest = TRUE
    for s in l.args:
        if s.op == "e":
            cases.append((band(rest, s.args[0]), SOME(s.args[1])))
            rest = band(rest, bnot(s.args[0]))
        else:
            c, v = first_of(open_src(s), lambda x: TRUE)
            cases.append((band(rest, c), SOME(v)))
            rest = band(rest, bnot(c))
        if rest is FALSE:
            break
    cases.append((rest, NONE))
    return phi(cases)


def first_of(s, pred):
    """(exists, value) of the first element of segment s satisfying pred"""
    s = open_src(s)
    if s.op == "e":
        return band(s.args[0], atom_b(pred(s.args[1]))), s.args[1]
    n = s.args[0]
    _openk[0] += 1
    p = T("pos", n, 1000 + _openk[0])
    cs = []
    rest = TRUE
    for x in open_for(s, p):
        c, v = first_of(x, pred)
        cs.append((band(rest, c), v))
        rest = band(rest, bnot(c))
    _openk[0] -= 1
    any_ = bnot(rest)
    (g,), b = close(n, p, [any_])
    ex = exists(n, b, g)
    at = fpos(n, b, g)
    v = phi([(subst(c, {p: at}) if len(cs) > 1 else TRUE, subst(v, {p: at})) for c, v in cs])
    return ex, v


def fpos(n, b, g):
    """first position of 0..n satisfying g"""
    if g is TRUE:
        return INT(0)
    return T("fpos", n, b, g)


def rev_seg(s):
    s = open_src(s)
    if s.op == "e":
        return s
    n = s.args[0]
    p = T("pos", n, -2)
    body = [rev_seg(x) for x in reversed(open_for(s, sub(sub(n, INT(1)), p)))]
    body, b = close(n, p, body)
    return T("for", n, b, *body)


# ------------------------------------------------------------------ rebuild / substitution
def mk(op, *a):
    f = _REB.get(op)
    return f(*a) if f else T(op, *a)


def _mk_lin(c, *ps):
    r = INT(c)
    for i in range(0, len(ps), 2):
        r = add(r, mul(INT(ps[i + 1]), ps[i]))
    return r


def _mk_phi(*a):
    return phi([(a[i], a[i + 1]) for i in range(0, len(a), 2)])


_REB = {
    "B": lambda a, hi, lo: bite(atom_b(a), hi, lo),
    "phi": _mk_phi,
    "lin": _mk_lin,
    "mul": mul,
    "gt0": gt0,
    "eq": eq,
    "is": isv,
    "in": isin,
    "exists": exists,
    "cnt": count,
    "fpos": fpos,
    "len": length,
    "idx": idx,
    "get": get,
    "fld": fld,
    "pl": pl,
    "upd": upd,
    "adt": adt,
    "list": LIST,
}


def subst(t, m):
    ks = set(m)
    if not ks:
        return t
    memo = {}
    keyset = frozenset(ks)

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ("pos", "lv"):
            r = x
        elif x.args and _mentions(x, keyset):
            r = mk(x.op, *[go(a) if isinstance(a, Term) else a for a in x.args])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)


_men = {}


def _mentions(t, ks):
    key = (t.id, ks)
    r = _men.get(key)
    if r is None:
        r = t in ks
        if not r:
            for a in t.args:
                if isinstance(a, Term) and _mentions(a, ks):
                    r = True
                    break
        _men[key] = r
    return r


def mentions(t, *ks):
    return _mentions(t, frozenset(ks))


def subterms(t):
    seen = set()
    out = []

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        out.append(x)
        for a in x.args:
            if isinstance(a, Term):
                go(a)
    go(t)
    return out


def find_ops(t, *ops):
    return [x for x in subterms(t) if x.op in ops]


def opaque_in(t):
    for x in subterms(t):
        if x.op == "opq":
            return x
    return None


_uid = [0]


def OPQ(why):
    _uid[0] += 1
    return T("opq", why, _uid[0])


# ------------------------------------------------------------------ printing
def pp(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 12:
        return "…"
    o, a = t.op, t.args
    P = lambda x: pp(x, d + 1)
    if o == "true":
        return "true"
    if o == "false":
        return "false"
    if o == "B":
        at, hi, lo = a
        if hi is TRUE and lo is FALSE:
            return P(at)
        if hi is FALSE and lo is TRUE:
            return "!" + P(at)
        if lo is FALSE:
            return "(%s & %s)" % (P(at), P(hi))
        if hi is FALSE:
            return "(!%s & %s)" % (P(at), P(lo))
        if hi is TRUE:
            return "(%s | %s)" % (P(at), P(lo))
        return "(%s ? %s : %s)" % (P(at), P(hi), P(lo))
    if o == "phi":
        return "{" + "; ".join("%s when %s" % (P(v), P(g)) for g, v in phi_cases(t)) + "}"
    if o == "int":
        return str(a[0])
    if o == "s":
        return repr(a[0])
    if o == "lin":
        s = []
        for i in range(1, len(a), 2):
            s.append(("%s" if a[i + 1] == 1 else str(a[i + 1]) + "*%s") % P(a[i]))
        return "(" + " + ".join(s) + (" + %d" % a[0] if a[0] else "") + ")"
    if o == "gt0":
        return "(%s > 0)" % P(a[0])
    if o == "eq":
        return "(%s == %s)" % (P(a[0]), P(a[1]))
    if o == "is":
        return "is%s(%s)" % (a[1], P(a[0]))
    if o == "pl":
        return "%s.%s" % (P(a[0]), a[1] if a[2] == 0 else "%s%d" % (a[1], a[2]))
    if o == "fld":
        return "%s.%s" % (P(a[0]), a[1])
    if o == "adt":
        nm = a[1] or a[0].split("::")[-1]
        return nm + ("(" + ", ".join(P(x) for x in a[2:]) + ")" if len(a) > 2 else "")
    if o == "tup":
        return "(" + ", ".join(P(x) for x in a) + ")"
    if o == "list":
        return "[" + ", ".join(P(x) for x in a) + "]"
    if o == "e":
        return P(a[1]) if a[0] is TRUE else "%s if %s" % (P(a[1]), P(a[0]))
    if o == "src":
        return "*" + P(a[0])
    if o == "for":
        return "for %s<%s: " % (P(a[1]), P(a[0])) + ", ".join(P(x) for x in a[2:])
    if o == "bv":
        return "i%d" % a[1]
    if o == "pos":
        return "p%d" % a[1]
    if o == "in":
        return "(%s in %s)" % (P(a[0]), P(a[1]))
    if o == "idx":
        return "%s[%s]" % (P(a[0]), P(a[1]))
    if o == "arg":
        return str(a[0])
    if o == "ref":
        return "&" + ".".join(str(x) if not isinstance(x, Term) else P(x) for x in a)
    return o + "(" + ", ".join(P(x) for x in a) + ")"


# ------------------------------------------------------------------ guards relative to a care set
_con = {}


def constrain(f, c):
    """simplify guard f knowing that c holds (generalised cofactor)"""
    if c is TRUE or c is FALSE or f.op != "B":
        return f
    if f is c:
        return TRUE
    k = (f.id, c.id)
    r = _con.get(k)
    if r is None:
        a = f.args[0] if f.args[0].id <= c.args[0].id else c.args[0]
        f1, f0 = _cof(f, a.id)
        c1, c0 = _cof(c, a.id)
        if c1 is FALSE:
            r = constrain(f0, c0)
        elif c0 is FALSE:
            r = constrain(f1, c1)
        else:
            r = _B(a, constrain(f1, c1), constrain(f0, c0))
        _con[k] = r
    return r


def literals(g):
    """atoms whose value is fixed whenever g holds"""
    out = []
    for a in support(g):
        if cofactor(g, a, False) is FALSE:
            out.append((a, True))
        elif cofactor(g, a, True) is FALSE:
            out.append((a, False))
    return out


def assume(t, g):
    """simplify a term knowing that guard g holds"""
    if g is TRUE or g is FALSE:
        return t
    lits = {a: (TRUE if v else FALSE) for a, v in literals(g)}
    if not lits:
        return constrain(t, g) if is_bool(t) else t
    memo = {}
    ks = frozenset(lits)

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "B" and x.args[0] in lits:
            r = go(x.args[1] if lits[x.args[0]] is TRUE else x.args[2])
        elif x.args and x.op not in ("pos", "lv", "bv") and _mentions(x, ks):
            r = mk(x.op, *[go(a) if isinstance(a, Term) else a for a in x.args])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)
