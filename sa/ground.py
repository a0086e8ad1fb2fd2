"""Denotation of summary terms on given values of their inputs.

Used only to tell two summaries apart: when a summary is not syntactically the specified one, the rule reports a
violation only if the two terms denote different values for some valuation of their inputs; without such a valuation
the obligation is left undecided.  Nothing of the analysed code is run: the terms are the closed forms that the
value-flow analysis derived from the source.
"""
import functools
import re
import struct

from strings import *
from terms import *


class NoEval(Exception):
    """the term contains something without a denotation here"""


class Undef(Exception):
    """the term denotes no value for this valuation (a panic or an impossible case)"""


class L(tuple):
    """a list"""
    __slots__ = ()

    def __repr__(self):
        return "[" + ", ".join(map(repr, self)) + "]"


def A(tag, *fs):
    return ("adt", tag) + fs


NONEV = A("None")


def some(x):
    return A("Some", x)


BITS = {"usize": 64, "isize": 64}


def parse_int(ty, s):
    """str::parse for the integer types: the number, or None when it is refused"""
    m = re.fullmatch(r"([ui])(8|16|32|64|128|size)", ty)
    if ty in ("f64", "f32") and re.fullmatch("[+-]?[0-9]+", s, re.ASCII):
        return tofloat(int(s), ty)
    if not m:
        raise NoEval("parse " + ty)
    bits = BITS.get(ty) or int(m.group(2))
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1)) if m.group(1) == "i" else (0, 2 ** bits)
    if not re.fullmatch(r"[+-]?[0-9]+" if lo else r"[+]?[0-9]+", s, re.ASCII):
        return None
    return int(s) if lo <= int(s) < hi else None


def lv_siblings(lv):
    """the variables of the loop of lv"""
    return [x[0] for r in LOOPS.get(lv) or () for x in r.lvs]


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}


class Bind(dict):
    """values of bound variables; remembers what was evaluated under them"""
    __slots__ = ("memo",)

    def __init__(self, b=(), *kv):
        dict.__init__(self, b)
        for k, v in kv:
            self[k] = v
        self.memo = {}


class Ground:
    def __init__(self, env, fns=None):
        self.env = env          # term -> value
        self.fns = fns or {}    # op -> f(ground, term, benv)
        self.memo = {}

    def val(self, t, b=None):
        b = b if b is not None else Bind()
        memo = self.memo if not b or t.free.isdisjoint(b) else b.memo
        k = t.id
        if k in memo:
            r = memo[k]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._val(t, b)
        except (NoEval, Undef) as ex:
            memo[k] = ex
            raise
        memo[k] = r
        return r

    def bool(self, t, b):
        r = self.val(t, b)
        if not isinstance(r, bool):
            raise NoEval("not a boolean: %s" % pp(t)[:80])
        return r

    def lst(self, t, b):
        r = self.val(t, b)
        if isinstance(r, L):
            return r
        if isinstance(r, dict):
            return L(("tup", k, v) for k, v in r.items())
        if isinstance(r, str):
            return L(r)
        if isinstance(r, tuple) and r[:1] == ("adt",) and r[1] in ("Some", "Ok", "None", "Err"):
            return L(r[2:3]) if r[1] in ("Some", "Ok") else L()
        raise NoEval("not a list: %s" % pp(t)[:80])

    def segs(self, s, b, out):
        if s.op == "e":
            if self.bool(s.args[0], b):
                out.append(self.val(s.args[1], b))
        elif s.op == "src":
            out += self.lst(s.args[0], b)
        elif s.op == "for":
            try:
                n = self.val(s.args[0], b)
            except Undef:
                n = 0       # payload of an alternative that is not taken: the guards of the segment are false
            for i in range(max(n, 0)):
                b2 = Bind(b, (s.args[1], i))
                for x in s.args[2:]:
                    self.segs(x, b2, out)
        else:
            raise NoEval("segment " + s.op)

    def left_loop(self, lv, b):
        """the bounded loop with early exits that the variable belongs to"""
        if any(x.op == "lv" and x in b for x in lv_siblings(lv)):
            raise NoEval("loop variable")       # within a round, and not evaluated there
        if any(r.p in b for r in LOOPS.get(lv) or ()):
            raise NoEval("loop variable")
        rs = LOOPS.get(lv) or []
        r = rs[0] if rs else None
        if r is None or any((x.n, x.p, x.lvs_key()) != (r.n, r.p, r.lvs_key()) for x in rs[1:]):
            raise NoEval("loop variable")
        return r

    def rounds(self, rec, b):
        """(round, {variable: value}) of the rounds entered, up to the one that leaves the loop; then (None, values) if none does"""
        n = self.num(rec.n, b)
        cur = {}
        for lv, init, _, _ in rec.lvs:
            try:
                cur[lv] = self.val(init, b)
            except (NoEval, Undef):
                pass        # a variable of the body: it must not matter
        for i in range(max(n, 0)):
            yield i, cur
            b2 = Bind(b, (rec.p, i), *cur.items())
            if any(self.bool(g, b2) for _, g in rec.exits):
                return
            nxt = {}
            for lv, _, stp, _ in rec.lvs:
                try:
                    nxt[lv] = self.val(stp, b2)
                except (NoEval, Undef):
                    pass
            cur = nxt
        yield None, cur

    def _val(self, t, b):
        if t in b:
            return b[t]
        if t in self.env:
            return self.env[t]
        o, a = t.op, t.args
        f = self.fns.get(o)
        if f:
            return f(self, t, b)
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "B":
            while t.op == "B":
                try:
                    h = self.bool(t.args[0], b)
                except Undef:
                    # a test that makes no sense for this valuation: it cannot matter
                    x, y = self.bool(t.args[1], b), self.bool(t.args[2], b)
                    if x == y:
                        return x
                    raise
                t = t.args[1] if h else t.args[2]
                if t in self.env:
                    return self.env[t]
            return t is TRUE
        if o == "phi":
            und = None
            for g, v in phi_cases(t):
                try:
                    if not self.bool(g, b):
                        continue
                except Undef as ex:
                    und = ex
                    continue
                return self.val(v, b)
            raise und or Undef("no alternative")
        if o == "never":
            raise Undef("never")
        if o == "int":
            return a[0]
        if o == "s":
            return a[0]
        if o == "lin":
            r = a[0]
            for i in range(1, len(a), 2):
                r += a[i + 1] * self.num(a[i], b)
            return r
        if o == "mul":
            return self.num(a[0], b) * self.num(a[1], b)
        if o == "gt0":
            return self.num(a[0], b) > 0
        if o == "eq":
            return self.val(a[0], b) == self.val(a[1], b)
        if o == "adt":
            return ("adt", a[1] or a[0]) + tuple(self.val(x, b) for x in a[2:])
        if o == "tup":
            return ("tup",) + tuple(self.val(x, b) for x in a)
        if o == "fld":
            v = self.val(a[0], b)
            return self.field(v, a[1])
        if o == "upd":
            v = self.val(a[0], b)
            w = self.val(a[2], b)
            k = a[1] + (2 if v[0] == "adt" else 1)
            return v[:k] + (w,) + v[k + 1:]
        if o == "is":
            v = self.val(a[0], b)
            if not (isinstance(v, tuple) and v and v[0] == "adt"):
                raise NoEval("not an enum value: %s" % pp(a[0])[:80])
            return v[1] == a[1]
        if o == "pl":
            v = self.val(a[0], b)
            if not (isinstance(v, tuple) and v and v[0] == "adt"):
                raise NoEval("not an enum value: %s" % pp(a[0])[:80])
            if v[1] != a[1]:
                raise Undef("payload of %s" % a[1])
            return v[2 + a[2]]
        if o == "list":
            out = []
            for s in a:
                self.segs(s, b, out)
            return L(out)
        if o == "len":
            return len(self.lst(a[0], b))
        if o == "setlen":
            return len(set(self.lst(a[0], b)))
        if o == "cntfor":
            out = []
            self.segs(a[0], b, out)
            return len(out)
        if o == "b2i":
            return 1 if self.bool(a[0], b) else 0
        if o == "fpos" and a[0].op == "while":
            return self.num(a[0], b)        # the round at which an unbounded loop is left
        if o == "lvx":
            t = T("lv", *a)
            i, cur = None, {}
            for i, cur in self.rounds(self.left_loop(t, b), b):
                pass
            if i is None or t not in cur:
                raise NoEval("loop variable")
            return cur[t]
        if o in ("exists", "fpos"):
            lv = next((x for x in a[2].free if x.op == "lv" and x not in b and x not in self.env), None)
            if lv is not None:
                rec = self.left_loop(lv, b)
                if rec.n is not a[0]:
                    raise NoEval("another loop")
                hit = False
                for i, cur in self.rounds(rec, b):
                    if i is None:
                        break
                    hit = self.bool(a[2], Bind(b, (a[1], i), *cur.items()))
                    if hit:
                        return True if o == "exists" else i
                if i is None:
                    if o == "fpos":
                        raise Undef("no position")
                    return False
                raise NoEval("the loop is left elsewhere")
        if o in ("cnt", "exists", "fpos"):
            try:
                n = self.num(a[0], b)
            except Undef:
                n = 0       # as for the segments above
            c = 0
            for i in range(max(n, 0)):
                b2 = Bind(b, (a[1], i))
                if self.bool(a[2], b2):
                    if o == "exists":
                        return True
                    if o == "fpos":
                        return i
                    c += 1
            if o == "fpos":
                raise Undef("no position")
            return False if o == "exists" else c
        if o == "in":
            return self.val(a[0], b) in self.lst(a[1], b)
        if o == "idx":
            l = self.lst(a[0], b)
            i = self.num(a[1], b)
            if not 0 <= i < len(l):
                raise Undef("index out of range")
            return l[i]
        if o == "get":
            m = self.val(a[0], b)
            k = self.val(a[1], b)
            return self.mget(m, k)
        if o == "mremove":
            m = self.val(a[0], b)
            k = self.val(a[1], b)
            if isinstance(m, dict):
                return {x: y for x, y in m.items() if x != k}
            return L(x for x in m if x[1] != k)
        if o == "keys":
            m = self.val(a[0], b)
            if isinstance(m, dict):
                return L(m)
            return L(dict.fromkeys(x[1] for x in m))
        if o == "entries":
            m = self.val(a[0], b)
            if isinstance(m, dict):
                return L(("tup", k, v) for k, v in m.items())
            return L(("tup", k, v) for k, v in {x[1]: x[2] for x in m}.items())
        if o == "uniq":
            return L(dict.fromkeys(self.lst(a[0], b)))
        if o in ("pop", "rest"):
            l = self.lst(a[0], b)
            if not l:
                if o == "rest":
                    return l
                raise Undef("element of an empty list")
            end = a[1] if len(a) > 1 else "front"
            i = 0 if end == "front" else len(l) - 1 if end == "back" else top(l)
            return l[i] if o == "pop" else L(l[:i] + l[i + 1:])
        if o == "rotl":
            l = self.lst(a[0], b)
            k = self.num(a[1], b)
            return L(l[k:] + l[:k])
        if o == "cdiv":
            x, y = self.num(a[0], b), self.num(a[1], b)
            return -(-x // y)
        if o == "div":
            x, y = self.num(a[0], b), self.num(a[1], b)
            if y == 0:
                raise Undef("division by zero")
            return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if o == "rem":
            x, y = self.num(a[0], b), self.num(a[1], b)
            if y == 0:
                raise Undef("division by zero")
            return abs(x) % abs(y) * (1 if x >= 0 else -1)
        if o == "binop" and a[0] in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor", "Rem"):
            x, y = self.num(a[1], b), self.num(a[2], b)
            if a[0] == "Rem":
                if y == 0:
                    raise Undef("division by zero")
                return abs(x) % abs(y) * (1 if x >= 0 else -1)
            if y < 0 or a[0] == "Shl" and (y > 40 or abs(x) << y >= 2 ** 31) or a[0] == "Shr" and y > 31:
                raise NoEval("shift")
            return x << y if a[0] == "Shl" else x >> y if a[0] == "Shr" else x & y if a[0] == "BitAnd" else x | y if a[0] == "BitOr" else x ^ y
        if o == "nmin":
            return min(self.num(x, b) for x in a)
        if o == "parse":
            s = self.val(a[-1], b)
            if isinstance(s, str):
                x = parse_int(a[0], s)
                return A("Err", ("parse error", s)) if x is None else A("Ok", x)
        f = OPS.get(o) or TEXT_OPS.get(o)
        if f:
            return f(self, a, b)
        raise NoEval(o)

    def field(self, v, i):
        if isinstance(v, tuple) and v:
            if v[0] == "adt" and 2 + i < len(v):
                return v[2 + i]
            if v[0] == "tup" and 1 + i < len(v):
                return v[1 + i]
        raise NoEval("field %s of %r" % (i, v))

    def mget(self, m, k):
        if isinstance(m, dict):
            return some(m[k]) if k in m else NONEV
        r = NONEV
        for x in m:
            if not (isinstance(x, tuple) and x and x[0] == "tup"):
                raise NoEval("map entry %r" % (x,))
            if x[1] == k:
                r = some(x[2])
        return r

    def text(self, t, b):
        v = self.val(t, b)
        return v if isinstance(v, str) else show(v)

    def fresh(self):
        return Ground(self.env, self.fns)

    def num(self, t, b):
        v = self.val(t, b)
        if isinstance(v, bool) or not isinstance(v, int):
            raise NoEval("not a number: %s" % pp(t)[:80])
        return v


def order(x, y):
    """-1, 0, 1: the order of two elements of a priority queue (scored paths by score: rule C40)"""
    if isinstance(x, int) and isinstance(y, int):
        return (x > y) - (x < y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) > 1 and len(y) > 1 and x[0] == y[0]:
        if x[0] == "adt" and x[1] == y[1]:
            if x[1].endswith("Reverse"):
                return order(y[2], x[2])
            if x[1].endswith("ScoredPath"):
                k = [i for i in range(2, len(x)) if isinstance(x[i], int)]
                if len(k) == 1:
                    return order(x[k[0]], y[k[0]])
            elif len(x) == 3 and len(y) == 3:
                return order(x[2], y[2])
        elif x[0] == "tup" and len(x) == len(y):
            for u, v in zip(x[1:], y[1:]):
                o = order(u, v)
                if o:
                    return o
            return 0
    raise NoEval("order of %r" % (x,))


def top(l):
    i = 0
    for j in range(1, len(l)):
        if order(l[j], l[i]) > 0:
            i = j
    return i


def _str(G, a, b):
    return "".join(G.text(x, b) for x in a)


def _disp(G, a, b):
    return show(G.val(a[0], b))


def show(v):
    if isinstance(v, bool) or not isinstance(v, (int, str)):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "adt" and not v[1].endswith(("Some", "None")):
            return show(v[2])
        raise NoEval("display of %r" % (v,))
    return str(v)


def _dbg(G, a, b):
    return dbg(G.val(a[0], b))


def dbg(v):
    if isinstance(v, L):
        return "[" + ", ".join(dbg(x) for x in v) + "]"
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    raise NoEval("debug rendering of %r" % (v,))


def _take(G, a, b):
    return L(G.lst(a[0], b)[:max(G.num(a[1], b), 0)])


def _skip(G, a, b):
    return L(G.lst(a[0], b)[max(G.num(a[1], b), 0):])


def _ext(pick):
    def f(G, a, b):
        l = G.lst(a[0], b)
        ks = G.lst(a[1], b) if len(a) > 1 else l
        if not l or len(ks) != len(l):
            raise Undef("extremum of an empty list")
        return pick(l, ks)
    return f


def _fold(G, a, b):
    n, bv, lvl, init, step = a
    acc = G.val(init, b)
    for i in range(max(G.num(n, b), 0)):
        acc = G.val(step, Bind(b, (bv, i), (T("acc", lvl, 0), acc)))
    return acc


def _mfold(G, a, b):
    n, bv, lvl, init, step = a
    acc = [G.val(x, b) for x in init.args]
    for i in range(max(G.num(n, b), 0)):
        b2 = Bind(b, (bv, i), *[(T("acc", lvl, j), x) for j, x in enumerate(acc)])
        acc = [G.val(x, b2) for x in step.args]
    return acc[0]


def _tw(G, a, b):
    n = G.num(a[0], b)
    for i in range(max(n, 0)):
        b2 = Bind(b, (a[1], i))
        if not G.bool(a[2], b2):
            return i
    return max(n, 0)


def _sum(G, a, b):
    r = 0
    for i in range(max(G.num(a[0], b), 0)):
        b2 = Bind(b, (a[1], i))
        if G.bool(a[2], b2):
            r += G.num(a[3], b2)
    return r


def _sorted(G, a, b):
    if len(a) > 2 or "by" in str(a[1]):
        raise NoEval("sorted by")
    return L(sorted(G.lst(a[0], b), key=functools.cmp_to_key(order)))


def text_of(G, t, b):
    v = G.val(t, b)
    if not isinstance(v, str):
        raise NoEval("not a text: %s" % pp(t)[:80])
    return v


def _key(t):
    k = lit(t)
    if k is None:
        raise NoEval("pattern")
    return k


def _pk(G, t, b):
    k = lit(t)
    return text_of(G, t, b) if k is None else k


def _radix(G, a, b):
    n = G.num(a[0], b)
    if n < 0:
        raise NoEval("negative number in another base")
    return format(n, a[1])


def _rx(t):
    if t.op != "regex" or t.args[0].op != "s":
        raise NoEval("regex")
    return to_py(t.args[0].args[0])


def _grp(G, a, b):
    m = _rx(a[0]).search(text_of(G, a[1], b))
    if m is None:
        raise Undef("no match")
    i = a[2].args[0] if isinstance(a[2], Term) else a[2]
    try:
        return m.group(i)
    except IndexError:
        raise Undef("no such group")


def _extcall(G, a, b):
    k = a[0]
    if k in ("str::to_lowercase", "str::to_ascii_lowercase"):
        return text_of(G, a[1], b).lower()
    if k in ("str::to_uppercase", "str::to_ascii_uppercase"):
        return text_of(G, a[1], b).upper()
    if k == "str::eq_ignore_ascii_case":
        return text_of(G, a[1], b).lower() == text_of(G, a[2], b).lower()
    if k == "Error::kind":
        x = G.val(a[1], b)
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "io error":
            return A(x[1])
        raise NoEval("kind")
    if k in CHARFN and len(a) == 2:
        return CHARFN[k](text_of(G, a[1], b))
    if k in TEXTFN and all(isinstance(x, Term) for x in a[1:]):
        return TEXTFN[k](text_of(G, a[1], b), *[_key(x) if x.op in ("s", "ch") else G.val(x, b) for x in a[2:]])
    raise NoEval("ext " + str(k))


def _pat(f):
    def g(s, *a):
        if not all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in a) or "" in a:
            raise NoEval("pattern")
        return f(s, *a)
    return g


def _trim_start(s, p):
    while s.startswith(p):
        s = s[len(p):]
    return s


def _trim_end(s, p):
    while s.endswith(p):
        s = s[:-len(p)]
    return s


def _opt(x):
    return A("None") if x is None else A("Some", x)


TEXTFN = {
    "str::split": _pat(lambda s, p: L(s.split(p))),
    "str::splitn": _pat(lambda s, n, p: L(s.split(p, n - 1) if n > 0 else [])),
    "str::split_whitespace": lambda s: L(s.split()),
    "str::lines": lambda s: L(x[:-1] if x.endswith("\r") else x for x in (s[:-1] if s.endswith("\n") else s).split("\n")) if s else L(),
    "str::split_once": _pat(lambda s, p: _opt(("tup",) + tuple(s.split(p, 1)) if p in s else None)),
    "str::replace": _pat(lambda s, p, q: s.replace(p, q)),
    "str::trim_start_matches": _pat(_trim_start),
    "str::trim_end_matches": _pat(_trim_end),
    "str::trim_matches": _pat(lambda s, p: _trim_start(_trim_end(s, p), p)),
    "str::find": _pat(lambda s, p: _opt(len(s[:s.index(p)].encode()) if p in s else None)),
    "str::repeat": lambda s, n: s * n,
    "str::chars": lambda s: L(s), "str::bytes": lambda s: L(s.encode()), "str::rfind": _pat(lambda s, p: _opt(len(s[:s.rindex(p)].encode()) if p in s else None)),
    "str::rsplit_once": _pat(lambda s, p: _opt(("tup",) + tuple(s.rsplit(p, 1)) if p in s else None)),
    "str::rsplit": _pat(lambda s, p: L(reversed(s.split(p)))), "str::split_terminator": _pat(lambda s, p: L(s.split(p)[:-1] if s.split(p)[-1] == "" else s.split(p))),
    "str::split_ascii_whitespace": lambda s: L(s.split()), "str::rsplitn": _pat(lambda s, n, p: L(reversed(s.rsplit(p, n - 1))) if n > 0 else L()),
    "str::replacen": _pat(lambda s, p, q, n: s.replace(p, q, n)), "str::matches": _pat(lambda s, p: L([p] * s.count(p))),
}


TEXT_OPS = {
    "match": lambda G, a, b: bool(_rx(a[0]).search(text_of(G, a[1], b))), "grp": _grp, "ext": _extcall,
    "starts_with": lambda G, a, b: text_of(G, a[0], b).startswith(_pk(G, a[1], b)),
    "ends_with": lambda G, a, b: text_of(G, a[0], b).endswith(_pk(G, a[1], b)),
    "contains": lambda G, a, b: _pk(G, a[1], b) in text_of(G, a[0], b),
    "trim": lambda G, a, b: text_of(G, a[0], b).strip(), "trim_start": lambda G, a, b: text_of(G, a[0], b).lstrip(),
    "trim_end": lambda G, a, b: text_of(G, a[0], b).rstrip(),
    "strip_prefix": lambda G, a, b: text_of(G, a[0], b)[len(_key(a[1])):],
    "strip_suffix": lambda G, a, b: text_of(G, a[0], b)[:-len(_key(a[1]))],
}


class Stop(Exception):
    pass


def walk(events, G, kinds):
    """the events of the given kinds, with their values, for one valuation: ([(kind, values...)], outcome)"""
    out = []

    def go(evs, b):
        for x in evs:
            if not G.bool(x.g, b):
                continue
            if x.sub is not None:
                if x.rec is None or x.rec.n is None:
                    if has_kind(x.sub, kinds | {"panic", "exit"}):
                        raise NoEval("unbounded loop")
                    continue
                try:
                    n = G.num(x.rec.n, b)
                except Undef:
                    n = 0       # payload of an alternative that is not taken
                if not has_kind(x.sub, kinds | {"panic", "exit"}):
                    continue
                cur = []
                for lv, init, stp, _ in x.rec.lvs:
                    try:
                        cur.append((lv, stp, G.val(init, b)))
                    except (NoEval, Undef):
                        pass
                for i in range(max(n, 0)):
                    b2 = Bind(b, (x.rec.p, i), *[(lv, v) for lv, _, v in cur])
                    go(x.sub, b2)
                    if any(G.bool(g, b2) for _, g in x.rec.exits):
                        break
                    nxt = []
                    for lv, stp, _ in cur:
                        try:
                            nxt.append((lv, stp, G.val(stp, b2)))
                        except (NoEval, Undef):
                            pass
                    cur = nxt
                continue
            if x.kind == "panic":
                raise Stop("panic", x)
            if x.kind == "exit":
                raise Stop("exit %s" % G.val(x.args[0], b), x)
            if x.kind in kinds:
                if x.kind == "io":
                    op = x.args[0].args[0]
                    out.append((op, G.text(x.args[-1], b) if op in ("write", "fswrite", "write_some") else None))
                elif x.kind in ("print", "eprint"):
                    out.append((x.kind, G.text(x.args[0], b)))
                else:
                    out.append((x.kind,) + tuple(G.val(a, b) for a in x.args))
    try:
        go(events, Bind())
        how = "ok"
    except Stop as s:
        how = s.args[0]
    except Undef as u:
        raise NoEval("undefined: %s" % u)
    return out, how


def has_kind(evs, kinds):
    return any(x.kind in kinds or x.sub and has_kind(x.sub, kinds) for x in evs)


def texts(l):
    if not all(isinstance(x, str) for x in l):
        raise NoEval("not texts")
    return l


def tofloat(v, ty):
    """the value of an integer as a floating point number, which is an integer again"""
    if ty == "f64":
        return int(float(v))
    if ty == "f32":
        return int(struct.unpack("f", struct.pack("f", v))[0])
    raise NoEval("float " + str(ty))


def fromfloat(v, ty):
    if ty == "f64":
        return v
    if ty == "f32":
        return tofloat(v, ty)
    n = WIDTH.get(ty)
    if n is None:
        raise NoEval("from float")
    lo, hi = (-2 ** (n - 1), 2 ** (n - 1) - 1) if ty[0] == "i" else (0, 2 ** n - 1)
    return max(lo, min(hi, v))


def bsearch(l, f):
    """slice::binary_search_by of the standard library, f giving the order of an element"""
    size, base = len(l), 0
    if not size:
        return A("Err", 0)
    while size > 1:
        half = size // 2
        if f(l[base + half]) <= 0:
            base += half
        size -= half
    o = f(l[base])
    return A("Ok", base) if o == 0 else A("Err", base + (o < 0))


def _bsearch(G, a, b):
    x = G.val(a[1], b)
    return bsearch(G.lst(a[0], b), lambda y: order(y, x))


def _bsearchk(G, a, b):
    x = G.val(a[2], b)
    return bsearch(G.lst(a[1], b), lambda y: order(y, x))


def _dedup(G, a, b):
    l = G.lst(a[0], b)
    ks = G.lst(a[1], b) if len(a) > 1 else l
    return L(x for i, x in enumerate(l) if i == 0 or ks[i] != ks[i - 1])


def _sortedby(G, a, b):
    l, ks = G.lst(a[0], b), G.lst(a[1], b)
    ix = sorted(range(len(l)), key=functools.cmp_to_key(lambda i, j: order(ks[i], ks[j])), reverse=False)
    if len(a) > 2:
        ix = sorted(range(len(l)), key=functools.cmp_to_key(lambda i, j: order(ks[j], ks[i])))
    return L(l[i] for i in ix)


def _trimby(G, a, b):
    s, ks = text_of(G, a[1], b), G.lst(a[2], b)
    i, j = 0, len(s)
    if a[0] != "end":
        while i < j and ks[i]:
            i += 1
    if a[0] != "start":
        while i < j and ks[j - 1]:
            j -= 1
    return s[i:j]


def _pad(G, a, b):
    s = G.text(a[0], b)
    fill, width, align, flags, prec = a[1:6]
    num = a[0].op == "disp"
    if prec is not None and not num:
        s = s[:prec]
    if num and flags & 1 and not s.startswith("-"):
        s = "+" + s
    if width is None or len(s) >= width:
        return s
    k = width - len(s)
    if num and flags & 8:
        i = 1 if s[:1] in "+-" else 0
        return s[:i] + "0" * k + s[i:]
    if align == 3:
        align = 1 if num else 0
    left = {0: 0, 1: k, 2: k // 2}[align]
    return fill * left + s + fill * (k - left)


CHARFN = {
    "char::is_ascii_digit": lambda s: s in "0123456789", "char::is_numeric": str.isnumeric, "char::is_alphabetic": str.isalpha,
    "char::is_alphanumeric": str.isalnum, "char::is_ascii_alphabetic": lambda s: s.isascii() and s.isalpha(), "char::is_whitespace": str.isspace,
    "char::is_ascii_whitespace": lambda s: s in " \t\n\r\x0c", "char::is_ascii_punctuation": lambda s: s.isascii() and s.isprintable() and not s.isalnum() and s != " ",
    "char::is_ascii_alphanumeric": lambda s: s.isascii() and s.isalnum(), "char::is_uppercase": str.isupper, "char::is_lowercase": str.islower,
    "char::is_ascii_uppercase": lambda s: s.isascii() and s.isupper(), "char::is_ascii_lowercase": lambda s: s.isascii() and s.islower(),
}


OPS = {
    "str": _str, "radix": _radix, "disp": _disp, "dbg": _dbg, "take": _take, "skip": _skip, "fold": _fold, "mfold": _mfold, "tw": _tw, "sum": _sum, "sorted": _sorted,
    "minof": _ext(lambda l, k: min(l)), "maxof": _ext(lambda l, k: max(l)),
    "argmin": _ext(lambda l, k: l[min(range(len(l)), key=lambda i: (k[i], i))]),
    "argmax": _ext(lambda l, k: l[max(range(len(l)), key=lambda i: (k[i], i))]),
    "argmax_first": _ext(lambda l, k: l[max(range(len(l)), key=lambda i: (k[i], -i))]),
    "argmin_last": _ext(lambda l, k: l[min(range(len(l)), key=lambda i: (k[i], -i))]),
    "satadd": lambda G, a, b: min(G.num(a[0], b) + G.num(a[1], b), 2 ** 63 - 1),
    "satsub": lambda G, a, b: max(G.num(a[0], b) - G.num(a[1], b), -2 ** 63),
    "wrapadd": lambda G, a, b: trunc(G.num(a[0], b) + G.num(a[1], b), a[2]),
    "wrapsub": lambda G, a, b: trunc(G.num(a[0], b) - G.num(a[1], b), a[2]),
    "trunc": lambda G, a, b: trunc(G.num(a[0], b), a[1]),
    "ovf+": lambda G, a, b: not -2 ** 63 <= G.num(a[0], b) + G.num(a[1], b) < 2 ** 64,
    "ovf-": lambda G, a, b: not -2 ** 63 <= G.num(a[0], b) - G.num(a[1], b) < 2 ** 63,
    "cmp": lambda G, a, b: (lambda x, y: A("Less" if x < y else "Greater" if y < x else "Equal"))(G.num(a[0], b), G.num(a[1], b)),
    "zip": lambda G, a, b: L(("tup", x, y) for x, y in zip(G.lst(a[0], b), G.lst(a[1], b))),
    "tofloat": lambda G, a, b: tofloat(G.num(a[0], b), a[1]), "fromfloat": lambda G, a, b: fromfloat(G.num(a[0], b), a[1]),
    "bsearch": _bsearch, "bsearchk": _bsearchk, "dedup": _dedup, "sortedby": _sortedby, "trimby": _trimby, "pad": _pad,
    "swapremoved": lambda G, a, b: (lambda l, i: L((l[:i] + l[-1:] + l[i + 1:-1]) if i < len(l) - 1 else l[:-1]))(G.lst(a[0], b), G.num(a[1], b)),
    "inserted": lambda G, a, b: (lambda l, i, v: L(l[:i] + (v,) + l[i:]))(G.lst(a[0], b), G.num(a[1], b), G.val(a[2], b)),
    "prefix": lambda G, a, b: (lambda x, y: x[:len(y)] == y)(G.lst(a[0], b), G.lst(a[1], b)),
    "suffix": lambda G, a, b: (lambda x, y: len(y) <= len(x) and x[len(x) - len(y):] == y)(G.lst(a[0], b), G.lst(a[1], b)),
    "joined": lambda G, a, b: (_key(a[1]) if len(a) > 1 else "").join(G.text(T("list", T("src", a[0])), b) if False else x for x in texts(G.lst(a[0], b))),
    "step": lambda G, a, b: L(G.lst(a[0], b)[::G.num(a[1], b)]),
    "removed": lambda G, a, b: (lambda l, i: L(l[:i] + l[i + 1:]))(G.lst(a[0], b), G.num(a[1], b)),
    "lset": lambda G, a, b: (lambda l, i, v: L(l[:i] + (v,) + l[i + 1:]))(G.lst(a[0], b), G.num(a[1], b), G.val(a[2], b)),
}




def trunc(v, ty):
    ty = ty if isinstance(ty, str) else ""
    n = WIDTH.get(ty)
    if n is None:
        raise NoEval("trunc " + ty)
    v &= (1 << n) - 1
    return v - (1 << n) if ty[0] == "i" and v >> (n - 1) else v


def as_map(v):
    """a map value as a dict"""
    if isinstance(v, dict):
        return v
    if isinstance(v, L) and all(isinstance(x, tuple) and len(x) == 3 and x[0] == "tup" for x in v):
        return {x[1]: x[2] for x in v}
    raise NoEval("not a map: %r" % (v,))


def ints(*ts):
    """the integer constants of the terms: thresholds a valuation should look at"""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "int":
                out.add(x.args[0])
            elif x.op in ("trunc", "wrapadd", "wrapsub", "tofloat"):
                n = WIDTH.get(x.args[-1]) or {"f32": 24, "f64": 53}.get(x.args[-1])
                if n:
                    out.update((2 ** (n - 1), 2 ** n))
            elif x.op == "lin":
                out.update(abs(a) for a in x.args if isinstance(a, int))
    return out


def around(*ts, top=2 ** 64):
    """small numbers and those next to the constants of the terms"""
    o = {c + d for c in ints(*ts) for d in (-1, 0, 1)}
    return sorted(x for x in o if 0 <= x < top)


def truth(t, env, fns=None):
    """True / False / None (not evaluable)"""
    try:
        return Ground(env, fns).bool(t, Bind())
    except (NoEval, Undef):
        return None


def value(t, env, fns=None):
    """(value,) or None when it cannot be evaluated; ('panic',) marks undefined"""
    try:
        return (Ground(env, fns).val(t),)
    except Undef:
        return ("undef",)
    except NoEval:
        return None
