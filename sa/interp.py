"""Value-flow analysis of MIR bodies.

Every body is abstracted, in one topological pass over its control-flow graph, to the terms of terms.py:
joins merge values under the guards of the incoming edges (gated SSA), calls to functions of the analysed
crates are inlined, library calls are given by models.py, and loops are abstracted to the positions they
range over with the loop-carried state found by a fixpoint.  Nothing is executed and no path is enumerated.
"""
import sys

from facts import key_of, strip_generics
from terms import *
import terms as TM

sys.setrecursionlimit(20000)

ERASED = {"gc_core::graph::VertexId", "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull",
          "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling", "std::cmp::Reverse_"}


class Ev:
    """something observable that the code does: a mutation, a file operation, a panic, a loop"""
    __slots__ = ("kind", "g", "args", "span", "fn", "sub", "rec")

    def __init__(self, kind, g, args, span, fn, sub=None, rec=None):
        self.kind, self.g, self.args, self.span, self.fn, self.sub, self.rec = kind, g, args, span, fn, sub, rec

    def __repr__(self):
        s = "%s %s if %s @%s" % (self.kind, ", ".join(pp(a) for a in self.args), pp(self.g), self.span)
        if self.sub is not None:
            s += "".join("\n   " + repr(x).replace("\n", "\n   ") for x in self.sub)
        return s


class LoopRec:
    """abstraction of one loop: range n (None when unbounded), position p, carried variables, exits"""

    def __init__(self):
        self.n = None
        self.p = None
        self.lvs = []        # (lv, init, step, (root, path))
        self.cont = TRUE     # guard for going round again
        self.exits = []      # (key, guard)
        self.closed = {}

    def lvs_key(self):
        return tuple(x[:3] for x in self.lvs), tuple(g for _, g in self.exits)


def is_size(v):
    """a number of elements or a position: never near the limits of its type"""
    if v.op == "lin":
        return all(is_size(x) for x in v.args if isinstance(x, Term))
    return v.op in ("int", "len", "setlen", "cnt", "cntfor", "b2i", "bv", "pos", "fpos", "nmin", "div", "rem", "cdiv") or \
        v.op == "phi" and all(is_size(x) for _, x in phi_cases(v))


class St:
    __slots__ = ("s", "g")

    def __init__(self, s, g):
        self.s, self.g = s, g

    def copy(self):
        return St(dict(self.s), self.g)


class Diverge(Exception):
    pass


class Frame:
    __slots__ = ("body", "fid")

    def __init__(self, body, fid):
        self.body, self.fid = body, fid


BITS = {"Shl": lambda a, b: a << b, "Shr": lambda a, b: a >> b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b}


class Interp:
    def __init__(self, F, overrides=None, models=None):
        self.F = F
        self.ov = dict(overrides or {})
        import models as M
        self.models = M.MODELS
        self.M = M
        self.st = St({}, TRUE)
        self.base = [TRUE]
        self.events = []
        self.nroot = 1 << 40
        self.nfid = 0
        self.scope = 0
        self.depth = 0
        self.stack = []
        self.tsub = ()      # type parameters of the running function: ((name, primitive type), ...)
        self.span = ""
        self.fnname = ""
        self.unknown = {}      # library functions without a model -> spans
        self.visited = set()   # bodies analysed
        self.ncalls = 0
        self.budget = 60000
        self.rootnames = {}
        self.roottys = {}

    # ---------------------------------------------------------------- events
    def absg(self):
        return band(self.base[-1], self.st.g)

    def ev(self, kind, *args, g=TRUE):
        gg = band(self.absg(), g)
        if gg is FALSE:
            return
        self.events.append(Ev(kind, gg, args, self.span, self.fnname))

    # ---------------------------------------------------------------- roots and places
    def newroot(self, v, name=None):
        self.nroot += 1
        self.st.s[self.nroot] = v
        if name:
            self.rootnames[self.nroot] = name
        return T("ref", self.nroot)

    def proj_get(self, v, p):
        v = self.deref(v)
        if p.op == "pf":
            return fld(v, p.args[0])
        if p.op == "pp":
            return pl(v, p.args[0], p.args[1])
        if p.op == "pk":
            return pl(get(v, p.args[0]), "Some", 0)
        if p.op == "pi":
            return idx(v, p.args[0])
        if p.op == "pr":
            import models as M
            return M.sublist(aslist(v), p.args[0], p.args[1])
        return T("proj", v, p)

    def load(self, ref):
        def one(r):
            if r.op != "ref":
                return r
            v = self.st.s.get(r.args[0])
            if v is None:
                return OPQ("unset")
            for p in r.args[1:]:
                v = self.proj_get(v, p)
            return v
        if ref.op == "phi":
            return phi([(g, one(v)) for g, v in phi_cases(ref)])
        return one(ref)

    def deref(self, v):
        n = 0
        while n < 8 and (v.op == "ref" or v.op == "phi" and any(x.op == "ref" for _, x in phi_cases(v))):
            v = self.load(v)
            n += 1
        return v

    def deep(self, v):
        """the value with every reference in it replaced by what it refers to"""
        n = 0
        while n < 6:
            rs = [x for x in subterms(v) if x.op == "ref"]
            if not rs:
                return v
            v = subst(v, {r: self.load(r) for r in rs})
            n += 1
        return v

    def proj_set(self, v, ps, val):
        if not ps:
            return val
        p = ps[0]
        if v.op == "phi" and p.op != "pk":
            return phi([(g, self.proj_set(x, ps, val)) for g, x in phi_cases(v)])
        if v.op == "ref":
            self.store(T("ref", *(v.args + tuple(ps))), val)
            return v
        sub = self.proj_set(self.proj_get(v, p), ps[1:], val)
        if p.op == "pf":
            return upd(v, p.args[0], sub)
        if p.op == "pp":
            if v.op == "adt":
                if v.args[1] != p.args[0]:
                    return v
                return upd(v, p.args[1], sub)
            return T("pset", v, p.args[0], p.args[1], sub)
        if p.op == "pk":
            return mput(v, p.args[0], sub)
        if p.op == "pi":
            return lset(v, p.args[0], sub)
        if p.op == "pr":
            import models as M
            l = aslist(v)
            return LIST(*(M.take_list(l, p.args[0]).args + aslist(sub).args + M.skip_list(l, p.args[1]).args))
        return OPQ("pset")

    def store(self, ref, val, log=True):
        if ref.op == "phi":
            for g, r in phi_cases(ref):
                if r.op == "ref":
                    old = self.load(r)
                    self._store1(r, phi([(g, val), (bnot(g), old)]))
            return
        if ref.op == "ref":
            self._store1(ref, val)
        else:
            self.ev("opaque_write", ref, val)

    def _store1(self, ref, val):
        root = ref.args[0]
        old = self.st.s.get(root, NEVER)
        self.st.s[root] = self.proj_set(old, list(ref.args[1:]), val)

    def place(self, fr, pl_):
        """reference term for a MIR place; a symbolic pointee is its own place"""
        if isinstance(pl_, int):
            return T("ref", fr.fid + pl_)
        r = T("ref", fr.fid + pl_[0])
        var = None
        for p in pl_[1]:
            if p == "*":
                v = self.load(r)
                if v.op == "ref" or (v.op == "phi" and any(x.op == "ref" for _, x in phi_cases(v))):
                    r = v
                continue
            k = p[0]
            if k == "d":
                var = p[1]
                continue
            if k == "f":
                owner = p[3] if len(p) > 3 else ""
                if owner in ERASED or owner == "gc_core::graph::VertexId":
                    var = None
                    continue
                q = T("pp", var, p[1]) if var is not None and owner and self.is_enum(owner) else T("pf", p[1])
                var = None
            elif k == "i":
                q = T("pi", self.deref(self.st.s[fr.fid + p[1]]))
            elif k == "ci":
                if p[3]:
                    base = self.load(r)
                    q = T("pi", sub(length(self.deref(base)), INT(p[1])))
                else:
                    q = T("pi", INT(p[1]))
            else:
                q = T("pss", str(p[1:]))
            r = self.extend(r, q)
        return r

    def extend(self, r, q):
        if r.op == "phi":
            return phi([(g, self.extend(x, q)) for g, x in phi_cases(r)])
        if r.op == "ref":
            return T("ref", *(r.args + (q,)))
        return r

    def is_enum(self, owner):
        a = self.F.adts.get(owner)
        if a:
            return a["enum"]
        return True

    # ---------------------------------------------------------------- operands / rvalues
    def operand(self, fr, o):
        if o[0] in ("cp", "mv"):
            if isinstance(o[1], int):
                return self.st.s.get(fr.fid + o[1], NEVER)
            return self.load(self.place(fr, o[1]))
        return self.const(fr, o[1])

    def const(self, fr, c):
        k = c["k"]
        if k == "int":
            return INT(int(c["v"]))
        if k == "bool":
            return TRUE if c["v"] in (True, "true", 1, "1") else FALSE
        if k == "str":
            return S(c["v"])
        if k == "char":
            return S(str(c["v"]))
        if k == "bytes":
            return T("bytes", bytes(c["v"]).hex() if isinstance(c["v"], list) else str(c["v"]))
        if k == "fn":
            return self.fnconst(c)
        if k == "promoted":
            i = c.get("i", c.get("v"))
            pb = self.promoted_owner(fr.body).promoted[int(i)]
            return self.run_body(pb, [])
        if k == "static":
            return T("static", c.get("p") or c.get("d"))
        if k == "zst":
            t = c.get("t") or {}
            if t.get("k") == "closure":
                return self.closure(t["d"], [])
            if t.get("k") == "tuple":
                return UNIT
            if t.get("k") == "adt":
                return T("adt", t["p"], "")
            return UNIT
        return T("const", str(c.get("p") or c.get("s") or c.get("v") or k), str(c.get("t")))

    def promoted_owner(self, b):
        return b

    def fnconst(self, c):
        t = T("fnc", c["p"], c["d"], c.get("r") or "", str(c.get("a")))
        FNC[t] = c
        return t

    def rvalue(self, fr, rv, span):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "rawptr":
            return self.load(self.place(fr, rv[1]))
        if k == "ref":
            r = self.place(fr, rv[2])
            if rv[1] and rv[1] not in ("false", "shared", "Not", "const"):
                if r.op == "ref":
                    v = self.st.s.get(r.args[0])
                    if v is not None and v.op == "never" and len(r.args) > 1:
                        pass
                return r
            return self.load(r)
        if k == "cast":
            v = self.operand(fr, rv[2])
            to = rv[3].get("s") if isinstance(rv[3], dict) else None
            frm = rv[4].get("s") if isinstance(rv[4], dict) else None
            if to and frm and rv[1] == "IntToInt":
                W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
                     "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128, "bool": 1}
                if is_bool(v):
                    return v if to == "bool" else b2i(v)
                if v.op == "int":
                    n, x = W.get(to, 64), v.args[0] & ((1 << W.get(to, 64)) - 1)
                    return INT(x - (1 << n) if to[0] == "i" and x >> (n - 1) else x)
                if v.op == "b2i":
                    return v
                if v.op == "trunc" and W.get(to) == 64 and W.get(v.args[1]) == 64 and to[0] != v.args[1][0]:
                    return v.args[0]       # there and back
                if W.get(to, 64) < W.get(frm, 64) or (to[0] != frm[0] and frm[0] in "ui" and to[0] in "ui" and not is_size(v) and
                                                      not (frm[0] == "u" and W.get(to, 64) > W.get(frm, 64))):
                    return lift(lambda x: x if x.op == "int" else T("trunc", x, to), v)
            elif rv[1] == "IntToFloat":
                return lift(lambda x: T("tofloat", x, to or "?"), v)
            elif rv[1] in ("FloatToInt", "FloatToFloat"):
                return lift(lambda x: T("fromfloat", x, to or "?"), v)
            return v
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]))
        if k == "un":
            v = self.deref(self.operand(fr, rv[2]))
            if rv[1] == "Not":
                return bnot(atom_b(v)) if is_bool(v) or v.op not in TM.NUMOPS else T("bitnot", v)
            if rv[1] == "Neg":
                return mul(INT(-1), v)
            if rv[1] == "PtrMetadata":
                return length(self.tolist(v))
            return T("un", rv[1], v)
        if k == "discr":
            v = self.deref(self.load(self.place(fr, rv[1])))
            return T("discr", v, ",".join("%s=%s" % (a, b) for a, b in rv[2]))
        if k in ("array", "tuple"):
            fs = [self.operand(fr, o) for o in rv[1]]
            return LIST(*[e(x) for x in fs]) if k == "array" else T("tup", *fs)
        if k == "adt":
            fs = [self.operand(fr, o) for o in rv[1]]
            return self.mkadt(rv[2], rv[3], fs)
        if k == "closure":
            fs = [self.operand(fr, o) for o in rv[1]]
            return self.closure(rv[2], fs)
        if k == "repeat":
            v = self.operand(fr, rv[1])
            return T("repeat", v, str(rv[2:]))
        return OPQ("rvalue " + str(k))

    def mkadt(self, path, var, fs):
        if path in ERASED and len(fs) == 1:
            return fs[0]
        p = path
        short = path.split("::")[-1]
        if path.startswith(("std::", "core::", "alloc::")) and short in ("Option", "Result", "ControlFlow", "Ordering"):
            p = short
        return adt(p, var or "", *fs)

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if a.op == "discr" or b.op == "discr":
            r = self.discr_eq(a, b)
            return r if op == "Eq" else bnot(r) if op == "Ne" else OPQ("discr cmp")
        ov = op.endswith("WithOverflow")
        if ov or op.endswith("Unchecked"):
            op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op == "Add":
            r = add(a, b)
        elif op == "Sub":
            r = sub(a, b)
        elif op == "Mul":
            r = mul(a, b)
        elif op == "Eq":
            return eq(self.deep(a), self.deep(b))
        elif op == "Ne":
            return bnot(eq(self.deep(a), self.deep(b)))
        elif op == "Lt":
            return lt(a, b)
        elif op == "Le":
            return le(a, b)
        elif op == "Gt":
            return lt(b, a)
        elif op == "Ge":
            return le(b, a)
        elif op in ("BitAnd", "BitOr", "BitXor") and (is_bool(a) or is_bool(b)):
            x, y = atom_b(a), atom_b(b)
            return band(x, y) if op == "BitAnd" else bor(x, y) if op == "BitOr" else bxor(x, y)
        elif op in BITS and a.op == "int" and b.op == "int" and (op != "Shl" or BITS[op](a.args[0], b.args[0]) < 2 ** 31):
            r = INT(BITS[op](a.args[0], b.args[0]))
        elif op == "BitAnd" and a.op == "len" and b.op == "int" and b.args[0] & (b.args[0] + 1) == 0:
            r = rem_(a, INT(b.args[0] + 1))
        elif op == "BitAnd" and b.op == "len" and a.op == "int" and a.args[0] & (a.args[0] + 1) == 0:
            r = rem_(b, INT(a.args[0] + 1))
        elif op == "Shr" and a.op == "len" and b.op == "int":
            r = div_(a, INT(2 ** b.args[0]))
        elif op in ("BitAnd", "BitOr", "BitXor") and "int" not in (a.op, b.op) and a.op in ("phi", "pl", "app", "fn", "arg", "fld", "ext"):
            if a.op in ("fn", "app", "ext", "phi"):
                x, y = atom_b(a), atom_b(b)
                return band(x, y) if op == "BitAnd" else bor(x, y) if op == "BitOr" else bxor(x, y)
            r = T(op, a, b)
        elif op == "Rem" and b.op == "int" and b.args[0] != 0:
            r = rem_(a, b)
        elif op == "Div":
            r = div_(a, b)
        elif op == "Cmp":
            return cmp_(a, b)
        else:
            r = T("binop", op, a, b)
        return T("tup", r, FALSE) if ov else r

    def discr_eq(self, a, b):
        def tab(d):
            return dict((x.split("=")[1], x.split("=")[0]) for x in d.args[1].split(",") if "=" in x)
        if a.op == "discr" and b.op == "discr":
            vs = [x for x in tab(a)]
            return bor(*[band(isv(a.args[0], v), isv(b.args[0], v)) for v in vs])
        if b.op == "discr":
            a, b = b, a
        for v, n in tab(a).items():
            if b.op == "int" and str(b.args[0]) == n:
                return isv(a.args[0], v)
        return eq(a, b)

    # ---------------------------------------------------------------- running bodies
    def run_body(self, b, args):
        """abstract a body applied to argument terms; returns the value it returns"""
        if len(self.stack) > 60:
            return OPQ("depth")
        self.nfid += 1
        fid = self.nfid << 12
        fr = Frame(b, fid)
        self.visited.add(b.d)
        saved_g = self.st.g
        self.base.append(band(self.base[-1], saved_g))
        self.st.g = TRUE
        for i, a in enumerate(args):
            self.st.s[fid + 1 + i] = a
        sp, fn = self.span, self.fnname
        self.stack.append(b.d)
        if b.kind != "Promoted":
            self.fnname = b.p
        exits = self.region(fr, None, 0, self.st)
        self.stack.pop()
        self.span, self.fnname = sp, fn
        self.base.pop()
        ret = exits.get("ret")
        if ret is None or ret.g is FALSE:
            self.st = St(dict(self.st.s), FALSE)
            return NEVER
        self.st = ret
        v = self.st.s.get(fid, UNIT)
        for k in [k for k in self.st.s if fid <= k < fid + 4096]:
            del self.st.s[k]
        self.st.g = band(saved_g, ret.g)
        return v

    def merge(self, sts):
        sts = [s for s in sts if s.g is not FALSE]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0].copy()
        G = bor(*[s.g for s in sts])
        gs = [constrain(s.g, G) for s in sts]
        base = sts[0].s
        out = {}
        keys = set()
        for s in sts:
            keys.update(s.s)
        for k in keys:
            vals = [(g, s.s[k]) for g, s in zip(gs, sts) if k in s.s]
            v0 = vals[0][1]
            if all(v is v0 for _, v in vals):
                out[k] = v0
            else:
                out[k] = phi(vals)
        return St(out, G)

    def region(self, fr, header, start, st, drv=None):
        """flow a state through a region in topological order.
        -> {"ret": state, "back": state (to header), block: state (leaving)}"""
        b = fr.body
        cfg = b.cfg()
        reg = cfg.loops[header] if header is not None else cfg.reach
        pend = {start: [st]}
        res = {}

        def out(t, s):
            if s.g is FALSE:
                return
            if t == header:
                res.setdefault("back", []).append(s)
            elif t in reg:
                pend.setdefault(t, []).append(s)
            else:
                res.setdefault(t, []).append(s)
        for x in cfg.order(header):
            if x not in pend:
                continue
            s = self.merge(pend.pop(x))
            if s is None:
                continue
            self.st = s
            if x in cfg.loops and x != header:
                for t, s2 in self.run_loop(fr, x).items():
                    if t == "ret":
                        res.setdefault("ret", []).append(s2)
                    else:
                        out(t, s2)
                continue
            self.block(fr, x, out, res, drv if x in (drv or {}).get("blocks", ()) else None)
        return {k: (self.merge(v) if isinstance(v, list) else v) for k, v in res.items()
                if self.merge(v) is not None}

    def block(self, fr, x, out, res, drv):
        blk = fr.body.blocks[x]
        for pl_, rv, span in blk["s"]:
            self.span = span
            v = self.rvalue(fr, rv, span)
            if isinstance(pl_, int):
                self.st.s[fr.fid + pl_] = v
            else:
                self.store(self.place(fr, pl_), v)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            out(t[1], self.st)
        elif k == "return":
            res.setdefault("ret", []).append(self.st)
        elif k == "drop":
            self.drop(fr, t[1], t[3] if len(t) > 3 else None)
            out(t[2], self.st)
        elif k == "switch":
            self.span = t[5] if len(t) > 5 else self.span
            self.switch(fr, t, out)
        elif k == "assert":
            self.span = t[5] if len(t) > 5 else self.span
            self.do_assert(fr, t)
            out(t[4], self.st)
        elif k == "call":
            self.span = t[5]
            self.call(fr, t, out, drv)

    def do_assert(self, fr, t):
        msg = str(t[3])
        if "Misaligned" in msg or "Null" in msg or "Overflow" in msg:
            return
        c = self.operand(fr, t[1])
        c = atom_b(self.deref(c))
        ok = c if t[2] else bnot(c)
        if ok is not TRUE:
            self.ev("panic", S(msg.split("(")[0].split(" ")[0]), g=bnot(ok))

    def drop(self, fr, pl_, ty):
        if ty and ty.get("k") == "adt" and ty["p"] in self.M.DROPS:
            v = self.load(self.place(fr, pl_))
            self.ev("drop", S(ty["p"]), self.deep(v))
        elif self.own_drops() and ty:
            self.glue(self.place(fr, pl_), self.tinst(ty))

    def own_drops(self):
        """the Drop implementations of the analysed crates, by type"""
        if not hasattr(self.F, "_drops"):
            self.F._drops = {st.get("p"): b for (tr, nm), l in self.F.impl_methods.items()
                             if nm == "drop" and tr.split("::")[-1] == "Drop" for st, b in l}
        return self.F._drops

    def drops(self, ty, seen=()):
        """dropping a value of this type runs code of the analysed crates"""
        if isinstance(ty, list):
            return any(self.drops(x, seen) for x in ty)
        if not isinstance(ty, dict) or ty.get("k") in ("ref", "ptr", "fn", "prim"):
            return False
        p = ty.get("p")
        if p in self.own_drops():
            return True
        a = self.F.adts.get(p)
        if a and p not in seen and any(self.drops(f["t"], seen + (p,)) for v in a["variants"] for f in v["fields"]):
            return True
        return self.drops(ty.get("a") or [], seen) or self.drops(ty.get("t") or [], seen)

    def glue(self, r, ty):
        """what going out of scope runs"""
        if not self.drops(ty):
            return
        p = ty.get("p")
        b = self.own_drops().get(p)
        if b is not None:
            self.callbody(b, [r])
        a = self.F.adts.get(p)
        if a and not a["enum"]:
            for i, f in enumerate(a["variants"][0]["fields"]):
                self.glue(self.extend(r, T("pf", i)), f["t"])
        elif p in ("std::option::Option", "core::option::Option") and ty.get("a"):
            g = isv(self.deref(r), "Some")
            if band(g, self.absg()) is not FALSE:
                self.under(g, lambda: (self.glue(self.extend(r, T("pp", "Some", 0)), ty["a"][0]), UNIT)[1])
        elif b is None:
            self.ev("hidden-drop", S(str(p)))

    def switch(self, fr, t, out):
        c = self.deref(self.operand(fr, t[1]))
        ctx = self.absg()
        rest = TRUE
        alts = []
        for val, bb in t[2]:
            g = self.case(c, val, t[4])
            alts.append((band(rest, g), bb))
            rest = band(rest, bnot(g))
        # values of a discriminant not listed are the other variants; fully listed -> rest is unreachable
        if c.op == "discr":
            tab = [x for x in c.args[1].split(",") if "=" in x]
            if len(t[2]) >= len(tab):
                rest = FALSE
                if alts:
                    # the last alternative takes what the others leave
                    g0 = bor(*[g for g, _ in alts[:-1]])
                    alts[-1] = (bnot(g0), alts[-1][1])
        alts.append((rest, t[3]))
        by = {}
        for g, bb in alts:
            by[bb] = bor(by.get(bb, FALSE), g)
        for bb, g in by.items():
            if band(g, ctx) is FALSE:
                continue
            out(bb, St(dict(self.st.s), band(self.st.g, g)))

    def case(self, c, val, ty):
        if c.op == "discr":
            for x in c.args[1].split(","):
                if "=" in x and x.split("=")[0] == str(val):
                    return isv(c.args[0], x.split("=")[1])
            return FALSE
        if ty and ty.get("s") == "bool":
            b = atom_b(c)
            return bnot(b) if str(val) in ("0", "false") else b
        if c.op == "phi" and any(v.op == "discr" for _, v in phi_cases(c)):
            return bor(*[band(g, self.case(v, val, ty)) for g, v in phi_cases(c)])
        return eq(c, INT(int(val)))

    # ---------------------------------------------------------------- calls
    def call(self, fr, t, out, drv=None):
        _, f, args, dest, target, span = t[:6]
        argv = [self.operand(fr, a) for a in args]
        self.ncalls += 1
        if self.ncalls > self.budget:
            raise RuntimeError("analysis budget exceeded")
        c = f[1] if f[0] == "c" and isinstance(f[1], dict) and f[1].get("k") == "fn" else None
        dty = t[7] if len(t) > 7 else None
        if drv is not None and "val" in drv and c is not None and key_of(c["p"]) == "Iterator::next":
            v = drv["val"]
        elif c is None:
            v = self.apply(self.operand(fr, f), argv)
        else:
            v = self.callfn(c, argv, dty, t[6] if len(t) > 6 else None)
        self.span = span
        if target is None:
            if c is not None and self.st.g is not FALSE:
                self.ev("panic", S("explicit:" + key_of(c["p"])))
            return
        if self.st.g is FALSE:
            return
        if isinstance(dest, int):
            self.st.s[fr.fid + dest] = v
        else:
            self.store(self.place(fr, dest), v)
        out(target, self.st)

    def closure(self, d, fs):
        return T("closure", d, *fs, *([T("tsub", *[y for x in self.tsub for y in x])] if self.tsub else []))

    def tinst(self, t):
        """a type with the type parameters that stand for primitive types replaced"""
        if isinstance(t, list):
            return [self.tinst(x) for x in t]
        if not isinstance(t, dict):
            return t
        if t.get("k") == "param":
            s = dict(self.tsub).get(t.get("s"))
            return {"k": "prim", "s": s} if s else t
        if "a" in t or "t" in t:
            return {k: self.tinst(v) if k in ("a", "t") else v for k, v in t.items()}
        return t

    def callfn(self, c, argv, dty=None, atys=None):
        if self.tsub:
            c = {**c, "a": self.tinst(c["a"])} if c.get("a") else c
            dty, atys = self.tinst(dty), self.tinst(atys)
        d = c.get("r") or c["d"]
        b = self.F.bodies.get(d)
        if b is None and c.get("tr") is None:
            b = self.F.bodies.get(c["d"])
        if b is not None:
            if b.kind == "Ctor" or d in self.F.ctors:
                return self.ctor(c, argv)
            if argv and key_of(c["p"]) == "Iterator::next" and self.deref(argv[0]).op == "iter":
                return self.models["Iterator::next"](self, argv, Call(c, "Iterator::next", dty, atys))
            if len(argv) == 2 and key_of(c["p"]) in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
                return self.models["Fn::call"](self, argv, Call(c, "Fn::call", dty, atys))
            return self.callbody(b, argv, c)
        if c["d"].endswith("{constructor#0}"):
            return self.ctor(c, argv)
        key = key_of(c["p"])
        # a trait method on a value whose implementation is in the analysed crates
        if c.get("tr") and argv:
            b = self.dispatch(c["tr"], key.split("::")[-1], argv[0])
            if b is not None:
                return self.callbody(b, argv, c)
        m = self.models.get(key)
        if m is None:
            m = self.models.get("*::" + key.split("::")[-1]) if c.get("tr") else None
        if m is not None:
            return m(self, argv, Call(c, key, dty, atys))
        self.unknown.setdefault(key, []).append(self.span)
        args = [self.deep(a) for a in argv]
        for a in argv:
            self.havoc_refs(a, key)
        return T("ext", key, *args)

    def havoc_refs(self, a, key):
        for r in subterms(a):
            if r.op == "ref":
                self.store(r, OPQ("mutated by " + key))

    def dispatch(self, tr, name, recv):
        v = self.deref(recv)
        if v.op == "upd":
            x = v
            while x.op == "upd":
                x = x.args[0]
            ty = HINT.get(x)
        elif v.op == "adt":
            ty = v.args[0]
        else:
            ty = HINT.get(v)
        if ty is None:
            return None
        return self.F.methods_of_trait(tr, ty, name)

    def ctor(self, c, argv):
        p = strip_generics(c["p"])
        parts = p.split("::")
        a = self.F.adts.get("::".join(parts[:-1]))
        if a and a["enum"]:
            return self.mkadt(a["p"], parts[-1], argv)
        if p in self.F.adts:
            return self.mkadt(p, "", argv)
        if parts[-1] in ("Some", "None"):
            return adt("Option", parts[-1], *argv)
        if parts[-1] in ("Ok", "Err"):
            return adt("Result", parts[-1], *argv)
        if len(argv) == 1 and p.endswith("VertexId"):
            return argv[0]
        return adt(p, "", *argv)

    def callbody(self, b, argv, c=None):
        o = self.ov.get(b.p)
        if o is not None:
            return o(self, argv, Call(c, b.p, b.j.get("ret"), None))
        if "impl_trait" in b.j:
            tr = b.j["impl_trait"].split("<")[0]
            nm = b.d.rsplit("::", 1)[1]
            if b.j.get("derived") or self.is_derived(b):
                m = {"eq": "PartialEq::eq", "ne": "PartialEq::ne", "clone": "Clone::clone", "hash": "Hash::hash",
                     "cmp": "Ord::cmp", "partial_cmp": "PartialOrd::partial_cmp", "fmt": "Debug::fmt"}.get(nm)
                if m and m in self.models:
                    return self.models[m](self, argv, Call(c, m, b.j.get("ret"), None))
        if b.d in self.stack:
            return T("fn", b.p, *[self.deep(a) for a in argv])
        names, tys, old = b.j.get("generics") or [], (c or {}).get("a") or [], self.tsub
        self.tsub = tuple((n, t["s"]) for n, t in zip(names, tys) if n and t.get("k") == "prim") if len(names) == len(tys) else ()
        v = self.run_body(b, argv)
        self.tsub = old
        return v

    def is_derived(self, b):
        im = b.d.rsplit("::", 1)[0]
        return im in self.derived()

    def derived(self):
        if not hasattr(self.F, "_derived"):
            self.F._derived = {i["d"] for i in self.F.impls if i.get("derived")}
        return self.F._derived

    def apply(self, f, args):
        """call a function value"""
        f = self.deref(f)
        if f.op == "closure":
            b = self.F.bodies.get(f.args[0])
            if b is None:
                return T("app", self.deep(f), *[self.deep(a) for a in args])
            if b.d in self.stack:
                return T("fn", b.p, *[self.deep(a) for a in args])
            if b.argc < 1 + len(args):
                args = [T("tup", *args)] if b.argc == 2 else args[:b.argc - 1]
            old = self.tsub
            x = f.args[-1] if len(f.args) > 1 and f.args[-1].op == "tsub" else None
            self.tsub = tuple(zip(x.args[::2], x.args[1::2])) if x is not None else ()
            v = self.run_body(b, [f] + list(args))
            self.tsub = old
            return v
        if f.op == "fnc":
            return self.callfn(FNC[f], list(args))
        if f.op == "phi":
            vals = []
            for g, v in phi_cases(f):
                vals.append((g, self.under(g, lambda v=v: self.apply(v, args))))
            return phi(vals)
        if f.op == "pyf":
            return PYF[f](self, args)
        return T("app", self.deep(f), *[self.deep(a) for a in args])

    def under(self, g, f):
        """evaluate f in the states satisfying g; returns its value (meaningful under g)"""
        if g is FALSE or band(self.absg(), g) is FALSE:
            return NEVER
        if g is TRUE:
            return f()
        s0 = self.st
        self.st = St(dict(s0.s), TRUE)
        self.base.append(band(self.base[-1], s0.g, g))
        v = f()
        self.base.pop()
        s1 = self.st
        m = self.merge([St(s1.s, band(g, s1.g)), St(s0.s, bnot(g))])
        self.st = St(m.s, band(s0.g, m.g)) if m is not None else St(s0.s, FALSE)
        return v

    # ---------------------------------------------------------------- lists
    def tolist(self, v):
        return self.M.tolist(self, v)

    # ---------------------------------------------------------------- loops
    def find_driver(self, fr, h):
        """(blocks from the header to the call, iterator place) when each round starts by taking the next element"""
        cfg = fr.body.cfg()
        x = h
        blocks = []
        refs = {}
        for _ in range(6):
            blk = fr.body.blocks[x]
            blocks.append(x)
            for pl_, rv, _s in blk["s"]:
                if isinstance(pl_, int) and rv[0] == "ref":
                    refs[pl_] = rv[2]
                elif isinstance(pl_, int) and rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                    refs[pl_] = ("cpy", rv[1][1])
            t = blk["t"]
            if t[0] == "goto":
                x = t[1]
                if x not in cfg.loops[h] or x == h:
                    return None
                continue
            if t[0] == "call":
                f = t[1]
                if f[0] == "c" and isinstance(f[1], dict) and f[1].get("k") == "fn" and key_of(f[1]["p"]) == "Iterator::next":
                    return blocks, t, (f[1].get("r") or f[1]["d"]) in self.F.bodies
            return None
        return None

    def run_loop(self, fr, h):
        d = self.find_driver(fr, h)
        if d is not None:
            blocks, t, own = d
            # evaluate the argument of next() without side effects on the real state
            probe = self.st.copy()
            for x in blocks:
                for pl_, rv, span in fr.body.blocks[x]["s"]:
                    v = self.rvalue(fr, rv, span)
                    if isinstance(pl_, int):
                        self.st.s[fr.fid + pl_] = v
            ref = self.operand(fr, t[2][0])
            itv = self.deref(ref)
            st_now = self.st
            self.st = probe
            if itv.op == "iter" if own else self.M.is_iter(self, itv):
                lst = self.tolist(itv)
                drv = {"blocks": set(blocks)}

                def body(x):
                    ex = self.region(fr, h, h, self.st, {**drv, "val": SOME(x)})
                    back = ex.pop("back", None)
                    self.st = back if back is not None else St(dict(self.st.s), FALSE)
                    return ex
                exits = self.iterate(lst, body)
                if self.st.g is not FALSE:
                    self.store(ref, T("iter", EMPTY))
                    fin = self.region(fr, h, h, self.st, {**drv, "val": NONE})
                    fin.pop("back", None)
                    for k, s in fin.items():
                        exits.setdefault(k, []).append(s)
                return {k: self.merge(v) for k, v in exits.items() if self.merge(v) is not None}

        def wbody(p):
            ex = self.region(fr, h, h, self.st)
            back = ex.pop("back", None)
            self.st = back if back is not None else St(dict(self.st.s), FALSE)
            return {k: [s] for k, s in ex.items()}
        exits = self.loop(None, wbody)
        return {k: self.merge(v) for k, v in exits.items() if self.merge(v) is not None}

    def iterate(self, lst, body):
        """body(x) for every element of the list in order; -> {exit: [states]}, self.st = state when exhausted"""
        exits = {}
        for seg in aslist(lst).args:
            if self.st.g is FALSE:
                break
            ex = self.iter_seg(seg, body)
            for k, v in ex.items():
                exits.setdefault(k, []).extend(v)
        return exits

    def iter_seg(self, seg, body):
        if seg.op == "e":
            g, x = seg.args
            if band(self.absg(), g) is FALSE:
                return {}
            s0 = self.st
            self.st = St(dict(s0.s), TRUE)
            self.base.append(band(self.base[-1], s0.g, g))
            ex = body(x)
            self.base.pop()
            s1 = self.st
            cont = [St(s1.s, band(g, s1.g))]
            if g is not TRUE:
                cont.append(St(s0.s, bnot(g)))
            m = self.merge(cont)
            self.st = St(m.s, band(s0.g, m.g)) if m is not None else St(s0.s, FALSE)
            return {k: [St(s.s, band(s0.g, g, s.g)) for s in (v if isinstance(v, list) else [v])]
                    for k, v in ex.items()}
        if seg.op == "src":
            n = length(seg.args[0])
            S_ = seg.args[0]
            return self.loop(n, lambda p: self._lst(body(idx(S_, p))))
        n = seg.args[0]

        def inner(p):
            exits = {}
            for s in open_for(seg, p):
                if self.st.g is FALSE:
                    break
                for k, v in self.iter_seg(s, body).items():
                    exits.setdefault(k, []).extend(v)
            return exits
        return self.loop(n, inner)

    def _lst(self, ex):
        return {k: (v if isinstance(v, list) else [v]) for k, v in ex.items()}

    def diff(self, old, new, path, acc):
        if old is new:
            return
        if old.op in ("adt", "tup") and new.op == old.op and len(old.args) == len(new.args) and \
                (old.op == "tup" or old.args[:2] == new.args[:2]):
            o = 2 if old.op == "adt" else 0
            if len(old.args) > o and (old.op == "tup" or old.args[1] == ""):
                for i in range(o, len(old.args)):
                    self.diff(old.args[i], new.args[i], path + (T("pf", i - o),), acc)
                return
        if new.op == "upd" or old.op == "upd":
            keys = set()
            x, y = old, new
            while x.op == "upd":
                keys.add(x.args[1])
                x = x.args[0]
            while y.op == "upd":
                keys.add(y.args[1])
                y = y.args[0]
            if x is y:
                for i in keys:
                    self.diff(fld(old, i), fld(new, i), path + (T("pf", i),), acc)
                return
        acc.append(path)

    def loop(self, n, body):
        """abstract a loop over positions 0..n (n None: until it exits)"""
        self.scope += 1
        sc = self.scope
        W = n if n is not None else T("while", sc)
        self.depth += 1
        p = T("pos", W, self.depth)
        entry = self.st
        g0 = entry.g
        ctx = band(self.base[-1], g0)
        outer_events = self.events
        havoc = {}
        rounds = 0
        self.base.append(TRUE)
        while True:
            rounds += 1
            self.st = St(dict(entry.s), TRUE)
            for (root, path), lv in havoc.items():
                self._store1(T("ref", root, *path), lv)
            start = dict(self.st.s)
            self.events = []
            exits = body(p)
            new = []
            if self.st.g is not FALSE:
                for root, v in self.st.s.items():
                    if root in start and v is not start[root]:
                        acc = []
                        self.diff(start[root], v, (), acc)
                        for path in acc:
                            if (root, path) not in havoc:
                                new.append((root, path))
            # drop paths below a havocked one
            if not new or rounds > 6:
                break
            allp = set(havoc) | set(new)
            for (r, pa) in list(allp):
                if any((r, pa[:k]) in allp for k in range(len(pa))):
                    allp.discard((r, pa))
            old = havoc
            havoc = {}
            for key in sorted(allp, key=lambda k: (k[0], [x.id for x in k[1]])):
                havoc[key] = old.get(key) or T("lv", sc, len(old) + len(havoc), W)
        self.base.pop()
        evs = self.events
        self.events = outer_events
        self.depth -= 1
        cont = self.st
        # steps and closed forms
        rec = LoopRec()
        rec.n, rec.p = n, p
        steps = {}
        inits = {}
        cg = cont.g
        for (root, path), lv in havoc.items():
            inits[lv] = self._load_in(entry, root, path)
            steps[lv] = self._load_in(cont, root, path) if cg is not FALSE else lv
        closed = self.solve(p, inits, steps)
        sub_p = {lv: f(p) for lv, f in closed.items()}
        ren = dict(sub_p)
        # while loops that count are ranges
        if n is None:
            N, key = self.counting(p, exits, ren)
            if N is not None:
                n = N
                q = T("pos", N, p.args[1])
                ren2 = {p: q}
                fin = exits.pop(key)
                closed = {lv: (lambda m, f=f: subst(f(m), ren2)) for lv, f in closed.items()}
                ren = {lv: subst(v, ren2) for lv, v in ren.items()}
                ren[p] = q
                cgx = subst(cg, ren)
                evs = [self.ev_subst(x, ren) for x in evs]
                exits = {k: [self.st_subst(s, ren) for s in v] for k, v in exits.items()}
                steps = {lv: subst(v, ren) for lv, v in steps.items()}
                cont = self.st_subst(cont, ren)
                fin_states = fin
                rec.n, rec.p = n, q
                p = q
                # in range: the header test holds
                inr = gt0(sub(N, q))
                evs = [self.ev_assume(x, inr) for x in evs]
                exits = {k: [St(s.s, constrain(s.g, inr)) for s in v] for k, v in exits.items()}
                steps = {lv: assume(v, inr) for lv, v in steps.items()}
                closed = self.solve(p, inits, steps)
                sub_p = {lv: f(p) for lv, f in closed.items()}
                ren = dict(sub_p)
                exits["fin"] = fin_states
        evs = [self.ev_subst(x, ren) for x in evs]
        rec.lvs = [(lv, inits[lv], steps[lv], rp) for rp, lv in havoc.items()]
        rec.closed = closed
        rec.cont = subst(cg, ren)
        fin_states = exits.pop("fin", None)
        exr = {}
        xs = []
        for k, v in exits.items():
            for s in v:
                s2 = self.st_subst(s, ren)
                if s2.g is not FALSE:
                    exr.setdefault(k, []).append(s2)
                    xs.append(s2.g)
        rec.exits = [(k, s.g) for k, v in exr.items() for s in v]
        if rec.n is not None and rec.exits:
            for x in rec.lvs:
                TM.LOOPS.setdefault(x[0], []).append(rec)
        if evs or rec.exits or rec.lvs:
            self.events.append(Ev("loop", ctx, (), self.span, self.fnname, evs, rec))
        xany = bor(*xs)
        result = {}
        many = sum(len(v) for v in exr.values()) > 1
        if n is not None:
            (gx,), b = close(n, p, [xany])
            if any(lv in gx.free for lv in havoc.values()):
                # what decides differs from round to round even where the position is not mentioned
                ex, at = atom(T("exists", n, b, gx)), T("fpos", n, b, gx)
            else:
                ex = exists(n, b, gx)
                at = fpos(n, b, gx) if ex is not FALSE else None
        else:
            (gx,), b = close(W, p, [xany])
            ex = TRUE
            at = T("fpos", W, b, gx)
        prev = FALSE
        left = sum(len(v) for v in exr.values())
        for k, v in exr.items():
            for s in v:
                left -= 1
                m = {p: at}
                for lv, f in closed.items():
                    m[lv] = f(at)
                if n is not None:
                    for lv in havoc.values():
                        if lv not in m:
                            m[lv] = T("lvx", *lv.args)      # its value in the round that leaves the loop
                s2 = self.st_subst(s, m, {lv for _, lv in havoc.items()})
                # the exits exclude each other and one of them is taken at the first exiting position
                g = ex if not many else band(ex, s2.g) if left else band(ex, bnot(prev))
                prev = bor(prev, s2.g)
                result.setdefault(k, []).append(St(s2.s, band(g0, g)))
        if n is not None:
            m = {}
            for lv, f in closed.items():
                m[lv] = f(n)
            post = St(dict(entry.s), TRUE)
            self.st = post
            for (root, path), lv in havoc.items():
                if lv in m:
                    val = m[lv]
                else:
                    val = self.fold(n, p, lv, inits, steps, closed)
                self._store1(T("ref", root, *path), val)
            self.st = St(self.st.s, band(g0, bnot(ex)))
            if fin_states is not None:
                # leave through the header of the counting loop
                for s in fin_states:
                    m2 = dict(m)
                    m2[T("pos", W, p.args[1])] = n
                    s2 = self.st_subst(s, m2)
                    for (root, path), lv in havoc.items():
                        if lv not in m:
                            s2 = self.st_subst(s2, {lv: self.fold(n, p, lv, inits, steps, closed)})
                    result.setdefault(key, []).append(St(s2.s, band(g0, bnot(ex))))
                self.st = St(self.st.s, FALSE)
        else:
            self.st = St(entry.s, FALSE)
        return result

    def _load_in(self, st, root, path):
        s, self.st = self.st, st
        try:
            return self.load(T("ref", root, *path))
        finally:
            self.st = s

    def st_subst(self, s, m, _=None):
        if not m:
            return s
        ks = frozenset(m)
        return St({k: (subst(v, m) if TM._mentions(v, ks) else v) for k, v in s.s.items()}, subst(s.g, m))

    def ev_subst(self, x, m):
        if not m:
            return x
        r = x.rec
        if r is not None:
            r2 = LoopRec()
            r2.n = subst(r.n, m) if r.n is not None else None
            r2.p = subst(r.p, m)
            if r2.n is not None and r.n is not r2.n:
                r2.p = T("pos", r2.n, r.p.args[1])
                m = dict(m)
                m[r.p] = r2.p
            r2.lvs = [(a, subst(i, m), subst(st, m), rp) for a, i, st, rp in r.lvs]
            r2.cont = subst(r.cont, m)
            r2.exits = [(k, subst(g, m)) for k, g in r.exits]
            r2.closed = r.closed
            r = r2
        return Ev(x.kind, subst(x.g, m), tuple(subst(a, m) if isinstance(a, Term) else a for a in x.args), x.span, x.fn,
                  [self.ev_subst(y, m) for y in x.sub] if x.sub is not None else None, r)

    def ev_assume(self, x, c):
        return Ev(x.kind, constrain(x.g, c), tuple(assume(a, c) if isinstance(a, Term) else a for a in x.args), x.span,
                  x.fn, [self.ev_assume(y, c) for y in x.sub] if x.sub is not None else None, x.rec)

    def counting(self, p, exits, ren):
        """an exit taken exactly when p >= N"""
        for k, v in exits.items():
            if len(v) != 1:
                continue
            x = subst(v[0].g, ren)
            ne = bnot(x)
            for a in support(ne):
                if a.op != "gt0" or p not in a.free:
                    continue
                c, d = lin_parts(a.args[0])
                pol = d.get(p)
                for sgn, L in ((1, a.args[0]), (-1, add(mul(INT(-1), a.args[0]), INT(1)))):
                    c2, d2 = lin_parts(L)
                    if d2.get(p) != -1:
                        continue
                    N = add(L, p)
                    if p in N.free or any(f.op == "lv" for f in N.free):
                        continue
                    if x is bnot(gt0(sub(N, p))):
                        return N, k
        return None, None

    def solve(self, p, inits, steps):
        """closed forms lv -> (m -> value after m rounds)"""
        closed = {}
        todo = set(steps)
        prog = True
        while prog and todo:
            prog = False
            for lv in sorted(todo, key=lambda x: x.id):
                s = steps[lv]
                if closed:
                    s = subst(s, {k: f(p) for k, f in closed.items()})
                others = [x for x in s.free if x.op == "lv" and x in steps and x is not lv and x not in closed]
                if others:
                    continue
                f = self.accum(p, lv, inits[lv], s)
                if f is not None:
                    closed[lv] = f
                    todo.discard(lv)
                    prog = True
        return closed

    def accum(self, p, lv, init, s):
        if s is lv:
            return lambda m: init
        if lv not in s.free and p not in s.free:
            # constant after the first round
            return lambda m: phi([(gt0(m), s), (bnot(gt0(m)), init)]) if m.op != "pos" and m.op != "bv" else \
                phi([(gt0(m), s), (bnot(gt0(m)), init)])
        segs = self.appended(lv, s)
        if segs is not None:
            if not any(lv in x.free for x in segs):
                def f(m):
                    if m.op == "int" and m.args[0] == 0:
                        return init
                    body, b = close(m, p, list(segs))
                    return LIST(*(aslist(init).args + (T("for", m, b, *body),)))
                return f
            return None
        if is_bool(s) and not any(lv in a.free and a is not lv for a in support(s)):
            t1 = cofactor(s, lv, True)
            t0 = cofactor(s, lv, False)
            ini = atom_b(init)
            if t1 is TRUE:
                def f(m):
                    (g,), b = close(m, p, [t0])
                    return bor(ini, exists(m, b, g))
                return f
            if t0 is FALSE:
                def f(m):
                    (g,), b = close(m, p, [bnot(t1)])
                    return band(ini, bnot(exists(m, b, g)))
                return f
            return None
        # counters
        d = [(g, sub(v, lv)) for g, v in phi_cases(s)]
        if all(lv not in x.free and lv not in g.free for g, x in d):
            if all(x.op in TM.NUMOPS or x.op in ("fld", "pl", "app", "fn", "idx") for _, x in d):
                def f(m):
                    r = init
                    for g, x in d:
                        if x.op == "int" and x.args[0] == 0:
                            continue
                        (gg, xx), b = close(m, p, [g, x])
                        if xx.op == "int":
                            r = add(r, mul(xx, count(m, b, gg)))
                        else:
                            r = add(r, T("sum", m, b, gg, xx))
                    return r
                return f
        return None

    def appended(self, lv, s):
        """segments appended to lv when s = lv ++ segments"""
        if s.op == "list" and s.args and s.args[0].op == "src" and s.args[0].args[0] is lv:
            return s.args[1:]
        if s.op == "phi":
            m = TM._merge_lists([(g, aslist(v)) for g, v in phi_cases(s)])
            if m is not None and m.args and m.args[0].op == "src" and m.args[0].args[0] is lv:
                return m.args[1:]
        return None

    def fold(self, n, p, lv, inits, steps, closed):
        """value after n rounds as a fold over the round; variables that depend on each other are folded together"""
        cf = {k: f(p) for k, f in closed.items()}
        st = {}
        group = [lv]
        for x in group:
            st[x] = subst(steps[x], cf)
            for y in sorted((y for y in st[x].free if y.op == "lv" and y in steps), key=lambda y: y.id):
                if y not in group:
                    group.append(y)
        lvl = 1 + max([a.args[0] for x in group for a in subterms(st[x]) if a.op == "acc"], default=-1)
        m = {x: T("acc", lvl, i) for i, x in enumerate(group)}
        ss, b = close(n, p, [subst(st[x], m) for x in group])
        if len(group) == 1:
            return T("fold", n, b, lvl, inits[lv], ss[0])
        return T("mfold", n, b, lvl, T("tup", *[inits[x] for x in group]), T("tup", *ss))


class Call:
    __slots__ = ("c", "key", "dty", "atys")

    def __init__(self, c, key, dty, atys):
        self.c, self.key, self.dty, self.atys = c or {}, key, dty, atys


FNC = {}
PYF = {}


def pyf(name, f):
    t = T("pyf", name, len(PYF))
    PYF[t] = f
    return t


def b2i(b):
    return INT(1) if b is TRUE else INT(0) if b is FALSE else T("b2i", b)


def rem_(a, b):
    def f(a, b):
        if a.op == "int" and b.op == "int":
            return INT(a.args[0] % b.args[0])
        return T("rem", a, b) if not floating(a, b) else T("frem", a, b)
    return lift(f, a, b)


def div_(a, b):
    def f(a, b):
        if a.op == "int" and b.op == "int" and b.args[0]:
            return INT(a.args[0] // b.args[0])
        return T("div", a, b) if not floating(a, b) else T("fdiv", a, b)
    return lift(f, a, b)


def floating(*ts):
    return any(x.op == "tofloat" or x.op == "fromfloat" and str(x.args[1]).startswith("f") for t in ts for x in subterms(t))


def cmp_(a, b):
    return T("cmp", a, b)


def mput(m, k, v):
    return LIST(*(aslist(m).args + (e(T("tup", k, v)),)))


def lset(l, i, v):
    if l.op == "list" and i.op == "int" and all(s.op == "e" and s.args[0] is TRUE for s in l.args) and 0 <= i.args[0] < len(l.args):
        a = list(l.args)
        a[i.args[0]] = e(v)
        return T("list", *a)
    return T("lset", l, i, v)
