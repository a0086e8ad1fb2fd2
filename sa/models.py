"""Models of the library functions the analysed crates use, in terms of terms.py."""
import re

from interp import Ev, FNC, T, b2i, cmp_, div_, lset, mput, pyf
from terms import *
import terms as TM

MODELS = {}
DROPS = {"std::io::BufWriter", "std::fs::File"}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ident(ip, a, c):
    return a[0]


def identv(ip, a, c):
    return ip.deref(a[0])


for n in ["Deref::deref", "AsRef::as_ref", "Borrow::borrow", "Clone::clone", "ToOwned::to_owned", "Path::new",
          "PathBuf::into_boxed_path", "PathBuf::as_path", "Path::to_path_buf", "Path::display", "PathBuf::from", "Box::new",
          "hint::must_use", "slice::to_vec", "str::to_owned", "String::as_str", "String::from", "Option::as_ref",
          "Option::cloned", "Option::copied", "Option::as_deref", "Vec::as_slice", "slice::into_vec", "Rc::new",
          "boxed::box_assume_init_into_vec_unsafe", "str::as_ref", "Result::as_ref", "Vec::from", "str::to_string",
          "Vec::into_boxed_slice", "OsStr::new", "Path::as_os_str", "PathBuf::into_os_string", "str::as_bytes", "String::as_bytes", "String::into_bytes", "String::into_boxed_str",
          "convert::identity", "hint::black_box", "Cow::into_owned", "Path::to_string_lossy", "clone::Clone", "From::from_", "Box::from"]:
    MODELS[n] = identv
for n in ["DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Iterator::by_ref", "Vec::as_mut_slice"]:
    MODELS[n] = ident


@model("TryInto::try_into", "TryFrom::try_from")
def _(ip, a, c):
    return OK(ip.deref(a[0]))


@model("Into::into", "From::from")
def _(ip, a, c):
    dty = c.dty or {}
    v = ip.deref(a[0])
    if dty.get("k") == "adt":
        if dty["p"] == "gc_core::graph::Edge" and v.op != "adt":
            return adt(EDGE, "", fld(v, 0), fld(v, 1))
        b = ip.F.methods_of_trait("std::convert::From", dty["p"], "from")
        if b is not None and dty["p"] not in ("gc_core::graph::VertexId",):
            return ip.callbody(b, a)
        if dty["p"].endswith("Box") or dty["p"].endswith("String"):
            return v
    return v


# ------------------------------------------------------------------ comparisons
@model("PartialEq::eq")
def _(ip, a, c):
    return eq(ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1])))


@model("PartialEq::ne")
def _(ip, a, c):
    return bnot(MODELS["PartialEq::eq"](ip, a, c))


def ordkey(ip, c, v):
    """ordering key of a value whose type has its own Ord in the analysed crates, else the value"""
    return ip.deep(ip.deref(v))


def d2(ip, a):
    return ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))


def less(ty, x, y):
    """x < y, for options and tuples by their parts"""
    ty = ty or {}
    while ty.get("k") == "ref":
        ty = ty.get("t") or {}
    parts = ty.get("a") or []
    if ty.get("k") == "adt" and ty.get("p", "").endswith("::Option") and len(parts) == 1:
        sx, sy = isv(x, "Some"), isv(y, "Some")
        return bor(band(bnot(sx), sy), band(sx, sy, less(parts[0], pl(x, "Some", 0), pl(y, "Some", 0))))
    if ty.get("k") == "tuple" and parts:
        r = FALSE
        for i in reversed(range(len(parts))):
            u, v = fld(x, i), fld(y, i)
            r = bor(less(parts[i], u, v), band(eq(u, v), r))
        return r
    return lt(x, y)


def ordered(ty):
    while (ty or {}).get("k") == "ref":
        ty = ty.get("t")
    return bool(ty) and (ty.get("k") == "tuple" or ty.get("k") == "adt" and ty.get("p", "").endswith("::Option"))


def _less(ip, a, c, swap):
    x, y = d2(ip, a)
    ty = (c.atys or [None])[0]
    return less(ty, y, x) if swap else less(ty, x, y)


@model("PartialOrd::lt")
def _(ip, a, c):
    return _less(ip, a, c, False)


@model("PartialOrd::le")
def _(ip, a, c):
    return bnot(_less(ip, a, c, True)) if ordered((c.atys or [None])[0]) else le(*d2(ip, a))


@model("PartialOrd::gt")
def _(ip, a, c):
    return _less(ip, a, c, True)


@model("PartialOrd::ge")
def _(ip, a, c):
    x, y = d2(ip, a)
    return bnot(_less(ip, a, c, False)) if ordered((c.atys or [None])[0]) else le(y, x)


@model("Ord::cmp")
def _(ip, a, c):
    return cmp_(*d2(ip, a))


@model("PartialOrd::partial_cmp")
def _(ip, a, c):
    return SOME(cmp_(*d2(ip, a)))


@model("Ordering::reverse")
def _(ip, a, c):
    def f(v):
        if v.op == "cmp":
            return T("cmp", v.args[1], v.args[0])
        if v.op == "adt":
            return adt(v.args[0], {"Less": "Greater", "Greater": "Less"}.get(v.args[1], v.args[1]))
        return T("ext", "Ordering::reverse", v)
    return lift(f, ip.deref(a[0]))


@model("Ordering::then")
def _(ip, a, c):
    v, w = d2(ip, a)
    g = isv(v, "Equal")
    return phi([(g, w), (bnot(g), v)])


@model("Ordering::then_with")
def _(ip, a, c):
    v = ip.deref(a[0])
    g = isv(v, "Equal")
    w = ip.under(g, lambda: ip.deref(ip.apply(a[1], [])))
    return phi([(g, w), (bnot(g), v)])


for nm, f in (("is_lt", lambda x, y: lt(x, y)), ("is_gt", lambda x, y: lt(y, x)), ("is_le", lambda x, y: le(x, y)),
              ("is_ge", lambda x, y: le(y, x)), ("is_eq", lambda x, y: eq(x, y)), ("is_ne", lambda x, y: bnot(eq(x, y)))):
    def _m(ip, a, c, f=f):
        v = ip.deref(a[0])
        return f(*v.args) if v.op == "cmp" else T("ext", c.key, v)
    MODELS["Ordering::" + nm] = _m


@model("Ord::min", "cmp::min")
def _(ip, a, c):
    x, y = d2(ip, a)
    g = lt(y, x)
    return phi([(g, y), (bnot(g), x)])


@model("Ord::max", "cmp::max")
def _(ip, a, c):
    x, y = d2(ip, a)
    g = lt(y, x)
    return phi([(g, x), (bnot(g), y)])


# ------------------------------------------------------------------ arithmetic
def arith(name, f):
    def m(ip, a, c):
        return f(*d2(ip, a))
    for t in ("Add", "Sub", "Mul", "Div", "Rem"):
        pass
    return m


MODELS["Add::add"] = lambda ip, a, c: add(*d2(ip, a)) if not (c.dty or {}).get("p", "").endswith("String") else \
    mkstr([d2(ip, a)[0], d2(ip, a)[1]])
MODELS["Sub::sub"] = lambda ip, a, c: sub(*d2(ip, a))
MODELS["Mul::mul"] = lambda ip, a, c: mul(*d2(ip, a))
MODELS["Div::div"] = lambda ip, a, c: div_(*d2(ip, a))
MODELS["Neg::neg"] = lambda ip, a, c: mul(INT(-1), ip.deref(a[0]))
MODELS["Not::not"] = lambda ip, a, c: bnot(atom_b(ip.deref(a[0])))
MODELS["BitXor::bitxor"] = lambda ip, a, c: bxor(*[atom_b(x) for x in d2(ip, a)])
MODELS["BitOr::bitor"] = lambda ip, a, c: bor(*[atom_b(x) for x in d2(ip, a)])
MODELS["BitAnd::bitand"] = lambda ip, a, c: band(*[atom_b(x) for x in d2(ip, a)])
MODELS["Rem::rem"] = lambda ip, a, c: __import__("interp").rem_(*d2(ip, a))


@model("AddAssign::add_assign")
def _(ip, a, c):
    if (c.atys or [{}])[0].get("t", {}).get("p", "").endswith("String"):
        return push_str(ip, a, c)
    ip.store(a[0], add(ip.deref(a[0]), ip.deref(a[1])))
    return UNIT


@model("SubAssign::sub_assign")
def _(ip, a, c):
    ip.store(a[0], sub(ip.deref(a[0]), ip.deref(a[1])))
    return UNIT


def bound(c, hi):
    """T::max_value() / T::min_value()"""
    t = c.dty
    t = t if isinstance(t, str) else (t or {}).get("k") if isinstance(t, dict) else None
    if t not in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
        t = c.key.split("::")[0]
    m = {"size": 64}.get(t[1:], t[1:])
    try:
        n = int(m)
    except ValueError:
        return T("maxval" if hi else "minval", c.key)
    if t[0] == "u":
        return INT(2 ** n - 1 if hi else 0)
    return INT(2 ** (n - 1) - 1 if hi else -2 ** (n - 1))


for ty in ("u8", "u16", "u128", "i8", "i16", "i128", "isize"):
    MODELS[ty + "::wrapping_add"] = lambda ip, a, c, ty=ty: T("wrapadd", *d2(ip, a), ty)
    MODELS[ty + "::wrapping_sub"] = lambda ip, a, c, ty=ty: T("wrapsub", *d2(ip, a), ty)
    MODELS[ty + "::max_value"] = lambda ip, a, c: bound(c, 1)
    MODELS[ty + "::min_value"] = lambda ip, a, c: bound(c, 0)

for ty in ("u64", "i64", "usize", "u32", "i32", "num"):
    MODELS[ty + "::saturating_add"] = lambda ip, a, c: T("satadd", *d2(ip, a))
    MODELS[ty + "::saturating_sub"] = (lambda ip, a, c: T("satsub", *d2(ip, a))) if ty[0] == "i" else lambda ip, a, c: satsub(*d2(ip, a))
    MODELS[ty + "::wrapping_add"] = lambda ip, a, c, ty=ty: T("wrapadd", *d2(ip, a), ty)
    MODELS[ty + "::wrapping_sub"] = lambda ip, a, c, ty=ty: T("wrapsub", *d2(ip, a), ty)
    MODELS[ty + "::checked_add"] = lambda ip, a, c: chk(ip, "ovf+", a, add)
    MODELS[ty + "::checked_sub"] = (lambda ip, a, c: chk(ip, "ovf-", a, sub)) if ty[0] == "i" else lambda ip, a, c: chksub(*d2(ip, a))
    MODELS[ty + "::abs"] = lambda ip, a, c: abs_(ip.deref(a[0]))
    MODELS[ty + "::unsigned_abs"] = lambda ip, a, c: abs_(ip.deref(a[0]))
    MODELS[ty + "::abs_diff"] = lambda ip, a, c: absdiff(*d2(ip, a))
    MODELS[ty + "::max_value"] = lambda ip, a, c: bound(c, 1)
    MODELS[ty + "::min_value"] = lambda ip, a, c: bound(c, 0)
    MODELS[ty + "::is_multiple_of"] = lambda ip, a, c: eq(__import__("interp").rem_(*d2(ip, a)), INT(0))


def abs_(x):
    g = lt(x, INT(0))
    return phi([(g, sub(INT(0), x)), (bnot(g), x)])


def absdiff(x, y):
    g = lt(x, y)
    return phi([(g, sub(y, x)), (bnot(g), sub(x, y))])


def satsub(x, y):
    g = lt(y, x)
    return phi([(g, sub(x, y)), (bnot(g), INT(0))])


def chksub(x, y):
    g = le(y, x)
    return phi([(g, SOME(sub(x, y))), (bnot(g), NONE)])


def chk(ip, tag, a, f):
    x, y = d2(ip, a)
    g = atom(T(tag, x, y))
    return phi([(g, NONE), (bnot(g), SOME(f(x, y)))])


@model("bool::then")
def _(ip, a, c):
    g = atom_b(ip.deref(a[0]))
    v = ip.under(g, lambda: ip.apply(a[1], []))
    return phi([(g, SOME(v)), (bnot(g), NONE)])


@model("bool::then_some")
def _(ip, a, c):
    g = atom_b(ip.deref(a[0]))
    return phi([(g, SOME(a[1])), (bnot(g), NONE)])


@model("rt::begin_panic", "panicking::begin_panic")
def _(ip, a, c):
    return NEVER            # the call diverges, which makes a panic event


# ------------------------------------------------------------------ function values
@model("Fn::call", "FnOnce::call_once", "FnMut::call_mut")
def _(ip, a, c):
    t = a[1]
    args = list(t.args) if t.op == "tup" else [fld(t, i) for i in range(1)]
    return ip.apply(a[0], args)


# ------------------------------------------------------------------ Option / Result
def vid(c):
    t = (c.c.get("a") or [{}])
    return t


def omap(ip, v, var, f, other):
    v = ip.deref(v)
    g = isv(v, var)
    r = ip.under(g, lambda: f(restrict(pl(v, var, 0), ip.absg())))
    o = other(v)
    return phi([(g, r), (bnot(g), o)])


@model("Option::map")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: SOME(ip.apply(a[1], [x])), lambda v: NONE)


@model("Option::and_then")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: ip.deref(ip.apply(a[1], [x])), lambda v: NONE)


@model("Option::is_some")
def _(ip, a, c):
    return isv(ip.deref(a[0]), "Some")


@model("Option::is_none")
def _(ip, a, c):
    return isv(ip.deref(a[0]), "None")


@model("Result::is_ok")
def _(ip, a, c):
    return isv(ip.deref(a[0]), "Ok")


@model("Result::is_err")
def _(ip, a, c):
    return isv(ip.deref(a[0]), "Err")


@model("Option::is_some_and")
def _(ip, a, c):
    return atom_b(omap(ip, a[0], "Some", lambda x: atom_b(ip.apply(a[1], [x])), lambda v: FALSE))


@model("Option::is_none_or")
def _(ip, a, c):
    return atom_b(omap(ip, a[0], "Some", lambda x: atom_b(ip.apply(a[1], [x])), lambda v: TRUE))


@model("Option::filter")
def _(ip, a, c):
    v = ip.deref(a[0])
    g = isv(v, "Some")
    k = atom_b(ip.under(g, lambda: atom_b(ip.apply(a[1], [pl(v, "Some", 0)])))) if g is not FALSE else FALSE
    h = band(g, k) if is_bool(k) else FALSE
    return phi([(h, SOME(pl(v, "Some", 0))), (bnot(h), NONE)])


@model("Option::map_or")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: ip.apply(a[2], [x]), lambda v: a[1])


def elsev(ip, v, var, f):
    g = isv(ip.deref(v), var)
    return ip.under(bnot(g), f)


@model("Option::map_or_else")
def _(ip, a, c):
    r = omap(ip, a[0], "Some", lambda x: ip.apply(a[2], [x]), lambda v: elsev(ip, v, "Some", lambda: ip.apply(a[1], [])))
    return r


@model("Option::unwrap_or")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: x, lambda v: a[1])


@model("Option::unwrap_or_else")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: x, lambda v: elsev(ip, v, "Some", lambda: ip.apply(a[1], [])))


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(ip, a, c):
    var = "Some" if c.key.startswith("Option") else "Ok"
    return omap(ip, a[0], var, lambda x: x, lambda v: default(c.dty))


def default(t):
    t = t or {}
    if t.get("k") == "prim":
        return FALSE if t["s"] == "bool" else INT(0)
    if t.get("k") == "adt" and t["p"].split("::")[-1] == "Option":
        return NONE
    if t.get("k") == "adt" and t["p"].split("::")[-1] == "String":
        return S("")
    return EMPTY


@model("Default::default")
def _(ip, a, c):
    return default(c.dty)


@model("Option::or_else")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: SOME(x), lambda v: elsev(ip, v, "Some", lambda: ip.deref(ip.apply(a[1], []))))


@model("Option::or")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: SOME(x), lambda v: ip.deref(a[1]))


@model("Option::and")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: ip.deref(a[1]), lambda v: NONE)


@model("Option::zip")
def _(ip, a, c):
    x, y = ip.deref(a[0]), ip.deref(a[1])
    g = band(isv(x, "Some"), isv(y, "Some"))
    return phi([(g, SOME(T("tup", pl(x, "Some", 0), pl(y, "Some", 0)))), (bnot(g), NONE)])


@model("Option::ok_or")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: OK(x), lambda v: ERR(a[1]))


@model("Option::ok_or_else")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: OK(x), lambda v: ERR(elsev(ip, v, "Some", lambda: ip.apply(a[1], []))))


@model("Option::flatten")
def _(ip, a, c):
    return omap(ip, a[0], "Some", lambda x: ip.deref(x), lambda v: NONE)


@model("Option::transpose")
def _(ip, a, c):
    v = ip.deref(a[0])
    x = pl(v, "Some", 0)
    s, o = isv(v, "Some"), isv(x, "Ok")
    return phi([(band(s, o), OK(SOME(pl(x, "Ok", 0)))), (band(s, bnot(o)), ERR(pl(x, "Err", 0))), (bnot(s), OK(NONE))])


@model("Result::map")
def _(ip, a, c):
    return omap(ip, a[0], "Ok", lambda x: OK(ip.apply(a[1], [x])), lambda v: ERR(pl(v, "Err", 0)))


@model("Result::map_err")
def _(ip, a, c):
    v = ip.deref(a[0])
    g = isv(v, "Ok")
    r = ip.under(bnot(g), lambda: ERR(ip.apply(a[1], [pl(v, "Err", 0)])))
    return phi([(g, OK(pl(v, "Ok", 0))), (bnot(g), r)])


@model("Result::and_then")
def _(ip, a, c):
    return omap(ip, a[0], "Ok", lambda x: ip.deref(ip.apply(a[1], [x])), lambda v: ERR(pl(v, "Err", 0)))


@model("Result::and")
def _(ip, a, c):
    return omap(ip, a[0], "Ok", lambda x: ip.deref(a[1]), lambda v: ERR(pl(v, "Err", 0)))


@model("Result::or_else")
def _(ip, a, c):
    v = ip.deref(a[0])
    return omap(ip, v, "Ok", lambda x: OK(x),
                lambda v: elsev(ip, v, "Ok", lambda: ip.deref(ip.apply(a[1], [pl(v, "Err", 0)]))))


@model("Result::ok")
def _(ip, a, c):
    return omap(ip, a[0], "Ok", lambda x: SOME(x), lambda v: NONE)


@model("Result::err")
def _(ip, a, c):
    return omap(ip, a[0], "Err", lambda x: SOME(x), lambda v: NONE)


@model("Result::unwrap_or")
def _(ip, a, c):
    return omap(ip, a[0], "Ok", lambda x: x, lambda v: a[1])


@model("Result::unwrap_or_else")
def _(ip, a, c):
    return omap(ip, a[0], "Ok", lambda x: x,
                lambda v: elsev(ip, v, "Ok", lambda: ip.apply(a[1], [pl(v, "Err", 0)])))


@model("Result::map_or")
def _(ip, a, c):
    return omap(ip, a[0], "Ok", lambda x: ip.apply(a[2], [x]), lambda v: a[1])


@model("Result::is_ok_and")
def _(ip, a, c):
    return atom_b(omap(ip, a[0], "Ok", lambda x: atom_b(ip.apply(a[1], [x])), lambda v: FALSE))


def unwrap(ip, v, var, what):
    v = ip.deref(v)
    g = isv(v, var)
    if g is not TRUE:
        ip.ev("panic", S(what), ip.deep(v), g=bnot(g))
        if band(ip.absg(), g) is FALSE:
            ip.st.g = FALSE
            return NEVER
    return restrict(pl(v, var, 0), ip.absg())


@model("Option::unwrap", "Option::expect")
def _(ip, a, c):
    return unwrap(ip, a[0], "Some", "unwrap")


@model("Result::unwrap", "Result::expect")
def _(ip, a, c):
    return unwrap(ip, a[0], "Ok", "unwrap")


@model("Result::unwrap_err", "Result::expect_err")
def _(ip, a, c):
    return unwrap(ip, a[0], "Err", "unwrap")


@model("Option::take")
def _(ip, a, c):
    v = ip.deref(a[0])
    ip.store(a[0], NONE)
    return v


@model("Option::replace", "Option::insert")
def _(ip, a, c):
    v = ip.deref(a[0])
    ip.store(a[0], SOME(a[1]))
    return v


@model("Option::as_mut")
def _(ip, a, c):
    r = a[0]
    v = ip.deref(r)
    g = isv(v, "Some")
    return phi([(g, SOME(ip.extend(r, T("pp", "Some", 0)))), (bnot(g), NONE)])


@model("Option::iter", "Option::into_iter", "Result::into_iter", "Result::iter")
def _(ip, a, c):
    return T("iter", tolist(ip, a[0]))


@model("Try::branch")
def _(ip, a, c):
    v = ip.deref(a[0])
    ty = (c.c.get("a") or [{}])[0].get("p", "")
    if ty.endswith("Option"):
        g = isv(v, "Some")
        return phi([(g, adt("ControlFlow", "Continue", pl(v, "Some", 0))), (bnot(g), adt("ControlFlow", "Break", NONE))])
    g = isv(v, "Ok")
    return phi([(g, adt("ControlFlow", "Continue", pl(v, "Ok", 0))),
                (bnot(g), adt("ControlFlow", "Break", ERR(pl(v, "Err", 0))))])


@model("FromResidual::from_residual")
def _(ip, a, c):
    v = ip.deref(a[0])
    ty = (c.dty or {}).get("p", "")
    if ty.endswith("Option"):
        return NONE
    if v.op == "adt" and v.args[1] == "None":
        return NONE
    return ERR(pl(v, "Err", 0))


@model("Try::from_output")
def _(ip, a, c):
    ty = (c.dty or {}).get("p", "")
    return SOME(a[0]) if ty.endswith("Option") else OK(a[0])


@model("mem::replace")
def _(ip, a, c):
    v = ip.deref(a[0])
    ip.store(a[0], a[1])
    return v


@model("mem::take")
def _(ip, a, c):
    v = ip.deref(a[0])
    ip.store(a[0], default(c.dty))
    return v


@model("mem::swap")
def _(ip, a, c):
    x, y = ip.deref(a[0]), ip.deref(a[1])
    ip.store(a[0], y)
    ip.store(a[1], x)
    return UNIT


@model("mem::drop", "mem::forget")
def _(ip, a, c):
    t = (c.c.get("a") or [{}])[0]
    if c.key == "mem::drop" and t.get("p") in DROPS:
        ip.ev("drop", S(t["p"]), ip.deep(a[0]))
    elif c.key == "mem::drop" and ip.own_drops() and t:
        ip.glue(ip.newroot(a[0]) if a[0].op != "ref" else a[0], ip.tinst(t))
    return UNIT


# ------------------------------------------------------------------ boxes
@model("Box::new_uninit")
def _(ip, a, c):
    return ip.newroot(NEVER)


# ------------------------------------------------------------------ collections
LISTS = ("Vec", "LinkedList", "VecDeque", "HashSet", "BTreeSet", "HashMap", "BTreeMap", "BinaryHeap")
for n in LISTS:
    for m_ in ("new", "with_capacity", "with_hasher"):
        MODELS["%s::%s" % (n, m_)] = lambda ip, a, c: EMPTY
for n in ("Vec", "VecDeque", "HashSet", "HashMap", "String"):
    for m_ in ("reserve", "shrink_to_fit"):
        MODELS["%s::%s" % (n, m_)] = lambda ip, a, c: UNIT


def lv_(ip, r):
    return ip.deref(r)


@model("Vec::push", "LinkedList::push_back", "VecDeque::push_back")
def _(ip, a, c):
    l = lv_(ip, a[0])
    ip.ev("push", a[0], ip.deep(a[1]), S("back"))
    ip.store(a[0], concat(l, LIST(e(a[1]))))
    return UNIT


@model("LinkedList::push_front", "VecDeque::push_front")
def _(ip, a, c):
    l = lv_(ip, a[0])
    ip.ev("push", a[0], ip.deep(a[1]), S("front"))
    ip.store(a[0], LIST(e(a[1]), *aslist(l).args))
    return UNIT


@model("BinaryHeap::push")
def _(ip, a, c):
    l = lv_(ip, a[0])
    ip.ev("push", a[0], ip.deep(a[1]), S("heap"))
    ip.store(a[0], concat(l, LIST(e(a[1]))))
    return UNIT


def pop(ip, r, end):
    l = lv_(ip, r)
    al = aslist(l)
    if al is EMPTY:
        return NONE
    if end in ("back", "front") and al.args:
        s = al.args[-1] if end == "back" else al.args[0]
        if s.op == "e" and s.args[0] is TRUE:
            ip.store(r, LIST(*(al.args[:-1] if end == "back" else al.args[1:])))
            ip.ev("pop", r, S(end), ip.deep(s.args[1]))
            return SOME(s.args[1])
    if len(al.args) == 1 and al.args[0].op == "src":
        l = al.args[0].args[0]
    v = T("pop", l, end)
    g = gt0(length(aslist(l)))
    ip.ev("pop", r, S(end), v, g=g)
    ip.store(r, T("rest", l, end))
    return phi([(g, SOME(v)), (bnot(g), NONE)])


for n, m_, end in (("Vec", "pop", "back"), ("LinkedList", "pop_back", "back"), ("LinkedList", "pop_front", "front"),
                   ("VecDeque", "pop_back", "back"), ("VecDeque", "pop_front", "front"), ("BinaryHeap", "pop", "heap")):
    MODELS["%s::%s" % (n, m_)] = lambda ip, a, c, end=end: pop(ip, a[0], end)


@model("BinaryHeap::peek")
def _(ip, a, c):
    l = lv_(ip, a[0])
    al = aslist(l)
    if al is EMPTY:
        return NONE
    if len(al.args) == 1 and al.args[0].op == "src":
        l = al.args[0].args[0]
    g = gt0(length(aslist(l)))
    return phi([(g, SOME(T("pop", l, "heap"))), (bnot(g), NONE)])


@model("Vec::remove", "VecDeque::remove")
def _(ip, a, c):
    l = lv_(ip, a[0])
    i = ip.deref(a[1])
    if i.op == "int" and i.args[0] == 0:
        v = pop(ip, a[0], "front")
        return pl(v, "Some", 0)
    ip.ev("remove_at", a[0], i)
    ip.store(a[0], T("removed", l, i))
    return idx(l, i)


@model("Vec::insert")
def _(ip, a, c):
    l = lv_(ip, a[0])
    i = ip.deref(a[1])
    ip.ev("push", a[0], ip.deep(a[2]), S("at"))
    if i.op == "int" and i.args[0] == 0:
        ip.store(a[0], LIST(e(a[2]), *aslist(l).args))
    else:
        ip.store(a[0], T("inserted", l, i, a[2]))
    return UNIT


@model("Vec::clear", "HashMap::clear", "HashSet::clear", "LinkedList::clear", "VecDeque::clear", "BinaryHeap::clear", "String::clear")
def _(ip, a, c):
    ip.ev("clear", a[0])
    ip.store(a[0], EMPTY)
    return UNIT


@model("Vec::extend_from_slice", "Vec::append", "LinkedList::append", "VecDeque::append", "Extend::extend", "Vec::extend")
def _(ip, a, c):
    src = tolist(ip, a[1])
    ty = ((c.atys or [{}])[0].get("t") or {}).get("p", "")
    if c.key.endswith("append"):
        ip.store(a[1], EMPTY)
    for n_, key in (("HashMap", "HashMap::insert"), ("HashSet", "HashSet::insert"), ("BinaryHeap", "BinaryHeap::push")):
        if ty.endswith(n_):
            def body(x, key=key, n_=n_):
                if n_ == "HashMap":
                    MODELS[key](ip, [a[0], fld(x, 0), fld(x, 1)], c)
                else:
                    MODELS[key](ip, [a[0], x], c)
                return {}
            ip.iterate(src, body)
            return UNIT

    def body(x):
        MODELS["Vec::push"](ip, [a[0], x], c)
        return {}
    ip.iterate(src, body)
    return UNIT


@model("Vec::len", "slice::len", "LinkedList::len", "VecDeque::len", "str::len", "String::len", "BinaryHeap::len", "ExactSizeIterator::len")
def _(ip, a, c):
    return length(tolist(ip, a[0])) if ip.deref(a[0]).op not in ("s", "str") else T("len", ip.deref(a[0])) \
        if ip.deref(a[0]).op == "str" else length(ip.deref(a[0]))


@model("Vec::is_empty", "slice::is_empty", "LinkedList::is_empty", "VecDeque::is_empty", "str::is_empty", "String::is_empty",
       "BinaryHeap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty", "ExactSizeIterator::is_empty")
def _(ip, a, c):
    v = ip.deref(a[0])
    if v.op == "s":
        return TRUE if v.args[0] == "" else FALSE
    if v.op == "str":
        return FALSE if any(p.op == "s" and p.args[0] for p in v.args) else bnot(gt0(T("len", v)))
    return bnot(nonempty(tolist(ip, v)))


def nonempty(l):
    r = FALSE
    for s in aslist(l).args:
        if s.op == "src":
            r = bor(r, gt0(length(s.args[0])))
        else:
            r = bor(r, exists_seg(s, lambda x: TRUE))
    return r


@model("HashSet::len", "BTreeSet::len")
def _(ip, a, c):
    return setlen(ip.deref(a[0]))


def setlen(l):
    l = aslist(l)
    if not l.args:
        return INT(0)
    if len(l.args) == 1:
        if l.args[0].op == "e":
            return b2i(l.args[0].args[0])
        if l.args[0].op == "src":
            x = l.args[0].args[0]
            if x.op == "uniq":
                return setlen(x.args[0])
            return T("setlen", x)
    return T("setlen", l)


@model("HashMap::len", "BTreeMap::len")
def _(ip, a, c):
    return length(keys_of(ip.deref(a[0])))


@model("HashMap::is_empty", "BTreeMap::is_empty")
def _(ip, a, c):
    return bnot(nonempty(keys_of(ip.deref(a[0]))))


def keys_of(m):
    if m.op == "list" and all(s.op == "e" and s.args[0] is TRUE for s in m.args) and len(m.args) <= 1:
        return LIST(*[e(fld(s.args[1], 0)) for s in m.args])
    if m.op == "list" and len(m.args) == 1 and m.args[0].op == "src":
        m = m.args[0].args[0]
    return LIST(T("src", T("keys", m)))


def entries_of(m):
    if m.op == "list" and all(s.op == "e" and s.args[0] is TRUE for s in m.args) and len(m.args) <= 1:
        return m
    if m.op == "list" and len(m.args) == 1 and m.args[0].op == "src":
        m = m.args[0].args[0]
    return LIST(T("src", T("entries", m)))


@model("HashMap::keys", "BTreeMap::keys", "HashMap::into_keys", "BTreeMap::into_keys")
def _(ip, a, c):
    return T("iter", keys_of(ip.deref(a[0])))


@model("HashMap::iter", "BTreeMap::iter", "HashMap::drain")
def _(ip, a, c):
    v = ip.deref(a[0])
    if c.key.endswith("drain"):
        ip.store(a[0], EMPTY)
    return T("iter", entries_of(v))


@model("HashMap::values", "BTreeMap::values", "HashMap::into_values")
def _(ip, a, c):
    m = ip.deref(a[0])
    return T("iter", map_list(ip, entries_of(m), lambda x: fld(x, 1)))


def entries_mut(ip, r):
    m = ip.deref(r)
    ks = keys_of(m)
    return map_list(ip, ks, lambda k: T("tup", k, ip.extend(r, T("pk", k))))


@model("HashMap::iter_mut", "BTreeMap::iter_mut")
def _(ip, a, c):
    return T("iter", entries_mut(ip, a[0]))


@model("HashMap::values_mut", "BTreeMap::values_mut")
def _(ip, a, c):
    return T("iter", map_list(ip, entries_mut(ip, a[0]), lambda x: fld(x, 1)))


@model("slice::iter_mut", "LinkedList::iter_mut", "VecDeque::iter_mut")
def _(ip, a, c):
    l = ip.deref(a[0])
    n = length(tolist(ip, l))
    b = T("bv", n, TM._maxbv(l, n))
    return T("iter", LIST(T("for", n, b, e(ip.extend(a[0], T("pi", b))))))


@model("HashMap::get", "BTreeMap::get")
def _(ip, a, c):
    return get(ip.deref(a[0]), ip.deep(ip.deref(a[1])))


@model("HashMap::get_key_value")
def _(ip, a, c):
    k = ip.deep(ip.deref(a[1]))
    v = get(ip.deref(a[0]), k)
    return omap(ip, v, "Some", lambda x: SOME(T("tup", k, x)), lambda v: NONE)


@model("HashMap::contains_key", "BTreeMap::contains_key")
def _(ip, a, c):
    return has(ip.deref(a[0]), ip.deep(ip.deref(a[1])))


@model("HashMap::get_mut", "BTreeMap::get_mut")
def _(ip, a, c):
    k = ip.deep(ip.deref(a[1]))
    m = ip.deref(a[0])
    g = has(m, k)
    return phi([(g, SOME(ip.extend(a[0], T("pk", k)))), (bnot(g), NONE)])


@model("HashMap::insert", "BTreeMap::insert")
def _(ip, a, c):
    m = ip.deref(a[0])
    k = ip.deep(ip.deref(a[1]))
    v = ip.deref(a[2]) if a[2].op == "ref" else a[2]
    old = get(m, k)
    ip.ev("put", a[0], k, ip.deep(v))
    ip.store(a[0], mput(m, k, v))
    return old


@model("HashMap::remove", "BTreeMap::remove")
def _(ip, a, c):
    m = ip.deref(a[0])
    k = ip.deep(ip.deref(a[1]))
    old = get(m, k)
    ip.ev("mremove", a[0], k)
    ip.store(a[0], T("mremove", m, k))
    return old


@model("HashMap::remove_entry")
def _(ip, a, c):
    k = ip.deep(ip.deref(a[1]))
    return omap(ip, MODELS["HashMap::remove"](ip, a, c), "Some", lambda x: SOME(T("tup", k, x)), lambda v: NONE)


@model("HashMap::entry", "BTreeMap::entry")
def _(ip, a, c):
    return T("entry", a[0], ip.deref(a[0]), ip.deep(ip.deref(a[1])))


def ent(ip, t):
    t = t if t.op == "entry" else ip.deref(t)
    return t


def ent_insert(ip, en, mk_):
    r, _, k = en.args
    m = ip.deref(r)
    h = has(m, k)

    def ins():
        v = mk_()
        ip.ev("put", r, k, ip.deep(v))
        ip.store(r, mput(ip.deref(r), k, v))
        return UNIT
    ip.under(bnot(h), ins)
    return ip.extend(r, T("pk", k))


@model("Entry::or_insert")
def _(ip, a, c):
    return ent_insert(ip, ent(ip, a[0]), lambda: a[1])


@model("Entry::or_insert_with")
def _(ip, a, c):
    return ent_insert(ip, ent(ip, a[0]), lambda: ip.apply(a[1], []))


@model("Entry::or_default")
def _(ip, a, c):
    d = (c.dty or {}).get("t")
    return ent_insert(ip, ent(ip, a[0]), lambda: default(d))


@model("Entry::and_modify")
def _(ip, a, c):
    en = ent(ip, a[0])
    r, _, k = en.args
    m = ip.deref(r)
    h = has(m, k)
    ref = ip.extend(r, T("pk", k))

    def f():
        old = ip.deref(ref)
        ip.apply(a[1], [ref])
        ip.ev("modify", r, k, ip.deep(old), ip.deep(ip.deref(ref)))
        return UNIT
    ip.under(h, f)
    return T("entry", r, ip.deref(r), k)


@model("Entry::key", "VacantEntry::key", "OccupiedEntry::key")
def _(ip, a, c):
    return ent(ip, a[0]).args[2]


@model("VacantEntry::insert")
def _(ip, a, c):
    en = ent(ip, a[0])
    r, _, k = en.args
    ip.ev("put", r, k, ip.deep(a[1]))
    ip.store(r, mput(ip.deref(r), k, a[1]))
    return ip.extend(r, T("pk", k))


@model("OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def _(ip, a, c):
    en = ent(ip, a[0])
    return ip.extend(en.args[0], T("pk", en.args[2]))


@model("OccupiedEntry::get")
def _(ip, a, c):
    en = ent(ip, a[0])
    return ip.deref(ip.extend(en.args[0], T("pk", en.args[2])))


@model("HashSet::contains", "BTreeSet::contains", "slice::contains", "LinkedList::contains", "VecDeque::contains", "Vec::contains")
def _(ip, a, c):
    return isin(ip.deep(ip.deref(a[1])), aslist_in(ip, a[0]))


def aslist_in(ip, v):
    v = ip.deref(v)
    if v.op == "iter":
        return tolist(ip, v)
    if v.op == "list" and len(v.args) == 1 and v.args[0].op == "src":
        v = v.args[0].args[0]
    return v


@model("HashSet::insert", "BTreeSet::insert")
def _(ip, a, c):
    s = ip.deref(a[0])
    x = ip.deep(ip.deref(a[1]) if a[1].op == "ref" else a[1])
    new = bnot(isin(x, s))
    ip.ev("insert", a[0], x)
    ip.store(a[0], concat(s, LIST(e(x))))
    return new


@model("HashSet::remove", "BTreeSet::remove")
def _(ip, a, c):
    s = ip.deref(a[0])
    x = ip.deep(ip.deref(a[1]))
    ip.ev("sremove", a[0], x)
    ip.store(a[0], filter_list(ip, aslist(s), lambda y: bnot(eq(x, y))))
    return isin(x, s)


@model("HashSet::intersection")
def _(ip, a, c):
    x, y = aslist_in(ip, a[0]), aslist_in(ip, a[1])
    return T("iter", filter_list(ip, set_elems(x), lambda v: isin(ip.deep(v), y)))


@model("HashSet::difference")
def _(ip, a, c):
    x, y = aslist_in(ip, a[0]), aslist_in(ip, a[1])
    return T("iter", filter_list(ip, set_elems(x), lambda v: bnot(isin(ip.deep(v), y))))


@model("HashSet::is_disjoint")
def _(ip, a, c):
    x, y = aslist_in(ip, a[0]), aslist_in(ip, a[1])
    return bnot(nonempty(filter_list(ip, set_elems(x), lambda v: isin(ip.deep(v), y))))


@model("HashSet::is_subset")
def _(ip, a, c):
    x, y = aslist_in(ip, a[0]), aslist_in(ip, a[1])
    return bnot(nonempty(filter_list(ip, set_elems(x), lambda v: bnot(isin(ip.deep(v), y)))))


def set_elems(x):
    return aslist(x)


@model("HashSet::iter", "BTreeSet::iter", "HashSet::into_iter", "HashSet::drain")
def _(ip, a, c):
    v = ip.deref(a[0])
    return T("iter", aslist(v) if v.op != "iter" else tolist(ip, v))


@model("Vec::retain", "LinkedList::retain", "VecDeque::retain", "HashSet::retain")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    new = filter_list(ip, l, lambda x: atom_b(ip.deref(ip.apply(a[1], [x]))))
    ip.ev("retain", a[0], ip.deep(new))
    ip.store(a[0], new)
    return UNIT


@model("HashMap::retain")
def _(ip, a, c):
    l = entries_of(ip.deref(a[0]))
    new = filter_list(ip, l, lambda x: atom_b(ip.deref(ip.apply(a[1], [fld(x, 0), fld(x, 1)]))))
    ip.ev("retain", a[0], ip.deep(new))
    ip.store(a[0], new)
    return UNIT


@model("slice::rotate_left")
def _(ip, a, c):
    l = ip.deref(a[0])
    ip.store(a[0], T("rotl", l, ip.deref(a[1])))
    return UNIT


@model("slice::rotate_right")
def _(ip, a, c):
    l = ip.deref(a[0])
    ip.store(a[0], T("rotl", l, sub(length(tolist(ip, l)), ip.deref(a[1]))))
    return UNIT


@model("slice::reverse")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    ip.store(a[0], LIST(*[rev_seg(s) for s in reversed(l.args)]))
    return UNIT


@model("slice::swap")
def _(ip, a, c):
    l = ip.deref(a[0])
    i, j = ip.deref(a[1]), ip.deref(a[2])
    ip.store(a[0], lset(lset(l, i, idx(l, j)), j, idx(l, i)))
    return UNIT


@model("slice::sort", "slice::sort_unstable")
def _(ip, a, c):
    l = ip.deref(a[0])
    ip.store(a[0], T("sorted", ip.deep(l), "slice::sort"))
    return UNIT


@model("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    ip.store(a[0], T("sortedby", ip.deep(l), ip.deep(map_list(ip, l, lambda x: ip.apply(a[1], [x])))))
    return UNIT


@model("slice::sort_by", "slice::sort_unstable_by")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    x, y = T("sym", "x"), T("sym", "y")
    r = ip.deref(ip.apply(a[1], [x, y]))
    v = T("sorted", ip.deep(l), "by", ip.deep(r))
    if r.op == "cmp":
        u, w = r.args
        if subst(u, {x: y}) is w and not mentions(u, y):
            v = T("sortedby", ip.deep(l), ip.deep(map_list(ip, l, lambda z: subst(u, {x: ip.deep(z)}))))
        elif subst(w, {x: y}) is u and not mentions(w, y):
            v = T("sortedby", ip.deep(l), ip.deep(map_list(ip, l, lambda z: subst(w, {x: ip.deep(z)}))), "desc")
    ip.store(a[0], v)
    return UNIT


@model("Vec::dedup")
def _(ip, a, c):
    ip.store(a[0], T("dedup", ip.deep(ip.deref(a[0]))))
    return UNIT


@model("Vec::dedup_by_key")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    ip.store(a[0], T("dedup", ip.deep(l), ip.deep(map_list(ip, l, lambda x: ip.apply(a[1], [x])))))
    return UNIT


@model("Vec::swap_remove")
def _(ip, a, c):
    l = lv_(ip, a[0])
    i = ip.deref(a[1])
    ip.ev("remove_at", a[0], i)
    ip.store(a[0], T("swapremoved", l, i))
    return idx(l, i)


@model("Vec::split_off", "LinkedList::split_off", "VecDeque::split_off")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    i = ip.deref(a[1])
    ip.store(a[0], take_list(l, i))
    return skip_list(l, i)


@model("slice::binary_search")
def _(ip, a, c):
    return T("bsearch", ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1])))


@model("slice::binary_search_by_key")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    return T("bsearchk", ip.deep(l), ip.deep(map_list(ip, l, lambda x: ip.apply(a[2], [x]))), ip.deep(ip.deref(a[1])))


@model("Vec::truncate")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    ip.store(a[0], take_list(l, ip.deref(a[1])))
    return UNIT


@model("Vec::drain")
def _(ip, a, c):
    l = ip.deref(a[0])
    r = rng(ip, a[1], l)
    ip.ev("drain", a[0])
    nm = a[1].args[0].split("::")[-1] if a[1].op == "adt" else ""
    if nm == "RangeFull":
        ip.store(a[0], EMPTY)
    elif nm in ("Range", "RangeFrom", "RangeTo"):
        ll = tolist(ip, l)
        lo = ip.deref(a[1].args[2]) if nm != "RangeTo" else INT(0)
        hi = ip.deref(a[1].args[-1]) if nm != "RangeFrom" else length(ll)
        ip.store(a[0], concat(take_list(ll, lo), skip_list(ll, hi)))
    else:
        ip.store(a[0], T("drained", l, ip.deep(a[1])))
    return T("iter", r)


@model("slice::concat", "slice::join")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    if c.key.endswith("concat") and not (c.dty or {}).get("p", "").endswith("String"):
        return flat_list(ip, l, lambda x: x)
    return T("joined", ip.deep(l), *[ip.deep(x) for x in a[1:]])


@model("slice::first", "LinkedList::front", "VecDeque::front")
def _(ip, a, c):
    return head(tolist(ip, a[0]))


@model("slice::last", "LinkedList::back", "VecDeque::back", "Iterator::last")
def _(ip, a, c):
    return last(tolist(ip, a[0]))


def last(l):
    l = aslist(l)
    if l.args and l.args[-1].op == "e" and l.args[-1].args[0] is TRUE:
        return SOME(l.args[-1].args[1])
    if len(l.args) == 1 and l.args[0].op == "src":
        s = l.args[0].args[0]
        n = length(s)
        g = gt0(n)
        return phi([(g, SOME(idx(s, sub(n, INT(1))))), (bnot(g), NONE)])
    return head(LIST(*[rev_seg(s) for s in reversed(l.args)]))


@model("slice::get", "VecDeque::get")
def _(ip, a, c):
    l = ip.deref(a[0])
    i = ip.deref(a[1])
    if i.op == "adt":
        return SOME(rng(ip, i, l))
    ll = tolist(ip, l)
    g = lt(i, length(ll))
    return phi([(g, SOME(idx(l if l.op != "iter" else ll, i))), (bnot(g), NONE)])


@model("slice::get_mut")
def _(ip, a, c):
    l = ip.deref(a[0])
    i = ip.deref(a[1])
    g = lt(i, length(tolist(ip, l)))
    return phi([(g, SOME(ip.extend(a[0], T("pi", i)))), (bnot(g), NONE)])


@model("slice::first_mut", "slice::last_mut")
def _(ip, a, c):
    l = tolist(ip, ip.deref(a[0]))
    n = length(l)
    i = INT(0) if c.key.endswith("first_mut") else sub(n, INT(1))
    g = gt0(n)
    return phi([(g, SOME(ip.extend(a[0], T("pi", i)))), (bnot(g), NONE)])


@model("slice::split_first")
def _(ip, a, c):
    l = tolist(ip, a[0])
    h = head(l)
    return omap(ip, h, "Some", lambda x: SOME(T("tup", x, skip_list(l, INT(1)))), lambda v: NONE)


@model("slice::split_last")
def _(ip, a, c):
    l = tolist(ip, a[0])
    h = last(l)
    return omap(ip, h, "Some", lambda x: SOME(T("tup", x, take_list(l, sub(length(l), INT(1))))), lambda v: NONE)


@model("slice::split_at")
def _(ip, a, c):
    l = tolist(ip, a[0])
    return T("tup", take_list(l, ip.deref(a[1])), skip_list(l, ip.deref(a[1])))


@model("slice::starts_with", "slice::ends_with")
def _(ip, a, c):
    return atom(T("prefix" if "starts" in c.key else "suffix", *d2(ip, a)))


@model("Index::index")
def _(ip, a, c):
    v = ip.deref(a[0])
    i = ip.deref(a[1])
    ty = (c.c.get("a") or [{}])[0].get("p", "")
    if v.op == "cap":
        return T("grp", v.args[0], v.args[1], i)
    if "Captures" in ty:
        return T("grp", v, i)
    if "HashMap" in ty or "BTreeMap" in ty:
        k = ip.deep(i)
        g = has(v, k)
        if g is not TRUE:
            ip.ev("panic", S("index"), g=bnot(g))
        return pl(get(v, k), "Some", 0)
    if i.op == "adt":
        if ty.endswith("String") or ty == "str":
            return T("substr", v, i)
        return rng(ip, i, v)
    n = length(tolist(ip, v))
    g = lt(i, n)
    if g is not TRUE and not in_range(i, n):
        ip.ev("panic", S("bounds"), i, n, g=bnot(g))
    return idx(v if v.op != "iter" else tolist(ip, v), i)


def in_range(i, n):
    if i.op in ("pos", "bv") and i.args[0] is n:
        return True
    c, d = lin_parts(i)
    for t, k in d.items():
        if t.op in ("pos", "bv") and k == 1 and len(d) == 1:
            cn, dn = lin_parts(sub(n, t.args[0]))
            if not dn and c >= 0 and cn >= c:
                return True
    return False


@model("IndexMut::index_mut")
def _(ip, a, c):
    i = ip.deref(a[1])
    ty = (c.c.get("a") or [{}])[0].get("p", "")
    if "HashMap" in ty:
        return ip.extend(a[0], T("pk", ip.deep(i)))
    if i.op == "adt":
        lo, hi = bounds(ip, i, length(tolist(ip, ip.deref(a[0]))))
        if lo is not None:
            return ip.extend(a[0], T("pr", lo, hi))
    return ip.extend(a[0], T("pi", i))


def bounds(ip, r, n):
    """the ends of a range value within n positions"""
    nm = r.args[0].split("::")[-1]
    f = [ip.deref(x) for x in r.args[2:]]
    if nm == "RangeFull":
        return INT(0), n
    if nm in ("Range", "RangeFrom", "RangeInclusive"):
        return f[0], n if nm == "RangeFrom" else f[1] if nm == "Range" else add(f[1], INT(1))
    if nm in ("RangeTo", "RangeToInclusive"):
        return INT(0), f[0] if nm == "RangeTo" else add(f[0], INT(1))
    return None, None


def rng(ip, r, l):
    """sub-list selected by a range value"""
    r = ip.deref(r)
    ll = tolist(ip, l)
    n = length(ll)
    nm = r.args[0].split("::")[-1] if r.op == "adt" else ""
    if nm == "RangeFull":
        return ll
    lo, hi = INT(0), n
    if nm == "Range":
        lo, hi = ip.deref(r.args[2]), ip.deref(r.args[3])
    elif nm == "RangeFrom":
        lo = ip.deref(r.args[2])
    elif nm == "RangeTo":
        hi = ip.deref(r.args[2])
    elif nm == "RangeToInclusive":
        hi = add(ip.deref(r.args[2]), INT(1))
    elif nm == "RangeInclusive":
        lo, hi = ip.deref(r.args[2]), add(ip.deref(r.args[3]), INT(1))
    else:
        return T("slice", l, ip.deep(r))
    return sublist(ll, lo, hi)


def sublist(l, lo, hi):
    n = sub(hi, lo)
    if hi is length(l) and lo.op == "int" and lo.args[0] == 0:
        return l
    b = T("bv", n, TM._maxbv(T("tup", l, lo, hi), n))
    return LIST(T("for", n, b, e(idx(l, add(lo, b)))))


def skip_list(l, k):
    l = aslist(l)
    if k.op == "int" and k.args[0] == 0:
        return l
    if k.op == "int" and l.args and l.args[0].op == "e" and l.args[0].args[0] is TRUE:
        return skip_list(LIST(*l.args[1:]), INT(k.args[0] - 1))
    if all(s.op == "src" or (s.op == "e" and s.args[0] is TRUE) or
           (s.op == "for" and len(s.args) == 3 and s.args[2].op == "e" and s.args[2].args[0] is TRUE) for s in l.args):
        return sublist(l, k, length(l))
    return LIST(T("src", T("skip", l, k)))


def take_list(l, k):
    l = aslist(l)
    n = length(l)
    m = nmin(n, k)
    if m is n:
        return l
    if all(s.op == "src" or (s.op == "e" and s.args[0] is TRUE) or
           (s.op == "for" and len(s.args) == 3 and s.args[2].op == "e" and s.args[2].args[0] is TRUE) for s in l.args):
        return sublist(l, INT(0), m)
    return LIST(T("src", T("take", l, k)))


def nmin(a, b):
    d = sub(a, b)
    if d.op == "int":
        return b if d.args[0] >= 0 else a
    return T("nmin", *TM.sorted_pair(a, b))


# ------------------------------------------------------------------ iterators
ITERS = {"iter"}


def is_iter(ip, v):
    return v.op in ("iter", "list") or (v.op == "adt" and v.args[0].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom")) or \
        (v.op == "phi" and all(is_iter(ip, x) for _, x in phi_cases(v))) or v.op in ("ext", "app", "fn")


def tolist(ip, v):
    """the elements a value yields when iterated, as a list"""
    v = ip.deref(v)
    if v.op == "list":
        return v
    if v.op == "phi":
        parts = [(g, tolist(ip, x)) for g, x in phi_cases(v)]
        r = TM._merge_lists(parts)
        if r is None:
            r = LIST(*[guard_seg(s, g) for g, l in parts for s in l.args])
        return r
    if v.op == "iter":
        l = v.args[0]
        for stg in v.args[1:]:
            l = stage(ip, l, stg)
        return l
    if v.op == "adt":
        nm = v.args[0].split("::")[-1]
        if nm == "Option":
            return LIST(e(v.args[2])) if v.args[1] == "Some" else EMPTY
        if nm == "Result":
            return LIST(e(v.args[2])) if v.args[1] == "Ok" else EMPTY
        if nm == "Range":
            lo, hi = ip.deref(v.args[2]), ip.deref(v.args[3])
            n = sub(hi, lo)
            b = T("bv", n, TM._maxbv(lo, n))
            return LIST(T("for", n, b, e(add(lo, b))))
        if nm == "RangeInclusive":
            lo, hi = ip.deref(v.args[2]), ip.deref(v.args[3])
            n = add(sub(hi, lo), INT(1))
            b = T("bv", n, TM._maxbv(lo, n))
            return LIST(T("for", n, b, e(add(lo, b))))
        return LIST(T("src", T("drain", ip.deep(v))))
    if v.op == "never":
        return EMPTY
    if v.op == "rotl" or True:
        return LIST(T("src", v))


def stage(ip, l, stg):
    k = stg.args[0]
    if k == "map":
        return map_list(ip, l, lambda x: ip.apply(stg.args[1], [x]))
    if k == "filter":
        return filter_list(ip, l, lambda x: atom_b(ip.deref(ip.apply(stg.args[1], [x]))))
    if k == "filter_map":
        def f(x):
            o = ip.deref(ip.apply(stg.args[1], [x]))
            return LIST(e(pl(o, "Some", 0), isv(o, "Some")))
        return flat_list(ip, l, f)
    if k == "flat_map":
        return flat_list(ip, l, lambda x: ip.apply(stg.args[1], [x]))
    if k == "flatten":
        return flat_list(ip, l, lambda x: x)
    if k == "enumerate":
        return enum_list(ip, l)
    if k == "rev":
        return LIST(*[rev_seg(s) for s in reversed(l.args)])
    if k == "skip":
        return skip_list(l, stg.args[1])
    if k == "take":
        return take_list(l, stg.args[1])
    if k == "step_by":
        return step_list(l, stg.args[1])
    if k == "chain":
        return concat(l, tolist(ip, stg.args[1]))
    if k == "zip":
        return zip_list(ip, l, tolist(ip, stg.args[1]))
    if k in ("skip_while", "take_while"):
        return while_list(ip, l, stg.args[1], k)
    if k == "unique":
        return LIST(T("src", T("uniq", l if not (len(l.args) == 1 and l.args[0].op == "src") else l.args[0].args[0])))
    if k == "windows":
        n = length(l)
        m = add(sub(n, stg.args[1]), INT(1))
        b = T("bv", m, TM._maxbv(l, m))
        if stg.args[1].op == "int":
            base = l.args[0].args[0] if len(l.args) == 1 and l.args[0].op == "src" else l
            w = LIST(*[e(idx(base, add(b, INT(i)))) for i in range(stg.args[1].args[0])])
            return LIST(T("for", m, b, e(w)))
        return LIST(T("src", T("windows", l, stg.args[1])))
    if k in ("chunks", "chunks_exact"):
        n = length(l)
        sz = stg.args[1]
        exact = k == "chunks_exact"
        m = T("div" if exact else "cdiv", n, sz)
        b = T("bv", m, TM._maxbv(l, m))
        if sz.op == "int" and sz.args[0] > 0:
            base = l.args[0].args[0] if len(l.args) == 1 and l.args[0].op == "src" else l
            at = [add(mul(b, sz), INT(i)) for i in range(sz.args[0])]
            w = LIST(*[e(idx(base, x), TRUE if exact or i == 0 else lt(x, n)) for i, x in enumerate(at)])
            return LIST(T("for", m, b, e(w)))
        return LIST(T("src", T("chunks", l, sz)))
    if k == "inspect":
        return map_list(ip, l, lambda x: (ip.apply(stg.args[1], [x]), x)[1])
    return LIST(T("src", T("stage", k, l, *stg.args[1:])))


def collect_into(ip, l, f):
    """append f(x)'s segments for every x"""
    acc = ip.newroot(EMPTY)

    def body(x):
        segs = f(x)
        cur = ip.load(acc)
        ip.store(acc, LIST(*(aslist(cur).args + aslist(segs).args)))
        return {}
    ip.iterate(l, body)
    r = ip.load(acc)
    ip.st.s.pop(acc.args[0], None)
    return r if r.op == "list" else LIST(T("src", r))


def map_list(ip, l, f):
    return collect_into(ip, l, lambda x: LIST(e(f(x))))


def filter_list(ip, l, f):
    return collect_into(ip, l, lambda x: LIST(e(x, f(x))))


def flat_list(ip, l, f):
    return collect_into(ip, l, lambda x: tolist(ip, f(x)))


def enum_list(ip, l):
    cnt = ip.newroot(INT(0))

    def f(x):
        i = ip.load(cnt)
        ip.store(cnt, add(i, INT(1)))
        return LIST(e(T("tup", i, x)))
    r = collect_into(ip, l, f)
    ip.st.s.pop(cnt.args[0], None)
    return r


def step_list(l, k):
    if len(l.args) == 1:
        s = open_src(l.args[0])
        if s.op == "for" and len(s.args) == 3:
            n = s.args[0]
            m = T("cdiv", n, k)
            p = T("pos", m, -5)
            segs, b = close(m, p, open_for(s, mul(k, p)))
            return LIST(T("for", m, b, *segs))
    return LIST(T("src", T("step", l, k)))


def simple_seg(l):
    if len(l.args) != 1:
        return None
    s = open_src(l.args[0])
    if s.op == "for" and len(s.args) == 3 and s.args[2].op == "e" and s.args[2].args[0] is TRUE:
        return s
    return None


def zip_list(ip, l1, l2):
    if all(s.op == "e" and s.args[0] is TRUE for s in l1.args + l2.args):
        return LIST(*[e(T("tup", a.args[1], b.args[1])) for a, b in zip(l1.args, l2.args)])
    s2 = simple_seg(l2)
    s1 = simple_seg(l1)
    if s1 is not None and s2 is not None:
        n = nmin(s1.args[0], s2.args[0])
        p = T("pos", n, -6)
        x = open_for(s1, p)[0].args[1]
        y = open_for(s2, p)[0].args[1]
        segs, b = close(n, p, [e(T("tup", x, y))])
        return LIST(T("for", n, b, *segs))
    n = nmin(length(l1), length(l2))
    b = T("bv", n, TM._maxbv(T("tup", l1, l2), n))
    if all(unguarded(l) for l in (l1, l2)):
        return LIST(T("for", n, b, e(T("tup", idx(l1, b), idx(l2, b)))))
    return LIST(T("src", T("zip", l1, l2)))


def unguarded(l):
    return all(s.op == "src" or (s.op == "e" and s.args[0] is TRUE) or
               (s.op == "for" and len(s.args) == 3 and s.args[2].op == "e" and s.args[2].args[0] is TRUE) for s in l.args)


def while_list(ip, l, f, k):
    s = simple_seg(l)
    if s is None:
        return LIST(T("src", T(k, l, ip.deep(f))))
    n = s.args[0]
    conds = map_list(ip, l, lambda x: atom_b(ip.deref(ip.apply(f, [x]))))
    cs = open_src(conds.args[0])
    if cs.op != "for" or len(cs.args) != 3:
        return LIST(T("src", T(k, l, ip.deep(f))))
    p = T("pos", n, -7)
    g = atom_b(open_for(cs, p)[0].args[1])
    (gc,), b = close(n, p, [g])
    at = T("tw", n, b, gc)
    return sublist(l, at, n) if k == "skip_while" else sublist(l, INT(0), at)


def lazy(name):
    def m(ip, a, c):
        v = ip.deref(a[0])
        base = v if v.op == "iter" else T("iter", tolist(ip, v))
        rest = [x if name in ("map", "filter", "filter_map", "flat_map", "skip_while", "take_while", "inspect", "chain", "zip")
                else ip.deref(x) for x in a[1:]]
        return T("iter", *(base.args + (T("st", name, *rest),)))
    return m


for nm in ("map", "filter", "filter_map", "flat_map", "flatten", "enumerate", "rev", "skip", "take", "step_by", "chain", "zip",
           "skip_while", "take_while", "inspect"):
    MODELS["Iterator::" + nm] = lazy(nm)
MODELS["Itertools::unique"] = lazy("unique")
MODELS["Itertools::dedup"] = lazy("dedup")
MODELS["Itertools::sorted"] = lambda ip, a, c: T("iter", LIST(T("src", T("sorted", ip.deep(tolist(ip, a[0])), "slice::sort"))))


@model("Iterator::partition")
def _(ip, a, c):
    l = ip.deep(tolist(ip, a[0]))
    p = lambda x: atom_b(ip.deref(ip.apply(a[1], [x])))
    return T("tup", filter_list(ip, l, p), filter_list(ip, l, lambda x: bnot(p(x))))


MODELS["slice::windows"] = lazy("windows")
MODELS["slice::chunks"] = lazy("chunks")
MODELS["slice::chunks_exact"] = lazy("chunks_exact")


@model("Itertools::tuple_windows")
def _(ip, a, c):
    l = tolist(ip, a[0])
    return T("iter", zip_list(ip, l, skip_list(l, INT(1))))


@model("Itertools::tuples")
def _(ip, a, c):
    l = tolist(ip, a[0])
    ch = stage(ip, l, T("st", "chunks", INT(2)))
    return T("iter", map_list(ip, ch, lambda w: T("tup", idx(w, INT(0)), idx(w, INT(1)))))


@model("iter::once")
def _(ip, a, c):
    return T("iter", LIST(e(a[0])))


@model("iter::empty")
def _(ip, a, c):
    return T("iter", EMPTY)


@model("iter::repeat")
def _(ip, a, c):
    return T("iter", LIST(T("src", T("repeat", a[0]))))


@model("iter::zip")
def _(ip, a, c):
    return T("iter", zip_list(ip, tolist(ip, a[0]), tolist(ip, a[1])))


@model("IntoIterator::into_iter", "slice::iter", "LinkedList::iter", "VecDeque::iter", "Iterator::cloned", "Iterator::copied",
       "Vec::into_iter", "Iterator::fuse", "Iterator::into_iter", "LinkedList::into_iter", "BinaryHeap::into_vec", "BinaryHeap::iter",
       "Iterator::peekable")
def _(ip, a, c):
    v = ip.deref(a[0])
    ty = (c.atys or [None])[0] or {}
    muts = ty.get("k") == "ref" and ty.get("m")
    inner = ty.get("t", {}) if ty.get("k") == "ref" else ty
    nm = (inner.get("p") or "").split("::")[-1]
    if muts and a[0].op == "ref" and nm in ("HashMap", "BTreeMap"):
        return T("iter", entries_mut(ip, a[0]))
    if muts and a[0].op == "ref" and nm in ("Vec", "LinkedList", "VecDeque"):
        return MODELS["slice::iter_mut"](ip, a, c)
    if nm in ("HashMap", "BTreeMap"):
        return T("iter", entries_of(v))
    if nm == "Option" and v.op not in ("adt", "phi", "list"):
        return T("iter", LIST(e(pl(v, "Some", 0), isv(v, "Some"))))
    if v.op == "phi" and nm == "Option":
        return T("iter", LIST(e(pl(v, "Some", 0), isv(v, "Some"))))
    if v.op == "iter":
        return v
    if v.op == "adt" and v.args[0].split("::")[-1] not in ("Range", "RangeInclusive", "Option", "Result"):
        return v
    return T("iter", tolist(ip, v))


@model("Iterator::next")
def _(ip, a, c):
    v = ip.deref(a[0])
    l = tolist(ip, v)
    r = head(l)
    ip.ev("next", ip.deep(r))
    if l.args and l.args[0].op == "e" and l.args[0].args[0] is TRUE:
        ip.store(a[0], T("iter", LIST(*l.args[1:])))
    elif l.args and l.args[0].op == "e" and len(l.args) == 1:
        ip.store(a[0], T("iter", EMPTY))
    elif not l.args:
        pass
    else:
        ip.store(a[0], T("iter", skip_list(l, INT(1))))
    return r


@model("Peekable::peek")
def _(ip, a, c):
    return head(tolist(ip, a[0]))


@model("DoubleEndedIterator::next_back")
def _(ip, a, c):
    l = tolist(ip, a[0])
    ip.store(a[0], T("iter", take_list(l, sub(length(l), INT(1)))))
    return last(l)


@model("Iterator::nth")
def _(ip, a, c):
    l = tolist(ip, a[0])
    i = ip.deref(a[1])
    if i.op == "int" and i.args[0] == 0:
        return head(l)
    g = lt(i, length(l))
    return phi([(g, SOME(idx(l, i))), (bnot(g), NONE)])


@model("Iterator::count")
def _(ip, a, c):
    return length_u(tolist(ip, a[0]))


def length_u(l):
    l = aslist(l)
    r = INT(0)
    for s in l.args:
        if s.op == "src" and s.args[0].op == "uniq":
            r = add(r, setlen(s.args[0].args[0]))
        else:
            r = add(r, TM.seg_count(s))
    return r


@model("Iterator::for_each")
def _(ip, a, c):
    def body(x):
        ip.apply(a[1], [x])
        return {}
    ip.iterate(tolist(ip, a[0]), body)
    return UNIT


@model("Iterator::try_for_each")
def _(ip, a, c):
    def body(x):
        r = ip.deref(ip.apply(a[1], [x]))
        bad = isv(r, "Err")
        st = ip.st
        ex = {}
        if bad is not FALSE:
            s2 = St_(ip, st, band(st.g, bad))
            s2.s[key] = ERR(pl(r, "Err", 0))
            ex["err"] = [s2]
        ip.st = St_(ip, st, band(st.g, bnot(bad)))
        return ex
    ref = ip.newroot(OK(UNIT))
    key = ref.args[0]
    ex = ip.iterate(tolist(ip, a[0]), body)
    m = ip.merge([ip.st] + [s for v in ex.values() for s in v])
    ip.st = m
    return ip.st.s.pop(key)


def St_(ip, st, g):
    return type(st)(dict(st.s), g)


@model("Iterator::any")
def _(ip, a, c):
    return nonempty(filter_list(ip, tolist(ip, a[0]), lambda x: atom_b(ip.deref(ip.apply(a[1], [x])))))


@model("Iterator::all")
def _(ip, a, c):
    return bnot(nonempty(filter_list(ip, tolist(ip, a[0]), lambda x: bnot(atom_b(ip.deref(ip.apply(a[1], [x])))))))


@model("Iterator::find")
def _(ip, a, c):
    return head(filter_list(ip, tolist(ip, a[0]), lambda x: atom_b(ip.deref(ip.apply(a[1], [x])))))


@model("Iterator::find_map")
def _(ip, a, c):
    return head(stage(ip, tolist(ip, a[0]), T("st", "filter_map", a[1])))


@model("Iterator::position")
def _(ip, a, c):
    l = enum_list(ip, tolist(ip, a[0]))
    return head(flat_list(ip, l, lambda x: LIST(e(fld(x, 0), atom_b(ip.deref(ip.apply(a[1], [fld(x, 1)])))))))


@model("Iterator::rposition")
def _(ip, a, c):
    l = enum_list(ip, tolist(ip, a[0]))
    l = LIST(*[rev_seg(s) for s in reversed(l.args)])
    return head(flat_list(ip, l, lambda x: LIST(e(fld(x, 0), atom_b(ip.deref(ip.apply(a[1], [fld(x, 1)])))))))


@model("Iterator::fold")
def _(ip, a, c):
    acc = ip.newroot(a[1])

    def body(x):
        v = ip.apply(a[2], [ip.load(acc), x])
        ip.store(acc, v)
        return {}
    ip.iterate(tolist(ip, a[0]), body)
    return ip.st.s.pop(acc.args[0])


@model("Iterator::sum")
def _(ip, a, c):
    acc = ip.newroot(INT(0))

    def body(x):
        ip.store(acc, add(ip.load(acc), ip.deref(x)))
        return {}
    ip.iterate(tolist(ip, a[0]), body)
    return ip.st.s.pop(acc.args[0])


@model("Iterator::reduce")
def _(ip, a, c):
    l = tolist(ip, a[0])
    h = head(l)
    if isv(h, "Some") is FALSE:
        return NONE
    acc = ip.newroot(pl(h, "Some", 0))

    def body(x):
        ip.store(acc, ip.apply(a[1], [ip.load(acc), x]))
        return {}
    ip.iterate(skip_list(l, INT(1)), body)
    v = ip.st.s.pop(acc.args[0])
    return phi([(isv(h, "Some"), SOME(v)), (isv(h, "None"), NONE)])


@model("Iterator::try_fold")
def _(ip, a, c):
    some = (c.dty or {}).get("p", "").endswith("Option")
    good, bad_ = ("Some", "None") if some else ("Ok", "Err")
    acc = ip.newroot(a[1])
    ref = ip.newroot(NONE)
    key = ref.args[0]

    def body(x):
        r = ip.deref(ip.apply(a[2], [ip.load(acc), x]))
        bad = isv(r, bad_)
        st = ip.st
        ex = {}
        if bad is not FALSE:
            s2 = St_(ip, st, band(st.g, bad))
            s2.s[key] = SOME(NONE if some else ERR(pl(r, "Err", 0)))
            ex["err"] = [s2]
        ip.st = St_(ip, st, band(st.g, bnot(bad)))
        ip.store(acc, pl(r, good, 0))
        return ex
    ex = ip.iterate(tolist(ip, a[0]), body)
    done = ip.load(acc)
    s0 = ip.st
    s0.s[key] = SOME(SOME(done) if some else OK(done))
    m = ip.merge([s0] + [s for v in ex.values() for s in v])
    ip.st = m
    ip.st.s.pop(acc.args[0], None)
    return pl(ip.st.s.pop(key), "Some", 0)


@model("Iterator::product")
def _(ip, a, c):
    acc = ip.newroot(INT(1))

    def body(x):
        ip.store(acc, mul(ip.load(acc), ip.deref(x)))
        return {}
    ip.iterate(tolist(ip, a[0]), body)
    return ip.st.s.pop(acc.args[0])


@model("Iterator::unzip")
def _(ip, a, c):
    l = tolist(ip, a[0])
    return T("tup", map_list(ip, l, lambda x: fld(ip.deref(x), 0)), map_list(ip, l, lambda x: fld(ip.deref(x), 1)))


@model("Iterator::eq")
def _(ip, a, c):
    return eq(ip.deep(tolist(ip, a[0])), ip.deep(tolist(ip, a[1])))


@model("Iterator::ne")
def _(ip, a, c):
    return bnot(eq(ip.deep(tolist(ip, a[0])), ip.deep(tolist(ip, a[1]))))


@model("Iterator::scan")
def _(ip, a, c):
    st, out, stop = ip.newroot(a[1]), ip.newroot(LIST()), ip.newroot(FALSE)

    def body(x):
        def step():
            v = ip.apply(a[2], [st, x])
            g = isv(ip.deref(v), "Some")
            ip.store(stop, bnot(g))
            if band(g, ip.absg()) is not FALSE:
                ip.under(g, lambda: (ip.store(out, concat(ip.load(out), LIST(e(pl(ip.deref(v), "Some", 0))))), UNIT)[1])
            return UNIT
        ip.under(bnot(atom_b(ip.deref(ip.load(stop)))), step)
        return {}
    ip.iterate(tolist(ip, a[0]), body)
    return T("iter", ip.load(out))


@model("Iterator::map_while")
def _(ip, a, c):
    l = tolist(ip, a[0])
    os = map_list(ip, l, lambda x: ip.apply(a[1], [x]))
    ok = while_list(ip, os, pyf("is_some", lambda ip2, b: isv(ip2.deref(b[0]), "Some")), "take_while")
    return T("iter", map_list(ip, ok, lambda x: pl(x, "Some", 0)))


def extremum(ip, l, op, keys=None):
    l = ip.deep(l)
    g = nonempty(l)
    v = T(op, l) if keys is None else T(op, l, ip.deep(keys))
    return phi([(g, SOME(v)), (bnot(g), NONE)])


@model("Iterator::min")
def _(ip, a, c):
    return extremum(ip, tolist(ip, a[0]), "minof")


@model("Iterator::max")
def _(ip, a, c):
    return extremum(ip, tolist(ip, a[0]), "maxof")


@model("Iterator::min_by_key")
def _(ip, a, c):
    l = tolist(ip, a[0])
    return extremum(ip, l, "argmin", map_list(ip, l, lambda x: ip.apply(a[1], [x])))


@model("Iterator::max_by_key")
def _(ip, a, c):
    l = tolist(ip, a[0])
    return extremum(ip, l, "argmax", map_list(ip, l, lambda x: ip.apply(a[1], [x])))


def by_cmp(ip, a, ops):
    l = tolist(ip, a[0])
    x, y = T("sym", "x"), T("sym", "y")
    r = ip.deref(ip.apply(a[1], [x, y]))
    if r.op == "cmp":
        u, v = r.args
        swap = False
        if subst(u, {x: y}) is v and not mentions(u, y):
            kf = u
        elif subst(v, {x: y}) is u and not mentions(v, y):
            kf, swap = v, True
        else:
            return extremum(ip, l, "ext_" + ops[0], LIST(e(r)))
        op = ops[1] if swap else ops[0]
        return extremum(ip, l, op, map_list(ip, l, lambda z: subst(kf, {x: ip.deep(z)})))
    return extremum(ip, l, "ext_" + ops[0], LIST(e(r)))


@model("Iterator::min_by")
def _(ip, a, c):
    return by_cmp(ip, a, ("argmin", "argmax_first"))


@model("Iterator::max_by")
def _(ip, a, c):
    return by_cmp(ip, a, ("argmax", "argmin_last"))


@model("Iterator::partition")
def _(ip, a, c):
    l = tolist(ip, a[0])
    f = lambda x: atom_b(ip.deref(ip.apply(a[1], [x])))
    return T("tup", filter_list(ip, l, f), filter_list(ip, l, lambda x: bnot(f(x))))


@model("Iterator::collect", "FromIterator::from_iter", "Itertools::collect_vec")
def _(ip, a, c):
    l = tolist(ip, a[0])
    return collected(ip, l, c.dty or {})


def collected(ip, l, ty):
    nm = (ty.get("p") or "").split("::")[-1]
    if nm in ("Result", "Option"):
        ok = "Ok" if nm == "Result" else "Some"
        bad = filter_list(ip, l, lambda x: bnot(isv(ip.deref(x), ok)))
        good = map_list(ip, l, lambda x: pl(ip.deref(x), ok, 0))
        ne = nonempty(bad)
        inner = (ty.get("a") or [{}])[0]
        gv = collected(ip, good, inner)
        err = NONE if nm == "Option" else ERR(pl(pl(head(bad), "Some", 0), "Err", 0))
        return phi([(bnot(ne), adt(nm, ok, gv)), (ne, err)])
    if nm == "String":
        return T("joined", ip.deep(l))
    return l


# ------------------------------------------------------------------ strings and formatting
def mkstr(parts):
    """a string as a concatenation of literal and displayed parts"""
    out = []

    def put(p):
        if p.op == "s":
            if out and out[-1].op == "s":
                out[-1] = S(out[-1].args[0] + p.args[0])
            elif p.args[0]:
                out.append(p)
        elif p.op == "str":
            for q in p.args:
                put(q)
        else:
            out.append(p)
    for p in parts:
        put(p)
    if not out:
        return S("")
    if len(out) == 1 and out[0].op == "s":
        return out[0]
    return T("str", *out)


def disp(v):
    if v.op in ("s", "str"):
        return v
    if v.op == "int":
        return S(str(v.args[0]))
    return T("disp", v)


def decode_fmt(b):
    """pieces of a format template: literals and ('arg', index)"""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i:i + x].decode("utf8", "replace"))
            i += x
        elif x == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + ln].decode("utf8", "replace"))
            i += ln
        else:
            fl, width, prec = 3 << 29 | 0x20, None, None
            if x & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if x & 2:
                width = b[i] | b[i + 1] << 8
                i += 2
            if x & 4:
                prec = b[i] | b[i + 1] << 8
                i += 2
            if x & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append(("arg", nxt, x, fl, width, prec))
            nxt += 1
    return out


@model("Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_octal", "Argument::new_binary")
def _(ip, a, c):
    return lift(lambda v: T("radix", v, {"lower_hex": "x", "upper_hex": "X", "octal": "o", "binary": "b"}[c.key.split("new_")[1]]), ip.deep(ip.deref(a[0])))


@model("Argument::new_display", "Argument::new_debug")
def _(ip, a, c):
    v = ip.deep(ip.deref(a[0]))
    if c.key.endswith("display"):
        b = ip.dispatch("std::fmt::Display", "fmt", a[0])
        if b is not None:
            return T("disp", v, "custom")
        return lift(disp, v)
    t = (c.c.get("a") or [{}])[0]
    return T("dbg", v, tystr(t))


def tystr(t):
    k = t.get("k")
    if k == "ref":
        return tystr(t.get("t", {}))
    if k == "adt":
        return t["p"].split("::")[-1] + ("<" + ",".join(tystr(x) for x in t.get("a", []) if isinstance(x, dict) and not x.get("p", "").endswith("Global")) + ">" if t.get("a") else "")
    if k == "prim":
        return t.get("s", "?")
    return str(k)


def spec(v, p):
    """an argument of a format with its width, fill, alignment and flags"""
    x, fl, width, prec = p[2:6]
    if x & 7 == 0:
        return v
    if x & 0x30:
        return OPQ("format with a width from an argument")
    flags = fl >> 21 & 15
    if width is None and prec is None and not flags & 1:
        return v
    return lift(lambda v: T("pad", v, chr(fl & 0x1fffff), width, fl >> 29 & 3, flags, prec), v)


@model("Arguments::new")
def _(ip, a, c):
    tpl = ip.deref(a[0])
    args = tolist(ip, a[1]) if len(a) > 1 else EMPTY
    if tpl.op != "bytes":
        return OPQ("fmt")
    pcs = decode_fmt(bytes.fromhex(tpl.args[0]))
    vs = [s.args[1] for s in args.args]

    def build(*vs):
        parts = []
        for p in pcs:
            if isinstance(p, str):
                parts.append(S(p))
            else:
                parts.append(spec(vs[p[1]], p) if p[1] < len(vs) else OPQ("fmtarg"))
        return mkstr(parts)
    return lift(build, *vs) if vs else build()


@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def _(ip, a, c):
    return ip.deref(a[0])


@model("fmt::format", "Arguments::to_string")
def _(ip, a, c):
    return ip.deref(a[0])


@model("ToString::to_string")
def _(ip, a, c):
    v = ip.deep(ip.deref(a[0]))
    t = (c.c.get("a") or [{}])[0]
    if t.get("k") == "adt" and t["p"].endswith("String") or t.get("s") == "str" or t.get("k") == "str":
        return v
    return lift(lambda v: mkstr([disp(v)]), v)


@model("String::new")
def _(ip, a, c):
    return S("")


@model("String::push_str", "String::push")
def push_str(ip, a, c):
    v = ip.deref(a[0])
    x = ip.deep(ip.deref(a[1]))
    ip.store(a[0], lift(lambda p, q: mkstr([p if p.op in ("s", "str") else T("disp", p), q if q.op in ("s", "str") else T("disp", q)]), v, x))
    return UNIT


@model("str::trim", "str::trim_end", "str::trim_start")
def _(ip, a, c):
    return T(c.key.split("::")[1], ip.deep(ip.deref(a[0])))


@model("str::starts_with", "str::ends_with", "str::contains")
def _(ip, a, c):
    return atom(T(c.key.split("::")[1], ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))))


@model("str::strip_prefix", "str::strip_suffix")
def _(ip, a, c):
    x, y = ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))
    g = atom(T("starts_with" if "prefix" in c.key else "ends_with", x, y))
    return phi([(g, SOME(T(c.key.split("::")[1], x, y))), (bnot(g), NONE)])


@model("str::parse", "FromStr::from_str")
def _(ip, a, c):
    t = (c.c.get("a") or [{}])[-1 if c.key == "str::parse" else 0]
    return T("parse", tystr(t), ip.deep(ip.deref(a[0])))


@model("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::eq_ignore_ascii_case", "str::lines",
       "str::split", "str::split_whitespace", "str::chars", "str::split_at", "str::splitn", "str::bytes",
       "str::split_once", "str::repeat", "char::is_ascii_digit", "str::find",
       "Error::description", "Error::to_string", "Error::kind", "Instant::now", "str::replace", "Hash::hash", "Debug::fmt")
def _(ip, a, c):
    return T("ext", c.key, *[ip.deep(ip.deref(x)) for x in a])


@model("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches")
def _(ip, a, c):
    t, pat = ip.deep(ip.deref(a[0])), ip.deref(a[1])
    if pat.op in ("closure", "fnv", "fnc") or pat.op == "fn":
        ks = map_list(ip, LIST(T("src", T("ext", "str::chars", t))), lambda x: ip.apply(a[1], [x]))
        return T("trimby", "start" if "start" in c.key else "end" if "end" in c.key else "both", t, ip.deep(ks))
    return T("ext", c.key, t, ip.deep(pat))


for _k in ("is_ascii_digit", "is_numeric", "is_alphabetic", "is_alphanumeric", "is_ascii_alphabetic", "is_whitespace", "is_ascii_whitespace",
           "is_ascii_punctuation", "is_ascii_alphanumeric", "is_uppercase", "is_lowercase", "is_ascii_uppercase", "is_ascii_lowercase"):
    MODELS["char::" + _k] = lambda ip, a, c: atom(T("ext", c.key, ip.deep(ip.deref(a[0]))))
for _k in ("rfind", "rsplit_once", "rsplit", "split_terminator", "split_ascii_whitespace", "rsplitn", "replacen", "matches"):
    MODELS["str::" + _k] = lambda ip, a, c: T("ext", c.key, *[ip.deep(ip.deref(x)) for x in a])


# ------------------------------------------------------------------ regular expressions
@model("Regex::new")
def _(ip, a, c):
    return OK(T("regex", ip.deep(ip.deref(a[0]))))


@model("Lazy::get", "LazyLock::force", "OnceCell::get_or_init", "OnceLock::get_or_init")
def _(ip, a, c):
    return ip.deref(ip.apply(a[1], []))


def rx(ip, a):
    return ip.deep(ip.deref(a[0])), ip.deep(ip.deref(a[1]))


@model("Regex::captures_iter")
def _(ip, a, c):
    r, s = rx(ip, a)
    return T("iter", LIST(e(T("cap", r, s), atom(T("match", r, s)))))


@model("Regex::captures")
def _(ip, a, c):
    r, s = rx(ip, a)
    g = atom(T("match", r, s))
    return phi([(g, SOME(T("cap", r, s))), (bnot(g), NONE)])


@model("Regex::is_match")
def _(ip, a, c):
    return atom(T("match", *rx(ip, a)))


@model("Captures::get")
def _(ip, a, c):
    v = ip.deref(a[0])
    return SOME(T("grp", v.args[0], v.args[1], ip.deref(a[1]))) if v.op == "cap" else T("ext", c.key, v)


@model("Match::as_str")
def _(ip, a, c):
    return ip.deref(a[0])


# ------------------------------------------------------------------ clap
def clap(ip, a, c):
    return T("b", c.key, *[ip.deep(ip.deref(x)) for x in a])


for n in ("App::new", "App::version", "App::author", "App::about", "App::arg", "App::args", "App::group", "Arg::with_name", "Arg::long",
          "Arg::short", "Arg::help", "Arg::default_value", "Arg::required", "Arg::takes_value", "Arg::multiple", "Arg::min_values",
          "Arg::max_values", "Arg::number_of_values", "Arg::conflicts_with", "Arg::requires", "Arg::possible_values", "Arg::index",
          "ArgGroup::with_name", "ArgGroup::args", "ArgGroup::required", "ArgGroup::arg", "ArgGroup::multiple", "Arg::value_name",
          "Arg::alias", "Arg::visible_alias", "Arg::hidden", "Arg::value_delimiter", "Arg::use_delimiter", "App::setting", "App::usage",
          "App::long_about", "Arg::allow_hyphen_values", "Arg::conflicts_with_all", "Arg::overrides_with", "Arg::validator", "Arg::empty_values"):
    MODELS[n] = clap


@model("App::get_matches", "App::get_matches_safe")
def _(ip, a, c):
    v = ip.deep(ip.deref(a[0]))
    ip.ev("clap", v)
    return T("matches", 0)


@model("ArgMatches::value_of")
def _(ip, a, c):
    n = ip.deref(a[1])
    ip.ev("option", n, S("value"))
    return T("value", n)


@model("ArgMatches::values_of")
def _(ip, a, c):
    n = ip.deref(a[1])
    ip.ev("option", n, S("values"))
    return T("values", n)


@model("ArgMatches::is_present")
def _(ip, a, c):
    n = ip.deref(a[1])
    ip.ev("option", n, S("present"))
    return atom(T("present", n))


@model("ArgMatches::occurrences_of")
def _(ip, a, c):
    n = ip.deref(a[1])
    ip.ev("option", n, S("present"))
    return T("b2i", atom(T("present", n)))


# ------------------------------------------------------------------ files
def io(ip, op, *args):
    """an I/O operation: an event, and a result that may be Ok or Err"""
    r = T("io", op, len(ip_ios(ip)), *args)
    ip_ios(ip).append(r)
    ip.ev("io", S(op), r, *args)
    return r


def ip_ios(ip):
    if not hasattr(ip, "ios"):
        ip.ios = []
    return ip.ios


def dp(ip, v):
    return pathnorm(ip.deep(ip.deref(v)))


def pathnorm(v):
    """paths spelled with format! are joins"""
    if v.op == "phi":
        return phi([(g, pathnorm(x)) for g, x in phi_cases(v)])
    if v.op == "pl" and v.args[0].op == "utf8":
        return v.args[0].args[0]
    if v.op == "join":
        a = pathnorm(v.args[0])
        return v if a is v.args[0] else T("join", a, v.args[1])
    if v.op == "str":
        segs = []
        cur = []
        for p in v.args:
            if p.op == "s":
                bits = p.args[0].split("/")
                for i, b in enumerate(bits):
                    if i:
                        segs.append(cur)
                        cur = []
                    if b:
                        cur.append(S(b))
            else:
                cur.append(p)
        segs.append(cur)

        def one(c):
            if len(c) == 1:
                return pathnorm(c[0].args[0]) if c[0].op == "disp" else c[0]
            return T("str", *c)
        if all(segs):
            r = one(segs[0])
            for s in segs[1:]:
                r = T("join", r, one(s))
            return r
    return v


@model("Path::join")
def _(ip, a, c):
    def f(x, y):
        if y.op == "s" and "/" in y.args[0].strip("/"):
            for b in y.args[0].split("/"):
                if b:
                    x = T("join", x, S(b))
            return x
        return T("join", x, y)
    return lift(f, dp(ip, a[0]), dp(ip, a[1]))


@model("PathBuf::push")
def _(ip, a, c):
    ip.store(a[0], MODELS["Path::join"](ip, a, c))
    return UNIT


@model("Path::parent")
def _(ip, a, c):
    return lift(lambda v: SOME(v.args[0]) if v.op == "join" else T("ext", "Path::parent", v), dp(ip, a[0]))


@model("Path::to_str")
def _(ip, a, c):
    return T("utf8", dp(ip, a[0]))


def with_ext(v, x):
    if v.op == "join" and v.args[1].op == "s" and x.op == "s":
        n = v.args[1].args[0]
        stem = n.rsplit(".", 1)[0] if "." in n[1:] else n
        return T("join", v.args[0], S(stem + ("." + x.args[0] if x.args[0] else "")))
    return T("withext", v, x)


@model("Path::with_extension")
def _(ip, a, c):
    return lift(with_ext, dp(ip, a[0]), ip.deref(a[1]))


@model("Path::with_file_name")
def _(ip, a, c):
    return lift(lambda v, x: T("join", v.args[0], x) if v.op == "join" else T("withname", v, x), dp(ip, a[0]), ip.deref(a[1]))


@model("Path::exists", "Path::is_file", "Path::is_dir")
def _(ip, a, c):
    return atom(T("fexists", dp(ip, a[0])))


@model("OpenOptions::new", "File::options")
def _(ip, a, c):
    return T("oo")


for nm in ("read", "write", "append", "create", "create_new", "truncate", "mode"):
    def _oo(ip, a, c, nm=nm):
        v = ip.deref(a[0])
        x = ip.deref(a[1])
        n = T("oo", *(v.args + (S(nm),))) if x is TRUE else v if x is FALSE else T("oo", *(v.args + (S(nm + "?"),)))
        if a[0].op == "ref":
            ip.store(a[0], n)
            return a[0]
        return n
    MODELS["OpenOptions::" + nm] = _oo


@model("OpenOptions::open")
def _(ip, a, c):
    v = ip.deref(a[0])
    fl = sorted(x.args[0] for x in v.args) if v.op == "oo" else ["?"]
    return io(ip, "open:" + "+".join(fl), dp(ip, a[1]))


@model("File::create")
def _(ip, a, c):
    return io(ip, "open:create+truncate+write", dp(ip, a[0]))


@model("File::create_new")
def _(ip, a, c):
    return io(ip, "open:create_new+write", dp(ip, a[0]))


@model("File::open")
def _(ip, a, c):
    return io(ip, "open:read", dp(ip, a[0]))


for nm in ("create_dir_all", "create_dir", "remove_dir_all", "remove_dir", "remove_file", "read_to_string", "read", "metadata",
           "read_dir", "canonicalize", "exists", "symlink_metadata"):
    MODELS["fs::" + nm] = lambda ip, a, c, nm=nm: io(ip, nm, dp(ip, a[0]))
for nm in ("rename", "copy", "hard_link"):
    MODELS["fs::" + nm] = lambda ip, a, c, nm=nm: io(ip, nm, dp(ip, a[0]), dp(ip, a[1]))
MODELS["fs::write"] = lambda ip, a, c: io(ip, "fswrite", dp(ip, a[0]), ip.deep(ip.deref(a[1])))
MODELS["fs::set_permissions"] = lambda ip, a, c: io(ip, "set_permissions", dp(ip, a[0]))
MODELS["Command::new"] = lambda ip, a, c: io(ip, "spawn", ip.deep(ip.deref(a[0])))
for nm in ("Command::arg", "Command::args", "Command::status", "Command::output", "Command::spawn"):
    MODELS[nm] = identv


@model("BufWriter::new", "BufReader::new", "LineWriter::new", "BufWriter::with_capacity", "BufReader::with_capacity")
def _(ip, a, c):
    h = a[-1]
    return T("buf", c.key.split("::")[0], ip.deep(ip.deref(h)))


def hnd(ip, v):
    return ip.deep(ip.deref(v))


@model("Write::write_fmt")
def _(ip, a, c):
    if (c.c.get("a") or [{}])[0].get("p", "").endswith("String"):
        MODELS["String::push_str"](ip, a, c)
        return OK(UNIT)
    return put(ip, hnd(ip, a[0]), ip.deep(ip.deref(a[1])))


def put(ip, h, text):
    x = h
    while x.op == "buf":
        x = x.args[1]
    if x.op == "stdout":
        ip.ev("eprint" if x.args else "print", text)
    return io(ip, "write", h, text)


MODELS["Write::write_str"] = lambda ip, a, c: (MODELS["String::push_str"](ip, a, c), OK(UNIT))[1]
MODELS["Write::write_all"] = lambda ip, a, c: put(ip, hnd(ip, a[0]), ip.deep(ip.deref(a[1])))
MODELS["Write::write"] = lambda ip, a, c: io(ip, "write_some", hnd(ip, a[0]), ip.deep(ip.deref(a[1])))
MODELS["Write::flush"] = lambda ip, a, c: io(ip, "flush", hnd(ip, a[0]))
MODELS["File::sync_all"] = MODELS["File::sync_data"] = lambda ip, a, c: io(ip, "sync", hnd(ip, a[0]))
MODELS["File::set_len"] = lambda ip, a, c: io(ip, "set_len", hnd(ip, a[0]))
MODELS["Seek::seek"] = MODELS["Seek::rewind"] = lambda ip, a, c: io(ip, "seek", hnd(ip, a[0]))
MODELS["BufWriter::into_inner"] = lambda ip, a, c: io(ip, "flush", hnd(ip, a[0]))
MODELS["BufWriter::get_ref"] = MODELS["BufWriter::get_mut"] = lambda ip, a, c: hnd(ip, a[0]).args[1] if hnd(ip, a[0]).op == "buf" else hnd(ip, a[0])


@model("BufRead::lines")
def _(ip, a, c):
    return T("iter", LIST(T("src", T("lines", hnd(ip, a[0])))))


@model("BufRead::read_line", "Stdin::read_line", "Read::read_to_string", "Read::read_to_end")
def _(ip, a, c):
    r = io(ip, "input" if c.key.startswith("Stdin") else "read", hnd(ip, a[0]))
    old = ip.deref(a[1])
    x = T("input", r)
    ip.store(a[1], x if old.op == "s" and old.args[0] == "" else T("str", T("disp", old), T("disp", x)))
    return r


@model("io::stdin")
def _(ip, a, c):
    return T("stdin")


MODELS["Stdin::lock"] = identv
MODELS["Stdin::lines"] = lambda ip, a, c: T("iter", LIST(T("src", T("lines", T("stdin")))))
MODELS["io::stdout"] = lambda ip, a, c: T("stdout")
MODELS["io::stderr"] = lambda ip, a, c: T("stdout", "err")
MODELS["Stdout::lock"] = MODELS["Stderr::lock"] = identv


@model("io::_print")
def _(ip, a, c):
    ip.ev("print", ip.deep(ip.deref(a[0])))
    return UNIT


@model("io::_eprint")
def _(ip, a, c):
    ip.ev("eprint", ip.deep(ip.deref(a[0])))
    return UNIT


MODELS["Error::new"] = MODELS["Error::other"] = lambda ip, a, c: T("ioerr", *[ip.deep(ip.deref(x)) for x in a])
MODELS["process::exit"] = lambda ip, a, c: (ip.ev("exit", ip.deep(ip.deref(a[0]))), NEVER)[1]


@model("rand::thread_rng", "thread::thread_rng")
def _(ip, a, c):
    return T("rng")


@model("Rng::gen", "Rng::gen_range", "Rng::gen_bool", "rand::random")
def _(ip, a, c):
    ip.nrand = getattr(ip, "nrand", 0) + 1
    return T("rand", ip.nrand, *[ip.deep(x) for x in a[1:]])
