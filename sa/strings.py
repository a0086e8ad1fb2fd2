"""Constant folding of string predicates on a literal text."""
import re as pyre
from terms import *


def to_py(rx):
    """Rust regex -> Python regex (the constructs used by line formats)"""
    if rx.endswith("$"):
        rx = rx[:-1] + r"\Z"
    return pyre.compile(rx)


def lit(t):
    """literal text of a string or character constant"""
    if t.op == "s":
        return t.args[0]
    if t.op == "int":
        try:
            return chr(t.args[0])
        except (ValueError, TypeError):
            return None
    if t.op == "char":
        return t.args[0] if isinstance(t.args[0], str) else chr(t.args[0])
    return None


def streval(t, env):
    """text of a string term when some terms have a known text; None when it does not fold"""
    if t in env:
        return env[t]
    if t.op == "s":
        return t.args[0]
    if t.op == "str":
        ps = [streval(p.args[0], env) if p.op == "disp" and p.args[0] in env else streval(p, env) for p in t.args]
        return None if None in ps else "".join(ps)
    if t.op == "disp":
        return streval(t.args[0], env)
    if t.op in ("trim", "trim_start", "trim_end"):
        x = streval(t.args[0], env)
        return None if x is None else {"trim": x.strip, "trim_start": x.lstrip, "trim_end": x.rstrip}[t.op]()
    if t.op in ("strip_prefix", "strip_suffix"):
        x, k = streval(t.args[0], env), lit(t.args[1])
        if x is None or k is None:
            return None
        return x[len(k):] if t.op == "strip_prefix" else x[:len(x) - len(k)]
    if t.op == "ext" and len(t.args) == 2:
        k = t.args[0]
        x = streval(t.args[1], env)
        if x is None:
            return None
        if k in ("str::to_lowercase", "str::to_ascii_lowercase"):
            return x.lower()
        if k in ("str::to_uppercase", "str::to_ascii_uppercase"):
            return x.upper()
    if t.op == "ext" and len(t.args) == 3 and t.args[0] in ("str::trim_matches", "str::trim_end_matches", "str::trim_start_matches"):
        x, k = streval(t.args[1], env), lit(t.args[2])
        if x is None or k is None:
            return None
        if t.args[0] != "str::trim_end_matches":
            while k and x.startswith(k):
                x = x[len(k):]
        if t.args[0] != "str::trim_start_matches":
            while k and x.endswith(k):
                x = x[:-len(k)]
        return x
    return None


def fold_atom(a, env):
    """truth of an atom, None when it does not fold"""
    if a.op == "match" and a.args[0].op == "regex" and a.args[0].args[0].op == "s":
        x = streval(a.args[1], env)
        return None if x is None else bool(to_py(a.args[0].args[0].args[0]).search(x))
    if a.op in ("starts_with", "ends_with", "contains"):
        x, k = streval(a.args[0], env), lit(a.args[1])
        if k is None:
            k = streval(a.args[1], env)
        if x is None or k is None:
            return None
        return {"starts_with": x.startswith, "ends_with": x.endswith, "contains": x.__contains__}[a.op](k)
    if a.op == "ext" and a.args[0] == "str::eq_ignore_ascii_case" and len(a.args) == 3:
        x, y = streval(a.args[1], env), streval(a.args[2], env)
        return None if x is None or y is None else x.lower() == y.lower()
    if a.op == "gt0":
        c, d = lin_parts(a.args[0])
        if d and all(x.op == "len" for x in d):
            for x, k in d.items():
                s = streval(x.args[0], env)
                if s is None:
                    return None
                c += k * len(s)
            return c > 0
    if a.op == "eq":
        x, y = streval(a.args[0], env), streval(a.args[1], env)
        return None if x is None or y is None else x == y
    return None
