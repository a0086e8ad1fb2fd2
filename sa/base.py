"""Infrastructure shared by the rules: analysis of an entry point, obligations, verdicts."""
from facts import *
from interp import *
import terms as TM
from terms import *

GU = "gc_command::graph_utils::"
BINS = {"gc-add": "gc_add", "gc-build": "gc_build", "gc-clean": "gc_clean", "gc-csp": "gc_csp",
        "gc-cycle": "gc_cycle", "gc-delete": "gc_delete", "gc-desc": "gc_desc", "gc-init": "gc_init",
        "gc-random": "gc_random", "gc-short-path": "gc_short_path", "gc-topo-sort": "gc_topo_sort"}


class Ctx:
    """one run of one check: collects obligations and what was analysed"""

    def __init__(self, F, tier="quick"):
        self.F = F
        self.tier = tier
        self.obls = []         # (status, rule, where, text)
        self.visited = set()
        self.unmodelled = {}
        self.events = 0
        self.sites = 0

    def ok(self, rule, where, text=""):
        self.obls.append(("ok", rule, where, text))

    def bad(self, rule, where, text):
        self.obls.append(("violation", rule, where, text))

    def unk(self, rule, where, text):
        self.obls.append(("unknown", rule, where, text))

    def decide(self, rule, where, holds, text, understood=True):
        """holds -> discharged; otherwise refuted when every term involved is understood"""
        if holds:
            self.ok(rule, where, text)
        elif understood:
            self.bad(rule, where, text)
        else:
            self.unk(rule, where, text)
        return holds

    # ------------------------------------------------------------ analysis of entry points
    def fn(self, path, rule="anchor"):
        b = self.F.fn(path)
        if b is None:
            self.bad(rule, path, "the analysed entry point %s does not exist" % path)
        return b

    def run(self, path, ov=None, args=None, kinds=None):
        """analyse one function with symbolic arguments; None when it does not exist"""
        b = self.fn(path) if isinstance(path, str) else path
        if b is None:
            return None
        ip = Interp(self.F, ov or {})
        a = args(ip) if args else self.symargs(ip, b)
        r = Run()
        r.ip, r.body, r.args = ip, b, a
        r.ret = ip.deep(ip.run_body(b, a))
        r.events = ip.events
        r.where = b.p
        self.visited |= ip.visited | {b.p}
        for k, v in ip.unknown.items():
            self.unmodelled.setdefault(k, set()).update(v if isinstance(v, (set, list)) else [v])
        self.events += count_events(ip.events)
        return r

    def symargs(self, ip, b):
        out = []
        for i in range(1, b.argc + 1):
            ty = b.locals[i]
            a = T("arg", i)
            TY[a] = strip_ref(ty) or ty
            if ty.get("k") == "ref" and ty.get("m"):
                a = ip.newroot(a, "arg%d" % i)
            out.append(a)
        return out

    def out(self, r, i):
        """value behind the &mut argument i (1-based) after the call"""
        return r.ip.deep(r.ip.load(r.args[i - 1]))


class Deferred:
    """obligations on one function whose failures must be confirmed: `witness` looks for a valuation of the inputs on which the function is wrong"""

    def __init__(self, c, where_):
        self.c, self.where, self.failed = c, where_, []

    def decide(self, rule, where_, holds, text, understood=True):
        if holds:
            self.c.ok(rule, where_, text)
        else:
            self.failed.append((rule, where_, text))
        return holds

    def unk(self, rule, where_, text):
        self.failed.append((rule, where_, text))

    bad = unk

    def ok(self, rule, where_, text=""):
        self.c.ok(rule, where_, text)

    def finish(self, witness):
        if not self.failed:
            return
        w = witness()
        for i, (rule, where_, text) in enumerate(self.failed):
            if w and i == 0:
                self.c.bad(rule, where_, "%s: %s" % (text, w))
            elif not w:
                self.c.unk(rule, where_, text)


class Run:
    def flat(self):
        return list(flatten(self.events))


class Fe:
    """a flattened event: the loops it lies in, outermost first"""
    __slots__ = ("ev", "loops", "i")

    def __init__(self, ev, loops, i):
        self.ev, self.loops, self.i = ev, loops, i


def flatten(evs, loops=(), c=None):
    c = c if c is not None else [0]
    for x in evs:
        c[0] += 1
        yield Fe(x, loops, c[0])
        if x.sub:
            for y in flatten(x.sub, loops + (x,), c):
                yield y


def count_events(evs):
    return sum(1 + (count_events(x.sub) if x.sub else 0) for x in evs)


OPAQUE = {"opq", "ext", "fold", "mfold", "lvx", "lv", "app?", "proj",
          # understood only by their denotation: a difference counts when a valuation shows it
          "binop", "radix", "trimby", "pad", "dedup", "sortedby", "bsearch", "bsearchk", "swapremoved", "inserted", "prefix", "suffix", "tofloat", "fromfloat", "fdiv", "frem"}


def understood(t, extra=()):
    """no operator of the term stands for something the analysis could not interpret"""
    for s in subterms(t):
        if s.op in OPAQUE and s.op not in extra:
            return False
    return True


def same(a, b, care=TRUE):
    """the two values agree whenever care holds"""
    if a is b:
        return True
    if is_bool(a) or is_bool(b):
        if not (is_bool(a) or a.op in BOOLISH or a.op == "phi") or not (is_bool(b) or b.op in BOOLISH or b.op == "phi"):
            return False
        return implies(care, bnot(bxor(atom_b(a), atom_b(b))))
    for g1, v1 in phi_cases(a):
        for g2, v2 in phi_cases(b):
            g = band(g1, g2, care)
            if g is FALSE or v1 is v2:
                continue
            if v1.op == v2.op and v1.op in ("adt", "tup") and len(v1.args) == len(v2.args) and \
                    (v1.op == "tup" or v1.args[:2] == v2.args[:2]):
                o = 2 if v1.op == "adt" else 0
                if all(same(x, y, g) for x, y in zip(v1.args[o:], v2.args[o:])):
                    continue
            if v1.op == "list" and v2.op == "list" and same_list(v1, v2, g):
                continue
            w1, w2 = assume(v1, g), assume(v2, g)
            if w1 is w2:
                continue
            if (w1 is not v1 or w2 is not v2) and same(w1, w2, g):
                continue
            return False
    return True


BOOLISH = {"fn", "app", "arg", "fld", "pl", "is", "eq", "in", "idx"}


def same_list(a, b, care):
    if len(a.args) != len(b.args):
        return False
    for x, y in zip(a.args, b.args):
        if x is y:
            continue
        if x.op != y.op:
            return False
        if x.op == "e":
            if not same(x.args[0], y.args[0], care) or not same(x.args[1], y.args[1], band(care, x.args[0])):
                return False
        elif x.op == "for":
            if x.args[0] is not y.args[0] or x.args[1] is not y.args[1] or len(x.args) != len(y.args):
                return False
            if not same_list(T("list", *x.args[2:]), T("list", *y.args[2:]), care):
                return False
        else:
            return False
    return True


def where(ev):
    """location without the line number, so that it identifies the construct across edits"""
    return "%s (%s)" % (ev.fn or "?", ev.span.rsplit(":", 1)[0] if ev.span else "?")
