"""Effect rules: what every command does to the file system, in which order and under which conditions."""
import posixpath
from base import *
from ground import value, A
from strings import *

QUERY = ["gc-csp", "gc-cycle", "gc-desc", "gc-short-path", "gc-topo-sort"]
READONLY_OPS = {"open:read", "read_to_string", "read", "metadata", "read_dir", "canonicalize", "exists",
                "symlink_metadata", "input", "seek"}
GRAPH_DIR, COMMANDS, LOCK = ".graph", "commands", "lock"


class Entry:
    def __init__(self, name, run, P, isbin):
        self.name, self.run, self.P, self.isbin = name, run, P, isbin
        self.fe = run.flat()
        self.io = [Io(self, f) for f in self.fe if f.ev.kind == "io"]


class Io:
    """one file operation with its total guard"""

    def __init__(self, ent, f):
        self.f, self.ev = f, f.ev
        self.op = f.ev.args[0].args[0]
        self.r = f.ev.args[1]
        self.args = f.ev.args[2:]
        self.g = total(f)
        self.loops = f.loops
        self.where = where(f.ev)
        self.cls = None
        if self.op in ("write", "write_some", "flush", "set_len", "sync", "seek", "fileperm"):
            h = self.args[0]
            self.target = handle_path(h)
        elif self.op in ("input",) or self.args and self.args[0].op in ("stdin",):
            self.target = None
        else:
            self.target = self.args[0] if self.args else None
        if self.op == "read" and self.args and self.args[0].op in ("buf", "pl"):
            self.target = handle_path(self.args[0])


def total(f):
    g = f.ev.g
    for l in f.loops:
        g = band(l.g, g)
    return g


def shared(x, y):
    """how many of the outermost loops two operations are both in"""
    n = 0
    while n < len(x.loops) and n < len(y.loops) and x.loops[n] is y.loops[n]:
        n += 1
    return n


def closed(f, g, keep=0):
    """guard g of an event under loops, existentially closed over the iterations (of all but the outermost keep loops)"""
    for l in reversed(f.loops[keep:]):
        if l.rec is None or l.rec.n is None:
            return None
        (g2,), b = close(l.rec.n, l.rec.p, [g])
        g = band(l.g, exists(l.rec.n, b, g2))
    return g


def handle_path(h):
    """path of the file behind a handle"""
    n = 0
    while n < 20:
        n += 1
        if h.op == "buf":
            h = h.args[1]
        elif h.op == "pl" and h.args[1] == "Ok":
            h = h.args[0]
        elif h.op == "io" and h.args[0].startswith("open"):
            return h.args[2]
        elif h.op == "stdout":
            return T("stdout")
        elif h.op == "phi":
            ps = [handle_path(v) for _, v in phi_cases(h)]
            return ps[0] if all(p is ps[0] for p in ps) else None
        else:
            return None
    return None


def is_stdout(x):
    return x.target is not None and x.target.op == "stdout"


def is_write(op):
    if op.startswith("open:"):
        fl = set(op[5:].split("+"))
        return bool(fl - {"read", "mode"})
    return op not in READONLY_OPS


def creates_only(op):
    """an open that may create a file, but changes nothing in an existing one"""
    if not op.startswith("open:"):
        return False
    fl = set(op[5:].split("+"))
    return not (fl & {"truncate", "truncate?", "?"})


ROOTS = [".", "..", "a", "a/b", "/x", "../y", "a.b", "a.", "", "a b", " a", "a ", "a/", "~/a", "-x", "A", "\u00e9", "x" * 200, "lock", ".graph", "x.graph", "..."]
PATH_FNS = {"join": lambda G, t, b: posixpath.join(G.val(t.args[0], b), G.val(t.args[1], b)), "utf8": lambda G, t, b: A("Some", G.val(t.args[0], b)),
            "withext": lambda G, t, b: posixpath.splitext(G.val(t.args[0], b))[0] + "." + G.val(t.args[1], b),
            "withname": lambda G, t, b: posixpath.join(posixpath.dirname(G.val(t.args[0], b)), G.val(t.args[1], b))}


def classify(path, P, g=TRUE):
    """lock / commands / inside (the graph directory) / dir / root / outside / None (not understood)"""
    k = shape_class(path, P)
    if path is None or k not in (None, "outside"):
        return k
    # the path is spelled in another way: the directories it denotes for some values of --path
    seen = set()
    near = [t for t in support(g) if any(x is P for x in subterms(t))]
    lits = {x.args[0] for t in near + [path] for x in subterms(t) if x.op == "s" and isinstance(x.args[0], str)}
    for root in ROOTS + sorted(lits | {x + "d" for x in lits} | {"d" + x for x in lits}):
        if near and bmap(g, lambda t: holds(t, near, P, root)) is FALSE:
            continue
        v = value(path, {P: root}, PATH_FNS)
        seen.add(v and isinstance(v[0], str) and v != ("undef",) and root_class(v[0], root))
    if "outside" in seen:
        return "outside"
    return k if None in seen or False in seen else None


def holds(t, near, P, root):
    if t in near:
        v = value(t, {P: root}, PATH_FNS)
        if v in ((True,), (False,)):
            return TRUE if v[0] else FALSE
    return atom(t)


def root_class(p, root):
    p, root = posixpath.normpath(p or "."), posixpath.normpath(root or ".")
    if p == root:
        return "root"
    j = lambda *x: posixpath.normpath(posixpath.join(root, *x))
    if p == j(GRAPH_DIR):
        return "dir"
    if p == j(LOCK):
        return "lock"
    if p == j(GRAPH_DIR, COMMANDS):
        return "commands"
    return "inside" if p.startswith(j(GRAPH_DIR) + "/") else "outside"


def shape_class(path, P):
    if path is None:
        return None
    if path.op == "phi":
        cs = {shape_class(v, P) for _, v in phi_cases(path)}
        return cs.pop() if len(cs) == 1 else ("outside" if "outside" in cs else None)
    if path is P:
        return "root"
    if path.op == "join":
        b, n = path.args
        cb = shape_class(b, P)
        if n.op == "phi":
            cs = {shape_class(T("join", b, v), P) for _, v in phi_cases(n)}
            return cs.pop() if len(cs) == 1 else None
        if cb in (None, "outside"):
            return cb
        if n.op != "s":
            return "inside" if cb in ("dir", "inside") and n.op == "str" else None
        s = n.args[0]
        if s in ("", "."):
            return cb
        if ".." in s.split("/") or s.startswith("/"):
            return "outside"
        if cb == "root":
            return "lock" if s == LOCK else "dir" if s == GRAPH_DIR else "outside"
        if cb == "dir":
            return "commands" if s == COMMANDS else "inside"
        return cb if cb == "inside" else "outside"
    if path.op in ("s", "pl", "arg", "value", "str", "disp", "unwrap_or"):
        return "outside"
    if path.op == "withext" or path.op == "withname":
        return "inside" if shape_class(path.args[0], P) in ("commands", "inside") and path.args[1].op == "s" and path.args[1].args[0] not in ("", COMMANDS) else None
    return None


def is_root_term(t):
    """the value of the --path option, or the &str argument of a library function"""
    if t.op == "pl" and t.args[0].op == "value" and t.args[0].args[0] is S("path"):
        return True
    return False


def root_of(run):
    for f in run.flat():
        for a in f.ev.args:
            for s in subterms(a):
                if is_root_term(s):
                    return s
    return pl(T("value", S("path")), "Some", 0)


def norm_P(t, P):
    """value(path).unwrap_or(".") is the same root: the option has a default"""
    return t


LIBFNS = ["init", "lock", "unlock", "with_lock", "load_graph", "save_graph_as_commands", "rebuild_graph", "clean",
          "add_vertex", "add_vertices", "add_edge", "add_edges", "remove_vertex", "remove_vertices", "remove_edges"]
_cache = {}


OUTSIDE = ("std::fs", "std::io", "std::process", "std::env", "std::net", "std::thread", "std::os", "print", "std::time", "libc::")


def memory_graph(F):
    """the operations of the graph in memory as opaque functions of the graph: they touch nothing outside it, as the call graph shows"""
    from rules.values import graph_atoms
    from rules.graph import DG

    def mutate(nm, unit):
        def f(ip, a, call):
            g = ip.deep(ip.deref(a[0]))
            args = [ip.deep(ip.deref(x)) for x in a[1:]]
            ip.store(a[0], T("g.set", nm, g, *args))
            return UNIT if unit else T("g.res", nm, g, *args)
        return f
    ov = dict(graph_atoms())
    for nm in ("add_vertex", "add_edge", "remove_vertex", "remove_edge"):
        b = F.fn(DG + "::" + nm)
        if b is not None:
            ret = b.locals[0] or {}
            ov[DG + "::" + nm] = mutate(nm, ret.get("s") == "()" or ret.get("k") == "unit")
    for p in list(ov):
        b = F.fn(p)
        if b is None or any(o in full for x in reach(F, b) for _, full, _ in x.libcalls() for o in OUTSIDE):
            del ov[p]
    return ov


def entries(c, which="all"):
    key = id(c.F)
    if key not in _cache:
        out = []
        ov = memory_graph(c.F)
        for b, cr in BINS.items():
            body = c.F.bins.get(cr)
            if body is None:
                c.bad("anchor", b, "the command %s does not exist" % b)
                continue
            r = c.run(body, ov=ov)
            out.append(Entry(b, r, root_of(r), True))
        seen = set()
        for n in LIBFNS:
            if c.F.fn(GU + n) is None:
                continue
            r = c.run(GU + n, ov=ov)
            out.append(Entry("graph_utils::" + n, r, T("arg", 1), False))
            seen.add(GU + n)
        # any other public function of the storage module is an entry point too
        for p, b in sorted(c.F.byp.items()):
            if p.startswith(GU) and p not in seen and "{" not in p and b.kind in ("Fn", "fn") and b.j.get("vis") == "Public" \
                    and b.argc >= 1 and (strip_ref(b.locals[1]) or {}).get("s", "") == "str":
                r = c.run(b, ov=ov)
                out.append(Entry("graph_utils::" + p[len(GU):], r, T("arg", 1), False))
        for e_ in out:
            for x in e_.io:
                if e_.isbin:
                    # the option has a default, so it always has a value
                    given = isv(T("value", S("path")), "Some")
                    x.args = tuple(assume(a, given) for a in x.args)
                    x.target = assume(x.target, given) if x.target is not None else None
            e_.io = [y for x in e_.io for y in by_path(x)]
            for x in e_.io:
                x.cls = classify(x.target, e_.P, x.g)
        _cache[key] = out
    return [e_ for e_ in _cache[key] if which == "all" or e_.isbin == (which == "bins")]


def path_cases(t, d=0):
    """[(condition, path)]: a path chosen by a condition, case by case"""
    if t is None or d > 6:
        return [(TRUE, t)]
    if t.op == "phi":
        return [(band(g, h), w) for g, v in phi_cases(t) for h, w in path_cases(v, d + 1)]
    if t.op in ("join", "withext", "withname") and isinstance(t.args[0], Term):
        cs = path_cases(t.args[0], d + 1)
        if len(cs) > 1:
            return [(g, T(t.op, v, *t.args[1:])) for g, v in cs]
    return [(TRUE, t)]


def by_path(x):
    """one operation on a path that depends on a condition is one operation per case"""
    import copy
    if is_stdout(x) or x.target is None:
        return [x]
    first = path_cases(x.target)
    second = path_cases(x.args[1]) if x.op in ("rename", "copy", "hard_link") and len(x.args) > 1 else [(TRUE, None)]
    if len(first) * len(second) < 2 or len(first) * len(second) > 12:
        return [x]
    out = []
    for g1, p1 in first:
        for g2, p2 in second:
            g = band(g1, g2)
            if band(g, x.g) is FALSE:
                continue
            y = copy.copy(x)
            y.ev = copy.copy(x.ev)
            y.ev.g = band(g, x.ev.g)
            y.g = band(g, x.g)
            y.target = p1
            a = list(x.args)
            if a and a[0] is x.target:
                a[0] = p1
            if p2 is not None:
                a[1] = p2
            y.args = tuple(a)
            out.append(y)
    return out or [x]


def reach(F, body):
    """bodies reachable in the call graph, closures and function values included"""
    seen = {}
    work = [body]
    while work:
        b = work.pop()
        if b.d in seen:
            continue
        seen[b.d] = b
        for d, p in b.refs().items():
            n = F.bodies.get(d)
            if n is not None:
                work.append(n)
            else:
                nm = p.rsplit("::", 1)[-1]
                for (tr, m), l in F.impl_methods.items():
                    if m == nm and d.startswith("gc_"):
                        work += [x for _, x in l]
    return seen.values()


# ---------------------------------------------------------------------------------------------- C01
FS_MUT = ("fs::write", "fs::rename", "fs::remove", "fs::create_dir", "fs::copy", "fs::hard_link", "fs::set_permissions",
          "File::create", "File::set_len", "File::set_permissions", "File::set_modified", "File::set_times",
          "OpenOptions::", "DirBuilder::", "process::Command", "Command::", "fs::soft_link", "unix::fs::",
          "TcpStream::", "UnixStream::", "tempfile")


def c01(c):
    for e_ in entries(c, "bins"):
        if e_.name not in QUERY:
            continue
        n = 0
        for x in e_.io:
            if is_stdout(x) or not is_write(x.op):
                c.ok("reads-only", x.where, x.op)
                n += 1
            else:
                c.bad("reads-only", "%s: %s" % (e_.name, x.where), "%s performs %s on %s" % (e_.name, x.op, pp(x.args[0]) if x.args else "?"))
        # call-graph side: a mutating library call in a reachable body that the value flow never visited
        for b in reach(c.F, e_.run.body):
            for key, full, span in b.libcalls():
                c.sites += 1
                if any(full.endswith(m) or m in full for m in FS_MUT) and "std::" in full:
                    if b.p in e_.run.ip.visited or b.p == e_.run.body.p:
                        continue
                    c.bad("reads-only", "%s: %s" % (e_.name, b.p), "%s can reach %s, which calls %s" % (e_.name, b.p, full))
        for k in e_.run.ip.unknown:
            if any(m.rstrip(":") in k for m in ("fs::", "File::", "process::", "Command::", "unix::")):
                c.bad("reads-only", e_.name, "%s calls %s" % (e_.name, k))
        c.decide("loads", e_.name, any(x.op == "open:read" or x.op.startswith("read") for x in e_.io),
                 "%s reads the stored graph" % e_.name)


# ---------------------------------------------------------------------------------------------- C02
def c02(c):
    for e_ in entries(c):
        for x in e_.io:
            if is_stdout(x) or not is_write(x.op) or x.op == "spawn":
                if x.op == "spawn":
                    c.bad("confined", "%s: %s" % (e_.name, x.where), "%s starts another program" % e_.name)
                continue
            tg = [x.cls]
            if x.op in ("rename", "copy", "hard_link"):
                tg.append(classify(x.args[1], e_.P, x.g))
            for k in tg:
                w = "%s: %s" % (e_.name, x.where)
                if x.op in ("remove_dir_all", "remove_dir"):
                    c.decide("tree-removal", w, k == "dir", "%s removes the tree %s" % (e_.name, pp(x.args[0])), k is not None)
                elif x.op in ("create_dir_all", "create_dir"):
                    c.decide("confined", w, k in ("dir", "root", "inside") or x.op == "create_dir" and k == "lock",
                             "%s creates the directory %s" % (e_.name, pp(x.args[0])), k is not None)
                else:
                    c.decide("confined", w, k in ("lock", "commands", "inside"),
                             "%s performs %s on %s" % (e_.name, x.op, pp(x.target) if x.target is not None else "?"), k is not None)


# ---------------------------------------------------------------------------------------------- C41
def c41(c):
    for e_ in entries(c):
        for x in e_.io:
            if x.op == "open:read" or x.op in ("read_to_string", "read"):
                if x.target is None:
                    continue
                c.decide("one-place", "%s: %s" % (e_.name, x.where), x.cls == "commands",
                         "%s reads %s" % (e_.name, pp(x.target)), x.cls is not None)
            elif x.op.startswith("open:") and "append" in x.op:
                c.decide("one-place", "%s: %s" % (e_.name, x.where), x.cls == "commands",
                         "%s appends to %s" % (e_.name, pp(x.target)), x.cls is not None)
            elif x.op == "rename":
                k = classify(x.args[1], e_.P, x.g)
                c.decide("one-place", "%s: %s" % (e_.name, x.where), k == "commands",
                         "%s stores the graph as %s" % (e_.name, pp(x.args[1])), k is not None)
        if e_.isbin:
            ops = [f for f in e_.fe if f.ev.kind == "option" and f.ev.args[0] is S("path")]
            c.decide("path-option", e_.name, bool(ops), "%s takes the directory from --path" % e_.name)
        if e_.name in ("gc-init", "graph_utils::init"):
            for x in e_.io:
                if x.op.startswith("open:") and is_write(x.op) and x.target is not None:
                    c.decide("one-place", "%s: %s" % (e_.name, x.where), x.cls not in (None, "outside"), "%s creates %s" % (e_.name, pp(x.target)), x.cls is not None)
            mk_ = [x for x in e_.io if x.op.startswith("open:") and is_write(x.op) and x.cls == "commands"]
            c.decide("one-place", e_.name, bool(mk_), "init creates the file the other commands use", not vague(e_))
        if e_.isbin and e_.name not in ("gc-init", "gc-clean"):
            touched = [x for x in e_.io if x.cls == "commands" or x.op == "rename" and classify(x.args[1], e_.P, x.g) == "commands"]
            c.decide("one-place", e_.name, bool(touched), "%s works on <path>/.graph/commands" % e_.name, not vague(e_))


# ---------------------------------------------------------------------------------------------- C03
def acquires(e_):
    return [x for x in e_.io if x.cls == "lock" and (x.op.startswith("open:") and is_write(x.op) or x.op == "create_dir")]


def releases(e_):
    return [x for x in e_.io if x.cls == "lock" and x.op in ("remove_file", "remove_dir", "remove_dir_all")]


def vague(e_):
    """some file is made or removed of which the analysis cannot tell whether it is the lock, or a lock is tried for again"""
    if any(f.ev.kind == "hidden-drop" for f in e_.fe):
        return True
    for x, others in [(x, releases(e_)) for x in acquires(e_)] + [(x, acquires(e_)) for x in releases(e_)]:
        if x.f.loops and not any(y.f.loops and y.f.loops[0] is x.f.loops[0] for y in others):
            return True
    return any(x.cls is None and (is_write(x.op) and x.op.startswith("open:") or x.op in ("create_dir", "remove_file", "remove_dir")) for x in e_.io)


def okv(x):
    return isv(x.r, "Ok")


def held(e_, x, acq, rel):
    """condition under which the lock is held when x runs"""
    h = FALSE
    for a in acq:
        if a.f.i < x.f.i:
            k = band(a.g, okv(a))
            for r in rel:
                if a.f.i < r.f.i < x.f.i:
                    k = band(k, bnot(r.g))
            h = bor(h, k)
    return h


def mutates(e_, x):
    """changes stored graph data (not the lock file)"""
    if x.cls == "lock" or is_stdout(x) or not is_write(x.op) or x.op in ("create_dir_all", "create_dir", "sync"):
        return False
    if x.op.startswith("open:") and creates_only(x.op):
        return False
    if x.target is None and x.op in ("flush",):
        return False
    return True


def locked_entries(c):
    return [e_ for e_ in entries(c) if e_.name not in ("graph_utils::lock", "graph_utils::unlock")]


def c03(c):
    for e_ in locked_entries(c):
        acq, rel = acquires(e_), releases(e_)
        for x in e_.io:
            if not mutates(e_, x):
                continue
            h = held(e_, x, acq, rel)
            c.decide("under-lock", "%s: %s" % (e_.name, x.where), implies(x.g, h),
                     "%s performs %s on %s only while holding the lock" % (e_.name, x.op, pp(x.target) if x.target is not None else "?"), not vague(e_))
        for a in acq:
            need = band(a.g, okv(a))
            rs = [r for r in rel if r.f.i > a.f.i]
            got = bor(*[r.g for r in rs])
            c.decide("released", "%s: %s" % (e_.name, a.where), implies(need, got),
                     "%s removes the lock it took, whatever happened in between" % e_.name, not vague(e_))
            end = rs[0].f.i if rs else 1 << 60
            for f in e_.fe:
                if a.f.i < f.i < end and f.ev.kind in ("exit", "panic"):
                    g = band(total(f), okv(a))
                    if g is FALSE:
                        continue
                    if f.ev.kind == "exit":
                        c.bad("released", "%s: %s" % (e_.name, where(f.ev)), "%s exits while holding the lock" % e_.name)
                    elif io_caused(g, a):
                        # an index or an overflow may be excluded for reasons the guard does not show
                        sure = f.ev.args and f.ev.args[0].op == "s" and (f.ev.args[0].args[0] == "unwrap" or f.ev.args[0].args[0].startswith("explicit"))
                        (c.bad if sure else c.unk)("released", "%s: %s" % (e_.name, where(f.ev)), "%s panics on a failed operation or on file contents while holding the lock" % e_.name)
        # a replacement of the whole graph and the read it is based on are one critical section
        repl = [x for x in e_.io if x.op in ("rename", "fswrite") or x.op.startswith("open:") and "truncate" in x.op]
        repl = [x for x in repl if mutates(e_, x)]
        reads = [x for x in e_.io if x.op in ("open:read", "read_to_string", "read") and x.cls == "commands"]
        if repl and reads:
            for rd in reads:
                later = [x for x in repl if x.f.i > rd.f.i]
                if not later:
                    continue
                ok = implies(band(later[0].g, rd.g), held(e_, rd, acq, rel)) and \
                    not any(rd.f.i < a.f.i < later[0].f.i for a in acq)
                c.decide("one-section", "%s: %s" % (e_.name, rd.where), ok,
                         "%s reads the graph it rewrites inside the same locked section" % e_.name, not vague(e_))
        if e_.isbin and e_.name in ("gc-add", "gc-delete", "gc-build", "gc-clean", "gc-random"):
            c.decide("anchor", e_.name, bool(acq), "%s takes the lock" % e_.name, not vague(e_))


def io_caused(g, a):
    for t in list(support(g)):
        if t.op == "is" and t.args[0].op == "utf8":
            g = cofactor(g, t, t.args[1] == "Some")     # a --path that is not unicode is outside the property
    for t in support(g):
        if t.op == "is" and t.args[1] == "Ok" and t.args[0].op == "io" and t.args[0] is not a.r:
            if not implies(cofactor(g, t, False), cofactor(g, t, True)):
                return True
        elif t.op == "exists" and find_ops(t, "io"):
            if cofactor(g, t, False) is not cofactor(g, t, True) and not implies(cofactor(g, t, True), cofactor(g, t, False)):
                return True
        elif find_ops(t, "lines"):
            if cofactor(g, t, False) is not cofactor(g, t, True):
                return True
    return False


# ---------------------------------------------------------------------------------------------- C04
OWN = ("process::id", "env::var", "thread::current", "SystemTime::now", "Instant::now", "env::current_dir", "rand::random", "env::temp_dir")


def c04(c):
    for e_ in entries(c):
        acq, rel = acquires(e_), releases(e_)
        for x in e_.io:
            if x.target is not None and (not acq or any("lock" in t.args[0] for t in find_ops(x.target, "s"))) and (x.op == "create_dir" or x.op.startswith("open:") and "create_new" in x.op):
                own = [t for t in find_ops(x.target, "ext") if t.args[0] in OWN]
                if own:
                    c.bad("exclusive", "%s: %s" % (e_.name, x.where), "%s takes a lock whose place depends on %s: two commands on one graph need not meet" % (e_.name, own[0].args[0]))
        for a in acq:
            excl = a.op == "create_dir" or a.op.startswith("open:") and "create_new" in a.op[5:].split("+")
            c.decide("exclusive", "%s: %s" % (e_.name, a.where), excl,
                     "%s takes the lock with %s, which fails when the lock exists" % (e_.name, a.op))
        if e_.name == "graph_utils::unlock":
            continue
        for r in rel:
            h = held(e_, r, acq, [y for y in rel if y is not r])
            c.decide("owner-only", "%s: %s" % (e_.name, r.where), implies(r.g, h),
                     "%s removes the lock only after having taken it" % e_.name, not vague(e_))
        for x in e_.io:
            if x.cls == "lock" and x not in acq and x not in rel and is_write(x.op) and x.op not in ("write", "flush", "sync"):
                c.bad("owner-only", "%s: %s" % (e_.name, x.where), "%s performs %s on the lock" % (e_.name, x.op))
            if x.op == "rename" and classify(x.args[1], e_.P, x.g) == "lock":
                c.bad("exclusive", "%s: %s" % (e_.name, x.where), "%s renames over the lock" % e_.name)
    r = c.run(GU + "is_locked")
    if r:
        want = atom(T("fexists", T("join", T("arg", 1), S(LOCK))))
        c.decide("visible", r.where, atom_b(r.ret) is want, "is_locked reports whether the lock exists", understood(r.ret))
    w = c.fn(GU + "with_lock")
    l = c.run(GU + "lock")
    if l:
        acq = [x for x in l.flat() if x.ev.kind == "io"]
        ok = len(acq) == 1 and isv(l.ret, "Ok") is isv(acq[0].ev.args[1], "Ok")
        c.decide("exclusive", l.where, ok, "lock succeeds exactly when it created the lock")


# ---------------------------------------------------------------------------------------------- C05
def c05(c):
    names = {"gc-add", "gc-delete", "gc-init", "graph_utils::init", "graph_utils::add_vertex", "graph_utils::add_vertices",
             "graph_utils::add_edge", "graph_utils::add_edges", "graph_utils::remove_vertex", "graph_utils::remove_vertices",
             "graph_utils::remove_edges"}
    for e_ in entries(c):
        if e_.name not in names:
            continue
        for x in e_.io:
            if x.cls == "lock" or is_stdout(x) or not is_write(x.op):
                continue
            w = "%s: %s" % (e_.name, x.where)
            if x.op.startswith("open:"):
                fl = set(x.op[5:].split("+"))
                if e_.name.endswith("init"):
                    c.decide("no-truncate", w, not (fl & {"truncate", "truncate?", "?"}),
                             "%s opens the graph with %s" % (e_.name, x.op))
                else:
                    c.decide("append-only", w, "append" in fl and not (fl & {"truncate", "truncate?", "?"}),
                             "%s opens the graph with %s" % (e_.name, x.op), not (x.cls is None and creates_only(x.op)))
            elif x.op in ("write", "flush", "sync", "write_some"):
                c.decide("append-only", w, not e_.name.endswith("init"), "%s writes the graph" % e_.name)
            elif x.op in ("create_dir_all", "create_dir"):
                c.ok("append-only", w, x.op)
            else:
                (c.unk if x.cls is None and x.op == "remove_file" else c.bad)("append-only", w, "%s performs %s on %s" % (e_.name, x.op, pp(x.args[0]) if x.args else "?"))
        n = sum(1 for x in e_.io if x.op.startswith("open:") and is_write(x.op) and x.cls != "lock")
        c.decide("anchor", e_.name, n > 0, "%s opens the stored graph" % e_.name)


# ---------------------------------------------------------------------------------------------- C06
def c06(c):
    for e_ in entries(c):
        rewriting = e_.name in ("gc-build", "gc-random", "graph_utils::save_graph_as_commands", "graph_utils::rebuild_graph")
        rn = [x for x in e_.io if x.op == "rename" and classify(x.args[1], e_.P, x.g) == "commands"]
        for x in e_.io:
            w = "%s: %s" % (e_.name, x.where)
            if x.cls == "commands" and x.op.startswith("open:") and not creates_only(x.op):
                c.bad("atomic-replace", w, "%s truncates the stored graph before the new one is written" % e_.name)
            elif x.cls == "commands" and x.op == "remove_file" and e_.name in ("gc-clean", "graph_utils::clean"):
                c.ok("atomic-replace", w, "%s removes the graph, as it should" % e_.name)
            elif x.cls == "commands" and x.op in ("fswrite", "set_len", "remove_file", "copy"):
                c.bad("atomic-replace", w, "%s performs %s on the stored graph" % (e_.name, x.op))
            elif x.cls == "commands" and x.op.startswith("open:") and is_write(x.op) and "append" not in x.op:
                wr = [y for y in e_.io if y.op in ("write", "write_some") and y.target is x.target and any(s is x.r for s in subterms(y.args[0]))]
                c.decide("atomic-replace", w, not wr, "%s overwrites the stored graph in place" % e_.name)
            if x.op in ("copy", "hard_link") and classify(x.args[1], e_.P, x.g) == "commands":
                c.bad("atomic-replace", w, "%s copies over the stored graph" % e_.name)
        for x in rn:
            w = "%s: %s" % (e_.name, x.where)
            src = x.args[0]
            c.decide("atomic-replace", w, classify(src, e_.P, x.g) == "inside", "the new graph is prepared next to the old one", classify(src, e_.P, x.g) is not None)
            opens = [y for y in e_.io if y.op.startswith("open:") and y.target is src and y.f.i < x.f.i and is_write(y.op)]
            opens += [y for y in e_.io if y.op == "fswrite" and y.target is src and y.f.i < x.f.i]
            fresh = [y for y in opens if y.op == "fswrite" or "truncate" in y.op or "create_new" in y.op]
            c.decide("fresh-file", w, bool(fresh), "the prepared file starts empty")
            bad = bor(*[b for b in (closed(y.f, band(y.ev.g if y.loops else y.g, bnot(okv(y)))) for y in opens +
                                    [z for z in e_.io if z.op in ("write", "write_some", "flush") and z.target is src and z.f.i < x.f.i]) if b is not None])
            c.decide("complete", w, band(x.g, bad) is FALSE,
                     "%s replaces the graph only after every write of the new one succeeded" % e_.name)
            wr = [z for z in e_.io if z.op in ("write", "write_some") and z.target is src]
            if any(z.args[0].op == "buf" for z in wr):
                fl = [z for z in e_.io if z.op == "flush" and z.target is src and z.f.i < x.f.i]
                dr = [f for f in e_.fe if f.ev.kind == "drop" and f.ev.args[0].args[0].endswith("BufWriter") and f.i < x.f.i]
                c.decide("complete", w, implies(x.g, bor(*[band(z.g, okv(z)) for z in fl])),
                         "%s flushes the new graph before replacing the old one" % e_.name)
            late = [z for z in wr if z.f.i > x.f.i]
            c.decide("complete", w, not late, "nothing is written to the prepared file after the replacement")
        if rewriting:
            # what replaces the history must not be preceded by its removal: an interruption between the two would lose it
            gone = [x for x in e_.io if x.op in ("remove_dir_all", "remove_dir", "remove_file") and x.cls in ("dir", "commands") or
                    x.op == "rename" and classify(x.args[0], e_.P, x.g) in ("dir", "commands")]
            for x in gone:
                if any(band(x.g, y.g) is not FALSE and x.f.i < y.f.i for y in rn):
                    c.bad("atomic-replace", "%s: %s" % (e_.name, x.where), "%s removes the stored graph before the new one is in place" % e_.name)
            if not gone:
                c.ok("atomic-replace", e_.name, "%s does not remove the stored graph before the new one is in place" % e_.name)
            c.decide("anchor", e_.name, bool(rn), "%s replaces the stored graph by a rename" % e_.name)


# ---------------------------------------------------------------------------------------------- C07
YES = {"y", "yes", "Y", "YES", "Yes"}


NOT_YES = ["no\n", "e\n", "es\n", "s\n", "n\n", "\n", "", "yikes, no\n", "yesterday\n", "not yes\n", "nay\n", "maybe\n", "y n\n", "no, y\n", "quit\n", "x\n", "N\n", "NO\n", "abort\n", "0\n"]


def folded(t, env):
    v = fold_atom(t, env)
    return atom(t) if v is None else TRUE if v else FALSE


def c07(c):
    for e_ in entries(c, "bins"):
        if e_.name not in ("gc-clean", "gc-random"):
            continue
        n = 0
        force = T("present", S("force"))
        for x in e_.io:
            if is_stdout(x) or not is_write(x.op):
                continue
            n += 1
            g = cofactor(x.g, force, False)
            w = "%s: %s" % (e_.name, x.where)
            txt = "%s performs %s only after --force or an explicit yes" % (e_.name, x.op)
            ins = sorted({s for t in support(g) for s in subterms(t) if s.op == "input"}, key=lambda s: s.id)
            if g is not FALSE and not ins:
                c.bad("confirmed", w, txt + ": no answer is asked for")
                continue
            for a in NOT_YES:
                # the condition with this answer given
                v = bmap(g, lambda t: folded(t, {s: a for s in ins}))
                und = not any(s in ins for t in support(v) if t.op != "is" for s in subterms(t))
                c.decide("confirmed", w, v is FALSE, txt + ", not after '%s'" % a.strip(), und)
            yes = FALSE
            for t in support(g):
                if t.op == "eq" and any(find_ops(a, "input") for a in t.args if isinstance(a, Term)):
                    k = [a for a in t.args if a.op == "s"]
                    if k and k[0].args[0].strip().lower() in YES:
                        yes = bor(yes, atom(t))
            exact = all(t.op in ("eq", "is") or not any(s in ins for s in subterms(t)) for t in support(g))
            c.decide("confirmed", w, implies(g, yes), txt, exact)
        c.decide("anchor", e_.name, n > 0, "%s has destructive operations" % e_.name)
        # an explicit yes or --force really goes through
        rm = [x for x in e_.io if x.op.startswith("remove_") and x.cls != "lock" or x.op in ("rename", "fswrite") or x.op.startswith("open:") and "truncate" in x.op]
        g = bor(*[x.g for x in rm])
        c.decide("anchor", e_.name, cofactor(g, force, True) is not FALSE, "%s --force is carried out" % e_.name)


# ---------------------------------------------------------------------------------------------- C08
def signalled(e_, within=()):
    """a failure is reported (in the current round of the loops given)"""
    s = FALSE
    k = len(within)
    for f in e_.fe:
        if len(f.loops) < k or any(x is not y for x, y in zip(f.loops, within)):
            continue
        if f.ev.kind in ("panic",) or f.ev.kind == "exit" and not (f.ev.args and f.ev.args[0] is INT(0)):
            g = closed(f, f.ev.g, k) if f.loops else f.ev.g
            if g is not None:
                s = bor(s, g)
    r = e_.run.ret
    if k:
        return s
    if r.op != "tup" or r.args:
        er = isv(r, "Err") if not is_bool(r) else FALSE
        s = bor(s, er)
    return s


def c08(c):
    for e_ in entries(c):
        sg = signalled(e_)
        for x in e_.io:
            if is_stdout(x) or x.op in ("input", "canonicalize", "metadata", "exists"):
                continue
            if x.op in ("create_dir_all",) and any(y.f.i > x.f.i and y.op.startswith("open:") and implies(x.g, y.g) for y in e_.io):
                c.ok("reported", "%s: %s" % (e_.name, x.where), "the open that follows fails as well")
                continue
            fail = closed(x.f, band(x.ev.g, bnot(okv(x)))) if x.loops else band(x.g, bnot(okv(x)))
            w = "%s: %s" % (e_.name, x.where)
            txt = "a failing %s makes %s fail" % (x.op, e_.name)
            if fail is None:
                c.unk("reported", w, txt)
            elif implies(fail, sg):
                c.ok("reported", w, txt)
            else:
                # refuted when the outcome does not depend on the result at all, or only through exact atoms
                dep = any(s is x.r or s.op == "io" and s.args[:2] == x.r.args[:2] for t in support(sg) for s in subterms(t))
                # tried again until it works
                again = [y for y in e_.io if y.op == x.op and y.target is x.target and (y.f.i > x.f.i or y.loops)
                         and (y.loops or implies(y.g, fail))]
                c.decide("reported", w, False, txt, (not dep or not x.loops) and not again)
        # short writes
        for x in e_.io:
            if x.op == "write_some" and not is_stdout(x):
                c.bad("reported", "%s: %s" % (e_.name, x.where), "%s may write only a part of the data" % e_.name)
        # buffered data is flushed, and the flush checked, on every successful outcome
        for x in e_.io:
            if x.op == "write" and x.args[0].op == "buf" and x.args[0].args[0] == "BufWriter" and not is_stdout(x):
                later = [y for y in e_.io if y.op == "flush" and y.f.i > x.f.i and not is_stdout(y)]
                fl = [y for y in later if y.args[0] is x.args[0]]
                # within the rounds the write and the flush have in common
                m = max([shared(x, y) for y in fl], default=0)
                ctx = x.loops[m].g if len(x.loops) > m else x.ev.g if x.loops else x.g
                need = band(ctx, bnot(sg if not m else signalled(e_, x.loops[:m])))
                gs = [closed(y.f, y.ev.g, m) if y.loops else y.g for y in fl if shared(x, y) == m]
                holds = None not in gs and implies(need, bor(*gs))
                txt = "%s flushes what it wrote before reporting success" % e_.name
                sure = not any(y.loops for y in fl) if fl else not any(handle_path(y.args[0]) in (None, handle_path(x.args[0])) for y in later)
                c.decide("flushed", "%s: %s" % (e_.name, x.where), holds, txt, sure)
        if e_.isbin and e_.name not in QUERY:
            c.decide("anchor", e_.name, any(not is_stdout(x) and is_write(x.op) for x in e_.io), "%s performs file operations" % e_.name)
