"""File formats: what the writers write, the readers read back; malformed input is an error with its line number."""
import itertools
import re as pyre
from base import *
from strings import *
from ground import *
import ground
from rules.graph import DG, E, gself, amap, lst, var, GRAPH_T
from rules.values import GC, graph_atoms, forsrc, graph_fns, GRAPHS

GCMD = "gc_core::format::gcmd::"
TGF = "gc_core::format::tgf::"


# ------------------------------------------------------------------ lines with holes
def tmpl(*parts):
    """a line: literal text and holes (terms standing for the decimal digits of an unsigned integer)"""
    out = []
    for p in parts:
        if isinstance(p, str):
            if p:
                out.append(S(p))
        else:
            out.append(T("disp", p))
    return T("str", *out)


REP = [["7", "3"], ["42", "18446744073709551615"], ["0", "10"], ["18446744073709551615", "0"], ["100", "5"], ["12345678901", "98765432109"]]


def renderings(t):
    """representatives of the lines a template stands for, with the span of each hole"""
    if t.op == "s":
        return [(t.args[0], {})]
    out = []
    for rep in REP:
        s, spans, k = "", {}, 0
        for p in t.args:
            if p.op == "s":
                s += p.args[0]
            else:
                d = rep[k % len(rep)]
                spans[p.args[0]] = (len(s), len(s) + len(d))
                s += d
                k += 1
        out.append((s, spans))
    return out


class NotFoldable(Exception):
    pass


def fold_line(t, line, rend):
    """t with the symbolic line replaced by a representative, literal regular expressions evaluated on it"""
    text, spans = rend
    env = {line: text}

    def at(a):
        v = fold_atom(a, env)
        if v is not None:
            return TRUE if v else FALSE
        if line in subterms(a) and a.op != "is":
            raise NotFoldable(a.op)
        return atom(rewrite(a))

    def group(x):
        rx, l, i = x.args[0], x.args[1], x.args[2]
        s = streval(l, env)
        if rx.op != "regex" or rx.args[0].op != "s" or s is None or s not in text:
            raise NotFoldable("group")
        off = text.index(s)
        i = i.args[0] if isinstance(i, Term) else i
        m = to_py(rx.args[0].args[0]).search(s)
        if m is None:
            return NEVER
        try:
            sp = m.span(i)
        except (IndexError, pyre.error):
            return NEVER
        sp = (sp[0] + off, sp[1] + off)
        h = [k for k, v in spans.items() if v == sp]
        return T("digits", h[0]) if h else S(m.group(i) or "")
    memo = {}

    def rewrite(x):
        if not isinstance(x, Term):
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == "grp":
                r = group(x)
            elif is_bool(x):
                r = bmap(x, at)
            elif x.op == "phi":
                r = phi([(bmap(g, at), rewrite(v)) for g, v in phi_cases(x) if bmap(g, at) is not FALSE])
            elif x is line:
                raise NotFoldable("line")
            elif x.op == "disp" or x.op == "str":
                r = x   # message texts
            else:
                r = mk(x.op, *[rewrite(a) for a in x.args])
            memo[x.id] = r
        return r
    return rewrite(t)


# ------------------------------------------------------------------ the reader, per line
class Reader:
    pass


def reader(c, mod, aspect):
    """what read_as_commands does with each line: bad(line), out guard and command"""
    f = var("file")
    r = c.run(mod + "read_as_commands", args=lambda ip: [f])
    if r is None:
        return None
    d = Deferred(c, r.where)
    R = reader_shape(d, mod, r)
    d.finish(lambda: file_witness(r, mod, aspect, f))
    c.readers = dict(getattr(c, "readers", {}))
    c.readers[mod] = r
    return R


def lines_atom(r):
    ls = {t for t in subterms(r.ret) if t.op == "lines"}
    return ls.pop() if len(ls) == 1 else None


def trip_witness(rd, t, samples, env=None):
    """a value whose written text is not one line, or is not read back: samples are valuations of the holes with the command meant"""
    Ls = rd and lines_atom(rd)
    if Ls is None:
        return None
    for vals, want in samples:
        try:
            s = Ground({**(env or {}), **vals}).text(t, {})
        except (NoEval, Undef):
            continue
        if not s.endswith("\n") or s.count("\n") != 1:
            return "%s is written as %r, which is not one line" % (show_cmd(want), s)
        try:
            G = Ground({Ls: L([A("Ok", s[:-1])])})
            ok = G.bool(isv(rd.ret, "Ok"), {})
            got = list(G.lst(pl(rd.ret, "Ok", 0), {})) if ok else None
        except (NoEval, Undef):
            continue
        if got != [want]:
            return "%s is written as %r, which is %s" % (show_cmd(want), s, "read as %s" % [show_cmd(x) for x in got] if ok else "rejected")
    return None


def show_cmd(x):
    return " ".join(str(y) for y in x[1:])


IDS = [7, 0, 3, 1, 10, 42, 99, 100, 12345, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551615]


def id_samples(n, *ts):
    ids = IDS + [k + d for k in sorted(ints(*ts)) for d in (-1, 0, 1) if 0 <= k + d < 2 ** 64][:60]
    return [(x,) for x in ids] if n == 1 else [(x, y) for x in ids for y in (5, 0, x, 18446744073709551615)] + [(y, x) for x in ids for y in (5, 0, 18446744073709551615)]


# files for the valuations: lines and what they mean (a command, None: skipped, "bad": an error)
IOE = ("io error", "Other")
IOE2 = ("io error", "InvalidData")


def sample_lines(mod):
    N = 18446744073709551615
    if mod == GCMD:
        good = [("AddVertex 7", A("AddVertex", 7)), ("AddEdge 1 2", A("AddEdge", 1, 2)), ("RemoveVertex 7", A("RemoveVertex", 7)), ("RemoveEdge 1 2", A("RemoveEdge", 1, 2)),
                ("AddVertex %d" % N, A("AddVertex", N)), ("AddEdge 0 4294967296", A("AddEdge", 0, 4294967296)), ("AddEdge 3 3", A("AddEdge", 3, 3)), ("AddVertex 0", A("AddVertex", 0)), ("RemoveEdge 0 0", A("RemoveEdge", 0, 0))]
        bad = ["AddVertex", "AddVertex x", "AddVertex 1 2", "AddEdge 1", "foo", "AddEdge 1 2 3", "AddVertex 18446744073709551616", "5", "Remove 3", "addvertex 3", "AddVertex 1!", "AddVertex 1.", "AddEdge 1 2 # x", "AddVertex 7 #", "AddEdge 1 2z", "xAddVertex 7",
               "AddVertex 7#", "AddVertex -7", "AddEdge 1,2", "RemoveVertex 1 2", "RemoveEdge 1 2 z", "RemoveEdge 1", "AddVertex ", "AddVertex 99999999999999999999999", "Clear", "AddVertex 3\u0663"]
    else:
        good = [("7", A("AddVertex", 7)), ("1 2", A("AddEdge", 1, 2)), ("3 some label", A("AddVertex", 3)), ("1 2 label", A("AddEdge", 1, 2)), ("%d" % N, A("AddVertex", N)),
                ("0 4294967296", A("AddEdge", 0, 4294967296)), ("3 3", A("AddEdge", 3, 3)), ("0", A("AddVertex", 0)), ("0 0", A("AddEdge", 0, 0)), ("3 #5", A("AddVertex", 3)), ("1 2 # x", A("AddEdge", 1, 2))]
        bad = ["foo", "x1", "-1", "18446744073709551616", "a b", "x", "- 1", "99999999999999999999999", "18446744073709551616 5", "5 18446744073709551616"]
    bad += [x for tm, _ in malformed(mod == TGF) for x, _ in renderings(tm)[:1] if x not in bad]
    return good, bad


def sample_files(mod, aspect, ts=()):
    good, bad = sample_lines(mod)
    skip = [("", None), ("# comment", None), ("  # 5", None), ("#", None)]
    ks = sorted(k for k in ints(*ts) if 2 < k < 2 ** 64)
    # ids and lengths next to the constants of the reader
    near = [k + d for k in ks for d in (-1, 0, 1) if k + d < 2 ** 64][:30]
    if mod == GCMD:
        more = [(w + " %d" % n, A(w, n)) for n in near for w in ("AddVertex", "RemoveVertex")] + \
            [(w + " %d %d" % p_, A(w, *p_)) for n in near for w in ("AddEdge", "RemoveEdge") for p_ in ((n, 2), (2, n))] + \
            [("AddVertex " + "0" * k + "7", A("AddVertex", 7)) for k in ks if k < 600] + [("AddEdge 1 " + "0" * k + "2", A("AddEdge", 1, 2)) for k in ks if k < 600]
    else:
        more = [("%d" % n, A("AddVertex", n)) for n in near] + [("%d %d" % p_, A("AddEdge", *p_)) for n in near for p_ in ((n, 2), (2, n))] + \
            [("7 " + "x" * k, A("AddVertex", 7)) for k in ks if k < 600] + [("1 2 " + "x" * k, A("AddEdge", 1, 2)) for k in ks if k < 600]
    one = [[x] for x in good + more]
    if aspect == "lines":
        return one
    if aspect == "errors":
        b = [(x, "bad") for x in bad] + [(IOE, "bad"), (IOE2, "bad")]
        return [[x] for x in b + skip] + [[good[0], x, good[1]] for x in b] + [[good[0], skip[0], skip[1], x] for x in b] + [[x, y] for x in b[:3] for y in b[:3]] + \
            [[good[i % 4] for i in range(k)] + [x] for k in ks if k < 200 for x in b[:2]]
    long = [[good[i % 4] for i in range(k + d)] + [good[4]] for k in ks if k < 1500 for d in (0, 2)] + [[good[i // 2 % 4] for i in range(k + 5)] for k in ks if k < 300]
    return one + [[], good, good[::-1], good + good, [good[0], skip[0], good[1], skip[1], good[2]], [good[2], good[0], good[1], good[3], good[1]], [good[1], good[1]], skip + good[:3] + skip] + \
        [[x, y] for x in good for y in good] + [list(x) for x in itertools.permutations(good[:4])] + [[x, y, z] for x in good[:4] for y in good[:4] for z in good[:4]] + \
        [[x, y, z, w] for x in good[:2] for y in good[:4] for z in good[:4] for w in good[2:4]] + [[x, y, z, x] for x in skip + good[:2] for y in skip for z in good[:4]] + long


def built(cs):
    """the graph built by a list of commands"""
    V, E_ = set(), set()
    for x in cs:
        k, a = x[1], x[2:]
        if k == "AddVertex":
            V.add(a[0])
        elif k == "RemoveVertex":
            V.discard(a[0])
            E_ = {y for y in E_ if a[0] not in y}
        elif k == "AddEdge":
            V |= set(a)
            E_.add(a)
        else:
            E_.discard(a)
    return V, E_


def file_witness(r, mod, aspect, f, ret=None, applied=False):
    """a file on which reading gives another result"""
    ret = r.ret if ret is None else ret
    # a bound on the number of lines: what happens at the bound does not depend on how great it is
    caps = {t for t in subterms(ret) if t.op == "nmin" and any(x.op == "int" and x.args[0] >= 1500 for x in t.args) and find_ops(t, "lines")}
    if caps and not applied:
        k = max(x.args[0] for t in caps for x in t.args if x.op == "int")
        if not any(x >= 1500 and x != k for x in ints(ret)):
            small = subst(ret, {t: T("nmin", *[INT(9) if x.op == "int" else x for x in t.args]) for t in caps})
            w = _file_witness(r, mod, "files", small, False)
            if w:
                return "with the bound of %d lines lowered to 9, %s" % (k, w)
    return _file_witness(r, mod, aspect, ret, applied)


def panic_witness(r, mod):
    """a file on which reading panics"""
    ls = {t for x in r.flat() for a in (x.ev.g,) + tuple(x.ev.args) if isinstance(a, Term) for t in subterms(a) if t.op == "lines"} | {t for t in subterms(r.ret) if t.op == "lines"}
    if len(ls) != 1:
        return None
    Ls = ls.pop()
    terms = [x.ev.g for x in r.flat()]
    for fl in sample_files(mod, "errors", terms) + sample_files(mod, "files", terms):
        env = {Ls: L(A("Err", l) if not isinstance(l, str) else A("Ok", l) for l, _ in fl)}
        try:
            _, how = ground.walk(r.events, Ground(env, {"io": lambda G, t, b: A("Ok", ("io", t.id))}), set())
        except (NoEval, Undef):
            continue
        if how == "panic":
            return "reading the lines %s panics" % [l if isinstance(l, str) else "(unreadable)" for l, _ in fl[:6]]
    return None


def _file_witness(r, mod, aspect, ret, applied):
    ls = {t for t in subterms(ret) if t.op == "lines"}
    for x in r.flat():
        for a in x.ev.args:
            if isinstance(a, Term):
                ls |= {t for t in subterms(a) if t.op == "lines"}
    if len(ls) != 1:
        return None
    Ls = ls.pop()
    terms = [ret] + [x.ev.g for x in r.flat()] + [a for x in r.flat() for a in x.ev.args if isinstance(a, Term)]
    for fl in sample_files(mod, aspect, terms):
        env = {Ls: L(A("Err", l) if not isinstance(l, str) else A("Ok", l) for l, _ in fl)}
        fns = {"io": lambda G, t, b: A("Ok", ("io", t.id)), "utf8": lambda G, t, b: some("path"), "join": lambda G, t, b: "path"}
        bads = [i for i, (_, k) in enumerate(fl) if k == "bad"]
        want = [k for _, k in fl if k is not None]
        what = "a file with the lines %s%s" % ([(l if len(l) < 60 else l[:60] + "...") if isinstance(l, str) else "(unreadable)" for l, _ in fl[:6]], " and so on, %d in all," % len(fl) if len(fl) > 6 else "")
        try:
            G = Ground(env, fns)
            ok = G.bool(isv(ret, "Ok"), {})
            if applied:
                got, how = ground.walk(r.events, G, {"apply"})
                if how != "ok":
                    return "%s: %s" % (what, how)
                got = [x[1] for x in got]
            else:
                got = list(G.lst(pl(ret, "Ok", 0), {})) if ok else []
        except (NoEval, Undef):
            continue
        if ok == bool(bads):
            return "%s is %s" % (what, "accepted" if ok else "rejected")
        if ok and (built(got) != built(want) if applied else got != want):
            return "%s is read as %s" % (what, [x[1:] for x in got[:6]]) if len(got) < 7 else "%s is read as %d commands, not the %d it stands for" % (what, len(got), len(want))
        if bads and aspect == "errors" and not applied:
            try:
                m = G.text(pl(ret, "Err", 0), {})
            except (NoEval, Undef):
                continue
            if str(bads[0] + 1) not in pyre.findall(r"\d+", m):
                return "for %s the error does not name line %d: %s" % (what, bads[0] + 1, m)
    return None


def reader_shape(c, mod, r):
    R = Reader()
    R.run = r
    ret = r.ret
    lines = [s for s in subterms(ret) if s.op == "lines"]
    if not lines or len(set(lines)) != 1:
        c.unk("reader", r.where, "lines of the file are not read by lines()")
        return None
    Ls = lines[0]
    R.lines = Ls
    n = length(Ls)
    okc = [(g, v) for g, v in phi_cases(ret) if v.op == "adt" and v.args[1] == "Ok"]
    erc = [(g, v) for g, v in phi_cases(ret) if v.op == "adt" and v.args[1] == "Err"]
    if len(okc) != 1 or len(okc) + len(erc) != len(phi_cases(ret)):
        c.unk("reader", r.where, "result of the reader has another form")
        return None
    L = aslist(okc[0][1].args[2])
    R.line = var("line")
    if len(L.args) == 0:
        R.outs = []
    elif len(L.args) == 1 and L.args[0].op == "for" and L.args[0].args[0] is n and all(x.op == "e" for x in L.args[0].args[2:]):
        s = L.args[0]
        b = s.args[1]
        R.raw = (n, b, s)
        R.outs = [(inst(x.args[0], Ls, b, R.line), inst(x.args[1], Ls, b, R.line)) for x in s.args[2:]]
    else:
        c.unk("all-lines", r.where, "the commands read are one per line of the file, in order")
        return None
    # lines on which reading fails
    okg = okc[0][0]
    bad = FALSE
    rest = okg
    R.badfail = None
    exs = [t for t in support(okg) if t.op == "exists" and t.args[0] is n]
    if okg is TRUE:
        bad = FALSE
        R.badfail = FALSE
    elif len(exs) == 1 and okg is bnot(atom(exs[0])):
        g = exs[0].args[2]
        b = exs[0].args[1]
        bad = inst(g, Ls, b, R.line)
        R.badfail = inst_err(g, Ls, b)
        R.at = fpos(n, b, g)
    else:
        c.unk("reader", r.where, "failing lines: %s" % pp(okg)[:200])
        return None
    R.bad = bad
    R.err = erc
    return R


def inst(t, Ls, b, line):
    return subst(t, {idx(Ls, b): OK(line)})


def inst_err(t, Ls, b):
    return subst(t, {idx(Ls, b): ERR(var("ioerror"))})


def fold_reader(R, rend):
    """(bad, [(guard, command)]) of the reader on a representative line"""
    bad = fold_line(R.bad, R.line, rend)
    return bad, [(fold_line(g, R.line, rend), v) for g, v in R.outs]


def digits_ok(xs):
    return band(*[isv(T("parse", "u64", T("digits", x)), "Ok") for x in xs]) if xs else TRUE


def parsed(x):
    return pl(T("parse", "u64", T("digits", x)), "Ok", 0)


def reads_as(c, rule, R, tm, holes, cmd, what):
    """a template line is read as the given command whenever its numbers are in range"""
    w = R.run.where
    for rend in renderings(tm):
        reads_one(c, rule, R, rend, w, holes, cmd, "%s (such as '%s')" % (what, rend[0]))


def reads_one(c, rule, R, rend, w, holes, cmd, what):
    try:
        bad, outs = fold_reader(R, rend)
        okn = digits_ok(holes)
        good = bnot(bad)
        c.decide(rule, w, implies(okn, good), "%s is accepted" % what, understood(bad))
        c.decide(rule, w, implies(bnot(okn), bad), "%s with an id out of range is an error" % what, understood(bad))
        acc = FALSE
        okv_ = True
        und = True
        for g, v in outs:
            gg = band(g, okn, good)
            if gg is FALSE:
                continue
            acc = bor(acc, g)
            val = assume(fold_line(restrict_line(v, R.line, rend), R.line, rend), gg)
            okv_ = okv_ and same(val, cmd, gg)
            und = und and understood(val)
        c.decide(rule, w, implies(band(okn, good), acc), "%s is not skipped" % what, understood(acc))
        c.decide(rule, w, okv_, "%s is read as %s" % (what, pp(cmd)), und)
    except NotFoldable as ex:
        c.unk(rule, w, "%s: reader not decided on this line (%s)" % (what, ex))


def restrict_line(v, line, rend):
    """alternatives of a value that the line excludes"""
    if v.op != "phi":
        return v
    cs = []
    for g, x in phi_cases(v):
        g2 = fold_line(g, line, rend)
        if g2 is not FALSE:
            cs.append((g2, x))
    return phi(cs)


# ------------------------------------------------------------------ the writers
def written(r):
    """(events, loops) of data written, with its text"""
    return [f for f in r.flat() if f.ev.kind == "io" and f.ev.args[0].args[0] in ("write", "fswrite", "write_some")]


def text_of(f):
    return f.ev.args[-1]


def joined(fs):
    """texts of consecutive writes of one iteration as one text"""
    parts = []
    for f in fs:
        t = text_of(f)
        parts += list(t.args) if t.op == "str" else [t]
    out = []
    for p in parts:
        if p.op == "s" and out and out[-1].op == "s":
            out[-1] = S(out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    return T("str", *out)


def lines_of(t):
    """the text as complete lines, or None"""
    lines = [[]]
    parts = t.args if t.op == "str" else (t,)
    for p in parts:
        if p.op == "s":
            bits = p.args[0].split("\n")
            for i, b in enumerate(bits):
                if i:
                    lines.append([])
                if b:
                    lines[-1].append(S(b))
        elif p.op == "disp":
            lines[-1].append(p)
        else:
            return None
    if lines[-1]:
        return None          # the last line is not terminated
    return [T("str", *l) for l in lines[:-1]]


CMDS = {"AddVertex": 1, "RemoveVertex": 1, "AddEdge": 2, "RemoveEdge": 2}


def c09(c):
    R = reader(c, GCMD, "lines")
    # appended commands
    for v, n in CMDS.items():
        xs = [var("id%d" % i) for i in range(n)]
        cmd = adt(GC, v, *xs)
        r = c.run(GCMD + "add_commands", args=lambda ip: [var("filename"), LIST(e(cmd))])
        if not r:
            return
        ws = [f for f in written(r) if f.ev.g is not FALSE]
        t = joined(ws)
        ls = lines_of(t)
        d = Deferred(c, r.where)
        d.decide("one-line", r.where, ls is not None and len(ls) == 1, "%s is written as one complete line: %s" % (v, pp(t)))
        if R and ls and len(ls) == 1:
            want = adt(GC, v, *[parsed(x) for x in xs])
            holes = [p.args[0] for p in ls[0].args if p.op == "disp"]
            reads_as(d, "round-trip", R, ls[0], holes, want, "the line written for %s" % v)
        else:
            d.unk("round-trip", r.where, "the line written for %s is read back" % v)
        d.finish(lambda: trip_witness(c.readers.get(GCMD), t, [(dict(zip(xs, k)), A(v, *k)) for k in id_samples(n, t, c.readers[GCMD].ret)]))
    cs = var("cmds")
    r = c.run(GCMD + "add_commands", args=lambda ip: [var("filename"), cs])
    ws = written(r)
    d = Deferred(c, r.where)
    cover(d, "all-written", r, ws, cs, "every command is written, in order")
    d.finish(lambda: writer_witness(r, c.readers.get(GCMD), [({cs: L(A(*x) for x in l)}, {}, [A(*x) for x in l]) for l in command_lists(r)]))
    save_rules(c, GCMD, R)


def command_lists(r):
    one = [("AddVertex", 1), ("RemoveVertex", 2), ("AddEdge", 1, 2), ("RemoveEdge", 1, 2), ("AddVertex", 18446744073709551615), ("AddEdge", 2, 1), ("AddEdge", 3, 3)]
    ks = [k + d for k in ints(*[x.ev.g for x in r.flat()]) for d in (-1, 0, 1, 2) if 3 < k + d < 300]
    big = sorted({k + 1 for x in r.flat() for k in ints(x.ev.g, *[l.rec.n for l in x.loops if l.rec.n is not None]) if 300 <= k < 70000})[:4]
    return [[]] + [list(x) for n in (1, 2, 3) for x in itertools.product(one[:6], repeat=n)] + [[one[i % 7] for i in range(n)] for n in [4, 5, 6, 7, 8] + ks + big]


def writer_witness(r, rd, samples, graph=False):
    """a list of commands or a graph whose written text is read back as something else"""
    Ls = rd and lines_atom(rd)
    if Ls is None:
        return None
    for env, fns, want in samples:
        try:
            out, how = ground.walk(r.events, Ground(env, {"io": lambda G, t, b: A("Ok", ("io", t.id)), **fns}), {"io"})
        except NoEval:
            continue
        if any(k == "write_some" for k, _ in out):
            continue
        text = "".join(s for k, s in out if s is not None)
        what = "%s is written as %r" % (graph if graph and isinstance(graph, str) else "the list %s" % [show_cmd(x) for x in want[:4]] if not graph else "the graph with vertices %s and edges %s" % tuple(map(sorted, want)), text[:120])
        if how != "ok":
            return "%s: %s" % (what, how)
        if text and not text.endswith("\n"):
            return what + ", and the last line is not terminated"
        try:
            G = Ground({Ls: L(A("Ok", l) for l in text.split("\n")[:-1])})
            ok = G.bool(isv(rd.ret, "Ok"), {})
            got = list(G.lst(pl(rd.ret, "Ok", 0), {})) if ok else None
        except (NoEval, Undef):
            continue
        if not ok:
            return what + ", which is rejected"
        if (built(got) if graph else got) != want:
            return what + ", which is read as %s" % [show_cmd(x) for x in got[:8]]
    return None


def cover(c, rule, r, ws, cs, text):
    """the writes lie in one loop over the whole of cs and are not conditional on anything but earlier success"""
    loops = {f.loops[0] if f.loops else None for f in ws}
    if len(ws) == 0:
        c.bad(rule, r.where, text)
        return
    if len(loops) == 1 and None not in loops:
        l = loops.pop()
        rec = l.rec
        if rec.n is None:
            c.unk(rule, r.where, text)
            return
        first = ws[0]
        ok = rec.n is length(cs)
        # elements used
        els = {s for f in ws for s in subterms(text_of(f)) if s.op == "idx" and s.args[0] is cs}
        ok = ok and els == {idx(cs, rec.p)}
        # every command has a write: the disjunction over its kinds is total up to failed writes
        g = bor(*[f.ev.g for f in ws])
        ok = ok and failures_only(g)
        for k, gx in rec.exits:
            ok = ok and only_failure(gx)
        c.decide(rule, r.where, ok, text, understood(text_of(first), ("lv",)))
    else:
        c.unk(rule, r.where, text)


def only_failure(g):
    """an early exit that happens only because an operation failed"""
    ats = [t for t in support(g) if t.op == "is" and t.args[0].op == "io"]
    x = g
    for t in ats:
        x = cofactor(x, t, True)
    return x is FALSE


def failures_only(g):
    """the guard is true as long as no operation failed"""
    for t in list(support(g)):
        if t.op == "is" and t.args[1] == "Ok" and t.args[0].op == "io":
            g = cofactor(g, t, True)
        elif t.op == "exists" and find_ops(t, "io"):
            g = cofactor(g, t, False)
    return g is TRUE


def save_rules(c, mod, R):
    g = gself()
    r = c.run(mod + "save", ov=graph_atoms(), args=lambda ip: [g, var("filename")])
    if not r:
        return
    ws = written(r)
    got = {}
    c0, c = c, Deferred(c, r.where)
    for f in ws:
        if len(f.loops) != 1 or f.loops[0].rec.n is None:
            c.unk("saved", r.where, "text written outside a simple loop")
            continue
        got.setdefault(f.loops[0], []).append(f)
    seen = set()
    other = not R
    for l, fs in got.items():
        rec = l.rec
        src = rec.n.args[0] if rec.n.op == "len" else None
        perm = src
        while src is not None and src.op in ("sorted", "list"):
            src = src.args[0] if src.op == "sorted" else src.args[0].args[0] if len(src.args) == 1 and src.args[0].op == "src" else None
        while perm is not None and perm.op == "list" and len(perm.args) == 1 and perm.args[0].op == "src":
            perm = perm.args[0].args[0]
        t = joined(fs)
        ls = lines_of(t)
        ok = ls is not None and len(ls) == 1
        if src is None or src.op not in ("g.vertices", "g.edges"):
            c.unk("saved", r.where, "saved elements: %s" % (pp(src) if src is not None else pp(rec.n)))
            other = True
            continue
        x = idx(perm, rec.p)
        want, hs = ("AddVertex", [x]) if src.op == "g.vertices" else ("AddEdge", [fld(x, 0), fld(x, 1)])
        d = Deferred(c0, r.where)
        d.decide("one-line", r.where, ok, "an element of the graph is saved as one complete line: %s" % pp(t))
        if ok and R:
            holes = [p.args[0] for p in ls[0].args if p.op == "disp"]
            reads_as(d, "round-trip", R, ls[0], holes, adt(GC, want, *[parsed(h) for h in hs]), "the line saved for %s" % want)
        else:
            d.unk("round-trip", r.where, "the line saved for %s is read back" % want)
        rd = c0.readers.get(mod)
        d.finish(lambda: trip_witness(rd, t, [({x: k[0]} if len(k) == 1 else {x: ("tup",) + k, fld(x, 0): k[0], fld(x, 1): k[1]}, A(want, *k)) for k in id_samples(len(hs), t, rd.ret)]))
        full = failures_only(bor(*[f.ev.g for f in fs])) and failures_only(l.g) and all(only_failure(gx) for _, gx in rec.exits)
        c.decide("saved", r.where, full, "every element of %s is saved" % src.op)
        seen.add(src.op)
    if all(len(f.loops) == 1 for f in ws) and (not other or seen >= {"g.vertices", "g.edges"}):
        # isolated vertices need their own line; edges bring their vertices
        c.decide("saved", r.where, seen >= {"g.vertices", "g.edges"}, "vertices and edges of the graph are all saved")
    c.finish(lambda: writer_witness(r, c0.readers.get(mod), [({}, graph_fns(g, V, E_), (set(V), set(E_))) for V, E_ in GRAPHS + [(V[::-1], E_[::-1]) for V, E_ in GRAPHS]], graph=True))


def c10(c):
    R = reader(c, TGF, "lines")
    save_rules(c, TGF, R)
    if R:
        x, y = var("id0"), var("id1")
        # labels after the ids are allowed
        d = Deferred(c, R.run.where)
        reads_as(d, "round-trip", R, tmpl(x, " some label"), [x], adt(GC, "AddVertex", parsed(x)), "a labelled vertex line")
        reads_as(d, "round-trip", R, tmpl(x, " ", y, " some label"), [x, y], adt(GC, "AddEdge", parsed(x), parsed(y)), "a labelled edge line")
        d.finish(lambda: file_witness(R.run, TGF, "lines", None))


# ---------------------------------------------------------------------------------------------- C11
def malformed(tgf):
    x, y = var("id0"), var("id1")
    common = [("foo", []), ("foo bar", []), ("-", [])]
    if tgf:
        return [(tmpl("x", x), [x]), (tmpl("-", x), [x]), (tmpl("foo"), []), (tmpl("a b"), []), (tmpl(" ", x), [x])]
    return [(tmpl("AddVertex"), []), (tmpl("AddVertex "), []), (tmpl("AddVertex x"), []), (tmpl("AddVertex ", x, " ", y), [x, y]),
            (tmpl("AddVertex ", x, "z"), [x]), (tmpl("AddVertex -", x), [x]), (tmpl("xAddVertex ", x), [x]), (tmpl("addvertex ", x), [x]),
            (tmpl("AddEdge ", x), [x]), (tmpl("AddEdge ", x, " y"), [x]), (tmpl("AddEdge ", x, " ", y, " 5"), [x, y]),
            (tmpl("AddEdge ", x, ",", y), [x, y]), (tmpl("XAddEdge ", x, " ", y), [x, y]), (tmpl("RemoveVertex"), []),
            (tmpl("RemoveVertex ", x, " ", y), [x, y]), (tmpl("RemoveVertex ", x, "!"), [x]), (tmpl("RemoveEdge ", x), [x]),
            (tmpl("RemoveEdge ", x, " ", y, " z"), [x, y]), (tmpl("Remove ", x), [x]), (tmpl(x), [x]), (tmpl(x, " ", y), [x, y]),
            (tmpl("foo"), []), (tmpl("AddVertex ", x, "."), [x]), (tmpl("Clear"), [])]


def in_range(tgf):
    """well-formed lines, whose ids have to be 64-bit numbers"""
    x, y = var("id0"), var("id1")
    if tgf:
        return [(tmpl(x), [x]), (tmpl(x, " ", y), [x, y])]
    return [(tmpl("AddVertex ", x), [x]), (tmpl("RemoveVertex ", x), [x]), (tmpl("AddEdge ", x, " ", y), [x, y]), (tmpl("RemoveEdge ", x, " ", y), [x, y])]


def c11(c):
    for mod in (GCMD, TGF):
        R = reader(c, mod, "errors")
        if R is None:
            continue
        w = R.run.where
        pan = [f for f in R.run.flat() if f.ev.kind == "panic" and f.ev.g is not FALSE and not bare_regex_panic(f.ev)]
        d = Deferred(c, w)
        d.decide("no-panic", "%s: %s" % (w, where(pan[0].ev)) if pan else w, not pan, "no line makes the reader panic")
        d.finish(lambda: panic_witness(R.run, mod))
        d = Deferred(c, w)
        for tm, hs in malformed(mod == TGF):
            for rend in renderings(tm):
                try:
                    bad, outs = fold_reader(R, rend)
                    d.decide("malformed", w, implies(digits_ok(hs), bad), "the malformed line '%s' is an error" % rend[0], understood(bad))
                except NotFoldable as ex:
                    d.unk("malformed", w, "%s: %s" % (pp(tm), ex))
        for tm, hs in (in_range(mod == TGF)):
            for rend in renderings(tm)[:1]:
                try:
                    bad, outs = fold_reader(R, rend)
                    d.decide("range", w, implies(bnot(digits_ok(hs)), bad), "a line such as '%s' with an id that is no 64-bit number is an error" % rend[0], understood(bad))
                except NotFoldable as ex:
                    d.unk("range", w, "%s: %s" % (pp(tm), ex))
        # nothing but empty lines and comments is skipped
        line = R.line
        acc = bor(*[g for g, _ in R.outs])
        skipped = band(bnot(R.bad), bnot(acc))
        tr = T("trim", line)
        allowed = bor(bnot(gt0(length(line))), atom(T("starts_with", tr, S("#"))), atom(T("starts_with", line, S("#"))),
                      bnot(gt0(length(tr))), eq(tr, S("")))
        d.decide("no-skip", w, implies(skipped, allowed), "only empty lines and comments are skipped", understood(skipped))
        # what is allowed to be skipped is skipped
        for tm in (tmpl("# comment"), tmpl("  # comment"), tmpl("#")):
            try:
                bad, outs = fold_reader(R, renderings(tm)[0])
                d.decide("comments", w, bad is FALSE and all(g is FALSE for g, _ in outs), "the comment line %s is ignored" % pp(tm))
            except NotFoldable as ex:
                d.unk("comments", w, "%s" % ex)
        try:
            bad, outs = fold_reader(R, ("", {}))
            d.decide("comments", w, bad is FALSE and all(g is FALSE for g, _ in outs), "an empty line is ignored")
        except NotFoldable as ex:
            d.unk("comments", w, "%s" % ex)
        d.decide("io-errors", w, R.badfail is not FALSE and R.badfail is not None and constrain_true(R.badfail), "a line that cannot be read is an error", understood(R.badfail or TRUE))
        # the error names the line
        for g, v in R.err:
            for g2, m in phi_cases(v.args[2]):
                num = T("disp", add(R.at, INT(1))) if hasattr(R, "at") else None
                ok = m.op == "str" and num in m.args
                und = understood(m, ("ext",)) and m.op == "str"
                d.decide("line-number", w, ok, "the error names the offending line", und)
        d.finish(lambda: file_witness(R.run, mod, "errors", None))


def constrain_true(g):
    return g is TRUE


def bare_regex_panic(ev):
    """unwrap of Regex::new on a literal"""
    return any(a.op == "adt" and a.args[1] == "Ok" and len(a.args) > 2 and a.args[2].op == "regex" for a in ev.args[1:2])


# ---------------------------------------------------------------------------------------------- C12
def c12(c):
    g0 = DG

    def ap(ip, argv, call):
        ip.ev("apply", ip.deep(ip.deref(argv[0])))
        return UNIT
    ov = {GC + "::apply_to": ap}
    for mod in (GCMD, TGF):
        R = reader(c, mod, "files")
        f = var("file")
        r = c.run(mod + "read", ov=ov, args=lambda ip: [f])
        if R is None or r is None:
            continue
        replay(c, r, R, r.ret, mod)
    rd = reader(c, GCMD, "files")
    r = c.run("gc_command::graph_utils::load_graph", ov=ov)
    if r and rd:
        op = [f for f in r.flat() if f.ev.kind == "io"]
        c.decide("load", r.where, len(op) == 1 and op[0].ev.args[0].args[0] == "open:read", "loading reads one file")
        if op:
            res = op[0].ev.args[1]
            okg = isv(r.ret, "Ok")
            c.decide("load", r.where, implies(okg, isv(res, "Ok")), "a graph that cannot be opened is an error")
            replay(c, r, rd, r.ret, GCMD)


def replay(c0, r, R, ret, mod):
    c = Deferred(c0, r.where)
    replay_shape(c, r, R, ret)
    c.finish(lambda: file_witness(r, mod, "files", None, applied=True) or file_witness(r, mod, "errors", None, applied=True))


def replay_shape(c, r, R, ret):
    evs = [x for x in r.flat() if x.ev.kind == "apply"]
    w = r.where
    # the same reading, on the same file
    lines = [s for s in subterms(ret) if s.op == "lines"]
    for x in evs:
        for s in subterms(x.ev.args[0]):
            if s.op == "lines":
                lines.append(s)
    if not lines:
        c.unk("replay", w, "lines of the file are not visible")
        return
    Ls = lines[0]
    n = length(Ls)
    if len(evs) != 1 or len(evs[0].loops) != 1 or evs[0].loops[0].rec.n is None:
        c.decide("replay", w, False, "every command read is applied, in order", len(evs) == 0)
        return
    f = evs[0]
    l = f.loops[0]
    rec = l.rec
    b = T("arg", "line")
    el = subst(f.ev.args[0], {idx(Ls, rec.p): OK(R.line)})
    gu = subst(f.ev.g, {idx(Ls, rec.p): OK(R.line)})
    acc = bor(*[g for g, _ in R.outs])
    val = phi([(g, v) for g, v in R.outs])
    good = bnot(R.bad)
    ok = rec.n is n and same(gu, acc, good) and same(el, val, band(good, acc)) and not rec.exits
    c.decide("replay", w, ok, "every command read is applied, once, in the order of the file", understood(el, ("lv",)) and rec.n is not None)
    okg = isv(ret, "Ok")
    c.decide("replay", w, implies(okg, l.g) and implies(l.g, okg), "a graph is returned exactly when its commands were applied")
    G = pl(ret, "Ok", 0)
    c.decide("replay", w, all(fld(v, 0) is EMPTY for _, v in phi_cases(G)), "the commands are applied to an empty graph, which is returned", understood(G))
    # failure of any line is a failure of the load
    exs = [t for t in support(okg) if t.op == "exists" and t.args[0] is n]
    if len(exs) == 1:
        bad = inst(exs[0].args[2], Ls, exs[0].args[1], R.line)
        c.decide("replay", w, same(bad, R.bad), "a malformed line makes the load fail")
    else:
        c.unk("replay", w, "condition of failure: %s" % pp(okg)[:200])
