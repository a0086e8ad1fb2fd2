"""Loads the MIR facts written by the gcfacts driver and prepares control-flow structure."""
import glob
import json
import os
import re

import terms


class Body:
    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.d = j["d"]
        self.p = j["p"]
        self.kind = j["kind"]
        self.span = j.get("span", "")
        self.blocks = j.get("blocks", [])
        self.argc = j.get("argc", 0)
        self.locals = j.get("locals", [])
        self._cfg = None
        self.promoted = [Body({"d": self.d + "::promoted%d" % i, "p": self.p, "kind": "Promoted", **x}, crate)
                         for i, x in enumerate(j.get("promoted", []))]

    @property
    def file(self):
        return self.span.rsplit(":", 1)[0]

    def succs(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def refs(self):
        """(definition, readable path) of every function and closure the body mentions"""
        if not hasattr(self, "_refs"):
            out = {}

            def go(x):
                if isinstance(x, dict):
                    if x.get("k") in ("fn", "closure") and "d" in x:
                        out.setdefault(x["d"], x.get("p", ""))
                    for v in x.values():
                        go(v)
                elif isinstance(x, list):
                    for v in x:
                        go(v)
            go(self.blocks)
            for p in self.promoted:
                go(p.blocks)
            self._refs = out
        return self._refs

    def callees(self):
        return list(self.refs())

    def libcalls(self):
        for d, p in self.refs().items():
            if p and not d.startswith("gc_"):
                yield key_of(p), p, self.span

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Cfg:
    def __init__(self, b):
        self.b = b
        n = len(b.blocks)
        self.succ = [b.succs(i) if not b.blocks[i].get("cu") else [] for i in range(n)]
        # reachable, postorder
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))] if n else []
        if n:
            seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succ[y])))
                    break
            else:
                post.append(x)
                stack.pop()
        self.rpo = post[::-1]
        self.reach = seen
        num = {x: i for i, x in enumerate(self.rpo)}
        pred = {x: [] for x in seen}
        for x in seen:
            for y in self.succ[x]:
                pred[y].append(x)
        self.pred = pred
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in self.rpo[1:]:
                ps = [p for p in pred[x] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    new = a
                if idom.get(x) != new:
                    idom[x] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for x in seen:
            for y in self.succ[x]:
                if self.dominates(y, x):
                    body = self.loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z not in body:
                            body.add(z)
                            st += pred[z]
        self._order = {}

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def order(self, header):
        """blocks of the region (the loop of header, or the whole body for None) in topological order,
        inner loops contracted to their header"""
        if header in self._order:
            return self._order[header]
        region = self.loops[header] if header is not None else self.reach
        inner = {}
        for h, body in self.loops.items():
            if h != header and h in region and (header is None or body < region or body <= region and h != header):
                inner[h] = body
        # outermost inner loops only
        rep = {}
        for h, body in inner.items():
            if not any(h in b2 and h != h2 for h2, b2 in inner.items()):
                for x in body:
                    rep[x] = h
        node = lambda x: rep.get(x, x)
        succ = {}
        for x in region:
            s = succ.setdefault(node(x), set())
            for y in self.succ[x]:
                if y in region and y != header and node(y) != node(x):
                    s.add(node(y))
        start = header if header is not None else 0
        seen = set()
        post = []

        def dfs(x):
            st = [(x, iter(sorted(succ.get(x, ()))))]
            seen.add(x)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(sorted(succ.get(v, ())))))
                        break
                else:
                    post.append(u)
                    st.pop()
        dfs(start)
        self._order[header] = post[::-1]
        return self._order[header]


def strip_generics(p):
    """std::vec::Vec::<T, A>::push -> std::vec::Vec::push ; core::slice::<impl [T]>::first -> core::slice::first"""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">" and (i == 0 or p[i - 1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"(::)+", "::", s)
    return s.strip(":")


def key_of(p):
    m = re.match(r"^.*<impl (?:[\w:]*::)?(\w+)(?:<.*>)?>::(\w+)$", p)
    if m:
        return m.group(1) + "::" + m.group(2)
    s = strip_generics(p).split("::")
    return "::".join(s[-2:])


class Facts:
    def __init__(self, d):
        self.dir = d
        self._byq = None
        self.bodies = {}
        self.byp = {}
        self.adts = {}
        self.impls = []
        self.unsafe = []
        self.crates = []
        self.bins = {}
        self.ctors = {}
        self.impl_methods = {}
        files = sorted(glob.glob(os.path.join(d, "*.json")))
        for f in files:
            j = json.load(open(f))
            c = j["crate"]
            self.crates.append(c)
            for bj in j["bodies"]:
                b = Body(bj, c)
                self.bodies[b.d] = b
                self.byp.setdefault(b.p, b)
                if j["bin"] and b.p == c + "::main":
                    self.bins[c] = b
                if b.kind == "Ctor":
                    self.ctors[b.d] = b.p
                if "impl_trait" in bj and "impl_self" in bj:
                    st = bj["impl_self"]
                    nm = b.d.rsplit("::", 1)[1]
                    self.impl_methods.setdefault((bj["impl_trait"].split("<")[0], nm), []).append((st, b))
            for a in j["adts"]:
                a["crate"] = c
                self.adts[a["p"]] = a
                terms.ADTS[a["p"]] = a
                if a["enum"]:
                    vs = [v["n"] for v in a["variants"]]
                    for v in vs:
                        terms.VARIANTS.setdefault(v, vs)
            for im in j["impls"]:
                im["crate"] = c
                self.impls.append(im)
            self.unsafe += [(c, u) for u in j["unsafe"]]

    def fn(self, path):
        """body of a function by readable path (crate::module::Type::name)"""
        b = self.byp.get(path)
        if b is None:
            if self._byq is None:
                self._byq = {}
                for p, x in self.byp.items():
                    if not p.startswith("<"):
                        self._byq.setdefault(strip_generics(p), []).append(x)
            l = self._byq.get(path, [])
            b = l[0] if len(l) == 1 else None
        return b

    def methods_of_trait(self, trait, adt, name):
        for st, b in self.impl_methods.get((trait, name), []):
            if st.get("k") == "adt" and st["p"] == adt:
                return b
        return None
