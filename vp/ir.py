"""Loads the extracted facts (one JSON line per body / ADT / impl / type) into an indexed program."""
import gc, json, os, re
from collections import defaultdict

CRATES = ["graphql_tools", "hive_console_sdk", "hive_router"]


class Body:
    __slots__ = ("id", "kind", "parent", "file", "line", "argc", "self_ty", "trait", "is_async",
                 "locals", "bbs", "types", "crate", "_callees", "_adts")

    def __init__(self, d, types, crate):
        self.id = d["id"]
        self.kind = d["kind"]
        self.parent = d.get("parent")
        self.file = d["file"]
        self.line = d["line"]
        self.argc = d["argc"]
        self.self_ty = d.get("self")
        self.trait = d.get("trait")
        self.is_async = bool(d.get("async"))
        self.locals = d["locals"]
        self.bbs = d["bbs"]
        self.types = types
        self.crate = crate
        self._callees = None
        self._adts = None

    def ty(self, i):
        return self.types[i]

    def local_ty(self, l):
        return self.types[self.locals[l][0]]

    def local_name(self, l):
        x = self.locals[l]
        return x[1] if len(x) > 1 else None

    def is_test(self):
        return "::tests::" in self.id or "::test::" in self.id

    def __repr__(self):
        return "<Body %s>" % self.id

    # -- iteration helpers (normal control flow only) --
    def calls(self):
        """(bb, func operand, args, dest, target, line)"""
        for i, b in enumerate(self.bbs):
            if b.get("cl"):
                continue
            x = b["x"]
            if x[0] == "call":
                yield i, x[1], x[2], x[3], x[4], x[6]

    def stmts(self):
        for i, b in enumerate(self.bbs):
            if b.get("cl"):
                continue
            for s in b["s"]:
                yield i, s


def succs(b):
    x = b["x"]
    t = x[0]
    if t == "goto":
        return [x[1]]
    if t == "switch":
        r = [k[1] for k in x[2]]
        r.append(x[3])
        return r
    if t == "drop":
        return [x[2]]
    if t == "call":
        return [x[4]] if x[4] >= 0 else []
    if t == "assert":
        return [x[3]]
    if t == "yield":
        return [x[3]]
    return []


class Program:
    def __init__(self, facts_dir):
        gc.disable()
        self._index = None
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.types = {}
        for c in CRATES:
            types = {}
            pend = []
            ended = False
            with open(os.path.join(facts_dir, c + ".jsonl"), encoding="utf-8", errors="surrogatepass") as f:
                for line in f:
                    d = json.loads(line)
                    t = d["t"]
                    if t == "ty":
                        types[d["i"]] = d
                    elif t == "body":
                        b = Body(d, types, c)
                        self.bodies[self.canon(b.id)] = b
                    elif t == "adt":
                        d["crate"] = c
                        d["types"] = types
                        self.adts[d["id"]] = d
                    elif t == "impl":
                        d["crate"] = c
                        d["types"] = types
                        self.impls.append(d)
                    elif t == "end":
                        ended = True
            if not ended:
                raise RuntimeError("truncated facts for " + c)
            self.types[c] = types
        self.children = defaultdict(list)
        for b in self.bodies.values():
            if b.parent:
                self.children[b.parent].append(b.id)
        # trait method -> implementing bodies ; (trait, method) -> ids
        self.trait_impls = defaultdict(list)
        for im in self.impls:
            if im["trait"]:
                for it in im["items"]:
                    self.trait_impls[im["trait"] + "::" + it.rsplit("::", 1)[-1]].append(it)

    @staticmethod
    def canon(s):
        return s

    def body(self, id):
        return self.bodies.get(id)

    def cycles(self):
        """Which recursive group of functions (over resolved calls and their closures) a body belongs to."""
        if getattr(self, "_cycles", None) is None:
            succ = {}
            for i, b in self.bodies.items():
                out = set()
                for _, fn, *_ in b.calls():
                    d, r = fnref(fn)
                    if r in self.bodies and not fn.get("dyn") and not fn.get("u"):
                        out.add(r)
                succ[i] = out
            for i in self.bodies:
                if "::{closure#" in i:
                    up = i.rsplit("::{closure#", 1)[0]
                    if up in succ:
                        succ[up].add(i)      # a closure shares the context of the function it is written in
                        succ[i].add(up)
            num, low, on, stack, comp, n = {}, {}, set(), [], {}, 0
            for root in succ:
                if root in num:
                    continue
                todo = [(root, iter(succ[root]))]
                num[root] = low[root] = n = n + 1
                stack.append(root)
                on.add(root)
                while todo:
                    v, it = todo[-1]
                    w = next(it, None)
                    if w is None:
                        todo.pop()
                        if todo:
                            low[todo[-1][0]] = min(low[todo[-1][0]], low[v])
                        if low[v] == num[v]:
                            group = []
                            while True:
                                w = stack.pop()
                                on.discard(w)
                                group.append(w)
                                if w == v:
                                    break
                            if len(group) > 1 or v in succ[v]:
                                for w in group:
                                    comp[w] = v
                    elif w not in num:
                        num[w] = low[w] = n = n + 1
                        stack.append(w)
                        on.add(w)
                        todo.append((w, iter(succ[w])))
                    elif w in on:
                        low[v] = min(low[v], num[w])
            self._cycles = comp
        return self._cycles

    def index(self):
        """Who calls / builds / reads / writes what, and the reversed reference graph."""
        if self._index is not None:
            return self._index
        calls, aggs, discr, fields, writes, rev = {}, {}, {}, {}, {}, {}

        def put(d, k, v):
            d.setdefault(k, set()).add(v)
        for b in self.bodies.values():
            for c in referenced_bodies(self, b):
                rev.setdefault(c, []).append(b.id)
            if b.kind in ("const", "promoted"):
                continue
            for blk in b.bbs:
                if blk.get("cl"):
                    continue
                x = blk["x"]
                if x[0] == "call" and x[1].get("k") == "fn":
                    calls.setdefault(fnref(x[1]), []).append((b.id, x[1], True))
                pls = []
                if x[0] == "call":
                    pls += [a.get("m") or a.get("c") for a in x[2]] + [x[3]]
                elif x[0] == "switch":
                    pls += [x[1].get("m") or x[1].get("c")]
                for s in blk["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    pls.append(s[1])
                    for e in s[1][1:]:
                        if e[0] == "f":
                            _, _, n, o = e.split("|", 3)
                            put(writes, o + "." + n, b.id)
                    if rv[0] in ("ref", "refm", "discr"):
                        pls.append(rv[1])
                        if rv[0] == "discr":
                            put(discr, b.ty(rv[2])["h"], b.id)
                    for o in operands_of_rvalue(rv):
                        pls.append(o.get("m") or o.get("c"))
                        if o.get("k") == "fn":
                            calls.setdefault(fnref(o), []).append((b.id, o, False))
                    if rv[0] == "agg" and rv[1][0] == "adt":
                        put(aggs, rv[1][1] + "::" + rv[1][3], b.id)
                for pl in pls:
                    for e in (pl or ())[1:]:
                        if e[0] == "f":
                            _, _, n, o = e.split("|", 3)
                            put(fields, o + "." + n, b.id)
        self._index = dict(calls=calls, aggs=aggs, discr=discr, fields=fields, writes=writes, rev=rev)
        return self._index

    def find(self, pattern, kinds=("fn",)):
        r = re.compile(pattern)
        return [b for b in self.bodies.values() if b.kind in kinds and r.search(b.id)]

    def fn(self, suffix):
        """The unique fn whose path ends with `suffix` (on a :: boundary)."""
        m = [b for b in self.bodies.values() if b.kind == "fn" and (b.id == suffix or b.id.endswith("::" + suffix) or b.id.endswith(suffix) and suffix.startswith("<"))]
        return m

    def family(self, id):
        """A body and everything lexically nested in it (closures, async blocks)."""
        out, todo = [], [id]
        while todo:
            i = todo.pop()
            b = self.bodies.get(i)
            if b is None:
                continue
            out.append(b)
            todo.extend(self.children.get(i, ()))
        return out

    def adt(self, suffix):
        m = [a for k, a in self.adts.items() if k == suffix or k.endswith("::" + suffix)]
        return m

    def root_of(self, b):
        while b.parent and b.parent in self.bodies:
            b = self.bodies[b.parent]
        return b


def fnref(op):
    """(declared path, resolved path) of a direct call operand, else (None, None)."""
    if op.get("k") == "fn":
        d = op["d"]
        return d, op.get("r", d)
    return None, None


def callee_targets(prog, op):
    """Workspace bodies a callee operand may run (direct, resolved, or dynamic / generic by trait method)."""
    d, r = fnref(op)
    if d is None:
        return []
    if r in prog.bodies and not op.get("dyn"):
        # a resolved default method may still be overridden when unresolved
        if not op.get("u"):
            return [r]
    out = []
    if op.get("dyn") or op.get("u") or r == d:
        for i in prog.trait_impls.get(d, ()):
            if i in prog.bodies:
                out.append(i)
        if d in prog.bodies:
            out.append(d)
    elif r in prog.bodies:
        out.append(r)
    return out


def operands_of_rvalue(rv):
    k = rv[0]
    if k in ("use", "cast"):
        return [rv[1]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def referenced_bodies(prog, b):
    """All workspace bodies this body may run or hand out: callees, closures, coroutines, fn values."""
    if b._callees is not None:
        return b._callees
    out = set()

    def op(o):
        if o.get("k") == "fn":
            for t in callee_targets(prog, o):
                out.add(t)
    for blk in b.bbs:
        if blk.get("cl"):
            continue
        for s in blk["s"]:
            if s[0] != "=":
                continue
            rv = s[2]
            if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine"):
                out.add(rv[1][1])
            for o in operands_of_rvalue(rv):
                op(o)
        x = blk["x"]
        if x[0] == "call":
            op(x[1])
            for a in x[2]:
                op(a)
    b._callees = out
    return out
