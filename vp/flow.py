"""E2 — value dependence: which inputs can a value depend on?

A may-dependence graph over the MIR of everything reachable from an entry function: flow-insensitive inside a body,
sensitive to the first field of a local, cloned per call site (call strings of length k).  Labels are created where a
place is read through a matching field (`Owner.field`), or where a matching call returns, and travel along copies,
references (both ways for mutable ones), aggregates, calls into the workspace (parameters, results and &mut arguments),
closures and async blocks.  A library call makes its result and its &mut arguments depend on all of its arguments, except
where the call is *lossy* (lengths, emptiness, comparisons, hash-map keys): those carry nothing, so a key that only
depends on the size of its input does not count as depending on it.
"""
import re
from collections import defaultdict
from ir import callee_targets, fnref, operands_of_rvalue

LOSSY = re.compile(r"::(len|is_empty|is_some|is_none|is_ok|is_err|is_some_and|is_ok_and|is_none_or|contains|contains_key|count|capacity|eq|ne|cmp|partial_cmp|lt|le|gt|ge|"
                   r"keys|into_keys|keys_len|values_len|starts_with|ends_with|type_id|size_hint|is_object|is_array|is_null|get_type|any|all|matches|"
                   r"with_capacity|reserve|capacity|hint|drop|drop_in_place|fmt)$")
NOCALL = re.compile(r"^(tracing|tracing_core|log|std::fmt|core::fmt|std::panicking|core::panicking|std::mem::drop|opentelemetry)")
ALL = "ALL"


def mutref(s):
    return "&mut " in s or "*mut " in s or re.search(r"&'\S+ mut ", s) is not None or "std::pin::Pin<&" in s


def components(s):
    out, cur, d = [], "", 0
    for ch in s[1:-1]:
        d += ch in "(<["
        d -= ch in ")>]"
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def reaching(prog, callee, also=None, where=None):
    """Bodies from which a call matching `callee` can be reached, plus those for which also(body) holds: the ones worth entering."""
    r = re.compile(callee)
    ix = prog.index()
    out, todo = set(), [s[0] for (d, rr), sites in ix["calls"].items() if d and (r.search(d) or rr and r.search(rr)) for s in sites
                       if where is None or re.search(where, s[0])]
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            todo.extend(ix["rev"].get(i, ()))
            if prog.bodies[i].parent:
                todo.append(prog.bodies[i].parent)
    if also is not None:
        out |= {i for i, b in prog.bodies.items() if also(b)}
    return out.__contains__


def hashing(b):
    """Functions that compute or feed a key."""
    return b.kind in ("fn", "closure") and (re.search(r"\bu64$|Fingerprint\b|CacheKey\b|Hashes?$", b.local_ty(0)["s"]) is not None or
                                            any(re.search(r"Xxh3|Hasher\b", b.local_ty(l)["s"]) for l in range(1, b.argc + 1)) or
                                            re.search(r"hash::Hash for .*>::hash(::\{closure#\d+\})*$", b.id) is not None)


class Flow:
    def __init__(self, prog, entry, fields=(), calls=(), args=(), types=(), k=2, stop=None, inside=None, limit=4000, lossy=None):
        self.p, self.k = prog, k
        self.lossy = [LOSSY] + ([re.compile(lossy)] if lossy else [])
        self.types = [(n, re.compile(r)) for n, r in types]
        self.fields = [(n, re.compile(r)) for n, r in fields]
        self.callsrc = [(n, re.compile(r)) for n, r in calls]
        self.stop = re.compile(stop) if stop else None
        self.inside = (re.compile(inside).search if isinstance(inside, str) else inside) if inside else None      # workspace bodies worth entering (others act as library calls)
        self.limit = limit
        self.labels = defaultdict(set)
        self.edges = defaultdict(set)
        self.libedges = defaultdict(set)
        self.struct = defaultdict(set)     # (inst, local) -> {(inst', local')}: field-wise copies
        self.known = defaultdict(set)      # (inst, local) -> fields
        self.insts = {}
        self.waiting = defaultdict(list)   # node -> call sites to re-visit when a closure arrives
        self.sites = []                    # (inst, body, fn, args, dest, line)
        self.hits = defaultdict(int)
        self.work = []
        root = self.instance(entry.id, ())
        for i, n in args:
            self.label((root, i, None), n)
        self.root = root
        self.run()

    # ---- graph ----
    def label(self, n, l):
        if l not in self.labels[n]:
            self.labels[n].add(l)
            self.work.append((n, l))

    def edge(self, a, b, lib=False):
        """Labels of a reach b; over a library edge only data labels do (a closure that was consumed is not handed on)."""
        if a == b or b in self.edges[a] or lib and b in self.libedges[a]:
            return
        (self.libedges if lib else self.edges)[a].add(b)
        for l in list(self.labels[a]):
            if not (lib and isinstance(l, tuple)):
                self.label(b, l)

    def field(self, inst, l, f):
        key = (inst, l)
        if f not in self.known[key]:
            self.known[key].add(f)
            self.edge((inst, l, f), (inst, l, ALL))
            for o in list(self.struct[key]):
                self.field(o[0], o[1], f)
                self.edge((inst, l, f), (o[0], o[1], f))
        return (inst, l, f)

    def copy(self, a, b):
        """Field-wise copy of local a = (inst, local) to b."""
        if a == b or b in self.struct[a]:
            return
        self.struct[a].add(b)
        self.edge((a[0], a[1], None), (b[0], b[1], None))
        for f in list(self.known[a]):
            self.field(b[0], b[1], f)
            self.edge((a[0], a[1], f), (b[0], b[1], f))

    @staticmethod
    def first(pl):
        pre = ""
        for e in pl[1:]:
            if e == "*":
                continue
            if e[0] == "v":
                pre = e.split("|")[1] + "."
                continue
            if e[0] == "f":
                _, i, n, o = e.split("|", 3)
                return pre + i
            return None
        return None

    def srcs(self, pl):
        out = []
        for e in pl[1:]:
            if e[0] == "f":
                _, i, n, o = e.split("|", 3)
                for name, r in self.fields:
                    if r.search(o + "." + n):
                        out.append(name)
                        self.hits[name] += 1
        return out

    def whole(self, pl):
        return all(e == "*" for e in pl[1:])

    def flow(self, inst, pl, dst, both=False):
        """Value (or address) of place pl flows to dst = (local, field or None) of the same instance; dst[1] None = whole."""
        for s in self.srcs(pl):
            self.label(self.field(inst, dst[0], dst[1]) if dst[1] is not None else (inst, dst[0], None), s)
        l = pl[0]
        if self.whole(pl) and dst[1] is None:
            self.copy((inst, l), (inst, dst[0]))
            if both:
                self.copy((inst, dst[0]), (inst, l))
            return
        d = self.field(inst, *dst) if dst[1] is not None else (inst, dst[0], None)
        f = self.first(pl)
        if f is None:
            self.edge((inst, l, ALL), d)
            self.edge((inst, l, None), d)
            if both:
                self.edge(d, (inst, l, None))
        else:
            s = self.field(inst, l, f)
            self.edge(s, d)
            self.edge((inst, l, None), d)
            if both:
                self.edge(d, s)
                if dst[1] is None:
                    self.edge((inst, dst[0], ALL), s)

    def operand(self, inst, o, dst, both=False):
        pl = o.get("c") or o.get("m")
        if pl is not None:
            self.flow(inst, pl, dst, both)
        elif o.get("k") == "fn":
            d, r = fnref(o)
            if r in self.p.bodies:
                self.label((inst, dst[0], None), ("FN", r, None))

    # ---- instances ----
    def instance(self, bid, ctx):
        key = (bid, ctx)
        if key in self.insts:
            return key
        if len(self.insts) > self.limit:
            raise RuntimeError("flow analysis exceeds %d instances" % self.limit)
        self.insts[key] = True
        b = self.p.bodies[bid]
        if self.types:
            for l in range(len(b.locals)):
                self.typed(key, b, l)
        for bi, blk in enumerate(b.bbs):
            if blk.get("cl"):
                continue
            for s in blk["s"]:
                if s[0] == "=":
                    self.stmt(key, b, bi, s)
            x = blk["x"]
            if x[0] == "call":
                self.call(key, b, bi, x)
            elif x[0] == "yield":
                pass
        return key

    def typed(self, inst, b, l):
        """Label a local whose type is a source (component-wise for tuples)."""
        s = b.local_ty(l)["s"]
        parts = components(s) if s.startswith("(") else [s]
        for i, part in enumerate(parts):
            for n, r in self.types:
                if r.search(part):
                    self.hits[n] += 1
                    self.label(self.field(inst, l, str(i)) if s.startswith("(") else (inst, l, None), n)

    def isref(self, b, l):
        return mutref(b.local_ty(l)["s"])

    def stmt(self, inst, b, bi, s):
        pl, rv = s[1], s[2]
        f = self.first(pl)
        dst = (pl[0], None if self.whole(pl) else f)
        k = rv[0]
        if k in ("use", "cast"):
            o = rv[1]
            src = o.get("c") or o.get("m")
            both = src is not None and (self.isref(b, pl[0]) if self.whole(pl) else self.isref(b, src[0]))
            self.operand(inst, o, dst, both)
        elif k in ("ref", "refm"):
            self.flow(inst, rv[1], dst, k == "refm" or self.isref(b, rv[1][0]))
        elif k == "bin":
            if rv[1] not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                for o in (rv[2], rv[3]):
                    self.operand(inst, o, dst)
        elif k == "un":
            if rv[1] != "PtrMetadata":
                self.operand(inst, rv[2], dst)
        elif k == "discr":
            for nm in self.srcs(rv[1]):
                self.label((inst, pl[0], None), nm)
            self.flow(inst, rv[1], dst)
        elif k == "agg":
            kind = rv[1]
            ops = rv[2]
            pre = str(kind[2]) + "." if kind[0] == "adt" and (len(kind) > 3 and kind[1].startswith(("std::option", "std::result", "std::ops::ControlFlow")) or self.is_enum(kind)) else ""
            for i, o in enumerate(ops):
                src = o.get("c") or o.get("m")
                both = src is not None and self.isref(b, src[0])
                if kind[0] in ("adt", "tuple", "closure", "coroutine"):
                    self.operand_field(inst, o, pl[0], dst[1], pre + str(i), both)
                else:
                    self.operand(inst, o, dst, both)
            if kind[0] == "coroutine" and kind[1] in self.p.bodies and self.enters(kind[1]):
                ci = self.instance(kind[1], self.ctx(inst, bi, b, kind[1]))
                for i, o in enumerate(ops):
                    src = o.get("c") or o.get("m")
                    if src is None:
                        continue
                    n = self.field(ci[0:2], 1, str(i))
                    self.into(inst, src, n, self.isref(b, src[0]))
                self.edge((ci, 0, None), (inst, pl[0], None))
                self.edge((ci, 0, ALL), (inst, pl[0], None))
                self.copy((ci, 0), (inst, pl[0]))
            elif kind[0] == "closure" and kind[1] in self.p.bodies:
                self.label((inst, pl[0], None), ("FN", kind[1], (inst, pl[0])))

    def is_enum(self, kind):
        a = self.p.adts.get(kind[1])
        return a is not None and len(a["variants"]) > 1

    def operand_field(self, inst, o, l, outer, f, both):
        if outer is not None:      # aggregate stored into a field: keep one level only
            self.operand(inst, o, (l, outer), both)
        else:
            self.operand(inst, o, (l, f), both)

    def into(self, inst, pl, node, both):
        """Place pl of inst flows into a node of another instance."""
        for s in self.srcs(pl):
            self.label(node, s)
        f = self.first(pl)
        if f is None:
            self.edge((inst, pl[0], ALL), node)
            self.edge((inst, pl[0], None), node)
            if both:
                self.edge(node, (inst, pl[0], None))
        else:
            n = self.field(inst, pl[0], f)
            self.edge(n, node)
            self.edge((inst, pl[0], None), node)
            if both:
                self.edge(node, n)

    def ctx(self, inst, bi, b, to):
        cy = self.p.cycles()
        if cy.get(b.id) is not None and cy.get(b.id) == cy.get(to):
            return inst[1]      # recursion stays in the context it was entered from
        return (inst[1] + ((b.id, bi),))[-self.k:]

    # ---- calls ----
    def call(self, inst, b, bi, x):
        fn, args, dest, line = x[1], x[2], x[3], x[6]
        d, r = fnref(fn)
        self.sites.append((inst, b, fn, args, dest, line))
        name = r or d or ""
        if dest is not None:
            for n, rx in self.callsrc:
                if d and (rx.search(d) or rx.search(r)):
                    self.hits[n] += 1
                    self.label((inst, dest[0], None), n)
        if d and NOCALL.search(d):
            return
        dd = (dest[0], None if self.whole(dest) else self.first(dest))
        targets = []
        if fn.get("k") == "fn" and not (self.stop and self.stop.search(name)):
            targets = [t for t in callee_targets(self.p, fn) if self.p.bodies[t].kind != "const" and self.enters(t)]
            if len(targets) > 8:
                targets = []
        known = [t for t in targets if t in self.p.bodies]
        if known and not (d and LIBLIKE.search(d) and r == d and not fn.get("dyn")):
            for t in known:
                self.enter(inst, b, bi, t, args, dd)
            return
        # library (or unknown) call
        if d and any(r.search(d) or r.search(name) for r in self.lossy):
            return
        wrap = d and WRAP.search(d)
        muts = []
        for a in args:
            pl = a.get("c") or a.get("m")
            if pl is None:
                self.operand(inst, a, dd)
                continue
            for s in self.srcs(pl):
                self.label((inst, dd[0], None), s)
            # a library result may hold any part of its argument
            f = self.first(pl)
            dn = (inst, dd[0], None) if dd[1] is None else self.field(inst, *dd)
            if wrap:
                self.edge((inst, pl[0], None), dn)
            self.edge((inst, pl[0], None), dn, True)
            self.edge((inst, pl[0], ALL) if f is None else self.field(inst, pl[0], f), dn, True)
            if self.isref(b, pl[0]):
                muts.append(pl[0])
        if self.isref(b, dd[0]):   # result borrows mutably from its arguments
            for m in muts:
                self.edge((inst, dd[0], None), (inst, m, None), True)
        for m in muts:
            for a in args:
                pl = a.get("c") or a.get("m")
                if pl is not None and pl[0] != m:
                    for s in self.srcs(pl):
                        self.label((inst, m, None), s)
                    self.edge((inst, pl[0], ALL), (inst, m, None), True)
                    self.edge((inst, pl[0], None), (inst, m, None), True)
        # closures among the arguments
        for i, a in enumerate(args):
            pl = a.get("c") or a.get("m")
            if pl is not None:
                self.wait((inst, pl[0], None), (inst, b, bi, i, args, dd, d))
            elif a.get("k") == "fn":
                dd2, rr = fnref(a)
                if rr in self.p.bodies:
                    self.invoke((inst, b, bi, i, args, dd, d), ("FN", rr, None))

    def wait(self, node, site):
        self.waiting[node].append(site)
        for l in list(self.labels[node]):
            if isinstance(l, tuple) and l[0] == "FN":
                self.invoke(site, l)

    def enters(self, t):
        return self.inside is None or bool(self.inside(t))

    def invoke(self, site, l):
        inst, b, bi, i, args, dd, d = site
        _, cid, env = l
        if self.p.bodies[cid].kind not in ("closure", "fn") or not self.enters(cid):
            return
        ci = self.instance(cid, self.ctx(inst, bi, b, cid))
        cb = self.p.bodies[cid]
        clo = cb.kind == "closure"
        if env is not None:
            self.copy(env, (ci, 1))
            self.copy((ci, 1), env)
        fncall = d and re.search(r"ops::(Fn|FnMut|FnOnce)::call", d)
        first = 2 if clo else 1
        for j, a in enumerate(args):
            if j == i:
                continue
            pl = a.get("c") or a.get("m")
            if pl is None:
                continue
            if fncall:
                for p in range(first, cb.argc + 1):
                    f = str(p - first)
                    n = self.field(inst, pl[0], f)
                    self.edge(n, (ci, p, None))
                    self.edge((inst, pl[0], None), (ci, p, None))
                    if self.isref(cb, p):
                        self.edge((ci, p, None), n)
            else:
                for p in range(first, cb.argc + 1):
                    for s in self.srcs(pl):
                        self.label((ci, p, None), s)
                    self.edge((inst, pl[0], ALL), (ci, p, None))
                    self.edge((inst, pl[0], None), (ci, p, None))
                    if self.isref(cb, p):
                        self.edge((ci, p, None), (inst, pl[0], None))
        dn = self.field(inst, *dd) if dd[1] is not None else (inst, dd[0], None)
        self.edge((ci, 0, None), dn)
        self.edge((ci, 0, ALL), dn)

    def enter(self, inst, b, bi, t, args, dd):
        ci = self.instance(t, self.ctx(inst, bi, b, t))
        cb = self.p.bodies[t]
        for i, a in enumerate(args):
            p = i + 1
            if p > cb.argc:
                break
            pl = a.get("c") or a.get("m")
            if pl is None:
                if a.get("k") == "fn":
                    d, r = fnref(a)
                    if r in self.p.bodies:
                        self.label((ci, p, None), ("FN", r, None))
                continue
            both = self.isref(b, pl[0])
            if self.whole(pl):
                for s in self.srcs(pl):
                    self.label((ci, p, None), s)
                self.copy((inst, pl[0]), (ci, p))
                if both:
                    self.copy((ci, p), (inst, pl[0]))
            else:
                self.into(inst, pl, (ci, p, None), both)
        if dd[1] is None:
            self.copy((ci, 0), (inst, dd[0]))
        else:
            n = self.field(inst, *dd)
            self.edge((ci, 0, None), n)
            self.edge((ci, 0, ALL), n)

    def run(self):
        while self.work:
            n, l = self.work.pop()
            for m in list(self.edges[n]):
                self.label(m, l)
            if not isinstance(l, tuple):
                for m in list(self.libedges[n]):
                    self.label(m, l)
            if isinstance(l, tuple) and l[0] == "FN":
                for site in list(self.waiting.get(n, ())):
                    self.invoke(site, l)

    # ---- questions ----
    def at(self, inst, l):
        out = set(self.labels[(inst, l, None)]) | set(self.labels[(inst, l, ALL)])
        return {x for x in out if not isinstance(x, tuple)}

    def ret(self):
        return self.at(self.root, 0)

    def back(self, nodes):
        """Every node that a value in one of the nodes may come from."""
        rev = defaultdict(set)
        for es in (self.edges, self.libedges):
            for a, bs in es.items():
                for b in bs:
                    rev[b].add(a)
        out, todo = set(nodes), list(nodes)
        while todo:
            for a in rev[todo.pop()]:
                if a not in out:
                    out.add(a)
                    todo.append(a)
        return out

    def nodes(self, pattern, argi, where=None):
        """The nodes of argument argi of the calls matching pattern."""
        r, out = re.compile(pattern), set()
        for inst, b, fn, args, dest, line in self.sites:
            d, rr = fnref(fn)
            if d and (r.search(d) or r.search(rr)) and (where is None or re.search(where, b.id)):
                pl = args[argi].get("c") or args[argi].get("m")
                if pl is not None:
                    out |= {(inst, pl[0], f) for f in {None, ALL} | self.known[(inst, pl[0])]}
        return out

    def call_args(self, pattern, argi=None, where=None):
        """Labels reaching the arguments of calls matching pattern: [(body, line, [labels per argument])]."""
        r = re.compile(pattern)
        out = []
        for inst, b, fn, args, dest, line in self.sites:
            d, rr = fnref(fn)
            if d and (r.search(d) or r.search(rr)) and (where is None or re.search(where, b.id)):
                ls = []
                for a in args:
                    pl = a.get("c") or a.get("m")
                    if pl is None:
                        ls.append(set())
                    else:
                        s = self.at(inst, pl[0]) if self.whole(pl) else {x for x in self.labels[(inst, pl[0], self.first(pl))] | self.labels[(inst, pl[0], None)] if not isinstance(x, tuple)}
                        ls.append(s | set(self.srcs(pl)))
                out.append((b, line, ls))
        return out


WRAP = re.compile(r"(Box|Arc|Rc|Pin|Some)(::<.*>)?::(new|pin|new_unchecked|into_pin|from)$|::(clone|deref|deref_mut|as_ref|as_mut|into_inner|borrow|take|unwrap|expect|into_future|instrument|branch)$")
LIBLIKE = re.compile(r"^(std|core|alloc)::(clone::Clone::clone|ops::Deref|convert::(From|Into))")
