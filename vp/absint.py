"""Assumption-based reachability.

A forward abstract interpretation of the compiled program (MIR), interprocedural and context sensitive:
sparse constant / enum-variant propagation decides which branches stay feasible when a rule's
*assumptions* hold ("this call returns Err", "this configuration field is false", "this enum-typed value
is Mutation", "this call never returns"), and reports which *sinks* (calls, constructions, returns) can
still be reached, together with the call path.  Nothing is executed; every unknown is Top, every branch
on Top is followed, so "sink not reached" holds for all values the abstraction covers.

Abstract values (hashable tuples):
  TOP = ("T",)                       anything
  ("K", s)                           scalar / string constant, printed form
  ("V", adt, ((idx, fields), ...))   enum value restricted to the listed variants; fields = ((i, av), ...)
  ("S", head, fields)                struct / tuple
  ("C", id, fields)                  closure or coroutine with captured values
  ("R", av)                          shared reference / Box / Arc / Pin of a value
  ("M", local, proj)                 mutable reference to a place of the current frame
  ("FN", path)                       function item
  ("RF", av)                         a future that resolves to av
  ("D", place, adt)                  the discriminant of a place (refined on the branch)
  ("Q", place, adt, yes, no)         bool: place's variant is in `yes` (true) / `no` (false)
"""
import re, sys
from ir import callee_targets, referenced_bodies, fnref

sys.setrecursionlimit(20000)
TOP = ("T",)
BOT = None
NEVER = ("S", "never", ())       # the result of a future that never becomes ready
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
POLL = "std::task::Poll"
MAXDEPTH = 8

TRUE, FALSE = ("K", "1"), ("K", "0")


def variant(adt, idx, fields=()):
    return ("V", adt, ((idx, tuple(fields)),))


def Ok(v=TOP):
    return variant(RES, 0, ((0, v),))


def Err(v=TOP):
    return variant(RES, 1, ((0, v),))


def Some(v=TOP):
    return variant(OPT, 1, ((0, v),))


NONE = variant(OPT, 0)
ANYRES = ("V", RES, ((0, ((0, TOP),)), (1, ((0, TOP),))))


def depth(v):
    if v is None or v[0] in ("T", "K", "FN", "M", "D", "Q"):
        return 0
    if v[0] in ("R", "RF"):
        return 1 + depth(v[1])
    if v[0] == "V":
        return 1 + max([depth(f) for _, fs in v[2] for _, f in fs] or [0])
    if v[0] in ("S", "C"):
        return 1 + max([depth(f) for _, f in v[2]] or [0])
    return 0


def cut(v, d):
    if d <= 0:
        return v if v[0] in ("T", "K", "FN") else TOP
    t = v[0]
    if t in ("R", "RF"):
        return (t, cut(v[1], d - 1))
    if t == "V":
        return ("V", v[1], tuple((i, tuple((j, cut(f, d - 1)) for j, f in fs)) for i, fs in v[2]))
    if t in ("S", "C"):
        return (t, v[1], tuple((j, cut(f, d - 1)) for j, f in v[2]))
    return v


def join_fields(a, b):
    da, db = dict(a), dict(b)
    out = []
    for k in sorted(set(da) & set(db), key=str):
        out.append((k, join(da[k], db[k])))
    return tuple((k, v) for k, v in out if v != TOP)


def join(a, b):
    if a is BOT:
        return b
    if b is BOT:
        return a
    if a == b:
        return a
    if a[0] != b[0]:
        return TOP
    t = a[0]
    if t in ("R", "RF"):
        x = join(a[1], b[1])
        return (t, x)
    if t == "V" and a[1] == b[1]:
        d = dict(a[2])
        for i, fs in b[2]:
            d[i] = join_fields(d[i], fs) if i in d else fs
        return ("V", a[1], tuple(sorted(d.items())))
    if t in ("S", "C") and a[1] == b[1]:
        return (t, a[1], join_fields(a[2], b[2]))
    return TOP


def strip(v):
    while v is not None and v[0] == "R":
        v = v[1]
    return v


def getf(fields, i):
    for k, v in fields:
        if k == i:
            return v
    return TOP


def setf(fields, i, nv):
    d = dict(fields)
    if nv == TOP:
        d.pop(i, None)
    else:
        d[i] = nv
    return tuple(sorted(d.items(), key=lambda x: str(x[0])))


def lit(v):
    """A string literal: the reference stands for what it points to."""
    return v[0] == "K" and isinstance(v[1], str) and v[1].startswith("s:")


class Assume:
    """One assumption.  Kinds:
       ret:   calls whose callee matches return `av` (BOT = the call never returns)
       field: reads of ADT field return `av`
       type:  values of an ADT that are otherwise unknown are `av`"""

    def __init__(self, kind, pat, av, note="", where=None, gtype=None, argpred=None, enter=False):
        self.kind, self.pat, self.av, self.note = kind, pat, av, note
        self.where = where    # regex on the enclosing body id
        self.gtype = gtype    # regex that a generic argument type string must match
        self.enter = enter    # also analyse the callee for events
        self.argpred = argpred
        self.hits = 0
        self.re = re.compile(pat) if kind == "ret" else None


class Sink:
    """A forbidden program point; with `bad`, only when the typestate automaton may be in a bad state there."""

    def __init__(self, name, pat=None, adt=None, where=None, gtype=None, stop=False, argpred=None, field_write=None, bad=None):
        self.bad = frozenset(bad) if bad is not None else None
        self.name, self.adt = name, adt
        self.re = re.compile(pat) if pat else None
        self.adtre = re.compile(adt) if adt else None
        self.where = re.compile(where) if where else None
        self.gtype = gtype
        self.stop = stop
        self.argpred = argpred
        self.fieldre = re.compile(field_write) if field_write else None


class Trans:
    """Typestate transition: when a matching call completes (body exit for workspace functions, call site
    for library ones) every automaton state s becomes step[s] (default: unchanged; '*' = any state)."""

    def __init__(self, pat, step, where=None, ret=None, pre=False, argpred=None, adt=None, gtype=None, site=False, field=None, val=None):
        self.re = re.compile(pat or r"$^")
        self.fieldre = re.compile(field) if field else None   # the transition is an assignment to a field
        self.val = val                                         # ... of a value satisfying val
        self.site = site          # apply at the call site even when the callee has a body
        self.gtype = gtype
        self.adtre = re.compile(adt) if adt else None     # the transition is the construction of a value
        self.step = step
        self.where = re.compile(where) if where else None
        self.ret = ret            # only when the returned value may satisfy this predicate
        self.pre = pre            # apply when the call starts
        self.argpred = argpred
        self.hits = 0

    def partial(self, r):
        """The result may also fail the predicate: keep the untransitioned states too."""
        return True

    def apply(self, g):
        return frozenset(self.step.get(x, self.step.get("*", x)) for x in g)


# Future types of libraries whose constructors the rules make assumptions about.
LIBFUT = re.compile(r"^(futures_util::stream::(\w+::)?(Next|TryNext)|tokio_stream::stream_ext::(try_)?next::(Try)?Next|tokio_util::sync::(\w+::)?(WaitForCancellationFuture|WaitForCancellationFutureOwned)"
                    r"|(tokio|ntex)::time::Sleep|tokio::sync::(\w+::)?Notified|hyper_util::client::legacy::ResponseFuture|http_body_util::combinators::(Collect|Frame))$")


HEADER_NAME = re.compile(r"(^|::)header::(\w+::)*[A-Z][A-Z0-9_]+$")     # names of standard headers: opaque, but told apart


class Interp:
    def is_future(self, ty):
        """Type of an async call's result: an opaque future or a boxed dyn Future."""
        h, t = ty.get("h") or "", ty.get("s") or ""
        if h.startswith("closure "):
            b = self.p.bodies.get(h[8:])
            return (b is not None and b.kind == "coroutine") or (t.startswith("impl ") and "Future<" in t)
        return (t.startswith("impl ") and "Future<" in t) or (h == "std::pin::Pin" and "dyn " in t and "Future<" in t) or bool(LIBFUT.search(h))

    def __init__(self, prog, assumes=(), sinks=(), max_steps=4_000_000, descend_all=False, opaque=(), trans=(), start="0", each=None, fix=False):
        self.trans = list(trans)
        self.fix = fix            # recursion: least fixpoint instead of Top
        self.approx, self.recused, self.memolog = {}, set(), []
        self.split = self.ret_split = None    # result of the last call, by automaton state
        self.each = re.compile(each) if each else None
        self.g = frozenset([start])
        self.p = prog
        self.assumes = list(assumes)
        self.sinks = list(sinks)
        self.events = {}          # (sink name, site body, callee) -> chain
        self.memo = {}
        self.active = set()
        self._ctx = {}
        self.stack = []
        self.visited = set()
        self.steps = 0
        self.max_steps = max_steps
        self.opaque = [re.compile(o) for o in opaque]
        self.calls_seen = 0
        self._retcache = {}
        self.frame, self.items = None, {}
        self._tcache = {}
        self._xcache = {}
        self.ok_sinks = set()
        self.touched, self.touch = frozenset(), {}      # automaton states seen inside a call, also where it does not return
        self._sinkcache = {}
        self.fieldA = {}
        self.typeA = {}
        self.retA = []
        for a in self.assumes:
            if a.kind == "field":
                self.fieldA[a.pat] = a
            elif a.kind == "type":
                self.typeA[a.pat] = a
            else:
                self.retA.append(a)
        self.relevant = None if descend_all else self._relevance()

    # ---- relevance: bodies from which an assumption or sink is reachable --------------------------
    def _relevance(self):
        """Bodies from which something an assumption, sink or transition talks about is reachable."""
        p = self.p
        ix = p.index()
        seeds = set()
        for (d, r), uses in ix["calls"].items():
            for z in self.retA + self.sinks + self.trans:
                if z.re is not None and (z.re.search(r) or z.re.search(d)):
                    break
            else:
                continue
            for bid, f, is_call in uses:
                if bid in seeds:
                    continue
                b = p.bodies[bid]
                if self._match_sink(f, b) or self._match_ret(f, b) or self.trans_for(f, b):
                    seeds.add(bid)
        adts = [z.adtre for z in self.sinks + self.trans if z.adtre]
        if adts:
            for nm, bids in ix["aggs"].items():
                if any(a.search(nm) for a in adts):
                    seeds |= bids
        for h in self.typeA:
            seeds |= ix["discr"].get(h, set())
        if self.fieldA:
            for nm, bids in ix["fields"].items():
                if any(nm.endswith(k) for k in self.fieldA):
                    seeds |= bids
        for sk in self.sinks + self.trans:
            if sk.fieldre:
                for nm, bids in ix["writes"].items():
                    if sk.fieldre.search(nm):
                        seeds |= bids
        rev = ix["rev"]
        todo = list(seeds)
        rel = set(seeds)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in rel:
                    rel.add(y)
                    todo.append(y)
        return rel

    def _field_write(self, sk, place):
        for e in place[1:]:
            if e[0] == "f":
                _, i, n, o = e.split("|", 3)
                if sk.fieldre.search(o + "." + n):
                    return True
        return False

    def _field_key(self, e):
        _, i, n, o = e.split("|", 3)
        for k in self.fieldA:
            if (o + "." + n).endswith(k):
                return self.fieldA[k]
        return None

    def _match_ret(self, f, body, pred=None):
        key = (f["d"], f.get("r"), tuple(f.get("g", ())), body.crate)
        c = self._retcache.get(key)
        if c is None:
            c = []
            d, r = fnref(f)
            for a in self.retA:
                if a.re.search(r) or a.re.search(d):
                    if a.gtype and not any(re.search(a.gtype, body.ty(g)["s"]) for g in f.get("g", ())):
                        continue
                    c.append(a)
            self._retcache[key] = c
        for a in c:
            if (a.where is None or re.search(a.where, body.id)) and (pred is None or a.argpred is None or pred(a)):
                return a
        return None

    def _match_sink(self, f, body, pred=None):
        key = (f["d"], f.get("r"), tuple(f.get("g", ())), body.crate)
        c = self._sinkcache.get(key)
        if c is None:
            c = []
            d, r = fnref(f)
            for s in self.sinks:
                if s.re is not None and (s.re.search(r) or s.re.search(d)):
                    if s.gtype and not any(re.search(s.gtype, body.ty(g)["s"]) for g in f.get("g", ())):
                        continue
                    c.append(s)
            self._sinkcache[key] = c
        for s in c:
            if (s.where is None or s.where.search(body.id)) and (pred is None or s.argpred is None or pred(s)):
                return s
        return None

    # ---- entry ------------------------------------------------------------------------------------
    def run(self, entry, args=None):
        b = self.p.bodies[entry]
        if args is None:
            args = [TOP] * b.argc
        ret = self.call_body(b, args, 0)
        ret = self.escape_result(ret)
        self.final = self.g
        self.final_split = dict(self.split[1]) if self.split is not None and self.split[0] == ret else {self.g: ret}
        return ret

    def escape_result(self, ret):
        """Run a returned (boxed) coroutine to completion and return its value; analyse other escaping closures."""
        v = strip(ret) if ret is not None else None
        if v is not None and v[0] == "C":
            bb = self.p.bodies.get(v[1])
            if bb is not None and bb.kind == "coroutine":
                return self.run_coroutine(v)
        if ret is not None:
            self.escape(ret)
        return ret

    def run_coroutine(self, v):
        b = self.p.bodies.get(v[1])
        if b is None:
            return TOP
        r = self.call_body(b, [("R", ("C", v[1], v[2])), TOP], 0)
        return r

    def escape(self, v, seen=None):
        """A value handed to unknown code: closures / coroutines in it may be run with unknown arguments."""
        if v is None or v[0] in ("T", "K", "D", "Q"):
            return
        g = self.g
        self._escape(v)
        self.g = self.g | g

    def named(self, path):
        """Is something assumed, forbidden or tracked of this function?"""
        return any(z.re is not None and z.re.search(path) for z in self.retA + self.sinks + self.trans)

    def carries(self, v):
        """Does the value hold code from which something relevant is reachable?"""
        if self.relevant is None:
            return True
        t = v[0] if v is not None else "T"
        if t in ("R", "RF"):
            return self.carries(v[1])
        if t == "FN":
            return v[1] in self.relevant or bool(self.named(v[1]))
        if t == "V":
            return any(self.carries(f) for _, fs in v[2] for _, f in fs)
        if t in ("S", "C"):
            return (t == "C" and v[1] in self.relevant) or any(self.carries(f) for _, f in v[2])
        return False

    def _escape(self, v):
        t = v[0]
        if t == "FN":
            b = self.p.bodies.get(v[1])
            if self.frame is not None:
                r = self.frame.item(v[1], [TOP] * (b.argc if b is not None else 8), known=False)
                if r is not None and r is not BOT:
                    self.escape(r)
            elif b is not None and (self.relevant is None or b.id in self.relevant):
                r = self.call_body(b, [TOP] * b.argc, 0)
                if r is not None:
                    self.escape(r)
            return
        if t in ("R", "RF"):
            return self.escape(v[1])
        if t == "M":
            fr = self.stack[-1] if self.stack else None
            return
        if t == "V":
            for _, fs in v[2]:
                for _, f in fs:
                    self.escape(f)
            return
        if t == "S":
            for _, f in v[2]:
                self.escape(f)
            return
        if t == "C":
            b = self.p.bodies.get(v[1])
            if b is None:
                return
            if not self.carries(v):
                return
            if b.kind == "coroutine":
                r = self.run_coroutine(v)
            else:
                r = self.call_body(b, [("R", v)] + [TOP] * (b.argc - 1), 0)
            if r is not None:
                self.escape(r)

    # ---- bodies -----------------------------------------------------------------------------------
    def call_body(self, b, args, line):
        args = tuple(cut(a, MAXDEPTH) if a is not None else TOP for a in args)
        args = tuple(TOP if a[0] in ("D", "Q", "M") else a for a in args)
        g = self.g
        key = (b.id, args, g)
        if key in self.memo:
            r, self.g, self.split = self.memo[key]
            self.touched |= self.touch.get(key, frozenset())
            return r
        if key in self.active or len(self.stack) > 120:
            if self.fix and key in self.approx:
                self.recused.add(key)
                r, self.g = self.approx[key]
                self.split = (r, {self.g: r})
                return r
            self.split = (TOP, {g: TOP})
            return TOP
        # bound polyvariance: too many contexts of one body -> analyse with Top arguments
        n = self._ctx.get(b.id, 0)
        if n > 40:
            args = tuple(a if a[0] == "C" or (a[0] == "R" and a[1][0] == "C") else TOP for a in args)
            key = (b.id, args, g)
            if key in self.memo:
                r, self.g, self.split = self.memo[key]
                self.touched |= self.touch.get(key, frozenset())
                return r
            if key in self.active:
                self.split = (TOP, {g: TOP})
                return TOP
        self._ctx[b.id] = n + 1
        self.active.add(key)
        self.visited.add(b.id)
        self.stack.append([b.id, b.line])
        outer, self.touched = self.touched, frozenset()
        r, gout = BOT, frozenset()
        for it in range(8):
            if self.fix:
                self.approx[key] = (r, gout)
                self.recused.discard(key)
                mark = len(self.memolog)
                self.g = g
            fr = Frame(self, b, args)
            outerfr, self.frame = self.frame, fr
            r1, g1 = fr.run(), fr.gout
            self.frame = outerfr
            if not self.fix or key not in self.recused:
                r, gout = r1, g1
                break
            r1, g1 = join(r, r1), gout | g1
            if (r1, g1) == (r, gout):
                break
            r, gout = (r1 if it < 5 else TOP), g1
            for k in self.memolog[mark:]:
                self.memo.pop(k, None)
            del self.memolog[mark:]
        split = fr.rets if not self.fix else {gout: r}
        for t in self.exit_trans(b):
            if t.ret is None:
                t.hits += 1
                split = remap(split, t.apply)
            else:
                new = {}
                for k, rv in split.items():
                    if rv is BOT or t.ret(rv):
                        t.hits += 1
                        a = t.apply(k)
                        new[a] = join(new.get(a, BOT), rv)
                        if t.partial(rv):
                            new[k] = join(new.get(k, BOT), rv)
                    else:
                        new[k] = join(new.get(k, BOT), rv)
                split = new
        if split:
            gout = frozenset().union(*split)
        self.stack.pop()
        self.active.discard(key)
        self.split = (r, split)
        self.memo[key] = (r, gout, self.split)
        self.touch[key] = self.touched
        self.touched = outer | self.touched
        if self.fix:
            self.memolog.append(key)
        self.g = gout
        return r

    def trans_for(self, f, body):
        """(transitions to apply at the call site, transitions deferred to the callee's exit)"""
        if not self.trans:
            return ()
        key = (f["d"], f.get("r"))
        c = self._tcache.get(key)
        if c is None:
            d, r = fnref(f)
            c = []
            for t in self.trans:
                if t.re.search(r) or t.re.search(d):
                    c.append(t)
            self._tcache[key] = c
        return [t for t in c if (t.where is None or t.where.search(body.id))
                and (t.gtype is None or any(re.search(t.gtype, body.ty(g)["s"]) for g in f.get("g", ())))]

    def exit_trans(self, b):
        """Transitions attached to the completion of body b (async: of its coroutine)."""
        if not self.trans:
            return ()
        c = self._xcache.get(b.id)
        if c is None:
            c = []
            name = None
            if b.kind == "coroutine" and b.parent:
                par = self.p.bodies.get(b.parent)
                if par is not None and par.kind == "fn" and (par.is_async or len(par.bbs) <= 4) and b.id == b.parent + "::{closure#0}":
                    name = par.id
            elif b.kind == "fn" and not self.returns_coroutine(b):
                name = b.id
            if name is not None:
                for t in self.trans:
                    if not t.pre and not t.site and t.re.search(name):
                        c.append(t)
            self._xcache[b.id] = c
        return c

    def returns_coroutine(self, b):
        k = self.p.bodies.get(b.id + "::{closure#0}")
        return bool(k is not None and k.kind == "coroutine" and (b.is_async or len(b.bbs) <= 4))

    def record(self, name, callee, body, line, sink=None):
        if sink is not None and sink.bad is not None and not (self.g & sink.bad):
            self.ok_sinks.add((name, body.id, callee))
            return
        key = (name, body.id, callee)
        if key not in self.events:
            chain = [(s[0], s[1]) for s in self.stack]
            self.events[key] = (chain, line)


def places_of_stmt(s):
    out = [s[1]]
    rv = s[2]
    if rv[0] in ("ref", "refm", "discr"):
        out.append(rv[1])
    else:
        ops = []
        if rv[0] in ("use", "cast"):
            ops = [rv[1]]
        elif rv[0] == "bin":
            ops = [rv[2], rv[3]]
        elif rv[0] == "un":
            ops = [rv[2]]
        elif rv[0] == "agg":
            ops = rv[2]
        for o in ops:
            if "c" in o:
                out.append(o["c"])
            elif "m" in o:
                out.append(o["m"])
    return out


def place_key(p):
    return tuple(p)


def remap(split, f):
    new = {}
    for k, r in split.items():
        a = f(k)
        new[a] = join(new.get(a, BOT), r)
    return new


class Frame:
    def __init__(self, I, b, args):
        self.I, self.b = I, b
        self.env0 = {}
        for i, a in enumerate(args):
            v = a
            if v == TOP:
                v = self.by_type(i + 1)
            self.env0[i + 1] = v
        self.ret = BOT
        self.rets = {}
        self.gout = frozenset()
        self.env0["$"] = I.g

    def by_type(self, local):
        t = self.b.local_ty(local)
        a = self.I.typeA.get(t["h"])
        if a is not None:
            a.hits += 1
            v = a.av
            for _ in range(t["r"]):
                v = ("R", v)
            return v
        return TOP

    # -- places --
    def read(self, env, place):
        v = env.get(place[0])
        if v is None:
            v = self.by_type(place[0]) if place[0] < len(self.b.locals) else TOP
        vidx = None
        for e in place[1:]:
            if e == "*":
                if v[0] == "R":
                    v = v[1]
                elif v[0] == "M":
                    v = self.read(env, v[2])
                elif v[0] == "S" and v[1] == "pin":
                    v = getf(v[2], 0)
                else:
                    v = v if v[0] == "C" or lit(v) else TOP
                continue
            c = e[0]
            if c == "f":
                _, i, n, o = e.split("|", 3)
                a = self.I._field_key(e) if self.I.fieldA else None
                if a is not None:
                    a.hits += 1
                    v = a.av
                    vidx = None
                    continue
                i = int(i)
                if o == "^" and v[0] == "R" and v[1][0] == "C":
                    v = v[1]
                if v[0] == "V":
                    r = BOT
                    for idx, fs in v[2]:
                        if vidx is None or idx == vidx:
                            r = join(r, getf(fs, i))
                    v = TOP if r is BOT else r
                elif v[0] in ("S", "C"):
                    v = getf(v[2], i)
                elif v[0] == "R" and (n == "pointer" or o.endswith("Pin")):
                    pass
                elif v[0] == "M" and (n == "pointer" or o.endswith("Pin")):
                    pass
                else:
                    v = TOP
                vidx = None
            elif c == "v":
                vidx = int(e.split("|")[1])
            elif c in "ics":
                v = TOP
                vidx = None
            elif c == "o":
                pass
        return v

    def write(self, env, place, val):
        if len(place) == 1:
            if val == TOP:
                val = self.by_type(place[0])
            env[place[0]] = val
            return
        # resolve through mutable refs / boxes
        base = place[0]
        proj = list(place[1:])
        cur = env.get(base, TOP)
        if proj[0] == "*":
            if cur[0] == "M":
                self.write(env, list(cur[2]) + proj[1:], val)
                return
            if cur[0] == "R":
                env[base] = ("R", self.upd(cur[1], proj[1:], val))
                return
            return
        if any(e == "*" for e in proj):
            k = proj.index("*")
            inner = self.read(env, [base] + proj[:k])
            if inner[0] == "M":
                self.write(env, list(inner[2]) + proj[k + 1:], val)
                return
        env[base] = self.upd(cur, proj, val)

    def upd(self, cur, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e == "*":
            if cur[0] == "R":
                return ("R", self.upd(cur[1], proj[1:], val))
            return TOP
        if e[0] == "f":
            _, i, n, o = e.split("|", 3)
            i = int(i)
            if o == "^" and cur[0] == "R" and cur[1][0] == "C":
                return ("R", self.upd(cur[1], proj, val))
            if cur[0] in ("S", "C"):
                return (cur[0], cur[1], setf(cur[2], i, self.upd(getf(cur[2], i), proj[1:], val)))
            if cur[0] == "V" and len(cur[2]) == 1:
                idx, fs = cur[2][0]
                return ("V", cur[1], ((idx, setf(fs, i, self.upd(getf(fs, i), proj[1:], val))),))
            if cur == TOP:
                return ("S", o, setf((), i, self.upd(TOP, proj[1:], val)))
            return TOP
        if e[0] == "v":
            idx = int(e.split("|")[1])
            if cur[0] == "V":
                d = dict(cur[2])
                if idx in d and len(proj) > 1 and proj[1][0] == "f":
                    i = int(proj[1].split("|")[1])
                    d[idx] = setf(d[idx], i, self.upd(getf(d[idx], i), proj[2:], val))
                    return ("V", cur[1], tuple(sorted(d.items())))
                return cur
            return TOP
        return TOP

    def operand(self, env, o):
        if "c" in o:
            return self.read(env, o["c"])
        if "m" in o:
            return self.read(env, o["m"])
        k = o.get("k")
        if k == "int":
            return ("K", o["v"])
        if k in ("str",):
            return ("K", "s:" + o["v"])
        if k == "mem":
            return ("K", "s:" + o["v"])
        if k == "tyc" and o["v"].startswith('"') and o["v"].endswith('"') and len(o["v"]) > 1:
            return ("K", "s:" + o["v"][1:-1])
        if k == "fn":
            d, r = fnref(o)
            self.I.items[r] = o
            return ("FN", r)
        if k == "item":
            return self.const_item(o["d"])
        if k == "zst":
            t = self.b.ty(o["t"])
            h = t["h"]
            if h.startswith("closure "):
                return ("C", h[8:], ())
            if h.startswith("fndef "):
                return ("FN", h[6:])
            return TOP
        return TOP

    def const_item(self, d):
        if d == "std::time::Duration::ZERO":
            return ("K", d)
        b = self.I.p.bodies.get(d)
        if b is None and HEADER_NAME.search(d):
            return ("K", "TAG:" + d)
        if b is None or b.kind not in ("const", "promoted"):
            return TOP
        return self.I.call_body(b, [], 0) or TOP

    def rvalue(self, env, rv):
        k = rv[0]
        if k == "use":
            return self.operand(env, rv[1])
        if k == "ref":
            pl = rv[1]
            v = self.read(env, pl)
            if v[0] in ("D", "Q", "M"):
                if v[0] == "M" and pl[-1] != "*":
                    return ("R", v)
                return TOP
            if lit(v) and pl[-1] == "*":
                return v
            return ("R", v)
        if k == "refm":
            pl = rv[1]
            # reborrow through an existing mutable ref keeps the original place
            return self.mref(env, pl)
        if k == "cast":
            v = self.operand(env, rv[1])
            if v[0] in ("R", "M", "C", "FN", "K"):
                return v
            return v if v[0] in ("S", "V") else TOP
        if k == "discr":
            pl = rv[1]
            t = self.b.ty(rv[2])
            v = self.read(env, pl)
            if v[0] == "R":
                v = strip(v)
            if v == TOP:
                a = self.I.typeA.get(t["h"])
                if a is not None:
                    a.hits += 1
                    v = a.av
                    if v[0] == "V" and len(v[2]) > 1:
                        self.write(env, pl, v)
            if v[0] == "V" and len(v[2]) == 1:
                return ("K", str(v[2][0][0]))
            return ("D", tuple(pl), t["h"])
        if k == "bin":
            a = self.operand(env, rv[2])
            c = self.operand(env, rv[3])
            op = rv[1]
            lim = limit_op(op, a, c)
            if lim is not None:
                return lim
            if a[0] == "K" and c[0] == "K" and not ("TAG:" in a[1] or "TAG:" in c[1]):
                if op == "Eq":
                    return TRUE if a[1] == c[1] else FALSE
                if op == "Ne":
                    return FALSE if a[1] == c[1] else TRUE
                try:
                    x, y = int(a[1]), int(c[1])
                    if op in ("Lt", "Le", "Gt", "Ge"):
                        r = {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                        return TRUE if r else FALSE
                    if op == "BitAnd":
                        return ("K", str(x & y))
                    if op == "BitOr":
                        return ("K", str(x | y))
                    if op == "BitXor":
                        return ("K", str(x ^ y))
                except ValueError:
                    pass
            if op == "BitAnd" and (a == FALSE or c == FALSE):
                return FALSE
            if op == "BitOr" and self.isbool(rv[2]) and (a == TRUE or c == TRUE):
                return TRUE
            if op in ("Eq", "Ne"):
                for x, y in ((a, c), (c, a)):
                    if x[0] == "D" and y[0] == "K":
                        n = self.nvariants(x[2])
                        if n:
                            yes = (int(y[1]),)
                            no = tuple(i for i in range(n) if i != int(y[1]))
                            q = ("Q", x[1], x[2], yes, no)
                            return q if op == "Eq" else ("Q", x[1], x[2], no, yes)
            return TOP
        if k == "un":
            v = self.operand(env, rv[2])
            if rv[1] == "Not":
                if v == TRUE:
                    return FALSE
                if v == FALSE:
                    return TRUE
                if v[0] == "Q":
                    return ("Q", v[1], v[2], v[4], v[3])
            return TOP
        if k == "agg":
            kind = rv[1]
            ops = [self.operand(env, o) for o in rv[2]]
            ops = [TOP if o[0] in ("D", "Q") else o for o in ops]
            fs = tuple((i, o) for i, o in enumerate(ops) if o != TOP)
            if kind[0] == "adt":
                adt = kind[1]
                nm = adt + "::" + kind[3]
                for s in self.I.sinks:
                    if s.adtre and s.adtre.search(nm) and (s.where is None or s.where.search(self.b.id)):
                        if s.argpred is None or s.argpred(ops, self):
                            self.I.record(s.name, nm, self.b, self.curline, s)
                for t in self.I.trans:
                    if t.adtre and t.adtre.search(nm) and (t.where is None or t.where.search(self.b.id)) and (t.val is None or t.val(("S", adt, fs))):
                        t.hits += 1
                        env["$"] = self.I.g = t.apply(self.I.g)
                ent = self.I.p.adts.get(adt)
                is_enum = (ent["enum"] if ent else adt in (OPT, RES, CF, POLL) or kind[3] != adt.rsplit("::", 1)[-1])
                if is_enum:
                    return ("V", adt, ((kind[2], fs),))
                return ("S", adt, fs)
            if kind[0] in ("closure", "coroutine"):
                return ("C", kind[1], fs)
            if kind[0] == "tuple":
                return ("S", "tuple", fs)
            if kind[0] == "array":
                for o in ops:
                    self.escape_now(env, o)
                if 0 < len(ops) <= 64 and all(strip(o)[0] in ("K", "V", "S") for o in ops):
                    return ("S", "array:%d" % len(ops), fs)
                return TOP
            return TOP
        return TOP

    def isbool(self, o):
        pl = o.get("c") or o.get("m")
        if pl and len(pl) == 1:
            return self.b.local_ty(pl[0])["h"] == "bool"
        return False

    def mref(self, env, pl):
        base = env.get(pl[0], TOP)
        if len(pl) > 1 and pl[1] == "*":
            if base[0] == "M":
                return ("M", pl[0], tuple(list(base[2]) + list(pl[2:])))
            if base[0] == "R" or base == TOP:
                v = self.read(env, pl)
                return ("R", v) if v[0] not in ("D", "Q") else TOP
        # deref deeper
        for k in range(1, len(pl)):
            if pl[k] == "*":
                inner = self.read(env, pl[:k])
                if inner[0] == "M":
                    return ("M", pl[0], tuple(list(inner[2]) + list(pl[k + 1:])))
                if inner[0] != "R":
                    return TOP
        return ("M", pl[0], tuple(pl))

    def nvariants(self, adt):
        if adt in (OPT, RES, CF, POLL):
            return 2
        a = self.I.p.adts.get(adt)
        return len(a["variants"]) if a and a["enum"] else None

    def havoc(self, env, v):
        """An unknown callee got `v`; everything mutably reachable from it becomes unknown."""
        if v[0] == "M":
            cur = self.read(env, v[2])
            # futures / closures keep their identity (they are not replaced through &mut by pinning)
            self.write(env, list(v[2]), self.havoced(cur))
        elif v[0] in ("R", "RF"):
            self.havoc(env, v[1])
        elif v[0] in ("S", "C"):
            for _, f in v[2]:
                self.havoc(env, f)
        elif v[0] == "V":
            for _, fs in v[2]:
                for _, f in fs:
                    self.havoc(env, f)

    def havoced(self, cur):
        return cur if cur[0] in ("C", "RF") else TOP

    def resolve(self, env, v, d=4):
        """Replace frame-local mutable refs by snapshots, so that the value can cross a call."""
        if v is BOT:
            return v
        if v[0] == "M":
            if d == 0:
                return TOP
            return ("R", self.resolve(env, self.read(env, v[2]), d - 1))
        if d == 0:
            return v
        if v[0] in ("R", "RF"):
            return (v[0], self.resolve(env, v[1], d - 1))
        if v[0] in ("S", "C"):
            return (v[0], v[1], tuple((i, self.resolve(env, f, d - 1)) for i, f in v[2]))
        if v[0] == "V":
            return ("V", v[1], tuple((i, tuple((j, self.resolve(env, f, d - 1)) for j, f in fs)) for i, fs in v[2]))
        if v[0] in ("D", "Q"):
            return TOP
        return v

    def escape_now(self, env, v):
        self.I.escape(self.resolve(env, v))

    # -- main loop --
    def run(self):
        I, b = self.I, self.b
        s0 = (0, self.env0["$"])
        states = {s0: dict(self.env0)}
        counts = {}
        work = [s0]
        inq = {s0}
        order = rpo(b)
        while work:
            work.sort(key=lambda x: -order.get(x[0], 1 << 30))
            s = work.pop()
            n = s[0]
            inq.discard(s)
            I.steps += 1
            if I.steps > I.max_steps:
                raise RuntimeError("step budget exceeded in " + b.id)
            env = dict(states[s])
            for t, e in self.block(n, env):
                if t < 0:
                    continue
                if b.bbs[t].get("cl"):
                    continue
                t = (t, e["$"])
                if self.merge(states, counts, t, e) and t not in inq:
                    work.append(t)
                    inq.add(t)
        if I.trans:
            I.touched = I.touched.union(*[g for _, g in states])
        return self.ret

    def merge(self, states, counts, t, e):
        old = states.get(t)
        if old is None:
            states[t] = dict(e)
            return True
        changed = False
        c = counts.get(t, 0)
        for k, v in e.items():
            o = old.get(k)
            if o is None:
                # not assigned on the other path: keep (reads of maybe-uninit locals do not occur)
                old[k] = v
                changed = True
                continue
            if o == v:
                continue
            if k == "$":
                if not v <= o:
                    old[k] = o | v
                    changed = True
                continue
            j = join(o, v)
            if c > 12 and j != o:
                j = TOP
            elif depth(j) > 10:
                j = cut(j, 8)
            if j != o:
                old[k] = j
                changed = True
        if changed:
            counts[t] = c + 1
        return changed

    def block(self, n, env):
        b = self.b
        blk = b.bbs[n]
        self.refs = {}
        self.I.g = env["$"]
        for s in blk["s"]:
            if s[0] == "=":
                self.curline = s[3]
                if s[2][0] == "ref" and len(s[1]) == 1:
                    self.refs[s[1][0]] = tuple(s[2][1])
                for sk in self.I.sinks:
                    if sk.fieldre and self.I._field_write(sk, s[1]) and (sk.where is None or sk.where.search(b.id)):
                        self.I.record(sk.name, "write", b, s[3], sk)
                v = self.rvalue(env, s[2])
                self.invalidate(env, s[1])
                self.write(env, s[1], v)
                for t in self.I.trans:
                    if t.fieldre and self.I._field_write(t, s[1]) and (t.val is None or t.val(v)):
                        t.hits += 1
                        env["$"] = self.I.g = t.apply(env["$"])
            elif s[0] == "dead":
                env.pop(s[1], None)
            elif s[0] == "setd":
                pass
        x = blk["x"]
        t = x[0]
        if t == "goto":
            return [(x[1], env)]
        if t == "return":
            rv = env.get(0, TOP)
            rv = self.resolve(env, rv)
            self.ret = join(self.ret, rv)
            self.gout = self.gout | env["$"]
            self.rets[env["$"]] = join(self.rets.get(env["$"], BOT), rv)
            return []
        if t == "drop":
            return [(x[2], env)]
        if t == "assert":
            v = self.operand(env, x[1])
            if v[0] == "K" and x[4] == "other" and v[1] in ("0", "1") and (v[1] == "1") != x[2]:
                return []
            return [(x[3], env)]
        if t == "yield":
            self.write(env, x[2], TOP)
            return [(x[3], env)]
        if t == "switch":
            return self.switch(env, x)
        if t == "call":
            return self.call(env, x)
        return []

    def invalidate(self, env, place):
        """An assignment to `place` invalidates discriminant / predicate values that talk about it."""
        base = place[0]
        for k, v in list(env.items()):
            if k != "$" and v[0] in ("D", "Q") and v[1][0] == base:
                env[k] = TOP

    def refine(self, env, place, adt, idxs):
        """Restrict place to the given variants; returns False when infeasible."""
        cur = self.read(env, place)
        wrap = 0
        while cur[0] == "R":
            cur = cur[1]
            wrap += 1
        if cur[0] == "V":
            keep = tuple((i, fs) for i, fs in cur[2] if i in idxs)
            if not keep:
                return False
            nv = ("V", cur[1], keep)
        elif cur == TOP:
            nv = ("V", adt, tuple((i, ()) for i in sorted(idxs)))
        else:
            return True
        for _ in range(wrap):
            nv = ("R", nv)
        # do not write through unknown derefs
        if "*" in place[1:]:
            b0 = env.get(place[0], TOP)
            if b0[0] not in ("R", "M") or place[1] != "*":
                if not (b0[0] in ("C", "S", "V")):
                    return True
        self.write(env, list(place), nv)
        return True

    def switch(self, env, x):
        o = x[1]
        v = self.operand(env, o)
        cases, other = x[2], x[3]
        if v[0] == "K":
            for val, t in cases:
                if val == v[1]:
                    return [(t, env)]
            return [(other, env)]
        out = []
        if v[0] == "D":
            place, adt = v[1], v[2]
            seen = []
            n = self.nvariants(adt)
            for val, t in cases:
                e = dict(env)
                seen.append(int(val))
                if n is None or int(val) < n:
                    if not self.refine(e, place, adt, (int(val),)):
                        continue
                out.append((t, e))
            e = dict(env)
            if n is not None:
                rest = tuple(i for i in range(n) if i not in seen)
                if rest:
                    if self.refine(e, place, adt, rest):
                        out.append((other, e))
            else:
                cur = strip(self.read(env, place))
                if cur[0] == "V" and all(i in seen for i, _ in cur[2]):
                    pass
                else:
                    out.append((other, e))
            return out
        if v[0] == "Q":
            place, adt, yes, no = v[1], v[2], v[3], v[4]
            for val, t in cases:
                e = dict(env)
                if self.refine(e, place, adt, no if val == "0" else yes):
                    out.append((t, e))
            e = dict(env)
            if len(cases) == 1 and cases[0][0] == "0":
                if self.refine(e, place, adt, yes):
                    out.append((other, e))
            else:
                out.append((other, e))
            return out
        pl = o.get("c") or o.get("m")
        ty = self.b.local_ty(pl[0])["h"] if pl and len(pl) == 1 else None
        for val, t in cases:
            e = dict(env)
            if pl is not None:
                self.set_known(e, pl, ("K", val))
            out.append((t, e))
        e = dict(env)
        if len(cases) == 1 and cases[0][0] == "0" and ty == "bool":
            self.set_known(e, pl, TRUE)
        out.append((other, e))
        return out

    def set_known(self, env, pl, k):
        if "*" in pl[1:]:
            return
        cur = self.read(env, pl)
        if cur == TOP:
            self.write(env, list(pl), k)

    # -- calls --
    def call(self, env, x):
        I = self.I
        f, args, dest, target, line = x[1], x[2], x[3], x[4], x[6]
        self.curline = line
        I.stack[-1][1] = line
        I.calls_seen += 1
        av = [self.operand(env, a) for a in args]
        self.argplaces = [a.get("m") or a.get("c") for a in args]
        res, assumed = TOP, False
        I.g = env["$"]
        tr = I.trans_for(f, self.b) if f.get("k") == "fn" else ()
        for t in tr:
            if t.pre and (t.argpred is None or t.argpred([self.resolve(env, a) for a in av], self)):
                t.hits += 1
                I.g = t.apply(I.g)
        if f.get("k") == "fn":
            suits = lambda z: z.argpred([self.resolve(env, a) for a in av], self)
            sk = I._match_sink(f, self.b, suits)
            if sk is not None:
                I.record(sk.name, fnref(f)[1], self.b, line, sk)
                if sk.stop:
                    return []
            a = I._match_ret(f, self.b, suits)
            if a is not None:
                a.hits += 1
                assumed = not a.enter
                if a.enter:
                    self.dispatch(env, f, av, x)
                for z in av:
                    self.escape_now(env, z)
                    self.havoc(env, z)
                res = a.av
                if res is BOT:
                    # a future that never becomes ready still exists
                    if len(dest) != 1 or not I.is_future(self.b.local_ty(dest[0])):
                        return []
                    res = ("RF", NEVER)
                elif res[0] != "RF" and len(dest) == 1 and I.is_future(self.b.local_ty(dest[0])):
                    res = ("RF", res)
            else:
                res = self.dispatch(env, f, av, x)
                if any(t.site for t in tr):
                    I.g, I.ret_split = env["$"], None
        else:
            fv = self.operand(env, f)
            I.ret_split = None
            res = self.apply(env, fv, av, True)
            I.ret_split = None
        if res is BOT:
            return []
        if target < 0:
            return []
        sp = I.ret_split
        I.ret_split = None
        for t in tr:
            # library callees (no body): the transition happens at the call site
            if not t.pre and (t.site or assumed or not [z for z in callee_targets(I.p, f) if z in I.p.bodies]):
                if t.argpred is None or t.argpred([self.resolve(env, a) for a in av], self):
                    t.hits += 1
                    if t.ret is None:
                        I.g = t.apply(I.g)
                        sp = None
                    elif t.ret(res):
                        I.g = I.g | t.apply(I.g)
                        sp = None
        if sp is not None and len(sp[1]) > 1 and sp[0] == res and frozenset().union(*sp[1]) == I.g:
            out = []
            for k, v in sp[1].items():
                if v is BOT:
                    continue
                e = dict(env)
                e["$"] = k
                self.invalidate(e, dest)
                self.write(e, dest, v)
                out.append((target, e))
            return out
        env["$"] = I.g
        self.invalidate(env, dest)
        self.write(env, dest, res)
        # async fn assumptions: `f().await` sees the assumed value through RF
        return [(target, env)]

    def apply(self, env, fv, args, certain=False):
        """Call a closure / fn value with argument list."""
        g = self.I.g
        r = self._apply(env, fv, args)
        # combinators may also skip the closure
        self.I.g = self.I.g | g if not certain else self.I.g
        return r

    def _apply(self, env, fv, args):
        I = self.I
        fv0 = self.resolve(env, fv)
        fv = strip(fv0)
        args = [self.resolve(env, a) for a in args]
        if fv[0] == "C":
            b = I.p.bodies.get(fv[1])
            if b is not None:
                if b.kind == "coroutine":
                    return TOP
                aa = [("R", fv)] + args
                aa = (aa + [TOP] * b.argc)[:b.argc]
                # closures called by value (FnOnce) read captures without a deref
                if not self.b_self_ref(b):
                    aa[0] = fv
                return I.call_body(b, aa, 0)
        if fv[0] == "FN":
            return self.item(fv[1], args, env=env)
        for a in args:
            I.escape(a)
        return TOP

    def item(self, path, args, known=True, env=None):
        """A function named as a value is called: what is assumed or forbidden of its calls holds here as well."""
        I = self.I
        b = I.p.bodies.get(path)
        f = I.items.get(path) or {"k": "fn", "d": path, "r": path, "g": []}
        suits = lambda z: z.argpred(args, self)
        tr = [t for t in I.trans_for(f, self.b) if t.argpred is None or t.argpred(args, self)]
        for t in tr:
            if t.pre:
                t.hits += 1
                I.g = t.apply(I.g)
        sk = I._match_sink(f, self.b, suits)
        if sk is not None:
            I.record(sk.name, path, self.b, self.curline, sk)
            if sk.stop:
                return BOT
        a = I._match_ret(f, self.b, suits)
        if a is not None:
            a.hits += 1
        if a is None or a.enter:
            if known and path in I.items and env is not None and b is None:
                res = self.dispatch(env, f, list(args), None)
                I.ret_split = None
            elif b is not None and known:
                res = self.enter(b, (args + [TOP] * b.argc)[:b.argc])
            elif b is not None:
                res = I.call_body(b, args, 0) if I.relevant is None or b.id in I.relevant else TOP
            else:
                res = ctor(path, args) if known else TOP
        if a is not None:
            for z in args:
                I.escape(z)
            res = a.av
            fut = b is not None and I.is_future(b.local_ty(0))
            if res is BOT and fut:
                res = ("RF", NEVER)
            elif fut and res is not BOT and res[0] != "RF":
                res = ("RF", res)
        if res is BOT:
            return res
        for t in tr:
            if not t.pre and (t.site or (a is not None and not a.enter) or b is None):
                t.hits += 1
                if t.ret is None:
                    I.g = t.apply(I.g)
                elif t.ret(res):
                    I.g = I.g | t.apply(I.g)
        return res

    def b_self_ref(self, b):
        return b.local_ty(1)["r"] > 0

    def enter(self, b, args):
        """Descend into a workspace body when it can matter."""
        I = self.I
        I.split = None
        if any(o.search(b.id) for o in I.opaque):
            return self.skipped(b)
        if I.relevant is None or b.id in I.relevant:
            return I.call_body(b, args, 0)
        if any(interesting(a) for a in args) or len(b.bbs) <= 12:
            if len(b.bbs) <= 400:
                return I.call_body(b, args, 0)
        for a in args:
            I.escape(a)
        I.split = None
        return self.skipped(b)

    def skipped(self, b):
        """A body that is not entered still completes."""
        for t in self.I.trans:
            if not t.pre and not t.site and t.ret is None and t.re.search(b.id):
                t.hits += 1
                self.I.g = t.apply(self.I.g)
        return TOP

    def dispatch(self, env, f, av, x):
        I = self.I
        d, r = fnref(f)
        I.ret_split = None
        if I.each is not None and EACH.search(d) and any(I.each.search(self.b.ty(g)["s"]) for g in f.get("g", ())):
            # element-wise analysis: the closure is the loop body
            return self.apply(env, av[-1], [TOP] * 2, certain=True) if av else TOP
        m = MODELS.get(d) or MODELS.get(r)
        if m is None:
            tail = d.rsplit("::", 1)[-1]
            m = TAIL.get(tail) if (d.startswith(("std::", "core::", "alloc::", "futures", "tokio", "tracing"))) else None
        rargs = None
        if m is not None:
            got = m(self, env, av, f)
            if not getattr(m, "split", False):
                I.ret_split = None
            if got is not NotImplemented:
                return got
        tg = callee_targets(I.p, f)
        if f.get("u") and not tg and f.get("g"):
            h = self.b.ty(f["g"][0])["h"]
        rargs = [self.resolve(env, a) for a in av]
        for a in av:
            self.havoc(env, a)
        tg = [t for t in tg if t in I.p.bodies]
        if len(tg) > 12:
            tg = [t for t in tg if I.relevant is not None and t in I.relevant][:60]
        if tg:
            res = BOT
            g0, g1 = I.g, frozenset()
            for t in tg:
                b = I.p.bodies[t]
                if b.kind not in ("fn", "closure", "coroutine"):
                    continue
                I.g = g0
                r1 = self.enter(b, (rargs + [TOP] * b.argc)[:b.argc])
                if r1 is not BOT:
                    g1 |= I.g
                res = join(res, r1)
            I.ret_split = None
            if len(tg) == 1 and I.split is not None and I.split[0] == res:
                I.ret_split = I.split
            I.g = g1 or g0
            return res
        if rargs and (is_limit(strip(rargs[0])) or (strip(rargs[0]) in (LIMIT, PART, TOTAL, REST) and not d.endswith(("_sub", "_add", "max")))) and LIMCONV.search(d):
            return strip(rargs[0])
        for a in rargs:
            I.escape(a)
        # opaque future of a known async fn / block: keep the identity through the type
        return ctor(r, rargs)


EACH = re.compile(r"^std::iter::Iterator::(for_each|try_for_each|map|filter_map|flat_map|fold|try_fold|all|any|inspect)$")

# A configured limit, as a symbolic constant: OVER = "every measured quantity exceeds it",
# EQUAL = "the measured quantity equals it".
OVER, EQUAL = ("K", "LIM:over"), ("K", "LIM:eq")
# The accumulating scenario: PART is one measured piece, below LIMIT; TOTAL is any sum that includes it and
# exceeds LIMIT; REST is LIMIT minus what was counted before, which PART exceeds.
LIMIT, PART, TOTAL, REST = (("K", "ACC:" + x) for x in ("limit", "part", "total", "rest"))


def acc_op(op, a, c):
    ka, kc = a in (LIMIT, PART, TOTAL, REST), c in (LIMIT, PART, TOTAL, REST)
    if not ka and not kc:
        return None
    if op in ("Lt", "Le", "Gt", "Ge"):
        bigger = {(LIMIT, PART): True, (PART, LIMIT): False, (TOTAL, LIMIT): True, (LIMIT, TOTAL): False, (PART, REST): True, (REST, PART): False,
                  (TOTAL, REST): True, (REST, TOTAL): False}.get((a, c))
        if bigger is None:
            return TOP
        return TRUE if bigger == (op in ("Gt", "Ge")) else FALSE
    if op in ("Eq", "Ne"):
        if {a, c} in ({LIMIT, PART}, {LIMIT, TOTAL}, {PART, REST}):
            return FALSE if op == "Eq" else TRUE
        return TOP
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    r = TOP
    if base == "Add" and LIMIT not in (a, c) and REST not in (a, c):
        r = TOTAL
    elif base == "Sub" and a == LIMIT:
        r = REST
    if op.endswith("WithOverflow"):
        return ("S", "tuple", ((0, r), (1, TOP)))
    return r


def m_arith(op, wrap=None):
    def g(fr, env, av, f):
        if len(av) < 2:
            return NotImplemented
        a, b = strip(view(fr, env, av[0])), strip(view(fr, env, av[1]))
        r = acc_op(op, a, b)
        if r is None or r == TOP:
            return NotImplemented
        if wrap == "opt":
            return Some(r)
        return r
    return g


LIMCONV = re.compile(r"::(to_bytes|as_\w+|into|from|try_into|try_from|saturating_sub|saturating_add|get|max|clone|to_owned|0)$")


def is_limit(v):
    return v is not None and v[0] == "K" and v[1].startswith("LIM:")


def limit_op(op, a, c):
    """Comparison / arithmetic with a symbolic limit; None when no limit is involved."""
    r = acc_op(op, a, c)
    if r is not None:
        return r
    la, lc = is_limit(a), is_limit(c)
    if la == lc:
        return TOP if la and op not in ("Eq", "Ne") else None
    lim = a if la else c
    if op in ("Lt", "Le", "Gt", "Ge"):
        if la:   # LIM op x  ==  x flip(op) LIM
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
        if lim == OVER:
            return TRUE if op in ("Gt", "Ge") else FALSE
        return TRUE if op in ("Ge", "Le") else FALSE
    if op in ("Eq", "Ne"):
        if lim == OVER:
            return FALSE if op == "Eq" else TRUE
        return TRUE if op == "Eq" else FALSE
    if lim == OVER and op in ("Add", "Sub", "Mul", "Div"):
        return lim
    if lim == OVER and op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        return ("S", "tuple", ((0, lim), (1, FALSE)))
    return TOP


def interesting(v):
    if v is None or v == TOP:
        return False
    if v[0] in ("R", "RF"):
        return interesting(v[1])
    if v[0] == "S":
        return any(interesting(f) for _, f in v[2])
    if v[0] == "C":
        return True
    if v[0] == "K":
        return not v[1].startswith("s:")
    return v[0] in ("V", "FN")


def ctor(path, args):
    """Tuple-struct / tuple-variant constructors used as functions."""
    if path.endswith("Option::Some"):
        return Some(args[0] if args else TOP)
    if path.endswith("Result::Ok"):
        return Ok(args[0] if args else TOP)
    if path.endswith("Result::Err"):
        return Err(args[0] if args else TOP)
    return TOP


_rpo = {}


def rpo(b):
    if b.id in _rpo:
        return _rpo[b.id]
    from ir import succs
    seen, post = set(), []
    st = [(0, iter(succs(b.bbs[0])))]
    seen.add(0)
    while st:
        n, it = st[-1]
        for s in it:
            if s >= 0 and s not in seen and not b.bbs[s].get("cl"):
                seen.add(s)
                st.append((s, iter(succs(b.bbs[s]))))
                break
        else:
            post.append(n)
            st.pop()
    _rpo[b.id] = {n: i for i, n in enumerate(reversed(post))}
    return _rpo[b.id]


# ---- models of library functions --------------------------------------------------------------------
def _arg(fr, env, v):
    return fr.resolve(env, v)


def ident(fr, env, av, f):
    return av[0]


def ident_future(fr, env, av, f):
    """Adapters that keep the output of a future."""
    return av[0]


def box(fr, env, av, f):
    v = av[0]
    return ("R", v) if v[0] not in ("D", "Q") else TOP


def deref(fr, env, av, f):
    v = av[0]
    # &Arc<T> -> &T ; &Box<T> -> &T
    if v[0] == "R" and v[1][0] == "R":
        return v[1]
    if v[0] == "R" and v[1][0] == "M":
        return v[1]
    if v[0] == "M":
        inner = fr.read(env, v[2])
        if inner[0] in ("R", "M"):
            return inner
    d, r = fnref(f)
    if r in fr.I.p.bodies:
        return NotImplemented
    if f.get("g") and isinstance(f["g"][0], int) and fr.b.ty(f["g"][0])["h"] == "std::string::String":
        return m_strview(fr, env, av, f) if view(fr, env, v)[0] == "K" else TOP
    return TOP


def clone(fr, env, av, f):
    v = av[0]
    d, r = fnref(f)
    if v[0] == "R":
        return v[1]
    if v[0] == "M":
        return fr.resolve(env, fr.read(env, v[2]))
    return TOP


def view(fr, env, v):
    """Value behind any number of references (reads through frame-local mutable refs)."""
    while True:
        if v[0] == "R":
            v = v[1]
        elif v[0] == "M":
            v = fr.read(env, v[2])
        else:
            return v


def as_ref(fr, env, av, f):
    v = view(fr, env, av[0])
    if v[0] == "V" and v[1] in (OPT, RES):
        return ("V", v[1], tuple((i, tuple((j, ("R", fv)) for j, fv in fs)) for i, fs in v[2]))
    return TOP if v[0] != "C" else ("R", v)


def opt_clone(fr, env, av, f):
    v = view(fr, env, av[0])
    if v[0] == "V" and v[1] in (OPT, RES):
        return ("V", v[1], tuple((i, tuple((j, strip(fv) if fv[0] == "R" else fv) for j, fv in fs)) for i, fs in v[2]))
    return TOP


def isvar(yes):
    def g(fr, env, av, f):
        a = av[0]
        v = view(fr, env, a)
        adt = OPT if "Option" in f["d"] else RES
        no = tuple(i for i in (0, 1) if i not in yes)
        if v[0] == "V":
            idx = {i for i, _ in v[2]}
            if idx <= set(yes):
                return TRUE
            if idx <= set(no):
                return FALSE
        pl = fr.argplaces[0] if fr.argplaces else None
        if pl is not None and len(pl) == 1 and pl[0] in fr.refs:
            return ("Q", fr.refs[pl[0]], adt, tuple(yes), no)
        return TOP
    return g


def branch(fr, env, av, f):
    v = view(fr, env, av[0]) if av[0][0] != "V" else av[0]
    if v[0] == "V" and v[1] in (OPT, RES, CF):
        out = []
        adt = v[1]
        cont, brk = (1, 0) if adt == OPT else (0, 1)
        if adt == RES:
            for i, fs in v[2]:
                if i == 0:
                    out.append((0, fs))
                else:
                    out.append((1, ((0, ("V", RES, ((1, fs),))),)))
        elif adt == OPT:
            for i, fs in v[2]:
                if i == 1:
                    out.append((0, fs))
                else:
                    out.append((1, ((0, NONE),)))
        else:
            for i, fs in v[2]:
                out.append((i, fs if i == 0 else ((0, ("V", CF, ((1, fs),))),)))
        return ("V", CF, tuple(sorted(out)))
    # Unknown: Break carries a residual of the same family
    h = fr.b.ty(f["g"][0])["h"] if f.get("g") else ""
    if h == RES:
        return ("V", CF, ((0, ()), (1, ((0, Err()),))))
    if h == OPT:
        return ("V", CF, ((0, ()), (1, ((0, NONE),))))
    return TOP


def from_residual(fr, env, av, f):
    v = av[0]
    g = f.get("g", [])
    h = fr.b.ty(g[0])["h"] if g else ""
    payload = TOP
    if v[0] == "V" and v[1] == RES:
        payload = getf(v[2][0][1], 0)
        # `?` converts the error with From
        r = f.get("r", "")
        if payload != TOP:
            payload = convert_err(fr, f, payload)
    if h == RES:
        return Err(payload)
    if h == OPT:
        return NONE
    if h == POLL:
        return TOP
    if h == CF:
        return v if v[0] == "V" else TOP
    return TOP


def convert_err(fr, f, payload):
    # result type Result<T, F>; residual Result<!, E>: when E == F the value is kept
    try:
        t0, t1 = fr.b.ty(f["g"][0]), fr.b.ty(f["g"][1])
        e0, e1 = t0["a"][1], t1["a"][1]
        h0, h1 = fr.b.ty(e0), fr.b.ty(e1)
        if h0["s"] == h1["s"]:
            return payload
        b = from_impl(fr.I.p, h0["s"], h1["s"])
        if b is not None:
            return fr.enter(b, [payload]) or TOP
    except (IndexError, KeyError):
        pass
    return TOP


def _V(adt, d):
    return ("V", adt, tuple(sorted(d.items()))) if d else BOT


def _parts(fr, env, v, adt):
    v = view(fr, env, v) if v[0] in ("R", "M") else v
    if v[0] == "V" and v[1] == adt:
        return {i: getf(fs, 0) for i, fs in v[2]}
    return {0: TOP, 1: TOP}


def _mk(adt, parts):
    """parts: idx -> payload av (BOT = infeasible)."""
    out = {}
    for i, pl in parts.items():
        if pl is BOT:
            continue
        if adt == OPT and i == 0:
            out[i] = ()
        else:
            out[i] = ((0, pl),) if pl != TOP else ()
    return _V(adt, out)


def _adt(f):
    return OPT if "option::Option" in f["d"] else RES


def m_map(fr, env, av, f):
    if "option::Option" not in f["d"] and "result::Result" not in f["d"]:
        return NotImplemented
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    return mapped(fr, env, adt, p, 1 if adt == OPT else 0, av[1])


def mapped(fr, env, adt, p, k, fn):
    """Only the payload of variant k goes through the closure; the automaton state tells the two cases apart."""
    g0 = fr.I.g
    if k in p:
        p[k] = fr.apply(env, fn, [p[k]], certain=True)
        fr.I.split = fr.I.ret_split = None
        g1 = fr.I.g
        if 1 - k in p:
            fr.I.g = g0 | g1
            if p[k] is not BOT and not g0 & g1:
                fr.I.ret_split = (_mk(adt, p), {g0: _mk(adt, {1 - k: p[1 - k]}), g1: _mk(adt, {k: p[k]})})
    return _mk(adt, p)


def m_map_err(fr, env, av, f):
    if "result::Result" not in f["d"]:
        return NotImplemented
    return mapped(fr, env, RES, _parts(fr, env, av[0], RES), 1, av[1])


def m_and_then(fr, env, av, f):
    if "option::Option" not in f["d"] and "result::Result" not in f["d"]:
        return NotImplemented
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    k = 1 if adt == OPT else 0
    other = 1 - k
    res = BOT
    if k in p:
        res = fr.apply(env, av[1], [p[k]])
    if other in p:
        res = join(res, _mk(adt, {other: p[other]}))
    return res


def m_or_else(fr, env, av, f):
    if "option::Option" not in f["d"] and "result::Result" not in f["d"]:
        return NotImplemented
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    k = 1 if adt == OPT else 0
    res = BOT
    if k in p:
        res = _mk(adt, {k: p[k]})
    if (1 - k) in p:
        res = join(res, fr.apply(env, av[1], [] if adt == OPT else [p[1 - k]]))
    return res


def m_or(fr, env, av, f):
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    k = 1 if adt == OPT else 0
    res = BOT
    if k in p:
        res = _mk(adt, {k: p[k]})
    if (1 - k) in p:
        res = join(res, av[1])
    return res


def m_ok_or(fr, env, av, f):
    p = _parts(fr, env, av[0], OPT)
    out = {}
    if 1 in p:
        out[0] = p[1]
    if 0 in p:
        out[1] = av[1] if f["d"].endswith("ok_or") else fr.apply(env, av[1], [])
    return _mk(RES, out)


def m_ok(fr, env, av, f):
    p = _parts(fr, env, av[0], RES)
    out = {}
    if 0 in p:
        out[1] = p[0]
    if 1 in p:
        out[0] = TOP
    return _mk(OPT, out)


def m_err(fr, env, av, f):
    p = _parts(fr, env, av[0], RES)
    out = {}
    if 1 in p:
        out[1] = p[1]
    if 0 in p:
        out[0] = TOP
    return _mk(OPT, out)


def m_unwrap_or(fr, env, av, f):
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    k = 1 if adt == OPT else 0
    r = BOT
    if k in p:
        r = p[k]
    if (1 - k) in p:
        t = f["d"].rsplit("::", 1)[-1]
        if t == "unwrap_or":
            r = join(r, av[1])
        elif t == "unwrap_or_else":
            r = join(r, fr.apply(env, av[1], [] if adt == OPT else [p[1 - k]]))
        else:
            g = fr.b.ty(f["g"][0])["h"] if f.get("g") else ""
            r = join(r, FALSE if g == "bool" else TOP)
    return r


def m_unwrap(fr, env, av, f):
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    k = 1 if adt == OPT else 0
    return p.get(k, BOT)


def m_map_or(fr, env, av, f):
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    k = 1 if adt == OPT else 0
    r = BOT
    if k in p:
        r = fr.apply(env, av[2], [p[k]])
    if (1 - k) in p:
        r = join(r, av[1] if f["d"].endswith("map_or") else fr.apply(env, av[1], [] if adt == OPT else [p[1 - k]]))
    return r


def m_is_and(fr, env, av, f):
    adt = _adt(f)
    t = f["d"].rsplit("::", 1)[-1]
    p = _parts(fr, env, av[0], adt)
    k = 1 if (adt == OPT or t == "is_err_and") else 0
    r = BOT
    if k in p:
        r = fr.apply(env, av[1], [p[k]])
    if (1 - k) in p:
        r = join(r, TRUE if t == "is_none_or" else FALSE)
    return r


def m_filter(fr, env, av, f):
    if "option::Option" not in f["d"]:
        return NotImplemented
    p = _parts(fr, env, av[0], OPT)
    out = {}
    if 1 in p:
        r = fr.apply(env, av[1], [("R", p[1])])
        if r != FALSE and r is not BOT:
            out[1] = p[1]
        if r != TRUE:
            out[0] = TOP
    if 0 in p:
        out[0] = TOP
    return _mk(OPT, out)


def m_flatten(fr, env, av, f):
    if "option::Option" not in f["d"]:
        return NotImplemented
    p = _parts(fr, env, av[0], OPT)
    r = BOT
    if 1 in p:
        r = p[1] if p[1] != TOP else _mk(OPT, {0: TOP, 1: TOP})
    if 0 in p:
        r = join(r, NONE)
    return r


def m_transpose(fr, env, av, f):
    adt = _adt(f)
    p = _parts(fr, env, av[0], adt)
    if adt == OPT:   # Option<Result> -> Result<Option>
        r = BOT
        if 0 in p:
            r = Ok(NONE)
        if 1 in p:
            q = _parts(fr, env, p[1], RES)
            if 0 in q:
                r = join(r, Ok(Some(q[0])))
            if 1 in q:
                r = join(r, Err(q[1]))
        return r
    return TOP


def m_take(fr, env, av, f):
    if "option::Option" not in f["d"]:
        return NotImplemented
    a = av[0]
    if a[0] == "M":
        cur = fr.read(env, a[2])
        fr.write(env, list(a[2]), NONE)
        return fr.resolve(env, cur) if cur[0] not in ("D", "Q") else TOP
    return TOP


def m_inspect(fr, env, av, f):
    if "option::Option" not in f["d"] and "result::Result" not in f["d"]:
        return NotImplemented
    fr.escape_now(env, av[1])
    return av[0]


def poll_ready(fr, r):
    I = fr.I
    if r is BOT:
        return BOT
    wrap = lambda z: BOT if z is BOT else variant(POLL, 0, ((0, z),))
    sp = I.split
    I.ret_split = (wrap(r), {k: wrap(v) for k, v in sp[1].items()}) if sp is not None and sp[0] == r else None
    return wrap(r)


def m_poll(fr, env, av, f):
    fr.I.ret_split = None
    v = av[0]
    fut = view(fr, env, v)
    if fut[0] == "S" and fut[1] == "pin":
        fut = view(fr, env, getf(fut[2], 0))
    if fut[0] == "RF":
        return variant(POLL, 1, ()) if fut[1] in (BOT, NEVER) else variant(POLL, 0, ((0, fut[1]),))
    if fut[0] == "S" and fut[1] == "pollfn":
        f0 = view(fr, env, getf(fut[2], 0))
        if f0[0] != "C":
            return TOP
        r = fr.apply(env, f0, [TOP], True)
        sp = fr.I.split
        fr.I.ret_split = sp if sp is not None and sp[0] == r else None
        return r
    if fut[0] == "C":
        return poll_ready(fr, fr.I.run_coroutine(fr.resolve(env, fut)))
    # fall back on the type of the future
    g = f.get("g")
    if g:
        h = fr.b.ty(g[0])["h"]
        if h.startswith("closure "):
            b = fr.I.p.bodies.get(h[8:])
            if b is not None and b.kind == "coroutine":
                return poll_ready(fr, fr.I.run_coroutine(("C", b.id, ())))
    d, r = fnref(f)
    if r in fr.I.p.bodies and fr.I.p.bodies[r].kind == "fn":
        return NotImplemented
    return TOP


def m_poll_fn(fr, env, av, f):
    return ("S", "pollfn", ((0, av[0]),))


def cancellable(fr, env, v):
    """Output of a future that may be stopped anywhere; BOT if it never becomes ready."""
    fut = view(fr, env, v)
    out = TOP
    if fut[0] == "C":
        g, before, fr.I.touched = fr.I.g, fr.I.touched, frozenset()
        out = fr.I.run_coroutine(fr.resolve(env, fut))
        fr.I.g = fr.I.g | g | fr.I.touched          # it may be stopped anywhere
        fr.I.touched = before | fr.I.touched
    elif fut[0] == "RF":
        out = BOT if fut[1] == NEVER else fut[1]
    else:
        fr.I.escape(fr.resolve(env, v))
    return out


def m_select(fr, env, av, f):
    """select(a, b) -> future of Either<A::Output, B::Output>"""
    res = BOT
    for i in (0, 1):
        out = cancellable(fr, env, av[i])
        if out is not BOT:
            res = join(res, variant("ntex::util::Either", i, ((0, out),)))
    return ("RF", NEVER) if res is BOT else ("RF", res)


def m_timeout(fr, env, av, f):
    """tokio::time::timeout(d, fut) -> future of Result<Output, Elapsed>"""
    out = cancellable(fr, env, av[1])
    res = Err()
    if out is not BOT:
        res = join(Ok(out), res)
    return ("RF", res)


def m_box_pin(fr, env, av, f):
    v = av[0]
    return ("R", v) if v[0] not in ("D", "Q") else TOP


def m_call(fr, env, av, f):
    fv = av[0]
    tup = av[1] if len(av) > 1 else TOP
    args = []
    if tup[0] == "S":
        n = max([i for i, _ in tup[2]], default=-1) + 1
        args = [getf(tup[2], i) for i in range(n)]
    v = view(fr, env, fv)
    fr.I.ret_split = None
    if v[0] in ("C", "FN"):
        r = fr.apply(env, v, args + [TOP] * 6, True)
        sp = fr.I.split
        fr.I.ret_split = sp if v[0] == "C" and sp is not None and sp[0] == r else None
        return r
    d, r = fnref(f)
    b = fr.I.p.bodies.get(r)
    if b is not None and b.kind == "closure":
        return fr.apply(env, ("C", r, ()), args + [TOP] * 6)
    for a in args:
        fr.escape_now(env, a)
    return TOP


def elements(v):
    """Elements of a constant array, or None."""
    if v[0] == "S" and v[1].startswith("array:"):
        return [getf(v[2], i) for i in range(int(v[1][6:]))]
    return None


def m_iter(fr, env, av, f):
    v = view(fr, env, av[0])
    return v if elements(v) else NotImplemented


def m_any(fr, env, av, f):
    els = elements(view(fr, env, av[0])) if len(av) > 1 else None
    if els:
        rs = [fr.apply(env, av[1], [("R", e)]) for e in els]
        if TRUE in rs:
            return TRUE
        return FALSE if all(r == FALSE for r in rs) else TOP
    r = fr.apply(env, av[1], [TOP]) if len(av) > 1 else TOP
    return FALSE if r == FALSE else TOP


def known_nonempty(fr, f):
    """The rule assumes that iterating over these elements yields one."""
    a = fr.I._match_ret({"k": "fn", "d": "std::iter::Iterator::next", "g": f.get("g", ())}, fr.b)
    if a is not None and a.av[0] == "V" and a.av == Some(dict(a.av[2]).get(1, ((0, TOP),))[0][1] if dict(a.av[2]).get(1) else TOP):
        return a
    return None


def m_try_each(fr, env, av, f):
    if len(av) < 2:
        return NotImplemented
    a = known_nonempty(fr, f)
    r = fr.apply(env, av[-1], [TOP], certain=a is not None)
    if a is not None:
        a.hits += 1
        return r
    if r is BOT:
        return Ok(TOP)
    return join(r, Ok(TOP)) if r[0] == "V" and r[1] == RES else TOP


def m_find(fr, env, av, f):
    if len(av) < 2:
        return NotImplemented
    els = elements(view(fr, env, av[0]))
    if not els:
        return NONE if fr.apply(env, av[1], [TOP]) == FALSE else TOP
    out = BOT
    for e in els:
        r = fr.apply(env, av[1], [("R", ("R", e))])
        if r is not BOT and r != FALSE:
            out = join(out, Some(("R", e)))
        if r == TRUE:
            return out
    return join(out, NONE)


def m_all(fr, env, av, f):
    els = elements(view(fr, env, av[0])) if len(av) > 1 else None
    if els:
        rs = [fr.apply(env, av[1], [("R", e)]) for e in els]
        if FALSE in rs:
            return FALSE
        return TRUE if all(r == TRUE for r in rs) else TOP
    r = fr.apply(env, av[1], [TOP]) if len(av) > 1 else TOP
    return TRUE if r == TRUE else TOP


def m_then(fr, env, av, f):
    if "bool" not in f["d"]:
        return NotImplemented
    b = av[0]
    r = BOT
    if b != FALSE:
        r = Some(av[1] if f["d"].endswith("then_some") else (fr.apply(env, av[1], []) or TOP))
    if b != TRUE:
        r = join(r, NONE)
    return r


def nolife(s):
    s = re.sub(r"'\w+ (mut )?", r"\1", s)
    return re.sub(r"<'\w+>|'\w+, ", "", s)


def from_impl(p, target, source):
    """The workspace impl `From<source> for target`, lifetimes ignored."""
    idx = getattr(p, "_from_impls", None)
    if idx is None:
        idx = {}
        for i in p.trait_impls.get("std::convert::From::from", ()):
            b = p.bodies.get(i)
            if b is not None and b.argc == 1:
                idx.setdefault((nolife(b.local_ty(0)["s"]), nolife(b.local_ty(1)["s"])), b)
        p._from_impls = idx
    return idx.get((nolife(target), nolife(source)))


def m_from(fr, env, av, f):
    d, r = fnref(f)
    if r in fr.I.p.bodies:
        return NotImplemented
    g = f.get("g", [])
    if len(g) == 2 and nolife(fr.b.ty(g[0])["s"]) == nolife(fr.b.ty(g[1])["s"]):
        return av[0]
    # Into: Into::into -> From::from of the target
    if d.endswith("Into::into") and len(g) == 2:
        b = from_impl(fr.I.p, fr.b.ty(g[1])["s"], fr.b.ty(g[0])["s"])
        if b is not None:
            return fr.enter(b, [fr.resolve(env, av[0])])
    if len(g) >= 1 and fr.b.ty(g[-1 if d.endswith("Into::into") else 0])["h"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
        return box(fr, env, av, f)
    v = strip(view(fr, env, av[0])) if av else TOP
    return v if v[0] == "K" and str(v[1]).startswith("s:") and len(g) >= 1 and fr.b.ty(g[-1 if d.endswith("Into::into") else 0])["s"] == "std::string::String" else TOP


def m_ord(op):
    def g(fr, env, av, f):
        a, b = strip(view(fr, env, av[0])), strip(view(fr, env, av[1]))
        r = limit_op(op, a, b)
        return NotImplemented if r is None else r
    return g


def m_eq(neg):
    def g(fr, env, av, f):
        a, b = view(fr, env, av[0]), view(fr, env, av[1])
        def k(v, gi):
            if v[0] == "V" and len(v[2]) == 1:
                return v
            if v[0] == "K":
                return v
            if v == TOP and len(f.get("g", ())) > gi:
                h = fr.b.ty(f["g"][gi])["h"]
                ta = fr.I.typeA.get(h)
                if ta is not None and ta.av[0] == "V" and len(ta.av[2]) == 1:
                    ta.hits += 1
                    return ta.av
            return None
        x, y = k(a, 0), k(b, 1 if len(f.get("g", ())) > 1 else 0)
        r = eqv(x, y) if x is not None and y is not None else None
        if r is None:
            # refine unit-variant comparisons of unknown enums
            d, rr = fnref(f)
            if rr in fr.I.p.bodies and not (a == TOP and b == TOP):
                return NotImplemented
            return TOP
        if neg:
            r = not r
        return TRUE if r else FALSE
    return g


def eqv(x, y):
    """True / False / None (unknown) equality of two abstract values."""
    x, y = strip(x), strip(y)
    if x[0] == "K" and y[0] == "K":
        if x[1] != y[1] and ("TAG:" in x[1] or "TAG:" in y[1]):
            return None   # an opaque value may equal anything
        return x[1] == y[1]
    if x[0] == "V" and y[0] == "V":
        if len(x[2]) != 1 or len(y[2]) != 1:
            xs, ys = {i for i, _ in x[2]}, {i for i, _ in y[2]}
            return False if not (xs & ys) else None
        (i, fi), (j, fj) = x[2][0], y[2][0]
        if i != j:
            return False
        ks = {k for k, _ in fi} | {k for k, _ in fj}
        if not ks:
            # unit variant or unknown payload
            if x[1] == OPT and i == 1:
                return None
            return True
        res = True
        for k in ks:
            e = eqv(getf(fi, k), getf(fj, k))
            if e is False:
                return False
            if e is None:
                res = None
        return res
    return None


def m_into_iter(fr, env, av, f):
    return NotImplemented


def m_next(fr, env, av, f):
    d, r = fnref(f)
    if r in fr.I.p.bodies:
        return NotImplemented
    els = elements(view(fr, env, av[0]))
    if els:
        out = NONE
        for e in els:
            out = join(out, Some(("R", e)))
        return out
    fr.havoc(env, av[0])
    return TOP


def m_not(fr, env, av, f):
    v = view(fr, env, av[0])
    return FALSE if v == TRUE else TRUE if v == FALSE else TOP


def m_is_empty(fr, env, av, f):
    return NotImplemented


def m_in_scope(fr, env, av, f):
    return fr.apply(env, av[1], [], True)


def m_fut_map(fr, env, av, f):
    if "FutureExt" not in f["d"]:
        return NotImplemented
    fut = view(fr, env, av[0])
    out = fr.I.run_coroutine(fr.resolve(env, fut)) if fut[0] == "C" else fut[1] if fut[0] == "RF" else TOP
    if out is BOT:
        return ("RF", BOT)
    return ("RF", fr.apply(env, av[1], [out]))


def m_fut_try(which):
    """TryFutureExt / FutureExt combinators that keep the outcome (which=None) or map one side of it."""
    def g(fr, env, av, f):
        if "FutureExt" not in f["d"]:
            return NotImplemented
        fut = view(fr, env, av[0])
        out = fr.I.run_coroutine(fr.resolve(env, fut)) if fut[0] == "C" else fut[1] if fut[0] == "RF" else TOP
        if out is BOT:
            return ("RF", BOT)
        o = strip(out)
        if which is None:
            if o[0] != "V" or any(i == 1 for i, _ in o[2]):
                fr.apply(env, av[1], [TOP])
            return ("RF", out)
        if o[0] != "V":
            fr.apply(env, av[1], [TOP])
            return ("RF", TOP)
        res = []
        for i, fs in o[2]:
            if i != which:
                res.append((i, fs))
                continue
            r = fr.apply(env, av[1], [dict(fs).get(0, TOP)])
            if r is BOT:
                continue
            res.append((i, ((0, r),) if r != TOP else ()))
        return ("RF", ("V", o[1], tuple(res)) if res else BOT)
    return g


def m_as_mut(fr, env, av, f):
    a = av[0]
    v = view(fr, env, a)
    if "option::Option" in f["d"] or "result::Result" in f["d"]:
        if v[0] == "V":
            return ("V", v[1], tuple((i, tuple((j, ("R", fv)) for j, fv in fs if fv[0] == "C")) for i, fs in v[2]))
        return TOP
    if "Pin" in f["d"] or "pin" in f["d"]:
        return ("R", v) if v[0] in ("C", "RF") else TOP
    return NotImplemented


def m_asref(fr, env, av, f):
    h = fr.b.ty(f["g"][0])["h"] if f.get("g") and isinstance(f["g"][0], int) else ""
    if h in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc"):
        return deref(fr, env, av, f)
    return NotImplemented


def m_strview(fr, env, av, f):
    """String -> &str and back: the same text, so an identity on tagged or constant strings."""
    v = view(fr, env, av[0])
    return ("R", v) if v[0] == "K" else NotImplemented


def m_strown(fr, env, av, f):
    v = view(fr, env, av[0])
    return v if v[0] == "K" and v[1].startswith(("s:", "TAG:")) else NotImplemented


MODELS = {
    "std::string::String::as_str": m_strview,
    "std::string::ToString::to_string": m_strown,
    "std::convert::AsRef::as_ref": m_asref,
    "std::future::IntoFuture::into_future": ident,
    "std::iter::IntoIterator::into_iter": m_into_iter,
    "std::pin::Pin::<Ptr>::new_unchecked": ident,
    "std::pin::Pin::<Ptr>::new": ident,
    "std::pin::Pin::<P>::new_unchecked": ident,
    "std::boxed::Box::<T>::pin": m_box_pin,
    "std::boxed::Box::<T>::new": box,
    "std::sync::Arc::<T>::new": box,
    "std::rc::Rc::<T>::new": box,
    "std::boxed::box_new": box,
    "std::ops::Deref::deref": deref,
    "std::ops::DerefMut::deref_mut": deref,
    "std::clone::Clone::clone": clone,
    "std::borrow::ToOwned::to_owned": clone,
    "std::ops::Try::branch": branch,
    "std::ops::FromResidual::from_residual": from_residual,
    "std::ops::Try::from_output": lambda fr, env, av, f: Ok(av[0]) if fr.b.ty(f["g"][0])["h"] == RES else Some(av[0]) if fr.b.ty(f["g"][0])["h"] == OPT else TOP,
    "futures_util::Future::poll": m_poll,
    "std::future::Future::poll": m_poll,
    "std::ops::Fn::call": m_call,
    "std::ops::FnMut::call_mut": m_call,
    "std::ops::FnOnce::call_once": m_call,
    "std::cmp::PartialEq::eq": m_eq(False),
    "core::num::<impl usize>::saturating_sub": m_arith("Sub"), "core::num::<impl usize>::saturating_add": m_arith("Add"),
    "core::num::<impl usize>::wrapping_add": m_arith("Add"), "core::num::<impl usize>::wrapping_sub": m_arith("Sub"),
    "core::num::<impl usize>::checked_add": m_arith("Add", "opt"), "core::num::<impl u64>::checked_add": m_arith("Add", "opt"),
    "core::num::<impl u64>::saturating_add": m_arith("Add"), "core::num::<impl u64>::saturating_sub": m_arith("Sub"),
    "std::cmp::PartialOrd::lt": m_ord("Lt"), "std::cmp::PartialOrd::le": m_ord("Le"),
    "std::cmp::PartialOrd::gt": m_ord("Gt"), "std::cmp::PartialOrd::ge": m_ord("Ge"),
    "std::cmp::PartialEq::ne": m_eq(True),
    "std::iter::Iterator::any": m_any, "std::iter::Iterator::find": m_find, "std::iter::Iterator::try_for_each": m_try_each,
    "core::slice::<impl [T]>::iter": m_iter,
    "std::iter::Iterator::copied": m_iter, "std::iter::Iterator::cloned": m_iter,
    "std::iter::Iterator::all": m_all,
    "std::convert::From::from": m_from,
    "std::convert::Into::into": m_from,
    "std::iter::Iterator::next": m_next,
    "std::ops::Not::not": m_not,
    "std::future::poll_fn": m_poll_fn,
    "tokio::time::timeout": m_timeout,
    "tokio::time::timeout_at": m_timeout,
    "ntex::util::select": m_select,
    "tracing::Instrument::instrument": ident_future,
    "tracing::Instrument::in_current_span": ident_future,
    "tracing::Span::in_scope": m_in_scope,
    "futures_util::FutureExt::boxed": m_box_pin,
    "futures_util::FutureExt::fuse": ident_future,
    "futures_util::FutureExt::map": m_fut_map,
    "futures_util::TryFutureExt::inspect_err": m_fut_try(None),
    "futures_util::TryFutureExt::map_ok": m_fut_try(0),
    "futures_util::TryFutureExt::map_err": m_fut_try(1),
    "std::mem::take": m_take,
}
TAIL = {
    "map": m_map, "map_err": m_map_err, "and_then": m_and_then, "or_else": m_or_else, "or": m_or,
    "ok_or": m_ok_or, "ok_or_else": m_ok_or, "ok": m_ok, "err": m_err,
    "unwrap_or": m_unwrap_or, "unwrap_or_else": m_unwrap_or, "unwrap_or_default": m_unwrap_or,
    "unwrap": m_unwrap, "expect": m_unwrap, "map_or": m_map_or, "map_or_else": m_map_or,
    "is_some": isvar((1,)), "is_none": isvar((0,)), "is_ok": isvar((0,)), "is_err": isvar((1,)),
    "is_some_and": m_is_and, "is_ok_and": m_is_and, "is_none_or": m_is_and, "is_err_and": m_is_and,
    "as_ref": as_ref, "as_deref": as_ref, "as_mut": m_as_mut, "as_deref_mut": m_as_mut, "cloned": opt_clone, "copied": opt_clone,
    "filter": m_filter, "flatten": m_flatten, "transpose": m_transpose, "take": m_take,
    "inspect": m_inspect, "inspect_err": m_inspect, "then": m_then, "then_some": m_then,
}
# only for Option / Result / bool receivers
_OR = {k for k in TAIL} - {"as_ref", "as_mut"}


def m_fetch_update(fr, env, av, f):
    """Ok(previous) if the closure may answer Some, Err(previous) if it may answer None."""
    if "sync::atomic" not in f["d"]:
        return NotImplemented
    p = _parts(fr, env, fr.apply(env, av[-1], [TOP]), OPT)
    out = {}
    if 1 in p:
        out[0] = TOP
    if 0 in p:
        out[1] = TOP
    return _mk(RES, out)


def _wrap_or(m):
    def g(fr, env, av, f):
        d = f["d"]
        if "option::Option" in d or "result::Result" in d or "bool" in d or "FutureExt" in d or "Pin" in d:
            return m(fr, env, av, f)
        return NotImplemented
    g.split = m in (m_map, m_map_err)
    return g


m_poll.split = m_call.split = True        # these keep the results of different automaton states apart
for _k in list(TAIL):
    TAIL[_k] = _wrap_or(TAIL[_k])
TAIL["fetch_update"] = TAIL["try_update"] = m_fetch_update


def m_cf_map(k):
    def g(fr, env, av, f):
        if "ControlFlow" not in f["d"]:
            return NotImplemented
        p = _parts(fr, env, av[0], CF)
        if k in p:
            p[k] = fr.apply(env, av[1], [p[k]])
        return _V(CF, {i: ((0, pl),) if pl != TOP else () for i, pl in p.items() if pl is not BOT})
    return g


def m_cf_is(k):
    def g(fr, env, av, f):
        if "ControlFlow" not in f["d"]:
            return NotImplemented
        v = view(fr, env, av[0])
        if v[0] != "V":
            return TOP
        ks = {i for i, _ in v[2]}
        return TRUE if ks == {k} else FALSE if k not in ks else TOP
    return g


def m_cf_value(k):
    def g(fr, env, av, f):
        if "ControlFlow" not in f["d"]:
            return NotImplemented
        p = _parts(fr, env, av[0], CF)
        return _mk(OPT, {i: pl for i, pl in ((1, p.get(k, BOT)), (0, TOP if set(p) - {k} else BOT))})
    return g


TAIL["map_continue"], TAIL["map_break"] = m_cf_map(0), m_cf_map(1)
TAIL["is_continue"], TAIL["is_break"] = m_cf_is(0), m_cf_is(1)
TAIL["continue_value"], TAIL["break_value"] = m_cf_value(0), m_cf_value(1)


def bool_pred_local(b, l):
    return b.local_ty(l)["h"] == "bool"
