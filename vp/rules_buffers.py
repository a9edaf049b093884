"""Buffers between a source of events and its consumers: their size, what happens when they are full, and sizes and intervals taken from the configuration."""
import re
import ir
from registry import prop
from framework import Anchor, shorten
from absint import NEVER, Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant
from rules_auth import enum, tystr
from rules_state import names

# They panic when given zero.
REFUSES = re.compile(r"^tokio::sync::(mpsc::(\w+::)?channel|broadcast::(\w+::)?channel)$|^tokio::time::(\w+::)?interval(_at)?$")
SAME = re.compile(r"::(clone|cloned|copied|deref|as_ref|from|into|try_into|try_from|unwrap|expect|next_power_of_two|min)$")
BOTH = re.compile(r"::(unwrap_or|min|saturating_mul)$")
MADE = re.compile(r"Duration(::<.*>)?::(from_\w+|new)$")


class Slice:
    """Can this number or duration be zero, for some configuration?  Follows the value back to where it comes from."""

    def __init__(self, c):
        self.c, self.p = c, c.p
        self.busy, self.why = set(), []
        self.made = {}           # adt -> [(body, block, variant, operands)]
        self.clos = {}           # closure / coroutine -> [(body, block, operands)]
        self.callers = {}
        for b in self.p.bodies.values():
            if b.is_test():
                continue
            for i, blk in enumerate(b.bbs):
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "agg":
                        k = s[2][1]
                        if k[0] == "adt":
                            self.made.setdefault(k[1], []).append((b, i, k[3], s[2][2]))
                        elif k[0] in ("closure", "coroutine"):
                            self.clos.setdefault(k[1], []).append((b, i, s[2][2]))
            for bb, fn, a, *_ in b.calls():
                for t in ir.callee_targets(self.p, fn) if fn.get("k") == "fn" else ():
                    self.callers.setdefault(t, []).append((b, bb, a))

    def no(self, why):
        self.why.append(why)
        return False

    def operand(self, b, i, o):
        pl = o.get("c") or o.get("m")
        if pl is not None:
            return self.place(b, i, pl)
        k = o.get("k")
        if k == "int":
            return o["v"] != "0" or self.no("zero in " + shorten(b.id))
        if k == "item":
            d = self.p.bodies.get(o["d"])
            if d is not None:
                return self.place(d, None, [0])
        return self.no("%s in %s" % (o.get("d") or o.get("v") or k, shorten(b.id)))

    def place(self, b, i, pl):
        if self.guarded(b, i, pl):
            return True
        f = [e for e in pl[1:] if e[0] == "f"]
        for e in reversed(f):
            _, n, name, owner = e.split("|", 3)
            if owner.startswith(("closure ", "coroutine ")) or owner in self.clos or "{closure" in owner.rsplit("::", 1)[-1]:
                return self.upvar(b, int(n))
            base = re.sub(r"::[A-Z]\w*$", "", owner)
            for adt, v in ((owner, None), (base, owner.rsplit("::", 1)[-1])):
                if re.search(r"^hive_router::config::|::config::", adt):
                    return self.no("%s.%s is whatever the configuration says" % (shorten(owner), name))
                if adt in self.made:
                    return self.field(adt, v, int(n), name)
        if f and pl[0] == 1 and b.kind in ("closure", "coroutine"):
            return self.upvar(b, int(f[0].split("|", 3)[1]))
        if f and not any(self.assigned(b, pl[0])):
            pass
        key = (b.id, pl[0])
        if key in self.busy:
            return True
        self.busy.add(key)
        hit = False
        for bi, kind, x in self.assigned(b, pl[0]):
            hit = True
            if not (self.rvalue(b, bi, x) if kind == "s" else self.result(b, bi, x)):
                return False
        if hit:
            return True
        if 1 <= pl[0] <= b.argc and b.kind == "fn":
            cs = self.callers.get(b.id, [])
            if not cs:
                return self.no("argument of %s, which nobody calls" % shorten(b.id))
            return all(self.operand(q, bb, a[pl[0] - 1]) for q, bb, a in cs)
        return self.no("unknown value in %s" % shorten(b.id))

    def assigned(self, b, l):
        for bi, blk in enumerate(b.bbs):
            if blk.get("cl"):
                continue
            for s in blk["s"]:
                if s[0] == "=" and s[1] == [l]:
                    yield bi, "s", s[2]
            x = blk["x"]
            if x[0] == "call" and x[3] == [l]:
                yield bi, "c", x

    def rvalue(self, b, i, rv):
        if rv[0] in ("use", "cast"):
            return self.operand(b, i, rv[1])
        if rv[0] in ("ref", "refm"):
            return self.place(b, i, rv[1])
        if rv[0] == "bin":
            op = rv[1]
            if op.startswith("Add"):
                n = len(self.why)
                r = self.operand(b, i, rv[2]) or self.operand(b, i, rv[3])
                if r:
                    del self.why[n:]
                return r
            if op.startswith(("Mul", "Shl", "BitOr")):
                return self.operand(b, i, rv[2]) and (not op.startswith("Mul") or self.operand(b, i, rv[3]))
        if rv[0] == "agg" and rv[1][0] in ("adt", "tuple"):
            return all(self.operand(b, i, o) for o in rv[2]) if rv[2] else self.no("nothing in " + shorten(b.id))
        return self.no("%s in %s" % (rv[0], shorten(b.id)))

    def result(self, b, i, x):
        fn, a = x[1], x[2]
        nm = names(fn) if fn.get("k") == "fn" else []
        is_ = lambda rx: any(re.search(rx, n) for n in nm)
        if is_(r"::(max|saturating_add|checked_add)$"):
            n = len(self.why)
            r = any(self.operand(b, i, o) for o in a)
            if r:
                del self.why[n:]
            return r
        if is_(r"::clamp$"):
            return self.operand(b, i, a[1])
        if is_(r"NonZero\S*::get$"):
            return True
        if is_(r"::(map_or|map_or_else)$") and len(a) == 3:
            return (self.operand(b, i, a[1]) if is_(r"::map_or$") else self.gives(b, a[1])) and self.gives(b, a[2])
        if is_(r"(Option|Result)<.*>::(map|and_then)$|(Option|Result)::<.*>::(map|and_then)$") and len(a) == 2:
            return self.gives(b, a[1])
        if is_(r"::unwrap_or_else$") and len(a) == 2:
            return self.operand(b, i, a[0]) and self.gives(b, a[1])
        tg = [t for t in ir.callee_targets(self.p, fn) if t in self.p.bodies] if fn.get("k") == "fn" else []
        if tg:
            return all(self.place(self.p.bodies[t], None, [0]) for t in tg)
        if is_(BOTH.pattern):
            return all(self.operand(b, i, o) for o in a)
        if is_(MADE.pattern):
            n = len(self.why)
            r = any(self.operand(b, i, o) for o in a)
            if r:
                del self.why[n:]
            return r
        if is_(SAME.pattern) and a:
            return self.operand(b, i, a[0])
        return self.no("%s in %s" % (nm[0] if nm else "a call", shorten(b.id)))

    def gives(self, b, o):
        """The function passed here never returns zero."""
        if o.get("k") in ("fn", "item") and re.search(r"NonZero\S*::get$", o.get("d") or ""):
            return True
        q = o.get("c") or o.get("m")
        cl = [rv[1][1] for _, k, rv in self.assigned(b, q[0]) if k == "s" and rv[0] == "agg" and rv[1][0] == "closure"] if q and len(q) == 1 else []
        cl += [d for d in [o.get("d")] if d in self.p.bodies]
        return all(self.place(self.p.bodies[d], None, [0]) for d in cl) if cl and all(d in self.p.bodies for d in cl) else self.no("a function in " + shorten(b.id))

    def field(self, adt, var, n, name):
        key = (adt, var, n)
        if key in self.busy:
            return True
        self.busy.add(key)
        got = [(b, i, ops[n]) for b, i, v, ops in self.made.get(adt, ()) if (var is None or v == var) and n < len(ops)]
        return all(self.operand(b, i, o) for b, i, o in got) if got else self.no("%s.%s is never made" % (shorten(adt), name))

    def upvar(self, b, n):
        key = ("up", b.id, n)
        if key in self.busy:
            return True
        self.busy.add(key)
        got = [(q, i, ops[n]) for q, i, ops in self.clos.get(b.id, ()) if n < len(ops)]
        return all(self.operand(q, i, o) for q, i, o in got) if got else self.no("captured value of " + shorten(b.id))

    def guarded(self, b, i, pl):
        """Block i is not reached where this place was found to be zero."""
        if i is None:
            return False
        eq = lambda o: (o.get("c") or o.get("m")) == pl or any(k == "s" and rv[0] == "use" and (rv[1].get("c") or rv[1].get("m")) == pl for q in [o.get("c") or o.get("m")] if q and len(q) == 1 for _, k, rv in self.assigned(b, q[0])) \
            or any(k == "s" and rv[0] == "ref" and rv[1] == pl for q in [o.get("c") or o.get("m")] if q and len(q) == 1 for _, k, rv in self.assigned(b, q[0]))
        zero = lambda o: o.get("k") == "int" and o["v"] == "0"
        for s, blk in enumerate(b.bbs):
            x = blk["x"]
            if blk.get("cl") or x[0] != "switch":
                continue
            cases, other, o = dict(x[2]), x[3], x[1]
            where = None
            if eq(o):
                where = cases.get("0")
            else:
                q = o.get("c") or o.get("m")
                for _, k, rv in self.assigned(b, q[0]) if q and len(q) == 1 else ():
                    if k == "s" and rv[0] == "bin" and (eq(rv[2]) and zero(rv[3]) or eq(rv[3]) and zero(rv[2])):
                        op = rv[1]
                        if op == "Eq":
                            where = other
                        elif op in ("Ne", "Gt", "Lt"):
                            where = cases.get("0")
                    elif k == "c" and any(re.search(r"Duration(::<.*>)?::is_zero$", n) for n in names(rv[1])) and rv[2] and eq(rv[2][0]):
                        where = other
            if where is None:
                continue
            seen, todo = set(), [where]
            while todo:
                z = todo.pop()
                if z in seen or z == s:
                    continue
                seen.add(z)
                todo += ir.succs(b.bbs[z])
            if i not in seen and self.after(b, s, i):
                return True
        return False

    def after(self, b, s, i):
        """Every way to block i passes block s."""
        seen, todo = set(), [0]
        while todo:
            z = todo.pop()
            if z in seen or z == s:
                continue
            seen.add(z)
            todo += ir.succs(b.bbs[z])
        return i not in seen


@prop("P40", "Backward slices from every primitive that refuses zero to where its size or interval comes from, element ownership of the channels that carry events, and branch feasibility of what happens to an event "
             "whose buffer is full or whose consumer is gone.")
def p40(c):
    Z = "a size or interval from the configuration never panics where it is used"
    seen = {}
    for b in c.p.bodies.values():
        if b.is_test() or not b.id.lstrip("<").startswith("hive_router::"):
            continue
        for bb, fn, a, dest, target, line in b.calls():
            r = [n for n in names(fn) if REFUSES.search(n)] if fn.get("k") == "fn" else []
            if not r or b.bbs[bb].get("cl"):
                continue
            o = a[-1] if re.search(r"interval_at$", r[0]) else a[0]
            s = Slice(c) if "s" not in seen else seen["s"]
            seen["s"] = s
            s.busy, s.why = set(), []
            ok = s.operand(b, bb, o)
            k = "positive-%s-%s" % (shorten(b.id), r[0].rsplit("::", 2)[-2] + "-" + r[0].rsplit("::", 1)[-1])
            n = seen[k] = seen.get(k, 0) + 1
            c.ob(k + ("" if n == 1 else "-%d" % n), ok, Z, "%s:%d" % (b.file, line), {"call": r[0], "followed": len(s.busy), **({} if ok else {"may be zero": s.why[-1] if s.why else "?"})})
    if len(seen) < 6:
        raise Anchor("channels and timers")
    # events only travel through bounded buffers
    B = "events only wait in buffers of bounded size"
    event = r"SubgraphResponse<|SubscriptionEvent|CallbackMessage|bytes::Bytes\b|response::value::Value\b"
    n = 0
    for b in c.p.bodies.values():
        if b.is_test() or not b.id.lstrip("<").startswith("hive_router::"):
            continue
        for bb, fn, a, dest, target, line in b.calls():
            if fn.get("k") != "fn" or not any(re.search(r"(^|::)unbounded(_channel)?$|^std::sync::mpsc::channel$", x) for x in names(fn)):
                continue
            n += 1
            ts = [b.ty(g)["s"] if isinstance(g, int) else str(g) for g in fn.get("g", ())]
            bad = [t for t in ts if re.search(event, t)]
            c.ob("bounded-%s-%d" % (shorten(b.id), n) if bad else "bounded-%d" % n, not bad, B, "%s:%d" % (b.file, line), {"carries": "; ".join(ts)[:120]})
    # full: dropped, and the subscription goes on; gone: told
    D = "an event that finds its buffer full is dropped and the subscription goes on"
    T = c.find(r"subscription_buffer::try_send_or_drop$")[0]
    try_ = r"mpsc::(\w+::)*Sender\S*(::)?(<.*>)?::try_send$"
    full = lambda k: [Assume("ret", try_, Err(variant("tokio::sync::mpsc::error::TrySendError", k, ((0, TOP),))))]
    out = {v: repr(("V", enum(c, "subscription_buffer::SendOutcome", v)[1], enum(c, "subscription_buffer::SendOutcome", v)[2])) for v in ("Sent", "Dropped", "Closed")}
    c.unreachable("full", D, T, full(0), [], control=False, ret_bad=lambda av: repr(av) != out["Dropped"])
    c.unreachable("gone", "a consumer that is gone is noticed", T, full(1), [], control=False, ret_bad=lambda av: repr(av) != out["Closed"])
    c.unreachable("sent", D, T, [Assume("ret", try_, Ok())], [], control=False, ret_bad=lambda av: repr(av) != out["Sent"])
    c.unreachable("try", "the source of events is never held up", T, [], [Sink("waits", r"mpsc::(\w+::)*Sender\S*(::)?(<.*>)?::(send|reserve|reserve_owned|blocking_send|send_timeout)$")], control=False)
    wait = re.compile(r"^tokio::sync::mpsc::(\w+::)*Sender\S*(::)?(<.*>)?::(send|blocking_send|send_timeout)$")
    for b in c.p.bodies.values():
        if b.is_test() or not b.id.lstrip("<").startswith("hive_router::"):
            continue
        for bb, fn, a, dest, target, line in b.calls():
            if fn.get("k") == "fn" and any(wait.search(x) for x in names(fn)):
                ts = [b.ty(g)["s"] if isinstance(g, int) else str(g) for g in fn.get("g", ())]
                bad = [t for t in ts if re.search(event, t)]
                if bad:
                    c.ob("waits-" + shorten(b.id), False, "the source of events is never held up", "%s:%d" % (b.file, line), {"carries": "; ".join(ts)[:120]})
    R = c.find(r"subscription_buffer::drain_into$")[0]
    item = lambda v: Assume("ret", r"StreamExt(>)?::next$|(stream|futures)\S*::(next|poll_next|try_next)$", v)
    put = r"subscription_buffer::try_send_or_drop$"
    shut = lambda v: Assume("ret", r"mpsc::(\w+::)*Sender\S*(::)?(<.*>)?::closed$", v)
    for k, v in (("dropped", "Dropped"), ("sent", "Sent")):
        I = c.interp(R, [item(("RF", Some())), shut(("RF", NEVER)), Assume("ret", put, enum(c, "subscription_buffer::SendOutcome", v))], [])
        c.ob("drain-" + k, I.result is BOT or I.result == ("RF", BOT), D, "%s:%d" % (R.file, R.line), {"ends": repr(I.result)[:60]})
    c.unreachable("drain-gone", "nothing more is read for a consumer that is gone", R, [item(("RF", Some())), shut(("RF", NEVER)), Assume("ret", put, enum(c, "subscription_buffer::SendOutcome", "Closed"))],
                  [Sink("reads", put, bad=("1",))], control=False, trans=[Trans(put, {"0": "1"}, site=True)])
