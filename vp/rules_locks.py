"""Locks: which guards are alive where, what may be locked below a call, and in which order."""
import re
from collections import defaultdict
from registry import prop
from framework import Anchor, shorten
from ir import fnref, callee_targets, operands_of_rvalue, succs

GUARDS = [
    (r"^std::sync::(poison::)?(mutex::)?MutexGuard$", "Mutex", "x"),
    (r"^std::sync::(poison::)?(rwlock::)?RwLockReadGuard$", "RwLock", "s"),
    (r"^std::sync::(poison::)?(rwlock::)?RwLockWriteGuard$", "RwLock", "x"),
    (r"^std::sync::.*Mapped(Mutex|RwLock\w+)Guard$", "Mutex", "x"),
    (r"^(lock_api|parking_lot)::.*(Mutex|Write)Guard$", "Mutex", "x"),
    (r"^(lock_api|parking_lot)::.*ReadGuard$", "RwLock", "s"),
    (r"^std::cell::RefMut$", "RefCell", "x"),
    (r"^std::cell::Ref$", "RefCell", "s"),
    (r"^dashmap::mapref::(one|multiple)::(Mapped)?Ref(Multi)?$", "DashMap", "s"),
    (r"^dashmap::mapref::(one|multiple)::(Mapped)?RefMut(Multi)?$", "DashMap", "x"),
    (r"^dashmap::(mapref::entry::)?(Entry|OccupiedEntry|VacantEntry)$", "DashMap", "x"),
    (r"^dashmap::iter(_set)?::Iter$", "DashMap", "s"),
    (r"^dashmap::iter::IterMut$", "DashMap", "x"),
    (r"^tokio::sync::(\w+::)*(Owned)?(Mapped)?MutexGuard$", "async Mutex", "x"),
    (r"^tokio::sync::(\w+::)*(Owned)?RwLockReadGuard$", "async RwLock", "s"),
    (r"^tokio::sync::(\w+::)*(Owned)?RwLock(Mapped)?WriteGuard$|^tokio::sync::(\w+::)*RwLockMappedWriteGuard$", "async RwLock", "x"),
]
GUARDS = [(re.compile(r), k, m) for r, k, m in GUARDS]
TRANSPARENT = re.compile(r"^(std::(option|result|ops|task|boxed|pin|iter|vec|sync::poison|sync|collections)::|tuple$|slice$|array$|core::|futures)")
MAP_X = re.compile(r"::(insert|remove|remove_if|remove_if_mut|retain|clear|entry|try_entry|get_mut|try_get_mut|iter_mut|alter|alter_all|shrink_to_fit|extend|drain|swap)$")
MAP_ANY = re.compile(r"^(<)?dashmap::(DashMap|DashSet|ReadOnlyView)(::)?(<.*>)?( as .*>)?::(\w+)$")
CELL_X = re.compile(r"^std::cell::RefCell::<.*>::(replace|replace_with|swap|take|set)$")
FREE = re.compile(r"::(new|with_capacity|with_hasher|with_hasher_and_shard_amount|with_capacity_and_hasher|with_shard_amount|default|into_iter|hasher|shards|into_read_only|into_inner|clone_from|get_mut_unchecked)$")
FUT = re.compile(r"^tokio::sync::(\w+::)*(Mutex|RwLock)(::)?<.*>::(lock|read|write|lock_owned|read_owned|write_owned|blocking_lock|blocking_read|blocking_write)$")
SYNC_KINDS = ("Mutex", "RwLock", "RefCell", "DashMap")


class Locks:
    def __init__(self, p):
        self.p = p
        self.guard_memo = {}
        self.drop_memo = {}
        self.drops = {}
        for im in p.impls:
            if im["trait"] == "std::ops::Drop":
                for it in im["items"]:
                    if it in p.bodies:
                        b = p.bodies[it]
                        self.drops[b.local_ty(1)["h"]] = it
        self.info = {}
        self.defs = {}
        self.under = {}
        self.given = []
        self.acquires = 0
        self.sites = 0

    # -- types --
    def name(self, types, i, depth=0):
        t = types[i]
        h = t["h"]
        if depth > 4:
            return "_"
        if h.split("::")[0] in ("hive_router", "graphql_tools", "hive_console_sdk") or not t["a"]:
            return h
        return h + "<" + ",".join(self.name(types, a, depth + 1) for a in t["a"][:2]) + ">"

    def guards(self, types, i, seen=()):
        """Guards owned by a value of this type: {(kind, protected, mode)}."""
        t = types[i]
        if t["r"]:
            return frozenset()
        key = (id(types), i)
        if key in self.guard_memo:
            return self.guard_memo[key]
        if key in seen:
            return frozenset()
        out = set()
        for r, k, m in GUARDS:
            if r.match(t["h"]):
                n = 2 if k == "DashMap" else 1
                out.add((k, ",".join(self.name(types, a) for a in t["a"][:n]), m, None))
                break
        else:
            a = self.p.adts.get(t["h"])
            if a is not None:
                for v in a["variants"]:
                    for f in v[1]:
                        out |= self.guards(a["types"], f[1], seen + (key,))
            if a is None or t["a"]:
                if not t["h"].startswith(("alias", "dyn", "fndef", "closure", "std::marker::")):
                    for x in t["a"]:
                        out |= self.guards(types, x, seen + (key,))
        out = frozenset(out)
        if not seen:
            self.guard_memo[key] = out
        return out

    def dropped(self, types, i, seen=()):
        """Drop implementations that run when a value of this type is dropped."""
        t = types[i]
        if t["r"]:
            return frozenset()
        key = (id(types), i)
        if key in self.drop_memo:
            return self.drop_memo[key]
        if key in seen or len(seen) > 12:
            return frozenset()
        out = set()
        if t["h"] in self.drops:
            out.add(self.drops[t["h"]])
        a = self.p.adts.get(t["h"])
        if a is not None:
            for v in a["variants"]:
                for f in v[1]:
                    out |= self.dropped(a["types"], f[1], seen + (key,))
        if not t["h"].startswith(("alias", "dyn", "fndef", "closure", "std::marker::", "std::sync::Weak")):
            for x in t["a"]:
                out |= self.dropped(types, x, seen + (key,))
        out = frozenset(out)
        if not seen:
            self.drop_memo[key] = out
        return out

    # -- one body --
    def acquired(self, b, fn, args, dest):
        """Locks that a call outside the workspace takes by itself."""
        d, r = fnref(fn)
        if d is None:
            return set()
        pl = (args[0].get("c") or args[0].get("m")) if args else None
        f = self.field(b, pl[0]) if pl and len(pl) == 1 else None
        return {(k, n, m, f) for k, n, m, _ in self.taken(b, d, args, dest)}

    def field(self, b, l):
        """The struct field that directly holds the lock a reference points to."""
        if b.id not in self.defs:
            m = {}
            for _, s in b.stmts():
                if s[0] == "=" and len(s[1]) == 1:
                    m.setdefault(s[1][0], []).append(s[2])
            for _, fn, args, dest, _, _ in b.calls():
                if dest and len(dest) == 1:
                    m.setdefault(dest[0], []).append(("call", fnref(fn)[0], args))
            self.defs[b.id] = m
        for _ in range(8):
            ds = self.defs[b.id].get(l, [])
            if len(ds) != 1:
                return None
            rv = ds[0]
            if rv[0] in ("ref", "refm"):
                pl = rv[1]
            elif rv[0] in ("use", "cast") and (rv[1].get("c") or rv[1].get("m")):
                pl = rv[1].get("c") or rv[1].get("m")
            elif rv[0] == "call" and rv[1] and rv[1].endswith("Deref::deref") and rv[2]:
                pl = rv[2][0].get("c") or rv[2][0].get("m")
                if pl is None or b.ty(b.locals[pl[0]][0])["h"] == "std::sync::Arc":
                    return None
            else:
                return None
            for e in reversed(pl[1:]):
                if e[0] == "f":
                    _, _, n, o = e.split("|", 3)
                    a = self.p.adts.get(o)
                    if a is None:
                        if o.startswith("closure") or "{closure" in o:
                            return None
                        return None
                    for v in a["variants"]:
                        for fl in v[1]:
                            if fl[0] == n and re.search(r"^(std::sync|std::cell|tokio::sync|dashmap|parking_lot).*(Mutex|RwLock|RefCell|DashMap|DashSet)$", a["types"][fl[1]]["h"]):
                                return o + "." + n
                    return None
            l = pl[0]
        return None

    def taken(self, b, d, args, dest):
        out = set()
        if MAP_ANY.match(d) or d.startswith("dashmap::DashMap"):
            if not FREE.search(d) and args:
                pl = args[0].get("c") or args[0].get("m")
                if pl is not None:
                    t = b.ty(b.locals[pl[0]][0])
                    if t["h"] in ("dashmap::DashMap", "dashmap::DashSet"):
                        out.add(("DashMap", ",".join(self.name(b.types, a) for a in t["a"][:2]), "x" if MAP_X.search(d) else "s", None))
        if CELL_X.match(d) and args:
            pl = args[0].get("c") or args[0].get("m")
            if pl is not None:
                t = b.ty(b.locals[pl[0]][0])
                if t["h"] == "std::cell::RefCell":
                    out.add(("RefCell", self.name(b.types, t["a"][0]), "x", None))
        if FUT.match(d) and args:
            pl = args[0].get("c") or args[0].get("m")
            if pl is not None:
                t = b.ty(b.locals[pl[0]][0])
                if t["a"] and t["h"].startswith("tokio::sync"):
                    out.add(("async Mutex" if "Mutex" in t["h"] else "async RwLock", self.name(b.types, t["a"][0]), "s" if "read" in d.rsplit("::", 1)[1] else "x", None))
        if dest and len(dest) == 1:
            got = self.guards(b.types, b.locals[dest[0]][0])
            got = {g for g in got if not g[0].startswith("async")}
            if got and not any(self.mentions(b, a) for a in args):
                out |= got
        return out

    def mentions(self, b, a):
        pl = a.get("c") or a.get("m")
        if pl is None:
            return False
        t = dict(b.ty(b.locals[pl[0]][0]))
        return self.any_guard(b.types, b.locals[pl[0]][0])

    def any_guard(self, types, i, depth=0):
        t = types[i]
        if any(r.match(t["h"]) for r, _, _ in GUARDS):
            return True
        return depth < 5 and any(self.any_guard(types, a, depth + 1) for a in t["a"])

    def scan(self, b):
        """Dataflow of live guards; returns direct acquisitions and events (line, held, what, targets)."""
        if b.id in self.info:
            return self.info[b.id]
        tys = b.types
        own = [self.guards(tys, l[0]) for l in b.locals]
        events, direct, yields = [], set(), []
        targets_all, coros, generic = set(), set(), set()
        start = {}
        for l in range(1, b.argc + 1):
            if own[l]:
                start[l] = own[l]
        state = {0: start}
        todo = [0]
        record = {}
        n = 0
        while todo:
            i = todo.pop()
            n += 1
            if n > 20000:
                raise RuntimeError("guards of %s do not converge" % b.id)
            blk = b.bbs[i]
            if blk.get("cl"):
                continue
            st = dict(state[i])
            evs = []
            disc = {}

            def take(op):
                pl = op.get("m")
                if pl is None:
                    return frozenset()
                if len(pl) == 1:
                    return st.pop(pl[0], frozenset())
                g = st.get(pl[0], frozenset())
                if g:
                    # a guard is moved out of a part of the value: what stays behind holds no guard any more
                    st.pop(pl[0], None)
                return g
            for s in blk["s"]:
                if s[0] == "dead":
                    st.pop(s[1], None)
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if rv[0] == "discr" and len(rv[1]) == 1:
                    disc[pl[0]] = rv[1][0]
                if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine"):
                    (coros if rv[1][0] == "coroutine" or self.is_coro(rv[1][1]) else targets_all).add(rv[1][1])
                    if st and rv[1][0] == "closure" and not self.is_coro(rv[1][1]):
                        evs.append((s[3] if len(s) > 3 else b.line, dict(st), set(), {rv[1][1]}, "closure", False))
                got = frozenset()
                for o in operands_of_rvalue(rv):
                    got |= take(o)
                    if o.get("k") == "fn":
                        for t in callee_targets(self.p, o):
                            targets_all.add(t)
                if got:
                    st[pl[0]] = st.get(pl[0], frozenset()) | got
                elif len(pl) == 1 and rv[0] not in ("discr",):
                    st.pop(pl[0], None)
            x = blk["x"]
            nxt = succs(blk)
            out = {}
            if x[0] == "call":
                fn, args, dest, target, line = x[1], x[2], x[3], x[4], x[6]
                moved = frozenset()
                for a in args:
                    moved |= take(a)
                d, r = fnref(fn)
                ts = set(callee_targets(self.p, fn)) if d else set()
                for a in args:
                    if a.get("k") == "fn":
                        ts |= set(callee_targets(self.p, a))
                    pl = a.get("c") or a.get("m")
                    if pl is not None:
                        h = tys[b.locals[pl[0]][0]]["h"]
                        if h.startswith("closure ") and not self.is_coro(h[8:]) and h[8:] in self.p.bodies:
                            ts.add(h[8:])
                if d == "std::mem::drop" or d and d.endswith("::mem::drop"):
                    pl = args[0].get("m") or args[0].get("c")
                    if pl:
                        ts |= set(self.dropped(tys, b.locals[pl[0]][0]))
                asyncs = {t for t in ts if self.is_async(t)}
                coros |= asyncs
                acq = set() if any(t in self.p.bodies for t in ts - asyncs) and d in self.p.bodies else self.acquired(b, fn, args, dest)
                direct |= acq
                (generic if fn.get("u") and not fn.get("dyn") else targets_all).update(ts - asyncs)
                held = frozenset(g for gs in st.values() for g in gs)
                if re.search(r"ops::(FnOnce|FnMut|Fn)::call(_once|_mut)?$", d or "") and held and not (ts - asyncs):
                    self.under.setdefault(b.id, set()).update(held)
                evs.append((line, dict(st), acq, ts, r or d or "fn value", self.closed(tys, b, args)))
                run = {t for t in ts if self.p.bodies[t].kind == "closure" and not self.takes_guard(t)} if ts else set()
                if run and d not in self.p.bodies and r not in self.p.bodies and (moved or acq):
                    evs.append((line, {-1: moved | frozenset(acq)}, set(), run, r or d or "fn value", False))
                for t in ts:
                    if run and t not in run and self.p.bodies[t].kind == "fn":
                        self.given.append((b.id, line, t, frozenset(run)))
                if dest:
                    g = frozenset()
                    if len(dest) == 1:
                        g = own[dest[0]]
                        if g and moved:
                            g = moved
                        elif g:
                            k = frozenset(x for x in acq if x[0] in {y[0] for y in g})
                            g = k or g
                        st.pop(dest[0], None)
                        if g:
                            st[dest[0]] = g
                    else:
                        g = own[dest[0]]
                        if moved:
                            st[dest[0]] = st.get(dest[0], frozenset()) | moved
            elif x[0] == "drop":
                pl = x[1]
                ds = self.dropped(tys, b.locals[pl[0]][0]) if len(pl) == 1 else frozenset()
                if len(pl) == 1:
                    st.pop(pl[0], None)
                if ds:
                    targets_all |= ds
                    evs.append((x[-1] if isinstance(x[-1], int) and len(x) > 4 else b.line, dict(st), set(), set(ds), "drop", False))
            elif x[0] == "yield":
                yields_here = {l: {g for g in gs if g[0] in SYNC_KINDS} for l, gs in st.items()}
                record[("y", i)] = {l: g for l, g in yields_here.items() if g}
            record[("e", i)] = evs
            for k in nxt:
                s2 = dict(st)
                if x[0] == "switch":
                    pl = x[1].get("m") or x[1].get("c")
                    l = disc.get(pl[0]) if pl else None
                    if l is not None and s2.get(l):
                        vals = [v for v, t in x[2] if t == k]
                        if k != x[3] and vals:
                            left = self.payload(tys, b.locals[l][0], [int(v) for v in vals])
                        else:
                            left = self.payload(tys, b.locals[l][0], None, [int(v) for v, t in x[2]])
                        if left is not None and not left:
                            s2.pop(l)
                old = state.get(k)
                if old is None:
                    state[k] = s2
                    todo.append(k)
                else:
                    new = dict(old)
                    for l, g in s2.items():
                        new[l] = new.get(l, frozenset()) | g
                    if new != old:
                        state[k] = new
                        todo.append(k)
        for (k, i), v in record.items():
            if k == "e":
                events += [e for e in v]
            elif v:
                yields.append((b.bbs[i]["x"], v))
        self.info[b.id] = (direct, targets_all, coros, events, yields, generic)
        return self.info[b.id]

    def closed(self, types, b, args):
        """The receiver is a generic type over types from outside the workspace only: its calls on a type parameter
        cannot come back into the workspace."""
        pl = (args[0].get("c") or args[0].get("m")) if args else None
        if not pl:
            return False
        t = types[b.locals[pl[0]][0]]

        def foreign(i):
            x = types[i]
            return "::" in x["h"] and not x["h"].startswith(("hive_router::", "graphql_tools::", "hive_console_sdk::", "dyn", "alias", "closure", "fndef")) and all(foreign(a) for a in x["a"])
        return bool(t["a"]) and t["h"] in self.p.adts and all(foreign(a) for a in t["a"])

    def payload(self, types, i, variants, but=None):
        """Guards in the given variants of Option / Result / ControlFlow / Poll; None when the type is another one."""
        t = types[i]
        a = t["a"]
        m = {"std::option::Option": {0: [], 1: a[:1]}, "std::result::Result": {0: a[:1], 1: a[1:2]}, "std::ops::ControlFlow": {0: a[1:2], 1: a[:1]},
             "std::task::Poll": {0: a[:1], 1: []}}.get(t["h"])
        if m is None or t["r"]:
            return None
        out = set()
        for v, ts in m.items():
            if variants is not None and v in variants or variants is None and v not in but:
                for x in ts:
                    out |= self.guards(types, x)
        return out

    def takes_guard(self, id):
        b = self.p.bodies[id]
        return any(self.guards(b.types, b.locals[l][0]) for l in range(1, b.argc + 1))

    def is_coro(self, id):
        b = self.p.bodies.get(id)
        if b is None:
            return False
        return any(blk["x"][0] == "yield" for blk in b.bbs) or b.is_async or b.kind == "coroutine"

    def is_async(self, id):
        b = self.p.bodies.get(id)
        return b is not None and b.is_async

    def summaries(self):
        """Locks a function may take while it runs: without / with the futures it creates."""
        todo = [b for b in self.p.bodies.values() if b.kind not in ("const", "promoted") and not b.is_test()]
        direct, edges, cedges, nedges = {}, defaultdict(set), defaultdict(set), defaultdict(set)
        for b in todo:
            d, ts, co, _, _, ge = self.scan(b)
            direct[b.id] = set(d)
            for t in ts:
                nedges[t].add(b.id)
            for t in ts | ge:
                if t in self.p.bodies:
                    edges[t].add(b.id)
            for t in ts | ge | co:
                if t in self.p.bodies:
                    cedges[t].add(b.id)

        def close(es):
            s = {k: set(v) for k, v in direct.items()}
            work = [k for k, v in s.items() if v]
            while work:
                k = work.pop()
                for up in es.get(k, ()):
                    if up in s and not s[k] <= s[up]:
                        s[up] |= s[k]
                        work.append(up)
            return s
        return close(edges), close(cedges), close(nedges)


def conflict(h, a):
    return h[:2] == a[:2] and (h[3] is None or a[3] is None or h[3] == a[3]) and not (h[2] == a[2] == "s" and h[0] in ("RefCell", "DashMap"))


@prop("P30", "Forward dataflow of live guards over the MIR of every function (before drop elaboration), transitive summaries of the locks a call may take, and cycle detection in the lock order: "
             "no blocking guard is alive at an await, nothing is locked again by the task that holds it, and locks are taken in one order.")
def p30(c):
    L = Locks(c.p)
    sync, full, plain = L.summaries()
    for i, line, t, run in L.given:
        if t in L.under:
            L.info[i][3].append((line, {-1: frozenset(L.under[t])}, set(), set(run), t, False))
    held_sites, bodies, waits = 0, 0, 0
    orders = {}
    for i in sorted(L.info):
        direct, ts, co, events, yields, ge = L.info[i]
        b = c.p.bodies[i]
        root = shorten(c.p.root_of(b).id)
        bodies += 1
        waits += sum(1 for blk in b.bbs if blk["x"][0] == "yield")
        seen = set()
        if direct:
            c.stats["functions_analysed"].add(i)
        for x, g in yields:
            for h in sorted({y[:2] for s in g.values() for y in s}):
                k = "await|%s|%s" % (root, h[0] + " of " + shorten(h[1])[:120])
                if k not in seen:
                    seen.add(k)
                    c.ob(k, False, "no blocking lock, map reference or borrow is held while waiting", "%s:%s" % (b.file, x[-1] if isinstance(x[-1], int) else b.line), {"held": h})
        for line, st, acq, targets, what, closed in events:
            held = {g for s in st.values() for g in s}
            if not held:
                continue
            held_sites += 1
            for h in sorted(held, key=str):
                got = set(acq)
                for t in targets:
                    got |= (full if h[0].startswith("async") else plain if closed else sync).get(t, set())
                for a in sorted(got, key=str):
                    if conflict(h, a):
                        k = "again|%s|%s" % (root, h[0] + " of " + shorten(h[1])[:120])
                        if k not in seen:
                            seen.add(k)
                            c.ob(k, False, "a lock, map or cell is not taken again by the task that already holds it", "%s:%s" % (b.file, line), {"held": h, "taken by": what, "again": a})
                    elif h[0] != "RefCell" and a[0] != "RefCell" and h[:2] != a[:2]:
                        orders.setdefault((h[:2], a[:2]), []).append("%s:%s %s" % (b.file, line, what))
    c.stats["call_sites_analysed"] += held_sites
    kinds = sorted({g[0] for d in sync.values() for g in d} | {g[0] for d in full.values() for g in d})
    for k in ("Mutex", "RwLock", "RefCell", "DashMap", "async Mutex", "async RwLock"):
        if k not in kinds:
            raise Anchor("no %s is ever locked" % k)
    if held_sites < 100 or waits < 100:
        raise Anchor("the dataflow sees %d calls under a lock and %d awaits" % (held_sites, waits))
    c.ob("await", not any(o["key"].startswith("await|") for o in c.obl), "no blocking lock, map reference or borrow is held while waiting", "", {"functions": bodies, "awaits": waits, "lock kinds": kinds})
    c.ob("again", not any(o["key"].startswith("again|") for o in c.obl), "a lock, map or cell is not taken again by the task that already holds it", "", {"calls under a lock": held_sites})
    succ = defaultdict(set)
    for h, a in orders:
        succ[h].add(a)

    def reaches(x, y):
        seen, todo = set(), [x]
        while todo:
            for n in succ[todo.pop()]:
                if n == y:
                    return True
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        return False
    for (h, a), at in sorted(orders.items()):
        c.ob("order|%s of %s|%s of %s" % (h[0], shorten(h[1])[:100], a[0], shorten(a[1])[:100]), not reaches(a, h), "two locks held together are always taken in the same order", at[0].split(" ")[0], {"sites": at[:3]})
    c.assume("Locks are told apart by the data they protect (and by the struct field that holds them, when it is not shared through an Arc).")
