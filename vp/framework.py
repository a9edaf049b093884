"""Obligations, evidence, known findings and the command-line protocol of one check."""
import json, os, re, sys, time, traceback
import build, ir
from absint import EACH, Interp, Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Some

VERIF = build.VERIF


class Anchor(Exception):
    """Something the rule needs to find in the code is gone: the property cannot be shown any more."""


class Ctx:
    def __init__(self, prog, pid):
        self.p = prog
        self.pid = pid
        self.obl = []         # dicts: key, ok, text, where, detail
        self.assumptions = []
        self.samples = []
        self.stats = {"functions_analysed": set(), "call_sites_analysed": 0, "abstract_steps": 0}

    # ---- results ----
    def ob(self, key, ok, text, where="", detail=None):
        self.obl.append({"key": key, "ok": bool(ok), "text": text, "where": where, "detail": detail})
        return ok

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ---- anchors ----
    def fns(self, suffix):
        """Functions whose path ends with suffix on a :: boundary."""
        out = [b for b in self.p.bodies.values() if b.kind == "fn" and (b.id == suffix or b.id.endswith("::" + suffix)) and not b.is_test()]
        return out

    def fn(self, suffix):
        m = self.fns(suffix)
        if len(m) != 1:
            raise Anchor("expected exactly one function `%s`, found %d" % (suffix, len(m)))
        return m[0]

    def adt(self, suffix):
        m = self.p.adt(suffix)
        if len(m) != 1:
            raise Anchor("expected exactly one type `%s`, found %d" % (suffix, len(m)))
        return m[0]

    def find(self, pattern):
        m = [b for b in self.p.bodies.values() if b.kind == "fn" and re.search(pattern, b.id) and not b.is_test()]
        if not m:
            raise Anchor("no function matches /%s/" % pattern)
        return m

    def variant_index(self, adt_suffix, name):
        a = self.adt(adt_suffix)
        for i, (n, _) in enumerate(a["variants"]):
            if n == name:
                return i
        raise Anchor("type %s has no variant %s" % (adt_suffix, name))

    # ---- assumption-based reachability ----
    def interp(self, entry, assumes=(), sinks=(), trans=(), args=None, start="0", **kw):
        I = Interp(self.p, assumes, sinks, trans=trans, start=start, **kw)
        b = entry if isinstance(entry, ir.Body) else self.fn(entry)
        I.result = I.run(b.id, args)
        self.stats["functions_analysed"] |= I.visited
        self.stats["call_sites_analysed"] += I.calls_seen
        self.stats["abstract_steps"] += I.steps
        return I

    def unreachable(self, key, text, entry, assumes, sinks, control=True, trans=(), base=(), need_hits=True, args=None,
                    ret_bad=None, exit_bad=None, need_trans=True, start="0", **kw):
        """Under `assumes` (on top of `base`), no sink may be reached from `entry`; without them it can be (control).
        `ret_bad(av)`: additionally the value returned by entry must not satisfy it.
        `exit_bad(av, state)`: ... in an automaton state reached at the end."""
        ent = entry if isinstance(entry, ir.Body) else self.fn(entry)
        if control:
            ctl = self.interp(ent, [clone_assume(a) for a in base], [clone_sink(s) for s in sinks], args=None if control == "noargs" else args,
                              trans=[clone_trans(t) for t in trans] if trans and control == "trans" else (), **kw)
            names = {e[0] for e in ctl.events}
            missing = {s.name for s in sinks} - names
            if sinks and len(missing) == len({s.name for s in sinks}):
                raise Anchor("%s: control run reaches none of the sinks %s from %s" % (key, sorted(missing), ent.id))
            if ret_bad is not None and not sinks and not ret_bad(ctl.result):
                raise Anchor("%s: control run does not show the result the rule forbids (%s)" % (key, ent.id))
        I = self.interp(ent, list(base) + list(assumes), sinks, trans=trans, args=args, start=start, **kw)
        if need_hits:
            more = [s for a in assumes if not a.hits and not getattr(a, "group", None) for s in synonyms(a)]
            if more:
                # the code may ask the same question in another way
                assumes = [clone_assume(a) for a in assumes] + more
                sinks, trans = [clone_sink(s, bad=True) for s in sinks], [clone_trans(t) for t in trans]
                for a in assumes:
                    if any(s.of is not None and s.of == a.pat for s in more):
                        a.group = a.group or "synonyms of " + a.pat
                I = self.interp(ent, list(base) + list(assumes), sinks, trans=trans, args=args, start=start, **kw)
        if need_hits:
            groups = {}
            for n, a in enumerate(assumes):
                groups.setdefault(getattr(a, "group", None) or n, []).append(a)
            for g in groups.values():
                # An assumption that never applies only makes the analysed set of paths larger, so a holding obligation
                # still holds.  Without a control run, though, an inapplicable assumption could mean a vanished anchor.
                if control is False and not any(a.hits for a in g) or not any(a.hits for a in assumes):
                    raise Anchor("%s: assumption never applies (%s %s) from %s" % (key, g[0].kind, g[0].pat, ent.id))
        if need_trans:
            for t in trans:
                if t.hits == 0:
                    raise Anchor("%s: no call matches transition /%s/ from %s" % (key, (t.fieldre or t.adtre or t.re).pattern, ent.id))
        sites = {}
        for (name, site, callee), (chain, line) in I.events.items():
            sites.setdefault((name, site), []).append((callee, chain, line))
        bad = False
        for (name, site), evs in sites.items():
            callee, chain, line = evs[0]
            bad = True
            self.ob("%s|%s|%s" % (key, name, shorten(root_id(self.p, site))), False, text,
                    where="%s:%s" % (self.p.bodies[site].file, line),
                    detail={"sink": callee, "path": ["%s:%d" % (shorten(c[0]), c[1]) for c in chain]})
        if ret_bad is not None and ret_bad(I.result):
            bad = True
            self.ob("%s|return|%s" % (key, shorten(ent.id)), False, text, where="%s:%d" % (ent.file, ent.line),
                    detail={"returns": repr(I.result)[:300]})
        if exit_bad is not None:
            for g, r in I.final_split.items():
                for st in g:
                    if r is not BOT and exit_bad(r, st):
                        if not bad:
                            self.ob("%s|exit|%s" % (key, shorten(ent.id)), False, text, where="%s:%d" % (ent.file, ent.line),
                                    detail={"returns": repr(r)[:200], "state": st})
                        bad = True
        if not bad:
            self.ob(key, True, text, where="%s:%d" % (ent.file, ent.line),
                    detail={"entry": shorten(ent.id), "functions": len(I.visited), "call_sites": I.calls_seen,
                            "assumption_hits": [a.hits for a in assumes], "passing_sink_sites": len(I.ok_sinks)})
        return I

    def each(self, key, text, entry, elem, call, assumes=(), early=True, args=None, where=None, gtype=None, adt=None, fix=False, partial=None):
        """Every element (type matching `elem`) that `entry` iterates over reaches `call` before the next one is taken,
        and (early) the iteration does not stop before the iterator is exhausted."""
        ent = entry if isinstance(entry, ir.Body) else self.fn(entry)
        mk = lambda: [Trans(r"^std::iter::Iterator::next$|^std::iter::DoubleEndedIterator::next_back$", {"0": "1", "1": "BAD"}, gtype=elem, where=where),
                      Trans(EACH.pattern, {"*": "1"}, gtype=elem, pre=True, where=where),
                      Trans(EACH.pattern, {"1": "BAD"}, gtype=elem, where=where),
                      Trans(call, {"1": "0"}, gtype=gtype, adt=adt, site=True)]
        tr = mk()
        I = self.interp(ent, list(assumes), [], trans=tr, args=args, each=elem, fix=fix)
        if not (tr[0].hits or tr[1].hits):
            raise Anchor("%s: %s iterates over no %s" % (key, shorten(ent.id), elem))
        if not tr[3].hits:
            self.ob(key, False, text, "%s:%d" % (ent.file, ent.line), {"reason": "the call is gone", "call": call})
            return I
        ok, why = "BAD" not in I.final, "an element can be skipped"
        for s in sorted(lossy_iterations(self.p, I.visited, elem, where)):
            if self.keeps(s, assumes):
                continue
            if not (partial and re.search(partial, s)):
                ok, why = False, "the iteration leaves elements out: " + s
        if ok and early and tr[0].hits:
            nx = Assume("ret", r"^std::iter::Iterator::next$|^std::iter::DoubleEndedIterator::next_back$", Some(), gtype=elem, where=where)
            J = self.interp(ent, list(assumes) + [nx], [], args=args, fix=fix)
            ok, why = not early(J.result) if callable(early) else J.result is BOT, "the iteration can stop early"
        self.ob(key, ok, text, "%s:%d" % (ent.file, ent.line),
                {"entry": shorten(ent.id), "element": elem, "call": call, "functions": len(I.visited), **({} if ok else {"reason": why})})
        return I


    def keeps(self, ty, assumes):
        """The one adaptor that may leave elements out is a filter whose closure, as assumed, refuses none."""
        m = re.match(r".*\{closure@([^:]+):(\d+):", ty)
        if len(PARTIAL.findall(ty)) != 1 or "Filter<" not in ty or ty.count("{closure@") != 1 or m is None:
            return False
        f = [b for b in self.p.bodies.values() if b.kind == "closure" and b.file.endswith(m[1]) and b.line == int(m[2])]
        return len(f) == 1 and self.interp(f[0], [clone_assume(a) for a in assumes], []).result == TRUE


PARTIAL = re.compile(r"\biter::(adapters::\w+::)?(Take|Skip|StepBy|TakeWhile|SkipWhile|MapWhile|Filter|FilterMap)<")
GATHER = re.compile(r"Extend(<.*>)?(>)?::extend$|Iterator::collect$|FromIterator(<.*>)?(>)?::from_iter$")
NEXT = re.compile(r"^std::iter::Iterator::next$|^std::iter::DoubleEndedIterator::next_back$")


def lossy_iterations(p, visited, elem, where):
    r, out = re.compile(elem), set()
    for i in visited:
        b = p.bodies.get(i)
        if b is None or where and not re.search(where, b.id):
            continue
        for _, fn, *_ in b.calls():
            d, _r = ir.fnref(fn)
            if d and (NEXT.search(d) or EACH.search(d) or GATHER.search(d)):
                for g in fn.get("g", ()):
                    t = b.ty(g)["s"] if isinstance(g, int) else str(g)
                    if r.search(t) and PARTIAL.search(t):
                        out.add(t)
    return out


def clone_assume(a):
    b = Assume(a.kind, a.pat, a.av, a.note, a.where, a.gtype, a.argpred, a.enter)
    b.group = getattr(a, "group", None)
    return b


def group(name, *assumes):
    """Alternatives: the rule needs at least one of them to apply."""
    for a in assumes:
        a.group = name
    return list(assumes)


def nonempty(elem, where=None):
    """The collection whose element type matches `elem` is known to be non-empty, however the code asks."""
    k = dict(gtype=elem, where=where)
    col = r"(Vec|slice|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|IndexSet|SmallVec|\[)[^:]*.*::"
    return group("nonempty " + elem,
                 Assume("ret", col + r"is_empty$", FALSE, **k), Assume("ret", col + r"len$", ("K", "3"), **k),
                 Assume("ret", col + r"(first|last|first_mut|last_mut|pop|get_first)$", Some(), **k))


def empty(elem, where=None):
    k = dict(gtype=elem, where=where)
    col = r"(Vec|slice|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|IndexSet|SmallVec|\[)[^:]*.*::"
    return group("empty " + elem,
                 Assume("ret", col + r"is_empty$", TRUE, **k), Assume("ret", col + r"len$", ("K", "0"), **k),
                 Assume("ret", col + r"(first|last|first_mut|last_mut|pop|get_first)$", NONE, **k))


def synonyms(a):
    """Other ways to ask the question whose answer `a` fixes."""
    if a.kind != "ret" or a.av is BOT:
        return []
    out = []

    def add(old, new, av, pat=None):
        b = clone_assume(a)
        b.pat, b.av, b.hits = pat or re.sub(re.escape(old) + r"$", new, a.pat), av, 0
        b.re = re.compile(b.pat)
        b.of, b.group = a.pat, "synonyms of " + a.pat
        out.append(b)

    yes = a.av == TRUE
    if a.av in (TRUE, FALSE):
        if a.pat.endswith("is_empty$"):
            add("is_empty$", "len$", ("K", "0" if yes else "3"))
            add("is_empty$", "(first|last|first_mut|last_mut)$", NONE if yes else Some())
        elif a.pat.endswith("::contains_key$"):
            add("contains_key$", "(get|get_mut|get_key_value)$", Some() if yes else NONE)
        elif a.pat.endswith("::contains$") and a.where:
            add("", "", a.av, pat=r"^std::iter::Iterator::any$")
        elif a.pat.endswith("::eq$"):
            add("eq$", "ne$", FALSE if yes else TRUE)
        elif a.pat.endswith("::ne$"):
            add("ne$", "eq$", FALSE if yes else TRUE)
    elif "Map" in a.pat and a.pat.endswith("::get$") and a.av[0] == "V" and len(a.av[2]) == 1:
        add("get$", "contains_key$", TRUE if a.av != NONE else FALSE)
        add("get$", "(get_mut|get_key_value)$", a.av)
    return out


def clone_sink(s, bad=False):
    n = Sink(s.name)
    n.__dict__.update(s.__dict__)
    if not bad:
        n.bad = None
    return n


def clone_trans(t):
    n = Trans("x", {})
    n.__dict__.update(t.__dict__)
    n.hits = 0
    return n


def root_id(p, id):
    b = p.bodies.get(id)
    return p.root_of(b).id if b is not None else id


def shorten(s):
    return s.replace("hive_router::", "").replace("hive_console_sdk::", "sdk::")


def where(b, line=None):
    return "%s:%d" % (b.file, line or b.line)


# ---- known findings ----
def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        out = json.load(open(path))
    return out


def run_check(pid, fn, meta):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    facts, info = build.ensure()
    prog = ir.Program(facts)
    ctx = Ctx(prog, pid)
    try:
        fn(ctx)
    except Anchor as a:
        ctx.ob("anchor|" + re.sub(r"\d+", "N", str(a))[:160], False, "the rule no longer finds what it analyses, so the property is not shown: %s" % a)
    except Exception as e:   # the analysis could not cope with this shape of code: fail closed, with a report
        import traceback
        traceback.print_exc()
        ctx.ob("internal|%s" % type(e).__name__, False, "the analysis could not be completed, so the property is not shown: %r" % e)
    viol = [o for o in ctx.obl if not o["ok"]]
    known = [k for k in known_findings() if k.get("property") == pid and not k.get("fixed")]
    kkeys = {k["key"]: k for k in known}
    new = [o for o in viol if o["key"] not in kkeys]
    old = [o for o in viol if o["key"] in kkeys]
    good = [o for o in ctx.obl if o["ok"]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": meta["explain"],
            "obligations": len(ctx.obl), "discharged": len(good),
            "functions_analysed": len(ctx.stats["functions_analysed"]),
            "call_sites_analysed": ctx.stats["call_sites_analysed"],
            "abstract_steps": ctx.stats["abstract_steps"],
            "rules": [{"rule": o["key"], "holds": o["ok"], "states": o["text"], "at": o["where"], "detail": o["detail"]} for o in ctx.obl][:400],
            "samples": ctx.samples[:40],
            "source_hash": info["source_hash"],
            "facts": {"bodies": len(prog.bodies), "types": len(prog.adts)},
        },
        "assumptions": ctx.assumptions,
        "violations": len(new),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d known, %d violated (%d functions, %d call sites, %.1fs)" % (
        pid, len(ctx.obl), len(good), len(old), len(new), len(ctx.stats["functions_analysed"]), ctx.stats["call_sites_analysed"], time.time() - t0))
    for o in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kkeys[o["key"]].get("what", o["text"])))
    if new:
        rep = os.path.join("evidence", pid + ".violations.json")
        with open(os.path.join(VERIF, rep), "w") as f:
            json.dump(new, f, indent=1)
        for o in new:
            print("  violated: %s\n    rule: %s\n    at: %s\n    %s" % (o["key"], o["text"], o["where"], json.dumps(o["detail"])[:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if not ctx.obl:
        print("VIOLATION property=%s replay=none (no obligations were generated)" % pid)
        return 1
    return 0
