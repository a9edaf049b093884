"""Text that is not a constant reaches a JSON body or an event stream only in a form that keeps its structure."""
import json
import re
import ir
from registry import prop
from framework import Anchor, group, shorten
from absint import Assume, Sink, BOT, TOP, TRUE, FALSE, NONE, Some, join
from rules_auth import enum
from rules_state import names

WRITE = re.compile(r"BufMut::put(_slice|_bytes)?$")
MORE = re.compile(r"Vec(::)?<.*>::(extend_from_slice|push|append|extend)$|io::Write::(write_all|write|write_fmt)$|fmt::Write::\w+$|BytesMut\S*::(extend_from_slice|extend)$")
ESC = re.compile(r"json_writer::(write_and_escape_string|write_named_operation)$")
PASS = re.compile(r"::(as_bytes|deref|as_ref|as_mut|borrow|into|from|clone|cloned|copied|to_owned|to_vec|into_bytes|unwrap|expect|unwrap_or|branch|map_err|into_iter|iter|next|ok|as_deref|into_boxed_str|into_string|as_slice|get_or_insert|freeze|index)$|string::String::as_str$|Option\S*::(ok_or|ok_or_else)$")
SERIAL = re.compile(r"^(sonic_rs|serde_json)::(\w+::)*(to_vec|to_string|to_vec_pretty|to_string_pretty)$|^(itoa|ryu)::Buffer::format\w*$|Buffer::format(_finite)?$")
OPEN = re.compile(r"^(std|core|alloc)::|^$|^\(")
# Names and JSON text: what cannot contain a quote or is JSON already.
ALLOWED = re.compile(r"^hive_router::(executor::projection::plan::FieldProjectionPlan\.response_key|executor::response::value::Value::RawJson\.0|executor::executors::common::SubgraphExecutionRequest\.(variables|raw_variable_values|operation_name)"
                     r"|query_planner::ast::(\w+::)*\w+\.(name|alias))$")


class Text:
    """Where the text written by a call comes from."""

    def __init__(self, c, done=SERIAL, allowed=ALLOWED):
        self.c, self.p, self.done, self.allowed = c, c.p, done, allowed
        self.busy, self.why = set(), []
        self.callers, self.clos = {}, {}
        for b in self.p.bodies.values():
            if b.is_test():
                continue
            for blk in b.bbs:
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("closure", "coroutine"):
                        self.clos.setdefault(s[2][1][1], []).append((b, s[2][2]))
            for bb, fn, a, *_ in b.calls():
                for t in ir.callee_targets(self.p, fn) if fn.get("k") == "fn" else ():
                    self.callers.setdefault(t, []).append((b, a))

    def no(self, why):
        if why not in self.why:
            self.why.append(why)
        return False

    def operand(self, b, o):
        pl = o.get("c") or o.get("m")
        return True if pl is None else self.place(b, pl)

    def place(self, b, pl):
        for e in reversed([e for e in pl[1:] if e[0] == "f"]):
            _, n, name, owner = e.split("|", 3)
            if OPEN.search(owner):
                continue
            if "{closure" in owner.rsplit("::", 1)[-1] or owner.startswith(("closure ", "coroutine ")) or owner in self.clos:
                return self.upvar(b, int(n))
            return bool(self.allowed.search("%s.%s" % (owner, name))) or self.no("%s.%s" % (shorten(owner), name))
        if b.kind != "fn" and pl[0] == 1 and any(e[0] == "f" for e in pl[1:]):
            return self.upvar(b, int([e for e in pl[1:] if e[0] == "f"][0].split("|", 3)[1]))
        key = (b.id, pl[0])
        if key in self.busy:
            return True
        self.busy.add(key)
        hit, good = False, True
        for blk in b.bbs:
            if blk.get("cl"):
                continue
            for s in blk["s"]:
                if s[0] == "=" and s[1][0] == pl[0] and all(e == "*" for e in s[1][1:]):
                    hit = True
                    good = self.rvalue(b, s[2]) and good
            x = blk["x"]
            if x[0] == "call" and x[3] and x[3][0] == pl[0] and len(x[3]) == 1:
                hit = True
                good = self.result(b, x) and good
        if hit:
            return good
        if 1 <= pl[0] <= b.argc and b.kind == "fn":
            cs = self.callers.get(b.id, [])
            return all([self.operand(q, a[pl[0] - 1]) for q, a in cs]) if cs else self.no("an argument of %s, which nobody calls" % shorten(b.id))
        if b.kind == "closure" and 2 <= pl[0] <= b.argc:
            return self.element(b)
        return self.no("a value of " + shorten(b.id))

    def element(self, b):
        """The argument of a closure that is applied to the elements of something."""
        got = []
        for q, _ in self.clos.get(b.id, ()):
            held = {s[1][0] for blk in q.bbs for s in blk["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and s[2][1][1] == b.id and len(s[1]) == 1}
            for bb, fn, a, *_ in q.calls():
                if fn.get("k") == "fn" and any((o.get("m") or o.get("c") or [None])[0] in held for o in a[1:]) and any(re.search(r"^std::iter::|Option|Result|::iter::", n) for n in names(fn)):
                    got.append((q, a[0]))
        return all([self.operand(q, o) for q, o in got]) if got else self.no("an argument of " + shorten(b.id))

    def rvalue(self, b, rv):
        if rv[0] in ("use", "cast"):
            return self.operand(b, rv[1])
        if rv[0] in ("ref", "refm"):
            return self.place(b, rv[1])
        if rv[0] == "agg":
            return all([self.operand(b, o) for o in rv[2]])
        if rv[0] in ("discr", "bin", "un"):
            return True
        return self.no("%s in %s" % (rv[0], shorten(b.id)))

    def result(self, b, x):
        fn, a = x[1], x[2]
        nm = names(fn) if fn.get("k") == "fn" else []
        if any(self.done.search(n) for n in nm):
            return True
        if any(re.search(r"ToString::to_string$", n) for n in nm):
            t = " ".join(self.p.types[g] if isinstance(g, int) else str(g) for g in fn.get("g") or ())
            return bool(re.search(r"sonic_rs::\S*(Value|Number)|serde_json::\S*(Value|Number)|^[iu](8|16|32|64|128|size)$|^bool$", t)) or self.no("to_string of %s in %s" % (t or "something", shorten(b.id)))
        tg = [t for t in ir.callee_targets(self.p, fn) if t in self.p.bodies] if fn.get("k") == "fn" else []
        if tg:
            return all([self.place(self.p.bodies[t], [0]) for t in tg])
        if any(PASS.search(n) for n in nm) and a:
            return self.operand(b, a[0])
        return self.no("%s in %s" % (nm[0] if nm else "a call", shorten(b.id)))

    def upvar(self, b, n):
        key = ("up", b.id, n)
        if key in self.busy:
            return True
        self.busy.add(key)
        got = [(q, ops[n]) for q, ops in self.clos.get(b.id, ()) if n < len(ops)]
        return all([self.operand(q, o) for q, o in got]) if got else self.no("a captured value of " + shorten(b.id))


def written(b):
    for bb, fn, a, *r in b.calls():
        if fn.get("k") != "fn":
            continue
        nm = names(fn)
        if any(WRITE.search(n) for n in nm) and len(a) > 1:
            yield "put", a
        elif any(MORE.search(n) for n in nm) and len(a) > 1 and (a[0].get("c") or a[0].get("m")):
            yield "more", a


def buffer(c, b, o):
    pl = o.get("c") or o.get("m")
    return bool(re.search(r"Vec<u8|BytesMut", c.p.types[b.locals[pl[0]]] if isinstance(b.locals[pl[0]], int) else str(b.locals[pl[0]])))


@prop("P41", "Backward slice of every piece of text written to a JSON body or event stream, evaluation of the escape tables, and branch feasibility of the writers.")
def p41(c):
    stream = re.compile(r"^hive_router::pipeline::(sse|multipart_subscribe)::")
    n = 0
    for q in sorted(c.p.bodies):
        b = c.p.bodies[q]
        if b.is_test() or not q.startswith("hive_router::") and not q.startswith("<hive_router::"):
            continue
        ws = list(written(b))
        if not any(k == "put" for k, _ in ws) and not any(ESC.search(x) for _, fn, *_ in b.calls() if fn.get("k") == "fn" for x in names(fn)):
            continue
        if stream.search(q) and "multipart" in q:
            continue
        sse = bool(stream.search(q))
        t = Text(c, re.compile(r"impl str>::(split|lines|split_terminator|replace)$")) if sse else Text(c)
        bad = [w for k, a in ws if k == "put" or buffer(c, b, a[0]) for w in [not t.operand(b, a[1])] if w]
        n += len(ws)
        c.ob("%s-%s" % ("event" if sse else "raw", shorten(q)), not bad,
             "a response in an event stream cannot end the event early" if sse else "text that is written as it is cannot end the JSON string it is in", shorten(q),
             "%d of %d writes: %s" % (len(bad), len(ws), "; ".join(t.why[:4])))
        for e in [e for e in [b] if sse]:
            c.ob("event-lines-" + shorten(q), not sse or bool(ws), "every response of a subscription is written to its event", shorten(q), "%d writes" % len(ws))
    if n < 20:
        raise Anchor("writers of JSON")
    made = sorted({q for q, b in c.p.bodies.items() if not b.is_test() for blk in b.bbs for s in blk["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("response::value::Value") and s[2][1][3] == "RawJson"})
    if not made:
        raise Anchor("JSON text kept as it is")
    for q in made:
        b = c.p.bodies[q]
        t = Text(c, re.compile(r"LazyValue(::)?(<.*>)?::as_raw_\w+$|" + SERIAL.pattern), re.compile(r"response::value::Value::RawJson\.0$"))
        ok = all([t.operand(b, o) for blk in b.bbs for s in blk["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("response::value::Value") and s[2][1][3] == "RawJson" for o in s[2][2]])
        c.ob("json-" + shorten(q), ok, "what is kept as JSON text was read as JSON", shorten(q), "; ".join(t.why[:4]))
    # escaping
    def const(name):
        b = next((b for q, b in c.p.bodies.items() if q.endswith("json_writer::" + name)), None)
        if b is None:
            raise Anchor("no table " + name)
        made = {s[1][0]: s[2] for blk in b.bbs for s in blk["s"] if s[0] == "=" and len(s[1]) == 1}
        def val(o):
            if o.get("k"):
                return int(o["v"]) if o["k"] == "int" else o.get("v")
            pl = o.get("c") or o.get("m")
            rv = made[pl[0]]
            if rv[0] == "use":
                return val(rv[1])
            if rv[0] in ("ref",):
                return val({"c": rv[1]})
            if rv[0] == "agg":
                return [val(x) for x in rv[2]]
            if rv[0] == "repeat":
                raise Anchor(name)
            raise Anchor("%s: %s" % (name, rv[0]))
        return b, val({"c": [0]})
    need = lambda i: i < 0x20 or i in (0x22, 0x5c)
    b, tab = const("QUOTE_TAB")
    def right(i, e):
        if not need(i):
            return e[0] == 0
        try:
            return json.loads('"%s"' % e[1][:e[0]]) == chr(i)
        except ValueError:
            return False
    wrong = [i for i, e in enumerate(tab) if not right(i, e)]
    c.ob("escapes", len(tab) == 256 and not wrong, "every character that JSON does not allow in a string has its escape, and no other", shorten(b.id), "wrong: %s" % wrong[:6])
    b, flags = const("NEED_ESCAPED")
    wrong = [i for i, e in enumerate(flags) if bool(e) != need(i)]
    c.ob("escaped", len(flags) == 256 and not wrong, "every character that JSON does not allow in a string is escaped", shorten(b.id), "wrong: %s" % wrong[:6])
    for b in c.find(r"json_writer::(\w+::)*escaped_mask$"):
        splat, got, src = {}, set(), {}
        for blk in b.bbs:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "use") and len(s[1]) == 1:
                    pl = s[2][1] if s[2][0] == "ref" else (s[2][1].get("c") or s[2][1].get("m"))
                    if pl:
                        src[s[1][0]] = pl[0]
        def root(l):
            while l in src and l not in splat:
                l = src[l]
            return l
        for bb, fn, a, d, *_ in b.calls():
            nm = " ".join(names(fn)) if fn.get("k") == "fn" else ""
            m = re.search(r"Simd::(splat|le|lt|eq)\b", nm)
            if not m:
                continue
            if m[1] == "splat":
                splat[d[0]] = a[0].get("v")
            else:
                pl = a[1].get("c") or a[1].get("m")
                got.add((m[1], splat.get(root(pl[0])) if pl else None))
        joined = sum(1 for _, fn, *_ in b.calls() if fn.get("k") == "fn" and any(re.search(r"BitOr(>)?::bitor$|BitOrAssign", x) for x in names(fn)))
        ok = (("le", "31") in got or ("lt", "32") in got) and {("eq", "92"), ("eq", "34")} <= got and joined >= 2
        c.ob("mask-" + shorten(b.id), ok, "the fast path stops at every character that must be escaped", shorten(b.id), str(sorted(got, key=str)))
    F = c.find(r"json_writer::write_f64$")[0]
    for n, nan, inf in (("nan", TRUE, FALSE), ("infinite", FALSE, TRUE)):
        c.unreachable("finite-" + n, "a number that JSON cannot express is not written as one", F, group("kind", Assume("ret", r"f64>?::is_finite$", FALSE), Assume("ret", r"f64>?::is_nan$", nan), Assume("ret", r"f64>?::is_infinite$", inf)),
                      [Sink("number", r"Buffer(::)?(<.*>)?::format\w*$")])
    R = c.find(r"projection::request::project_requires$")[0]
    val = lambda v, *f: ("R", enum(c, "response::value::Value", v, *f))
    c.each("null-items", "a null item of a list stays in the entity's representation", R, r"slice::Iter<.*value::Value<", r"BufMut::put(_slice)?$", args=[TOP, TOP, val("Array", TOP), TOP, TOP, TOP],
           assumes=[Assume("ret", r"^std::iter::Iterator::next$", join(NONE, Some(val("Null"))), gtype=r"slice::Iter<.*value::Value<", where=r"project_requires$")], early=False, fix=True)
    N = c.find(r"json_writer::write_and_escape_string$")[0]
    c.ob("escape-all", any(re.search(r"json_writer::format_string$", x) for _, fn, *_ in N.calls() if fn.get("k") == "fn" for x in names(fn)), "strings are written through the escaping writer", shorten(N.id), "")
