"""Request values: variables; callback subscriptions."""
import re
from registry import prop
from framework import Anchor, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, strip
from rules_pipeline import may
from rules_auth import okay, tystr, enum
from rules_access import callers
from rules_state import makers, names, ends

VALUE = ["Null", "Bool", "Number", "String", "Array", "Object"]      # sonic_rs::ValueRef
VALIDATE = r"variables::validate_runtime_value$"
COERCE = r"coerce_variables::coerce_request_variables$"


def value(kind):
    return variant("sonic_rs::ValueRef", VALUE.index(kind), ((0, TOP),) if kind != "Null" else ())


@prop("P28", "Branch feasibility of variable coercion, evaluated for every combination of declared type and kind of value: a value that does not fit never yields a coerced value, "
             "and after a failed coercion nothing is planned or executed; coverage of all declared variables.")
def p28(c):
    V = c.find(VALIDATE)[0]
    ty = "supergraph_state::TypeNode"
    num = lambda v: group("number", *[Assume("ret", r"::is_%s$" % k, v, where=r"::variables::") for k in ("i64", "u64", "f64")])
    plain = lambda: [Assume("ret", r"HashMap::<.*>::(get|contains_key)$", NONE, where=r"variables::validate_runtime_value")]
    named = lambda n: enum(c, ty, "Named", ("K", "s:" + n))
    forbid = {"String": ["Bool", "Number", "Array", "Object"], "ID": ["Bool", "Array", "Object"], "Int": ["Bool", "String", "Array", "Object"],
              "Float": ["Bool", "String", "Array", "Object"], "Boolean": ["Number", "String", "Array", "Object"]}
    for n, kinds in sorted(forbid.items()):
        for k in kinds:
            c.unreachable("kind|%s|%s" % (n, k), "a value of another kind is not accepted for a scalar type", V, plain(), [], control=False, args=[value(k), ("R", named(n)), TOP], ret_bad=okay)
    for n in ("Int", "Float"):
        c.unreachable("number|" + n, "a number that the type cannot represent is not accepted", V, plain() + num(FALSE), [], control=False, args=[value("Number"), ("R", named(n)), TOP], ret_bad=okay)
    tyn = "NonNull"
    c.unreachable("null", "null is not accepted where the type is non-null", V, [], [], control=False, need_hits=False, args=[value("Null"), ("R", enum(c, ty, tyn)), TOP], ret_bad=okay)
    isenum = lambda: Assume("ret", r"HashMap::<.*>::get$", Some(), where=r"variables::validate_runtime_value", gtype=r"HashSet<")
    for k in ("Bool", "Number", "Array", "Object"):
        c.unreachable("enum|" + k, "only names are accepted for an enum", V, [isenum()], [], control=False, args=[value(k), ("R", enum(c, ty, "Named")), TOP], ret_bad=okay)
    c.unreachable("enum|unknown", "a value that the enum does not have is not accepted", V, [isenum()] + group("known", Assume("ret", r"HashSet::<.*>::contains$", FALSE, where=r"::variables::"), Assume("ret", r"HashSet::<.*>::get$", NONE, where=r"::variables::"),
                                                                                                                Assume("ret", r"Iterator(>)?::any$", FALSE, where=r"::variables::")), [], control=False,
                  args=[value("String"), ("R", enum(c, ty, "Named")), TOP], ret_bad=okay)
    inner = Assume("ret", VALIDATE, Err())
    for w in ("NonNull", "List"):
        for k in VALUE[1:]:
            if w == "List" and k == "Array":
                continue
            c.unreachable("inside|%s|%s" % (w, k), "a wrapped type is checked by the type inside it", V, [Assume("ret", VALIDATE, Err())], [], control=False, args=[value(k), ("R", enum(c, ty, w)), TOP], ret_bad=okay)
    c.unreachable("item-null", "an item that does not fit is not accepted", V, [Assume("ret", VALIDATE, Err()), Assume("ret", r"^std::iter::Iterator::next$", Some())], [], control=False,
                  args=[value("Array"), ("R", enum(c, ty, "List")), TOP], ret_bad=okay)
    c.each("items", "every item of a list is checked", V, r"sonic_rs::Value", VALIDATE, args=[value("Array"), ("R", enum(c, ty, "List")), TOP], early=okay)
    # all declared variables
    C = c.find(r"variables::collect_variables$")[0]
    owner = [b for b in c.p.family(C.id) if any(re.search(VALIDATE, x) for _, fn, *_ in b.calls() for x in names(fn))]
    if not owner:
        owner = [b for b in c.p.bodies.values() if "::variables::" in b.id and b.id != V.id and not b.is_test() and any(re.search(VALIDATE, x) for _, fn, *_ in b.calls() for x in names(fn))]
    if not owner:
        raise Anchor("nothing validates the value of a variable")
    absent = lambda: Assume("ret", r"HashMap::<.*>::(remove|get|remove_entry|get_mut)$", NONE, where=r"::variables::")
    given = lambda: Assume("ret", r"HashMap::<.*>::(remove|get|remove_entry|get_mut)$", Some(), where=r"::variables::")
    dflt = lambda v: Assume("field", "VariableDefinition.default_value", v)
    for b in owner:
        loop = b.id == C.id or b.kind == "fn"
        bad = okay
        nx = [Assume("ret", r"^std::iter::Iterator::next$", Some())] if loop else []
        if b.id == C.id:
            nx.append(Assume("field", "OperationDefinition.variable_definitions", Some()))
        lost = [b.id] if loop else []
        for k, a in (("given", [given()]), ("default", [absent(), dflt(Some())])):
            c.unreachable("checked-" + k, "no value is accepted for a variable without fitting its declared type", b, a + [Assume("ret", VALIDATE, Err())] + nx, [], control=False, ret_bad=bad)
            c.unreachable("always-" + k, "every value of a variable is checked", b, a + [Assume("ret", VALIDATE, BOT)] + nx, [], control=False, ret_bad=bad)
        c.unreachable("missing", "a required variable that is missing is an error", b, [absent(), dflt(NONE), Assume("ret", r"TypeNode::is_non_null$", TRUE)] + nx, [], control=False, ret_bad=bad)
        if not loop:
            c.unreachable("missing-collected", "one variable that does not fit fails the coercion", C, [Assume("field", "OperationDefinition.variable_definitions", Some()), Assume("ret", r"^std::iter::Iterator::(collect|try_collect|try_fold|try_for_each)$", Err(), where=r"collect_variables$")], [], control=False, ret_bad=okay)
    c.each("all", "every declared variable is coerced", C, r"VariableDefinition", r"HashMap::<.*>::(remove|get|remove_entry|get_mut)$", early=False, where=r"::variables::")
    nn = c.find(r"TypeNode::is_non_null$")[0]
    c.unreachable("non-null", "a non-null type counts as required", nn, [], [], control=False, need_hits=False, args=[("R", enum(c, ty, "NonNull"))], ret_bad=lambda av: strip(av) != TRUE)
    # nothing happens after a failure
    R = c.find(COERCE)[0]
    c.unreachable("failed", "a coercion that failed yields no variables", R, [Assume("ret", r"variables::collect_variables$", Err())], [], ret_bad=okay)
    c.unreachable("skipped", "no request gets its variables without coercion", R, [Assume("ret", r"variables::collect_variables$", BOT)], [], ret_bad=okay)
    makers(c, "payload", "coerced variables come from nowhere else", r"execution::plan::CoerceVariablesPayload::CoerceVariablesPayload", {r"coerce_variables::coerce_request_variables$", r"CoerceVariablesPayload as std::(clone::Clone>::clone|default::Default>::default)$"})
    use = [b for b in c.p.bodies.values() if not b.is_test() and b.kind not in ("const", "promoted") for _, fn, *_ in b.calls()
           if any(re.search(r"default$", x) for x in names(fn)) and any(re.search(r"CoerceVariablesPayload\b", b.ty(g)["s"]) for g in fn.get("g", ()) if isinstance(g, int))]
    c.ob("payload-default", not use, "no request runs with made-up variables", use[0].file if use else "", {"default used in": [shorten(b.id) for b in use]})
    E = c.find(r"pipeline::execute_planned_request$")[0]
    run = lambda: [Sink("plan", r"query_plan::plan_operation_with_cache$"), Sink("run", r"execution::execute_plan$")]
    for n, v in (("failed", Err()), ("must", BOT)):
        c.unreachable("before-" + n, "nothing is planned or executed unless the variables were coerced", E, [Assume("ret", COERCE, v)], run())


def outlives(c, key, text, maker, b, ty, call):
    """A value of type `ty` is moved into coroutine `b` by `maker` and never dropped there before a later `call`."""
    from ir import succs
    tre = re.compile(ty)
    owned = lambda body, o: isinstance(o, dict) and "m" in o and len(o["m"]) == 1 and tre.search(body.local_ty(o["m"][0])["s"]) and not body.local_ty(o["m"][0]).get("r")
    caps = [o for m in [maker] for _, s in m.stmts() if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("coroutine", "closure") and s[2][1][1] == b.id for o in s[2][2]]
    held = [o for o in caps if owned(maker, o)]
    hot = {i for i, fn, *_ in b.calls() if any(re.search(call, x) for x in names(fn))}
    if not hot:
        raise Anchor("%s: %s is never called" % (key, call))
    def reaches(i):
        seen, todo = set(), list(succs(b.bbs[i]))
        while todo:
            k = todo.pop()
            if k in seen or b.bbs[k].get("cl"):
                continue
            seen.add(k)
            if k in hot:
                return True
            todo += succs(b.bbs[k])
        return False
    early = []
    for i, blk in enumerate(b.bbs):
        if blk.get("cl"):
            continue
        x = blk["x"]
        gone = x[0] == "drop" and len(x[1]) == 1 and tre.search(b.local_ty(x[1][0])["s"]) and not b.local_ty(x[1][0]).get("r")
        gone = gone or x[0] == "call" and any(owned(b, a) for a in x[2])
        if gone and reaches(i):
            early.append(i)
    c.ob(key, bool(held) and not early, text, "%s:%d" % (b.file, b.line), {"moved into the coroutine": len(held), "given up early": len(early), "calls": len(hot)})


SEND = r"subscription_buffer::try_send_or_drop$|mpsc::\S*Sender\S*(::)?(<.*>)?::(try_send|send|blocking_send|send_timeout|reserve|try_reserve)$"
DROPPED = r"DashMap\S*(::)?(<.*>)?::(remove|remove_if|remove_if_mut|clear|retain)$"
BEAT = r"CallbackSubscription::record_heartbeat$"


@prop("P29", "Branch feasibility of the callback endpoint for every kind of bad message (no effect is reachable) and every action (its effect is unavoidable), typestate of the registration of a "
             "subscription (what was registered is guarded on every way out), and of the enforcer of heartbeats.")
def p29(c):
    H = c.find(r"http_callback::handler$")[0]
    eff = lambda: [Sink("deliver", SEND), Sink("remove", DROPPED, where=r"http_callback::"), Sink("heartbeat", BEAT)]
    S = lambda s: ("K", "s:" + s)
    look = lambda v: Assume("ret", r"DashMap\S*(::)?(<.*>)?::get(_mut)?$", v, where=r"http_callback::")
    same = lambda: [Assume("field", "CallbackPayload.verifier", S("v")), Assume("field", "CallbackSubscription.verifier", S("v"))]
    differ = lambda: [Assume("field", "CallbackPayload.verifier", S("v")), Assume("field", "CallbackSubscription.verifier", S("w"))]
    bad = lambda k, text, a: (c.unreachable(k, text, H, a, eff()), c.unreachable(k + "-answer", text, H, a, [], ret_bad=okay))
    bad("protocol", "a message whose protocol header is missing has no effect", [Assume("ret", r"HeaderMap\S*(::)?(<.*>)?::get$", NONE)])
    bad("protocol-text", "a message whose protocol header is not text has no effect", [Assume("ret", r"HeaderValue::to_str$", Err())])
    bad("protocol-value", "a message of another protocol has no effect", [Assume("ret", r"HeaderMap\S*(::)?(<.*>)?::get$", Some()), Assume("ret", r"HeaderValue::to_str$", Ok(S("callback/0.9")))])
    bad("parse", "a message that cannot be parsed has no effect", [Assume("ret", r"^sonic_rs::(\w+::)*from_(slice|str|slice_unchecked|reader)$", Err())])
    bad("unknown", "a message for an unknown subscription has no effect", [look(NONE)])
    bad("verifier", "a message with the wrong verifier has no effect", [look(Some())] + differ())
    I = [Assume("field", "CallbackPayload.id", S("a"))]
    V = c.find(r"http_callback::validate_payload$")
    if V and V[0].argc == 2:
        c.unreachable("id", "a message whose id differs from the one it was sent to has no effect", V[0], I, [], args=[TOP, S("b")], ret_bad=okay)
        for n, v in (("failed", Err()), ("must", BOT)):
            bad("id-" + n, "a message whose id was not checked has no effect", [Assume("ret", r"http_callback::validate_payload$", v)])
    else:
        bad("id", "a message whose id differs from the one it was sent to has no effect", I + [Assume("ret", r"Path(<.*>)?(::<.*>)?::into_inner$", S("b"))])
    act = lambda n: Assume("field", "CallbackPayload.action", enum(c, "http_callback::CallbackAction", n))
    hit = lambda n: [look(Some()), act(n)] + same()
    must = lambda key, text, n, extra, pat, step="X", **k: c.unreachable(key, text, H, hit(n) + extra, [], control=False, trans=[Trans(pat, {"0": step}, **k)], exit_bad=lambda av, s: okay(av) and s != step)
    must("check", "a check is recorded as a sign of life", "Check", [], BEAT)
    c.unreachable("check-only", "a check neither delivers nor ends anything", H, hit("Check"), [s for s in eff() if s.name != "heartbeat"])
    data = lambda v: Assume("field", "CallbackPayload.payload", v)
    c.unreachable("next-empty", "an event without payload is refused", H, hit("Next") + [data(NONE)], eff(), ret_bad=okay)
    must("next", "an event that is accepted is delivered", "Next", [], r"subscription_buffer::try_send_or_drop$")
    out = lambda n: Assume("ret", r"subscription_buffer::try_send_or_drop$", enum(c, "subscription_buffer::SendOutcome", n))
    for n in ("Sent", "Dropped"):
        c.unreachable("next-keeps-" + n, "an event does not end its subscription", H, hit("Next") + [out(n)], [Sink("remove", DROPPED, where=r"http_callback::")])
    c.unreachable("next-closed", "a subscription without a reader is removed and the subgraph is told", H, hit("Next") + [data(Some()), out("Closed")], [], control=False,
                  trans=[Trans(r"subscription_buffer::try_send_or_drop$", {"0": "S"}), Trans(DROPPED, {"S": "X"}, where=r"http_callback::")], exit_bad=lambda av, s: s == "S" or okay(av))
    must("complete", "a completed subscription is removed", "Complete", [], DROPPED, where=r"http_callback::")
    must("complete-told", "the reader of a completed subscription is told", "Complete", [], r"mpsc::\S*Sender\S*(::)?(<.*>)?::(try_send|send)$")
    T = c.find(r"subscription_buffer::try_send_or_drop$")[0]
    c.unreachable("sent", "an event counts as delivered only if the channel took it", T, [Assume("ret", r"mpsc::\S*Sender\S*(::)?(<.*>)?::try_send$", Err())], [],
                  ret_bad=lambda av: strip(av)[0] != "V" or any(i == c.variant_index("subscription_buffer::SendOutcome", "Sent") for i, _ in strip(av)[2]))
    B = c.find(BEAT)[0]
    c.unreachable("beat", "a sign of life updates the time of the last one", B, [], [], control=False, trans=[Trans(r"Instant::now$", {"0": "N"}), Trans(None, {"N": "W"}, adt=r"Option::Some$")], exit_bad=lambda av, s: s != "W")
    callers(c, "who-delivers", "only the callback endpoint and the enforcer act on registered subscriptions", BEAT, {r"http_callback::(handler|handle_check)$"})
    # registration
    E = c.find(r"HttpCallbackSubgraphExecutor as .*SubgraphExecutor>::subscribe$")[0]
    put, grd = r"DashMap\S*(::)?(<.*>)?::insert$", r"http_callback::CallbackSubscriptionGuard::CallbackSubscriptionGuard$"
    E = next((b for b in c.p.family(E.id) if b.kind == "coroutine" and any(re.search(put, x) for _, fn, *_ in b.calls() for x in names(fn))), E)
    c.unreachable("registered-first", "the subscription is known before the subgraph is asked, so no callback can come too early", E, [Assume("ret", put, BOT, where=r"http_callback::")], [Sink("ask", r"Client(::)?(<.*>)?::request$")])
    c.unreachable("guarded", "a registered subscription is removed on every way out, including failure and cancellation", E, [], [], control=False,
                  trans=[Trans(put, {"0": "I"}, where=r"http_callback::"), Trans(None, {"I": "G", "0": "G"}, adt=grd)], exit_bad=lambda av, s: s == "I")
    c.unreachable("guarded-await", "nothing is awaited while a registered subscription is not guarded", E, [], [Sink("ask", r"Client(::)?(<.*>)?::request$", bad=("I",))], control=False,
                  trans=[Trans(put, {"0": "I"}, where=r"http_callback::"), Trans(None, {"I": "G", "0": "G"}, adt=grd)])
    c.unreachable("refused", "a subscription that the subgraph refuses is an error", E, [Assume("ret", r"StatusCode::is_success$", FALSE)], [], ret_bad=okay)
    for n, a in (("failed", [Assume("ret", r"Client(::)?(<.*>)?::request$", ("RF", Err()))]),):
        c.unreachable("unreachable-" + n, "a subscription whose request fails is an error", E, a, [], ret_bad=okay)
    D = c.find(r"CallbackSubscriptionGuard as .*Drop>::drop$")[0]
    c.unreachable("guard", "the guard removes the subscription", D, [], [], control=False, trans=[Trans(DROPPED, {"0": "X"})], exit_bad=lambda av, s: s != "X")
    makers(c, "registered-by", "subscriptions are registered nowhere else", r"http_callback::CallbackSubscription::CallbackSubscription", {r"HttpCallbackSubgraphExecutor as .*subscribe$", r"CallbackSubscription as .*Clone>::clone$"})
    rx = r"mpsc::\S*Receiver\S*(::)?(<.*>)?::recv$"
    st = [b for b in c.p.family(c.p.root_of(E).id) if b.kind == "coroutine" and b.id != E.id and any(re.search(rx, x) for _, fn, *_ in b.calls() for x in names(fn))]
    if len(st) != 1:
        raise Anchor("the stream of a callback subscription")
    st = st[0]
    msg = lambda n: Some(enum(c, "http_callback::CallbackMessage", n))
    c.unreachable("stream-complete", "a subscription the subgraph completed ends", st, [Assume("ret", rx, msg("Complete"))], [], control=False, trans=[Trans(rx, {"0": "1", "1": "2"})], exit_bad=lambda av, s: s == "2")
    I2 = c.interp(st, [Assume("ret", rx, msg("Complete"))], [])
    c.ob("stream-complete-ends", I2.result is not BOT, "a subscription the subgraph completed ends", "%s:%d" % (st.file, st.line), {"functions": len(I2.visited)})
    I2 = c.interp(st, [Assume("ret", rx, NONE)], [])
    c.ob("stream-closed", I2.result is not BOT, "a subscription whose registration is gone ends", "%s:%d" % (st.file, st.line), {"functions": len(I2.visited)})
    ends(c, "stream-goes-on", "an event does not end the subscription", st, [Assume("ret", rx, msg("Next")), Assume("ret", r"SubgraphResponse\S*::deserialize_from_bytes$", Ok())])
    outlives(c, "stream-guard", "the subscription stays registered while its stream is read", E, st, r"CallbackSubscriptionGuard", rx)
    # enforcer
    K = c.find(r"CallbackHeartbeatEnforcerTask as .*::run$")[0]
    alive = lambda: [Assume("ret", r"CancellationToken::cancelled$", BOT)]
    ends(c, "enforcer", "heartbeats are enforced as long as the router runs", K, alive())
    W = r"CallbackHeartbeatEnforcerTask"
    fam = c.p.family(K.id)
    has_call = lambda b, pat: any(re.search(pat, x) for _, fn, *_ in b.calls() for x in names(fn))
    cmp_, add = r"PartialOrd(<.*>)?(::|>::)(gt|ge|lt|le)$", r"Vec(::)?(<.*>)?::push$"
    span = r"Duration"
    late = lambda v: group("late", Assume("ret", r"PartialOrd(<.*>)?(::|>::)(gt|lt)$", v, where=W, gtype=span), Assume("ret", r"PartialOrd(<.*>)?(::|>::)(ge|le)$", FALSE if v == TRUE else TRUE, where=W, gtype=span))
    test = [b for b in fam if any(any(re.search(cmp_, x) for x in names(fn)) and any(span in b.ty(g)["s"] for g in fn.get("g", ()) if isinstance(g, int)) for _, fn, *_ in b.calls())]
    if len(test) != 1:
        raise Anchor("the enforcer compares the time since the last sign of life")
    if has_call(test[0], add):
        c.unreachable("enforcer-in-time", "a subscription that gave a sign of life in time is not ended", K, alive() + late(FALSE), [Sink("expire", add, where=W)])
        c.unreachable("enforcer-late", "a subscription without sign of life is ended", K, alive() + late(TRUE), [Sink("skipped", r"Iterator(>)?::next$", where=W, bad=("L",))], control=False,
                      trans=[Trans(cmp_, {"0": "L"}, where=W, gtype=span), Trans(add, {"L": "0"}, where=W)])
        ent = dict(where=W, gtype=r"dashmap::")
        c.unreachable("enforcer-all", "every subscription has to give signs of life", K, alive() + [Assume("ret", r"^std::iter::Iterator::next$", Some(), **ent)], [Sink("exempt", r"Iterator(>)?::next$", bad=("N",), **ent)], control=False,
                      trans=[Trans(r"^std::iter::Iterator::next$", {"0": "N"}, **ent), Trans(cmp_, {"N": "0"}, where=W, gtype=span)])
    else:
        c.unreachable("enforcer-in-time", "a subscription that gave a sign of life in time is not ended", test[0], late(FALSE), [], ret_bad=lambda av: strip(av) not in (FALSE, NONE))
        c.unreachable("enforcer-late", "a subscription without sign of life is ended", test[0], late(TRUE), [], ret_bad=lambda av: strip(av) == FALSE or may(av, ("None",)))
    each = dict(where=W, gtype=r"IntoIter<std::string::String|Drain<.*std::string::String")
    c.unreachable("enforcer-ends", "an expired subscription is removed", K, alive() + [Assume("ret", r"^std::iter::Iterator::next$", Some(), **each)], [Sink("kept", r"Iterator(>)?::next$", bad=("N",), **each)], control=False,
                  trans=[Trans(r"^std::iter::Iterator::next$", {"0": "N"}, **each), Trans(DROPPED, {"N": "0"}, where=W)])
    c.unreachable("enforcer-tells", "the reader of an expired subscription is told", K, alive() + [Assume("ret", DROPPED, Some(), where=W)], [Sink("silent", r"Iterator(>)?::next$", where=W, bad=("R", "C"))], control=False,
                  trans=[Trans(DROPPED, {"0": "R"}, where=W), Trans(None, {"R": "C"}, adt=r"CallbackMessage::Complete$"), Trans(r"mpsc::\S*Sender\S*(::)?(<.*>)?::(try_send|send)$", {"C": "0"}, where=W)])
