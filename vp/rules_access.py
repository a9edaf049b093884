"""Who may run what: methods, persisted documents, introspection, subscriptions, JWT, authorization, demand control."""
import re
from registry import prop
from framework import Anchor, nonempty, empty, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, OVER, EQUAL
from rules_pipeline import may, HTTP, WS, EXEC, exec_sinks, ERR

OPK = "hive_router::query_planner::state::supergraph_state::OperationKind"
INBOUND = r"InFlight\w*(::<.*>)?::claim$"


def kind(c, name):
    return Some(variant(c.adt("state::supergraph_state::OperationKind")["id"], c.variant_index("state::supergraph_state::OperationKind", name)))


def op_kind(c, name):
    return Assume("field", "OperationDefinition.operation_kind", kind(c, name))


def method_is(yes):
    return group("method", Assume("ret", r"PartialEq(<.*>)?(::|>::)eq$", TRUE if yes else FALSE, gtype=r"\bMethod$"),
                 Assume("ret", r"PartialEq(<.*>)?(::|>::)ne$", FALSE if yes else TRUE, gtype=r"\bMethod$"))


@prop("P04", "Branch feasibility of the HTTP handler for 'the method is GET' and 'the normalized operation is a mutation': no path reaches planning or execution.")
def p04(c):
    c.unreachable("get-mutation", "a mutation sent with GET is never planned or executed", HTTP, [op_kind(c, "Mutation")] + method_is(True),
                  [Sink("plan", r"plan_operation_with_cache$", stop=True)] + exec_sinks())
    c.unreachable("get-query", "a query sent with GET is not refused for its method", HTTP, [op_kind(c, "Query")] + method_is(True),
                  [Sink("refuse", adt=r"ClientPipelineError::MutationNotAllowedOverHttpGet$")])


@prop("P05", "Branch feasibility under 'the operation is a mutation': neither the claim of a shared in-flight client request nor the claim of a shared "
             "subgraph call is reachable, on the HTTP and WebSocket paths; the decision is followed into every request the plan executor builds.")
def p05(c):
    mut = op_kind(c, "Mutation")
    claim = lambda: [Sink("share", INBOUND, where=r"pipeline::")]
    c.unreachable("inbound-http", "a mutation never shares the response of a concurrent client request", HTTP, [mut], claim())
    c.unreachable("inbound-ws", "a mutation never shares the response of a concurrent client request", WS, [mut], claim())
    # the flag every subgraph request carries
    notfalse = lambda ops, fr: ops[field_index(c, "SubgraphExecutionRequest", "dedupe")] != FALSE
    for n in ("Mutation", "Subscription"):
        k = kind(c, n)[2][0][1][0][1]
        c.unreachable("flag-" + n, "every subgraph request of a %s is marked as not shareable" % n.lower(), "plan::execute_query_plan_with_data",
                      [Assume("field", "QueryPlanExecutionOpts.operation_kind", k)],
                      [Sink("shareable", adt=r"common::SubgraphExecutionRequest", argpred=notfalse)])
        c.unreachable("kind-" + n, "the operation kind the plan runs with is that of the client's operation", "normalize_request_with_cache",
                      [op_kind(c, n)], [Sink("kind", adt=r"normalize::GraphQLNormalizationPayload",
                                             argpred=lambda ops, fr: ops[field_index(c, "normalize::GraphQLNormalizationPayload", "operation_kind")] != k)])
    send = c.find(r"HTTPSubgraphExecutor as .*SubgraphExecutor>::execute$")[0]
    c.unreachable("subgraph-claim", "a subgraph request marked as not shareable never joins another in-flight call", send,
                  [Assume("field", "SubgraphExecutionRequest.dedupe", FALSE)], [Sink("share", INBOUND)])


def field_index(c, adt, name):
    a = c.adt(adt)
    for _, fs in a["variants"]:
        for i, f in enumerate(fs):
            if f[0] == name:
                return i
    raise Anchor("%s has no field %s" % (adt, name))


def busy():
    return [Sink("plan", r"plan_operation_with_cache$", stop=True)] + exec_sinks()


def gate(c, key, text, entry, call, given=(), sinks=None, reject=ERR, must=True, where=None):
    """A gate: when `call` rejects, no sink; when `call` does not return at all, no sink either (nothing bypasses it)."""
    c.unreachable(key + "-reject", text, entry, list(given) + [Assume("ret", call, reject, where=where)], sinks or busy())
    if must:
        c.unreachable(key + "-must", text + " (no path around the check)", entry, list(given) + [Assume("ret", call, BOT, where=where)], sinks or busy())


@prop("P06", "Branch feasibility under 'the operation selects introspection fields' and 'the introspection policy denies': planning and execution become "
             "unreachable on the HTTP and WebSocket paths, with and without shared requests; the policy stage is analysed under every outcome of the policy "
             "program, and the split of the operation is analysed under 'the field name starts with two underscores'.")
def p06(c):
    pol = r"introspection_policy::handle_introspection_policy$"
    has = Assume("field", "GraphQLNormalizationPayload.operation_for_introspection", Some())
    for n, e in (("http", HTTP), ("ws", WS)):
        gate(c, "deny-" + n, "an introspection operation the policy denies is neither planned nor executed", e, pol, [has])
    res = r"BooleanOrProgram\S*::(resolve|execute)$|ValueOrProgram(::<.*>)?::(resolve|execute)$"
    okay = lambda av: may(av, ("Ok",))
    for n, r in (("false", Ok(FALSE)), ("error", Err())):
        c.unreachable("policy-" + n, "the policy stage proceeds only if the policy evaluates to true", "handle_introspection_policy",
                      [Assume("ret", res, r)], [], ret_bad=okay)
    cfg = c.adt("introspection_policy::IntrospectionPermissionConfig")["id"]
    no = variant(cfg, c.variant_index("introspection_policy::IntrospectionPermissionConfig", "Boolean"), ((0, FALSE),))
    c.unreachable("policy-config", "introspection configured to `false` compiles to a denying policy", "compile_introspection_policy", [],
                  [Sink("allow", adt=r"ValueOrProgram::Value$", argpred=lambda ops, fr: ops[0] != FALSE)], args=[("R", Some(no))], control="noargs")
    callers(c, "introspect", "schema introspection is resolved only inside plan execution", r"introspection::resolve::resolve_introspection$",
            {r"executor::execution::plan::"})


def callers(c, key, text, pat, allowed, kind=None):
    """Who may call: every reference to a function matching pat lies in a function matching one of `allowed`."""
    bad, n = [], 0
    for (d, r), uses in c.p.index()["calls"].items():
        if not (re.search(pat, r) or re.search(pat, d)):
            continue
        for bid, f, is_call in uses:
            b = c.p.bodies[bid]
            if b.is_test():
                continue
            root = c.p.root_of(b).id
            n += 1
            if not any(re.search(a, root) for a in allowed):
                bad.append((root, b))
    if not n:
        raise Anchor("%s: nothing calls /%s/" % (key, pat))
    for root, b in bad:
        c.ob("%s|caller|%s" % (key, shorten(root)), False, text, where="%s:%d" % (b.file, b.line), detail={"callee": pat})
    if not bad:
        c.ob(key, True, text, detail={"references": n, "allowed": sorted(allowed)})


@prop("P07", "Branch feasibility of operation preparation under 'persisted documents are on and required' and 'no valid document id': no path returns an operation; "
             "under 'id present', the client's own query text is cleared before the id is resolved, and resolution is on every path to a prepared operation.")
def p07(c):
    on = lambda: [Assume("field", "OperationPreparation.persisted_documents_enabled", TRUE),
                  Assume("field", "PersistedDocumentsContext.skip_enforcement", NONE),
                  Assume("field", "OperationPreparation.plugin_req_state", NONE)]
    req = lambda v: Assume("ret", r"PersistedDocumentsRuntime::require_id$", v)
    rid = lambda v: Assume("field", "PreparedOperation.resolved_document_id", v)
    query = lambda v: Assume("field", "GraphQLParams.query", v)
    proceeds = lambda av: may_inner(av, c.variant_index("execution_request::OperationPreparationResult", "Operation"))
    for n in ("prepare_http", "prepare_websocket"):
        E = c.find(r"execution_request::OperationPreparation\S*( .*)?::%s$" % n)[0]
        k = n[8:]
        c.unreachable("noid-" + k, "with document ids required, an operation without an id is refused", E, [req(Ok(TRUE)), rid(NONE)], [],
                      base=on(), ret_bad=proceeds)
        c.unreachable("policy-error-" + k, "an error while deciding whether an id is required refuses the operation", E, [req(Err())], [],
                      base=on(), ret_bad=proceeds)
        cleared = [Trans(None, {"0": "C"}, field=r"GraphQLParams\.query$", val=lambda v: v == NONE),
                   Trans(r"PersistedDocumentResolver\S*( .*)?::resolve$", {"C": "R"}),
                   ]
        c.unreachable("ownquery-" + k, "with document ids required, the query text sent by the client is dropped and the id is resolved before the operation is used", E,
                      [req(Ok(TRUE)), rid(Some())], [], base=on(), trans=cleared, exit_bad=lambda av, st: proceeds(av) and st == "0", control=False, need_trans=True)
        c.unreachable("unresolved-" + k, "an operation whose document id cannot be resolved is refused", E,
                      [req(Ok(TRUE)), rid(Some()), query(NONE), Assume("ret", r"PersistedDocumentResolver\S*( .*)?::resolve$", Err())], [], base=on(), ret_bad=proceeds)
        c.unreachable("resolve-" + k, "an operation without query text is used only after its document id was resolved", E,
                      [rid(Some()), query(NONE), Assume("ret", r"PersistedDocumentResolver\S*( .*)?::resolve$", BOT)], [], base=on(), ret_bad=proceeds)


def may_inner(av, idx):
    """May the abstract value be Ok(<variant idx>)?"""
    from absint import strip
    av = strip(av)
    if av is BOT:
        return False
    if av[0] != "V":
        return True
    d = dict(av[2])
    if 0 not in d:
        return False
    x = strip(dict(d[0]).get(0, TOP))
    return x is not BOT and (x[0] != "V" or idx in dict(x[2]))


@prop("P08", "Branch feasibility under 'the operation is a subscription' with subscriptions disabled, with a response mode that cannot stream, and with no free slot for a "
             "long-lived client: planning and execution become unreachable; the slot counter is analysed with the current count equal to and above the limit.")
def p08(c):
    sub = lambda: op_kind(c, "Subscription")
    off = lambda: Assume("field", "SubscriptionsConfig.enabled", FALSE)
    for n, e in (("http", HTTP), ("ws", WS)):
        c.unreachable("disabled-" + n, "no subscription is planned or executed while subscriptions are disabled", e, [sub(), off()], busy())
    c.unreachable("cannot-stream", "no subscription is planned or executed for a client that cannot receive a stream", HTTP,
                  [sub(), Assume("ret", r"ResponseMode::can_stream$", FALSE)], busy())
    slot = r"long_lived_client_limit::try_reserve_long_lived_client$"
    gate(c, "slot-http", "a subscription is planned or executed only after a long-lived client slot was reserved", HTTP, slot, [sub()])
    lim = lambda v: Assume("field", "TrafficShapingRouterConfig.max_long_lived_clients", v)
    for n, v in (("full", EQUAL), ("over", OVER)):
        c.unreachable("limit-" + n, "no slot is granted once the configured number of long-lived clients is reached", "try_reserve_long_lived_client",
                      [lim(v)], [], ret_bad=lambda av: may(av, ("Ok", "Some")))
    mw = c.find(r"LongLivedClientLimit\S*( .*)?::call$")[0]
    gate(c, "upgrade", "a WebSocket upgrade goes through only with a reserved slot", mw, slot,
         [Assume("ret", r"long_lived_client_limit::is_websocket_upgrade$", TRUE), Assume("field", "LongLivedClientLimitMiddleware.enabled", TRUE),
          Assume("ret", r"::app_state$", Some())], [Sink("next", r"ServiceCtx\S*(::<.*>)?::call$")])


@prop("P09", "Branch feasibility of the WebSocket message handler under 'not acknowledged', 'handshake already received', 'operation id already in use' and 'token rejected', and a "
             "typestate over the messages one operation sends: nothing follows its terminal error message.")
def p09(c):
    ack = r"WsState(::<.*>)?::is_acknowledged$"
    c.unreachable("ack-fn", "a connection that was not acknowledged is refused", c.find(r"WsState(::<.*>)?::check_acknowledged$")[0],
                  [Assume("ret", ack, FALSE)], [], ret_bad=lambda av: may(av, ("None",)))
    work = lambda: [Sink("prepare", r"OperationPreparation\S*( .*)?::prepare_websocket$", stop=True)] + busy()
    c.unreachable("ack", "no operation runs before the connection was acknowledged", WS, [Assume("ret", ack, FALSE)], work())
    c.unreachable("ack-state", "a connection counts as acknowledged only after its acknowledgement was signalled", c.find(r"WsState(::<.*>)?::is_acknowledged$")[0],
                  [Assume("field", "WsState.acknowledged_tx", Some())], [], ret_bad=lambda av: av != FALSE)
    c.unreachable("init-twice", "a second connection init is refused and changes nothing", WS, [Assume("field", "WsState.handshake_received", TRUE)],
                  [Sink("ack", r"ServerMessage::ack$"), Sink("init", field_write=r"WsState\.init_payload$")])
    c.unreachable("init-once", "acknowledging a connection marks the handshake as received and ends the acknowledgement wait", WS, [],
                  [Sink("ack", r"ServerMessage::ack$", bad=["0", "H", "A"])],
                  trans=[Trans(None, {"0": "H", "A": "HA"}, field=r"WsState\.handshake_received$", val=lambda v: v == TRUE),
                         Trans(r"WsState(::<.*>)?::complete_handshake$", {"0": "A", "H": "HA"})])
    c.unreachable("duplicate-id", "an operation whose id is already in use is refused", WS,
                  group("taken", Assume("ret", r"HashMap(::<.*>)?::contains_key$", TRUE, where=r"websocket_server::handle_text_frame"),
                        Assume("ret", r"HashMap(::<.*>)?::(get|get_mut|get_key_value)$", Some(), where=r"websocket_server::handle_text_frame"),
                        Assume("ret", r"HashMap(::<.*>)?::entry$", variant("std::collections::hash_map::Entry", 0, ((0, TOP),)), where=r"websocket_server::handle_text_frame")), work())
    c.unreachable("no-supergraph", "no operation runs without a supergraph", WS, [Assume("ret", r"SchemaState\S*::select_supergraph$", Ok(NONE))], work())
    c.unreachable("after-error", "after an operation's terminal error message nothing else is sent for it", WS, [],
                  [Sink("complete", r"ServerMessage::complete$", bad=["E"]), Sink("next", r"ServerMessage::next$", bad=["E"])],
                  trans=[Trans(r"ServerMessage::error$", {"*": "E"})])
    perr = c.adt("pipeline::error::PipelineError")["id"]
    cerr = c.adt("pipeline::error::ClientPipelineError")["id"]
    jwt = Err(variant(perr, c.variant_index("pipeline::error::PipelineError", "Client"),
                      ((0, variant(cerr, c.variant_index("pipeline::error::ClientPipelineError", "JwtError"), ((0, TOP),))),)))
    x = r"pipeline::execute_planned_request$|InFlight\w*(::<.*>)?::(get_or_try_init|get_or_try_init_with_guard)$|InFlightClaim\S*::get_or_try_init\w*$"
    c.unreachable("jwt-close", "an operation refused for its token closes the connection", WS, [Assume("ret", x, jwt)], [], control=False,
                  trans=[Trans(x, {"*": "X"}), Trans(r"::into_close_message$", {"X": "C"})], exit_bad=lambda av, st: st == "X")
    # the registry of running subscriptions
    D = c.find(r"websocket_server::SubscriptionGuard as .*Drop>::drop$")[0]
    mine = lambda v: group("mine", Assume("ret", r"Sender\S*(::)?(<.*>)?::same_channel$", v), Assume("ret", r"(Arc|Rc)\S*(::)?(<.*>)?::ptr_eq$", v))
    gone = r"(HashMap|BTreeMap|DashMap)\S*(::)?(<.*>)?::remove(_entry|_if)?$"
    c.unreachable("own-entry", "the end of a subscription never unregisters a newer one that reuses its id", D, mine(FALSE), [Sink("remove", gone)])
    c.unreachable("own-entry-gone", "the end of a subscription never unregisters a newer one that reuses its id", D, [Assume("ret", r"WeakSender\S*(::)?(<.*>)?::upgrade$", NONE)], [Sink("remove", gone)])
    c.unreachable("entry-freed", "the id of a finished subscription becomes free again", D,
                  mine(TRUE) + [Assume("ret", r"WeakSender\S*(::)?(<.*>)?::upgrade$", Some()), Assume("ret", r"(HashMap|BTreeMap|DashMap)\S*(::)?(<.*>)?::get$", Some())], [], control=False,
                  trans=[Trans(gone, {"0": "R"})], exit_bad=lambda av, s: s != "R")
