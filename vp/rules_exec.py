"""Execution: demand control, query plan exposure, errors shown to clients, coprocessors."""
import re
from registry import prop
from framework import Anchor, nonempty, empty, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, OVER, EQUAL, strip, EACH, getf
from rules_pipeline import may, HTTP, WS, EXEC, exec_sinks, ERR
from rules_access import field_index, busy, gate, callers, may_inner
from rules_auth import tag, enum, okay, arg_of_type, tystr

SEND = r"SubgraphExecutor(>)?::(execute|subscribe)$|get_or_create_\w*executor$"


@prop("P14", "Branch feasibility under 'demand control is configured' and 'every estimated cost exceeds every configured budget': the pipeline stops before execution when the "
             "evaluation rejects, no path to execution skips the evaluation, the evaluation in enforce mode cannot accept, every over-budget subgraph is recorded as blocked, and a "
             "blocked subgraph is never contacted by a fetch or a subscription.")
def p14(c):
    ev = r"DemandControlRuntime::evaluate$"
    on = Assume("field", "RouterSupergraphRuntime.demand_control_runtime", Some())
    mode = lambda n: enum(c, "config::demand_control::DemandControlMode", n)
    for n, e in (("http", HTTP), ("ws", WS)):
        gate(c, "gate-" + n, "an operation rejected by demand control never reaches a subgraph", e, ev, [on], exec_sinks())
    E = c.find(ev)[0]
    mx = lambda v: Assume("field", "OperationCostConfig.max", v)
    md = lambda n: Assume("field", "OperationCostConfig.mode", mode(n))
    c.unreachable("enforce", "in enforce mode an operation whose estimate exceeds the budget is refused", E, [mx(OVER), md("Enforce")], [], ret_bad=okay)
    c.unreachable("estimate-error", "an operation whose cost cannot be estimated is refused", E, [Assume("ret", r"evaluate_formula_plan$", Err())], [], ret_bad=okay)
    c.unreachable("estimate-must", "no operation is accepted without an estimate", E, [Assume("ret", r"evaluate_formula_plan$", BOT)], [], ret_bad=okay)
    c.unreachable("measure", "in measure mode an operation is never refused for its cost", E, [md("Measure")],
                  [Sink("refuse", adt=r"ClientPipelineError::CostEstimatedTooExpensive$")])
    c.unreachable("within", "an operation whose estimate equals the budget is not refused for its cost", E, [mx(EQUAL)],
                  [Sink("refuse", adt=r"ClientPipelineError::CostEstimatedTooExpensive$")])
    b = r"SubgraphsBudgetConfig"
    c.each("blocked", "every subgraph whose estimate exceeds its budget is recorded as blocked", c.find(r"DemandControlRuntime::list_blocked_subgraphs$")[0],
           r"String, &?\w*'?\w* ?u64|&\S*String, &", r"(BTree|Hash|Index)Map(::<.*>)?::insert$",
           assumes=[Assume("field", b + ".all", Some(OVER)), Assume("field", b + ".subgraphs", NONE)])
    for n in ("execute", "subscribe"):
        X = c.find(r"SubgraphExecutorMap::%s$" % n)[0]
        bl = lambda: group("blocked", *[Assume("ret", r"BTreeMap(::<.*>)?::get$", Some(), where=r"SubgraphExecutorMap"),
                                        Assume("ret", r"BTreeMap(::<.*>)?::contains_key$", TRUE, where=r"SubgraphExecutorMap"),
                                        Assume("ret", r"::is_subgraph_blocked$", TRUE)])
        ems = group("mode", Assume("field", "DemandControlExecutionSubgraphsContext.enforcement_mode", mode("Enforce")),
                    Assume("field", "DemandControlExecutionSubgraphsContext.blocked_subgraphs_enforcement_mode", mode("Enforce")))
        args = [TOP] * X.argc
        args[arg_of_type(X, r"DemandControlExecutionContext")] = Some()
        c.unreachable("blocked-" + n, "a subgraph over its budget is not contacted in enforce mode", X, bl() + ems, [Sink("contact", SEND)], args=args, control="noargs")
    # the context reaches the executors
    di = field_index(c, "plan::QueryPlanExecutionOpts", "demand_control_context")
    have = Assume("field", "PlannedRequest.demand_control_execution_context", Some())
    c.unreachable("context", "the outcome of the evaluation accompanies the plan into execution", "pipeline::execution::execute_plan", [have],
                  [Sink("lost", adt=r"plan::QueryPlanExecutionOpts", argpred=lambda ops, fr: strip(ops[di]) == NONE)], control=False)
    cfg = c.find(r"DemandControlRuntime::from_config$")[0]
    c.unreachable("enabled", "enabled demand control always yields a runtime", cfg, [Assume("field", "DemandControlConfig.enabled", TRUE)], [],
                  args=[Some() if re.search("DemandControlConfig", tystr(cfg.local_ty(i + 1))) else TOP for i in range(cfg.argc)],
                  ret_bad=lambda av: may(av, ("None",)) or may(av, ("Ok", "None")), control="noargs")


@prop("P15", "Branch feasibility of plan execution under 'exposing query plans is not allowed' and under 'the client did not ask': no path stores the query plan in the response.")
def p15(c):
    X = "pipeline::execution::execute_plan"
    qi = field_index(c, "plan::ExecutionResultExtensions", "query_plan")
    plan = lambda: [Sink("plan", field_write=r"ExecutionResultExtensions\.query_plan$"),
                    Sink("plan", adt=r"plan::ExecutionResultExtensions", argpred=lambda ops, fr: strip(ops[qi]) != NONE, where=r"pipeline::execution")]
    c.unreachable("off", "the query plan is not exposed unless the configuration allows it", X, [Assume("field", "QueryPlannerConfig.allow_expose", FALSE)], plan())
    c.unreachable("not-asked", "the query plan is not exposed to a client that did not ask for it", X, [Assume("ret", r"HeaderMap(::<.*>)?::(get|get_all|contains_key)$", NONE)], plan())
    c.unreachable("dry-off", "no operation is answered without being executed unless exposing plans is allowed", X,
                  [Assume("field", "QueryPlannerConfig.allow_expose", FALSE), Assume("ret", r"plan::execute_query_plan$", BOT)], [], ret_bad=okay)


@prop("P17", "Branch feasibility of error masking under 'masking is enabled': the message of an attributed error is always overwritten, the configured extension rules are always "
             "applied, every error of a response passes the mask before it is serialised, and failures that end a subscription pass it too; who-may rules pin the places where "
             "errors are serialised.")
def p17(c):
    A = c.find(r"ErrorMaskingRuntime::apply$")[0]
    svc = Assume("field", "GraphQLErrorExtensions.service_name", Some())
    rt = "ErrorMaskingRuntime."
    miss = lambda pat=r"HashMap(::<.*>)?::get$": Assume("ret", pat, NONE)
    wr = lambda: [Trans(None, {"0": "M"}, field=r"GraphQLError\.message$"), Trans(r"Clone(>)?::clone_from$|::clone_into$", {"0": "M"})]
    for n, given in (("default", [miss(), Assume("field", rt + "default_error_masking", TRUE)]),
                     ("own", [Assume("ret", r"HashMap(::<.*>)?::get$", Some(("R", TRUE)))])):
        c.unreachable("message-" + n, "with masking on, the message of a subgraph error is replaced", A, [svc] + given, [], trans=wr(), control=False,
                      exit_bad=lambda av, st: st == "0", need_hits=False, need_trans=False)
    plan = r"RedactExtensionsPlan::apply$"
    c.unreachable("extensions", "configured extension rules are applied to every subgraph error", A, [svc, Assume("field", rt + "default_extensions_masking", Some()),
                  Assume("ret", plan, BOT)], [], ret_bad=lambda av: av is not BOT)
    C = c.find(r"ErrorMaskingRuntime::compile_from_config$")[0]
    c.unreachable("enabled", "masking that is enabled is compiled", C, [Assume("field", "ErrorMaskingConfig.enabled", TRUE)], [], ret_bad=lambda av: may(av, ("None",)))
    fi = lambda n: field_index(c, "ErrorMaskingRuntime", n)
    for f, src in (("default_error_masking", "AllErrorMaskingConfig.enabled"),):
        c.unreachable("compile-" + f, "the configured default for all subgraphs is what is applied", C, [Assume("field", src, TRUE)],
                      [Sink("other", adt=r"ErrorMaskingRuntime$", argpred=lambda ops, fr: ops[fi(f)] != TRUE)])
    c.unreachable("compile-extensions", "configured extension rules are compiled", C, [Assume("field", "AllErrorMaskingConfig.extensions", Some())],
                  [Sink("other", adt=r"ErrorMaskingRuntime$", argpred=lambda ops, fr: may(ops[fi("default_extensions_masking")], ("None",)))])
    for n, given in (("inherit", [Assume("field", "SubgraphErrorMaskingConfig.enabled", NONE), Assume("field", "AllErrorMaskingConfig.enabled", TRUE)]),
                     ("own", [Assume("field", "SubgraphErrorMaskingConfig.enabled", Some(TRUE)), Assume("field", "AllErrorMaskingConfig.enabled", FALSE)])):
        bs = [b for b in c.p.bodies.values() if b.kind == "closure" and c.p.root_of(b).id == C.id and re.match(r"^\(.*String, bool\)$", tystr(b.local_ty(0)))]
        for b in bs or [C]:
            kw = dict(ret_bad=lambda av: getf(strip(av)[2], 1) != TRUE if strip(av)[0] == "S" else True, sinks=[]) if bs else \
                dict(sinks=[Sink("insert", r"HashMap(::<.*>)?::insert$", gtype=r"bool", argpred=lambda a, fr: strip(a[2]) != TRUE)])
            sinks = kw.pop("sinks")
            c.unreachable("compile-subgraph-" + n, "a subgraph is masked when its own setting, or without one the setting for all, says so", b, given, sinks, **kw)
    # extension rules
    own = Assume("ret", r"HashMap(::<.*>)?::get$", Some(("R", Some())), gtype=r"RedactExtensionsPlan")
    c.unreachable("extensions-own", "a subgraph's own extension rules are applied without rules for all", A,
                  [svc, own, Assume("field", rt + "default_extensions_masking", NONE), Assume("ret", plan, BOT)], [], ret_bad=lambda av: av is not BOT)
    Pn = c.find(plan)[0]
    at = c.adt("error_masking::RedactExtensionsPlan")["id"]
    other = lambda: [Assume("ret", r"PartialEq(<.*>)?(::|>::)eq$", FALSE, where=r"error_masking::"), Assume("ret", r"PartialEq(<.*>)?(::|>::)ne$", TRUE, where=r"error_masking::")]
    allow = lambda: [Assume("type", at, enum(c, "error_masking::RedactExtensionsPlan", "Allow"))] + group("eq", *other())
    c.unreachable("allow-other", "an allow list always removes every extension it does not name", Pn, allow()[:1] + [Assume("ret", r"::retain$|::extract_if$", BOT)], [],
                  ret_bad=lambda av: av is not BOT, fix=True)
    for f, nm in (("code", "code"), ("service_name", "service"), ("affected_path", "affectedPath")):
        named = lambda a, fr, nm=nm: re.search(r"\b%s\b" % nm, repr(a))
        given = allow()[:1] + [Assume("ret", r"PartialEq(<.*>)?(::|>::)eq$", FALSE, where=r"error_masking::", argpred=named)]
        c.unreachable("allow-" + f, "an allow list that does not name the %s removes it" % f, Pn, given, [], trans=[Trans(None, {"0": "M"}, field=r"GraphQLErrorExtensions\.%s$" % f)],
                      control=False, need_hits=False, need_trans=False, exit_bad=lambda av, st: st == "0", fix=True)
    deny = Assume("type", at, enum(c, "error_masking::RedactExtensionsPlan", "Deny"))
    c.each("deny", "every key of a deny list is removed", Pn, r"^std::slice::Iter<.*String", r"RedactExtensionsPlan::remove_field$", assumes=[deny], early=True, fix=True)
    Rm = c.find(r"RedactExtensionsPlan::remove_field$")[0]
    c.unreachable("deny-other", "a key of a deny list is removed from the extensions", Rm, group("eq", *other()) + [Assume("ret", r"::remove$|::swap_remove$|::retain$", BOT)], [], ret_bad=lambda av: av is not BOT)
    X = "plan::execute_query_plan_with_data"
    on = Assume("field", "QueryPlanExecutionOpts.error_masking_runtime", ("R", Some()))
    mask = r"ErrorMaskingRuntime::apply$"
    it = r"IterMut<.*GraphQLError"
    c.each("all", "every error of a response is masked", X, it, mask, assumes=[on], early=False, where=r"execute_query_plan_with_data")
    c.unreachable("all-end", "no response is serialised before all of its errors were masked", X,
                  [on, Assume("ret", r"^std::iter::Iterator::next$", Some(), gtype=it, where="execute_query_plan_with_data"),
                   Assume("ret", EACH.pattern, BOT, gtype=it, where="execute_query_plan_with_data")],
                  [Sink("serialise", r"projection::response::project_by_operation$")])
    c.unreachable("order", "errors are masked after the last change to them and before they are serialised", X, [],
                  [Sink("serialise", r"projection::response::project_by_operation$", bad=["0"])],
                  trans=[Trans(r"handle_graphql_errors_with_plugins$", {"*": "0"}),
                         Trans(r"^std::iter::Iterator::next$", {"*": "M"}, gtype=r"IterMut<'?\w*,? ?.*GraphQLError", where="execute_query_plan_with_data"),
                         Trans(r"^std::iter::Iterator::(for_each|map)$", {"*": "M"}, gtype=r"IterMut<.*GraphQLError", where="execute_query_plan_with_data")], base=[on], need_trans=False)
    F = "plan::serialize_masked_failure"
    fargs = [TOP, ("R", Some())]
    c.unreachable("failure", "a failure that ends a subscription is masked", F, [Assume("ret", mask, BOT)], [], args=fargs, ret_bad=lambda av: av is not BOT)
    callers(c, "failure-only", "errors are serialised during plan execution only through the mask", r"FailedExecutionResult.*::serialize$",
            {r"plan::serialize_masked_failure$", r"^(?!<?hive_router::executor::execution::)"})
    # attribution: what the mask acts on
    H = c.find(r"ExecutionContext::<.*>::handle_errors$")[0]
    c.unreachable("attributed", "every error of a subgraph response is attributed to its subgraph", H, [Assume("ret", r"GraphQLError::add_subgraph_name$", BOT)],
                  [Sink("record", r"Vec(::<.*>)?::(push|extend)$|Extend(<.*>)?>?::extend$", gtype=r"GraphQLError", where=r"handle_errors")])
    c.unreachable("event-attributed", "every error of a subscription event is attributed to its subgraph", "plan::execute_query_plan",
                  [Assume("ret", r"GraphQLError::add_subgraph_name$", BOT), Assume("field", "SubgraphResponse.errors", Some())],
                  [Sink("record", r"Vec(::<.*>)?::(push|extend|append)$|Extend(<.*>)?>?::extend$", gtype=r"GraphQLError", where=r"plan::execute_query_plan\b")])


CF = "std::ops::ControlFlow"
BREAK = variant(CF, 1, ((0, TOP),))
CONT = variant(CF, 0, ((0, TOP),))


@prop("P18", "Branch feasibility of every coprocessor stage: a call that fails, answers with an error status, a malformed or wrongly versioned payload, or that asks to stop, "
             "leaves no path on which the request or response continues as if the stage had succeeded.")
def p18(c):
    on = lambda: Assume("field", "RouterSharedState.coprocessor", Some())
    parse = Sink("parse", r"pipeline::parser::parse_operation_with_cache$")
    for n, call in (("request", r"CoprocessorRuntime::on_graphql_request$"), ("analysis", r"CoprocessorRuntime::on_graphql_analysis$")):
        c.unreachable("gql-%s-error" % n, "a failed coprocessor stage ends the operation", HTTP, [on(), Assume("ret", call, Err())], busy())
        c.unreachable("gql-%s-break" % n, "a coprocessor that answers for the router ends the operation", HTTP, [on(), Assume("ret", call, Ok(BREAK))], busy())
        c.unreachable("gql-%s-must" % n, "no operation continues past a configured coprocessor stage without its answer", HTTP, [on(), Assume("ret", call, BOT)], busy())
    c.unreachable("gql-analysis-ws", "a coprocessor that rejects the analysed operation ends it over WebSocket too", WS,
                  [on(), Assume("ret", r"CoprocessorRuntime::on_graphql_analysis$", Err())], busy())
    S = c.find(r"plugins_service::PluginService.*::call$|plugins_service::.* as .*Service<.*>::call$")[0]
    R = r"CoprocessorRuntime::on_router_request$"
    nxt = lambda: [Sink("next", r"ServiceCtx\S*(::<.*>)?::call$")]
    here = [Assume("ret", r"PartialEq(<.*>)?(::|>::)eq$", FALSE, where=r"plugins_service::"), Assume("ret", r"PartialEq(<.*>)?(::|>::)ne$", TRUE, where=r"plugins_service::")]
    c.unreachable("router-break", "a request the coprocessor answered is not processed further", S, group("path", *here) + [on(), Assume("ret", r"::app_state$", Some()), Assume("ret", R, BREAK)], nxt())
    c.unreachable("router-must", "no request other than a probe or a metrics scrape is processed before the coprocessor allowed it", S,
                  group("path", *here) + [on(), Assume("ret", r"::app_state$", Some()), Assume("ret", R, BOT)], nxt())
    callers(c, "router-calls", "the router stages run in the request middleware", R, {r"plugins_service::"})
    X = c.find(r"StageRuntime::<A>::execute_internal$")[0]
    cont = lambda av: may(av, ("Ok",)) and may_inner(av, 0)
    run = lambda: [Assume("ret", r"Stage::should_run$", Ok(TRUE))]
    for n, call, v in (("send", r"CoprocessorClient::send$", Err()), ("status", r"StatusCode::is_success$", FALSE), ("parse", r"Stage::parse_response$", Err()),
                       ("control", r"Stage::break_output$", Err()), ("break", r"Stage::break_output$", Ok(BREAK)), ("apply", r"Stage::apply_mutations$", Err()),
                       ("condition", r"Stage::should_run$", Err()), ("build", r"Stage::build_request$", Err())):
        c.unreachable("stage-" + n, "a stage whose call or answer is not usable does not continue the request", X,
                      (run() if n != "condition" else []) + [Assume("ret", call, v)], [], ret_bad=cont)
    c.unreachable("stage-send-must", "a stage that should run does not continue without an answer", X, run() + [Assume("ret", r"CoprocessorClient::send$", BOT)], [], ret_bad=cont)
    c.unreachable("stage-patch", "a rejected context change ends the stage", X, run() + [Assume("field", "StageResponsePayload.context", Some()),
                  Assume("ret", r"apply_patch$", Err())], [], ret_bad=cont)
    P = c.find(r"coprocessor::stage::Stage::parse_response$")[0]
    c.unreachable("version", "an answer of another protocol version is refused", P, [Assume("field", "StageResponsePayload.version", OVER)], [], ret_bad=okay)
    B = c.find(r"coprocessor::stage::Stage::break_output$")[0]
    c.unreachable("break-kept", "an answer that asks to stop is never treated as permission to continue", B, [Assume("ret", r"CoprocessorControl::break_status$", Some())], [], ret_bad=cont)
    ex = r"StageRuntime::<A>::execute$"
    for n in ("on_graphql_request", "on_graphql_analysis", "on_graphql_response"):
        f = c.find(r"CoprocessorRuntime::%s$" % n)[0]
        st = Assume("field", "CoprocessorRuntime." + n[3:], Some())
        c.unreachable(n + "-error", "a stage failure is reported to the pipeline", f, [st, Assume("ret", ex, Err())], [], ret_bad=okay)
        c.unreachable(n + "-break", "a stage break is reported to the pipeline", f, [st, Assume("ret", ex, Ok(BREAK))], [], ret_bad=cont)
        c.unreachable(n + "-must", "a configured stage always runs", f, [st, Assume("ret", ex, BOT)], [], ret_bad=okay)
    f = c.find(r"CoprocessorRuntime::on_router_request$")[0]
    st = Assume("field", "CoprocessorRuntime.router_request", Some())
    go = lambda av: av is not BOT and (av[0] != "V" or 0 in dict(av[2]))
    for n, v in (("error", Err()), ("break", Ok(BREAK)), ("must", BOT)):
        c.unreachable("on_router_request-" + n, "the request continues only if the router stage allowed it", f, [st, Assume("ret", ex, v)], [], ret_bad=go)
