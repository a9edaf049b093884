"""Responses: failures of subgraphs are shown, caching headers, timeouts, sharing of in-flight requests."""
import re
from registry import prop
from framework import Anchor, nonempty, empty, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, strip
from rules_pipeline import may
from rules_auth import okay, tystr, enum, arg_of_type, tag
from rules_access import callers, field_index
from rules_state import makers, names, ends

PUSH = r"Vec(::)?(<.*>)?::(push|extend\w*|append|insert)$|Extend(<.*>)?(::|>::)extend$"
GERR = r"GraphQLError\b"


@prop("P31", "Branch feasibility, element coverage and typestate from the transport to the response body: every way a subgraph call can fail ends in an error value, every error value and every "
             "error of a subgraph response is stored in the list of errors, and the list is what the response is written from.")
def p31(c):
    EX = r"execution::plan::"
    X = c.find(r"plan::Executor\S*(<.*>)?::process_job_result$")[0]
    job = lambda v: [TOP, TOP, v]
    stored = Trans(PUSH, {"0": "P"}, gtype=GERR)
    silent = lambda av, s: s == "0"
    c.unreachable("failed", "a subgraph call that failed is stored as an error of the response", X, [], [], control=False, args=job(Err()), trans=[stored], exit_bad=silent)
    H = r"ExecutionContext(::)?(<.*>)?::handle_errors$"
    one = Some(("K", "TAG:theirs"))
    for n in ("Fetch", "FlattenFetch"):
        j = Ok(enum(c, "plan::ExecutionJob", n))
        c.unreachable("job-" + n, "the errors of a subgraph response are taken over", X, [], [], control=False, args=job(j), trans=[Trans(H, {"0": "P"})], exit_bad=silent)
        e = [Assume("field", "SubgraphResponse.errors", one)]
        c.unreachable("job-%s-theirs" % n, "the errors of a subgraph response are taken over", X, e, [Sink("other", H, argpred=lambda a, fr: not any("TAG:theirs" in repr(x) for x in a))], control=False, args=job(j))
    j = Ok(enum(c, "plan::ExecutionJob", "BatchFetch"))
    c.each("job-batch", "the errors of every part of a batch are taken over", X, r"AliasBatchState", H, args=job(j), early=lambda av: av is not BOT, where=r"process_job_result")
    c.unreachable("job-batch-rest", "errors of a batch that belong to no part are taken over", X, [Assume("ret", r"^std::iter::Iterator::next$", NONE, where=EX + r".*process_job_result")] +
                  [Assume("ret", r"Vec(::)?(<.*>)?::is_empty$", FALSE, where=EX + r".*process_job_result")], [], control=False, args=job(j), trans=[Trans(H, {"0": "P"})], exit_bad=silent)
    e = group("theirs", Assume("field", "SubgraphResponse.errors", one), Assume("ret", r"Vec(::)?(<.*>)?::is_empty$", FALSE, gtype=GERR))
    PART = r"plan::Executor\S*(<.*>)?::partition_batch_errors_by_alias$"
    c.unreachable("job-batch-theirs", "the errors of a subgraph response are taken over", X, e, [Sink("other", PART, argpred=lambda a, fr: not any("TAG:theirs" in repr(x) and not may(x, ("None",)) for x in a))], control=False, args=job(j))
    Pt = c.find(r"plan::Executor\S*(<.*>)?::partition_batch_errors_by_alias$")[0]
    pa = [TOP] * Pt.argc
    pa[arg_of_type(Pt, r"Option<.*Vec<.*GraphQLError")] = Some()
    c.each("job-batch-split", "no error of a batch is lost when it is split", Pt, GERR, PUSH, args=pa, early=False)
    E = c.find(H)[0]
    ea = [TOP] * E.argc
    ea[arg_of_type(E, r"^std::option::Option<std::vec::Vec<.*GraphQLError>>")] = Some()
    c.each("stored", "every error of a subgraph is stored", E, GERR, PUSH, args=ea, early=False)
    Z = c.find(r"GraphQLError\S*(<.*>)?::normalize_entity_error$")[0]
    some = Trans(r"::(into_vec|box_assume_init_into_vec_unsafe|push|once|from_elem|insert)$|slice::hack::into_vec|vec::from_elem", {"0": "P"}, gtype=GERR)
    c.unreachable("stored-unmatched", "an error of an entity that is not found is stored as it came", Z, [Assume("ret", r"HashMap\S*(<.*>)?::(get|contains_key)$", NONE)], [], control=False, trans=[some], exit_bad=silent)
    # the plan
    N = c.find(r"plan::Executor\S*(<.*>)?::execute_plan_node$")[0]
    node = lambda n: [TOP, TOP, ("R", enum(c, "plan_nodes::PlanNode", n))]
    prep = r"plan::Executor\S*(<.*>)?::prepare_job_future$"
    done = r"plan::Executor\S*(<.*>)?::process_job_result$"
    par = lambda: [Assume("ret", prep, Some())]
    W = r"execute_plan_node"
    fam = c.p.family(N.id)
    collected = [b for b in fam for _, fn, *_ in b.calls() if any(re.search(r"^std::iter::(Iterator::collect|FromIterator::from_iter|Extend::extend)$", x) for x in names(fn)) and any(re.search(r"FuturesUnordered<", b.ty(g)["s"]) for g in fn.get("g", ()) if isinstance(g, int))]
    if collected:
        c.each("parallel", "every part of a parallel step is started", N, r"PlanNode", prep, assumes=par(), args=node("Parallel"), early=False, where=W)
        for b in fam:
            if b.kind == "closure" and any(re.search(prep, x) for _, fn, *_ in b.calls() for x in names(fn)):
                I = c.interp(b, [Assume("ret", prep, Some(("K", "TAG:job")))], [])
                c.ob("parallel-kept", "TAG:job" in repr(I.result) and repr(NONE) not in repr(I.result), "every part of a parallel step is started", "%s:%d" % (b.file, b.line), {"answers": repr(I.result)[:100]})
    else:
        c.each("parallel", "every part of a parallel step is started", N, r"PlanNode", r"FuturesUnordered(::)?(<.*>)?::push$", assumes=par(), args=node("Parallel"), early=False, where=W)
    nx = r"StreamExt(>)?::next$"
    c.unreachable("parallel-results", "the outcome of every part of a parallel step is looked at", N, par() + [Assume("ret", nx, ("RF", Some()))], [Sink("lost", nx, where=W, bad=("N",))], control=False, args=node("Parallel"),
                  trans=[Trans(r"Future(>)?::poll$", {"0": "N"}, where=W), Trans(done, {"N": "0"})])
    I = c.interp(N, par() + [Assume("ret", nx, ("RF", Some()))], [], args=node("Parallel"))
    c.ob("parallel-all", I.result is BOT, "a parallel step does not end before all its parts are done", "%s:%d" % (N.file, N.line), {"functions": len(I.visited)})
    again = Assume("ret", r"plan::Executor\S*(<.*>)?::execute_plan_node$", TOP)
    c.each("sequence", "every part of a sequence is executed", N, r"PlanNode", r"plan::Executor\S*(<.*>)?::execute_plan_node$", assumes=[again], args=node("Sequence"), early=False, where=W)
    for n in ("Fetch", "Flatten", "BatchFetch"):
        c.unreachable("single-" + n, "the outcome of a single step is looked at", N, par(), [], control=False, args=node(n), trans=[Trans(done, {"0": "P"})], exit_bad=silent)
    c.unreachable("condition", "the branch of a condition is executed", N, [Assume("ret", r"plan::condition_node_by_variables$", Some())], [], control=False, args=node("Condition"),
                  trans=[Trans(r"plan::Executor\S*(<.*>)?::execute_plan_node$", {"0": "P"}, site=True)], exit_bad=silent)
    J = c.find(prep)[0]
    for n in ("Fetch",):
        c.unreachable("prepare-" + n, "a step that needs no earlier data is always sent", J, [], [], control=False, args=[TOP, ("R", enum(c, "plan_nodes::PlanNode", n))], ret_bad=lambda av: may(av, ("None",)))
    K = c.find(r"plan::Executor\S*(<.*>)?::prepare_execution_job$")[0]
    run = r"SubgraphExecutorMap::execute$"
    for n, call in (("headers", r"modify_subgraph_request_headers$"), ("call", run)):
        c.unreachable("job-failed-" + n, "a step that could not be carried out fails", K, [Assume("ret", call, Err())], [], ret_bad=okay)
    c.unreachable("job-must", "no step succeeds without its subgraph", K, [Assume("ret", run, BOT)], [], ret_bad=okay)
    inner = [b for b in c.p.family(K.id) if b.kind == "coroutine" and any(re.search(run, fn.get("d", "")) for _, fn, *_ in b.calls())]
    if len(inner) != 1:
        raise Anchor("the future that calls the subgraph inside prepare_execution_job")
    c.unreachable("job-status", "a response with an error status is shown as an error", inner[0], [Assume("field", "SubgraphResponse.status", Some()), Assume("ret", r"StatusCode::is_success$", FALSE)], [], control=False,
                  trans=[Trans(r"SubgraphResponse\S*(<.*>)?::append_error$", {"0": "P"})], exit_bad=lambda av, s: okay(av) and s == "0")
    A = c.find(r"SubgraphResponse\S*(<.*>)?::append_error$")[0]
    c.unreachable("job-status-stored", "a response with an error status is shown as an error", A, [], [], control=False,
                  trans=[Trans(PUSH, {"0": "P"}, gtype=GERR), Trans(None, {"0": "P"}, field=r"SubgraphResponse\.errors$", val=lambda av: not may(av, ("None",)))], exit_bad=silent)
    # the transport
    M = c.find(run)[0]
    for n, call in (("budget", r"SubgraphExecutorMap::check_subgraph_budget$"), ("endpoint", r"SubgraphExecutorMap::resolve_endpoint$"), ("executor", r"SubgraphExecutorMap::get_or_create_http_executor$"),
                    ("timeout", r"SubgraphExecutorMap::resolve_subgraph_timeout$")):
        c.unreachable("map-" + n, "a subgraph that cannot be called is a failure", M, [Assume("ret", call, Err())], [], ret_bad=okay)
    S = c.find(r"executors::http::send_request$")[0]
    col = r"BodyExt(>)?::collect$"
    for n, a in (("connect", [Assume("ret", r"Client(::)?(<.*>)?::request$", ("RF", Err())), Assume("ret", r"tokio::time::timeout$", ("RF", Ok(Err())))]), ("timeout", [Assume("ret", r"tokio::time::timeout$", ("RF", Err())), Assume("field", "SendRequestOpts.timeout", Some())]),
                 ("body", [Assume("ret", col, ("RF", Err()))]), ("empty", [Assume("ret", r"bytes::Bytes::is_empty$", TRUE)])):
        c.unreachable("http-" + n, "a subgraph whose response did not arrive completely is a failure", S, a, [], ret_bad=okay)
    T = c.find(r"executors::http::HTTPSubgraphExecutor as .*SubgraphExecutor>::execute$")[0]
    c.unreachable("http-type", "a response that is not a GraphQL response is a failure", T, [Assume("ret", r"http::validate_response_content_type$", ("S", "tuple", ((0, FALSE),)))], [], ret_bad=okay)
    noplug = [TOP, TOP, TOP, NONE]
    for n, a in (("send", [Assume("ret", r"executors::http::send_request$", Err()), Assume("ret", r"InFlightClaim\S*(<.*>)?::get_or_try_init$", Err())]), ("parse", [Assume("ret", r"SubgraphResponse\S*(<.*>)?::deserialize_from_bytes$", Err())])):
        c.unreachable("http-" + n, "a response that cannot be read is a failure", T, a, [], ret_bad=okay, args=noplug)
    G = c.find(r"inflight::InFlightClaim\S*(<.*>)?::get_or_try_init$")[0]
    c.unreachable("http-shared", "a failed call is a failure for everyone who shares it", G, [Assume("ret", r"OnceCell\S*(<.*>)?::get_or_try_init$", ("RF", Err()))], [], ret_bad=okay)
    lead = [b for b in c.p.family(G.id) if b.kind == "coroutine" and any(re.search(r"FnOnce\S*::call_once$", fn.get("d", "")) for _, fn, *_ in b.calls())]
    if len(lead) != 1:
        raise Anchor("the future of the call that is shared")
    c.unreachable("http-leader", "a failed call is a failure for everyone who shares it", lead[0], [Assume("ret", r"FnOnce(<.*>)?(>)?::call_once$", ("RF", Err()))], [], ret_bad=okay)
    V = c.find(r"executors::http::validate_response_content_type$")[0]
    ok0 = lambda av: strip(av)[0] != "S" or strip(dict(strip(av)[2]).get(0, TOP)) != FALSE
    c.unreachable("http-type-none", "a response without content type is not a GraphQL response", V, [Assume("ret", r"HeaderMap\S*(::)?(<.*>)?::get$", NONE)], [], ret_bad=ok0)
    # the body
    Q = c.find(r"plan::execute_query_plan_with_data$")[0]
    proj = r"projection::response::project_by_operation$"
    plain = lambda: [Assume("field", "QueryPlanExecutionOpts.plugin_req_state", NONE), Assume("ret", r"AsRef(<.*>)?::as_ref$", ("R", NONE), gtype=r"ErrorMasking\w*"), Assume("ret", r"Vec(::)?(<.*>)?::is_empty$", TRUE, gtype=r"Fn(Once|Mut)?\b")]
    c.unreachable("written", "the response is written from the collected errors", Q, plain() + [Assume("field", "ExecutionContext.errors", ("K", "TAG:errors"))],
                  [Sink("other", proj, argpred=lambda a, fr: not any("TAG:errors" in repr(x) for x in a))])
    B = c.find(proj)[0]
    c.unreachable("written-body", "errors are written into the response", B, [Assume("ret", r"Vec(::)?(<.*>)?::is_empty$", FALSE, gtype=GERR)], [], control=False,
                  trans=[Trans(r"^sonic_rs::(\w+::)*to_(vec|string|writer)\w*$", {"0": "E"}, gtype=GERR), Trans(r"Vec(::)?(<.*>)?::(extend_from_slice|append)$|BufferExt\S*::put_slice$|::put_slice$|::put$", {"E": "W"})],
                  exit_bad=lambda av, s: okay(av) and s != "W")
