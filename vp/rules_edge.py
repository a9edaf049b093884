"""The edge of the router: caching headers, timeouts, sharing of in-flight requests, cross-origin access."""
import re
from registry import prop
from framework import clone_assume, Anchor, nonempty, empty, group, shorten
from absint import NEVER, Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, strip
from rules_pipeline import may, exec_sinks, HTTP
from rules_auth import okay, tystr, enum, arg_of_type, tag
from rules_access import callers, field_index
from rules_state import makers, names, ends

CC = "cache_control::CacheControl"
FLAGS = ("no_store", "no_cache", "is_private")
INSERT = r"HashMap\S*(::)?(<.*>)?::insert$"
FORBID = ("K", "TAG:forbid")


def cc(c, **kw):
    a = c.adt(CC)
    return ("S", a["id"] if "id" in a else CC, tuple(sorted((field_index(c, CC, k), v) for k, v in kw.items())))


@prop("P32", "Branch feasibility and typestate of the caching header from its parsing to the response: what forbids caching survives parsing and merging, failures and mutations force it, "
             "and 'public' is written only when no subgraph was silent.")
def p32(c):
    F = c.find(r"cache_control::finalize$")[0]
    PARSE, MERGE, WRITE = r"cache_control::parse$", r"cache_control::merge_into$", r"cache_control::to_header_value$"
    fb = arg_of_type(F, r"^bool$")
    fu = arg_of_type(F, r"^usize$")
    there = lambda: group("there", Assume("ret", r"HashMap\S*(::)?(<.*>)?::(get|get_mut|remove|remove_entry)$", Some(), where=r"cache_control::"), Assume("ret", r"HashMap\S*(::)?(<.*>)?::contains_key$", TRUE, where=r"cache_control::"),
                          Assume("ret", r"HashMap\S*(::)?(<.*>)?::entry$", variant("std::collections::hash_map::Entry", 0, ((0, TOP),)), where=r"cache_control::"))
    a = [TOP] * F.argc
    a[fb] = TRUE
    # the value that is written when caching is forbidden: built from a text that says so
    statics = {b.id.split(" as ")[0].lstrip("<") for b in c.p.bodies.values() if b.id.startswith("<") and b.id.endswith("__static_ref_initialize")
               and any("no-store" in repr(s) for _, s in b.stmts()) | any("no-store" in repr(x) for _, _, x, *_ in b.calls())}
    deref = [Assume("ret", r"^<%s as std::ops::Deref>::deref$" % re.escape(s), ("R", FORBID)) for s in sorted(statics)]
    lit = [Assume("ret", r"HeaderValue::(from_static|from_str|try_from)$", FORBID, where=r"cache_control::", argpred=lambda a, fr: any("no-store" in repr(x) for x in a))]
    says = lambda a, fr: any("TAG:forbid" in repr(x) or "no-store" in repr(x) for x in a)
    made = [Trans(r"Clone(>)?::clone$|HeaderValue::(from_static|from_str|try_from)$", {"0": "V"}, where=r"cache_control::", argpred=says)]
    c.unreachable("forced", "caching is forbidden when the caller says so, whatever the subgraphs sent", F, there() + group("text", *(deref + lit)), [Sink("parsed", PARSE), Sink("other", INSERT, bad=("0", "I"), where=r"cache_control::")],
                  control=False, args=a, trans=made + [Trans(INSERT, {"V": "W"}, where=r"cache_control::")], exit_bad=lambda av, s: s != "W")
    Q = c.find(r"plan::execute_query_plan_with_data$")[0]
    FIN = r"cache_control::finalize$"
    unforced = lambda a, fr: len(a) > fb and strip(a[fb]) != TRUE
    plain = lambda: [Assume("field", "QueryPlanExecutionOpts.plugin_req_state", NONE)]
    for n, ass in (("mutation", [Assume("ret", r"OperationKind::is_mutation$", TRUE)]), ("error", [Assume("ret", r"Vec(::)?(<.*>)?::is_empty$", FALSE, gtype=r"GraphQLError\b")])):
        c.unreachable("force-" + n, "the response to a mutation, or with errors, is not cached", Q, plain() + ass, [Sink("unforced", FIN, argpred=unforced)])
    c.unreachable("before-sent", "the response headers are only taken over after that decision", Q, plain(), [Sink("store", r"ResponseHeaderSink::store$", bad=("0",), where=r"plan::execute_query_plan_with_data")], control=False, trans=[Trans(FIN, {"0": "F"})])
    # merging
    M = c.find(MERGE)[0]
    off = {k: FALSE for k in FLAGS}
    has = lambda v: any(strip(dict(strip(v)[2]).get(field_index(c, CC, k), TOP)) == TRUE for k in FLAGS) if strip(v)[0] == "S" else False
    lost = lambda v: not has(v)
    inc, acc = arg_of_type(M, r"^[^&]*CacheControl$"), arg_of_type(M, r"&.*Option<.*CacheControl")
    for k in FLAGS:
        a = [TOP] * M.argc
        a[acc], a[inc] = ("R", Some(cc(c, **off))), cc(c, **{**off, k: TRUE})
        kept = [Trans(None, {"0": "P"}, adt=r"CacheControl::CacheControl$", val=has)] + [Trans(None, {"0": "P"}, field=r"CacheControl\.%s$" % f, val=lambda av: strip(av) == TRUE) for f in FLAGS]
        c.unreachable("merge-" + k, "one subgraph that forbids caching forbids it for the response", M, [], [], control=False, need_hits=False, need_trans=False, args=a, trans=kept, exit_bad=lambda av, s: s != "P")
        a = [TOP] * M.argc
        a[acc], a[inc] = ("R", Some(cc(c, **{**off, k: TRUE}))), TOP
        gone = [Trans(None, {"*": "L"}, adt=r"CacheControl::CacheControl$", val=lost), Trans(None, {"*": "L"}, field=r"CacheControl\.%s$" % k, val=lambda av: strip(av) != TRUE)] + \
               [Trans(None, {"*": "0"}, adt=r"CacheControl::CacheControl$", val=has)] + [Trans(None, {"*": "0"}, field=r"CacheControl\.%s$" % f, val=lambda av: strip(av) == TRUE) for f in FLAGS]
        c.unreachable("merge-keeps-" + k, "what forbids caching is not undone by another subgraph", M, [], [], control=False, need_hits=False, need_trans=False, args=a, trans=gone, exit_bad=lambda av, s: s == "L")
    pub = lambda v: strip(dict(strip(v)[2]).get(field_index(c, CC, "is_public"), TOP)) if strip(v)[0] == "S" else TOP
    for n, was, now in (("now", TRUE, FALSE), ("before", FALSE, TRUE)):
        a = [TOP] * M.argc
        a[acc], a[inc] = ("R", Some(cc(c, **{**off, "is_public": was}))), cc(c, **{**off, "is_public": now})
        said = [Trans(None, {"*": "N"}, adt=r"CacheControl::CacheControl$", val=lambda v: pub(v) == FALSE), Trans(None, {"*": "N"}, field=r"CacheControl\.is_public$", val=lambda v: strip(v) == FALSE),
                Trans(None, {"*": "P"}, adt=r"CacheControl::CacheControl$", val=lambda v: pub(v) != FALSE), Trans(None, {"*": "P"}, field=r"CacheControl\.is_public$", val=lambda v: strip(v) != FALSE)]
        c.unreachable("public-" + n, "a response is public only if every subgraph says so", M, [], [], control=False, need_hits=False, need_trans=False, args=a, trans=said,
                      exit_bad=lambda av, s, was=was: s == "P" or was == TRUE and s != "N")
    # writing
    W = c.find(WRITE)[0]
    for k in FLAGS:
        I = c.interp(W, [], [], args=[("R", cc(c, **{**{f: TOP for f in FLAGS}, k: TRUE}))])
        r = repr(I.result)
        c.ob("write-" + k, "no-store" in r and I.result is not BOT, "a response that must not be cached says so", "%s:%d" % (W.file, W.line), {"returns": r[:100]})
    # parsing
    Pb = c.find(PARSE)[0]
    word = {"no_store": "no-store", "no_cache": "no-cache", "is_private": "private"}
    nx = r"^std::iter::Iterator::next$"
    eq = r"PartialEq(<.*>)?(>)?::eq$"
    for k in FLAGS:
        w = "s:" + word[k]
        same = group("word", Assume("ret", eq, TRUE, where=r"cache_control::parse", argpred=lambda a, fr, w=w: any(w in repr(x) for x in a)),
                     Assume("ret", eq, FALSE, where=r"cache_control::parse", argpred=lambda a, fr, w=w: "'s:" in repr(a) and w not in repr(a)))
        c.unreachable("parse-" + k, "what forbids caching is recognized", Pb, same + [Assume("ret", r"str(::<impl str>|<.*>)?::is_empty$", FALSE)], [Sink("lost", nx, where=r"cache_control::parse", bad=("N",))], control=False,
                      trans=[Trans(nx, {"0": "N"}, where=r"cache_control::parse"), Trans(None, {"N": "0"}, field=r"CacheControl\.%s$" % k, val=lambda av: strip(av) == TRUE)])
        c.unreachable("parse-%s-kept" % k, "what forbids caching is respected whatever else the header contains", Pb, [], [], control=False, need_hits=False,
                      trans=[Trans(None, {"*": "P"}, field=r"CacheControl\.%s$" % k, val=lambda av: strip(av) == TRUE)], exit_bad=lambda av, s: s == "P" and may(av, ("None",)))
    # public
    part = [Trans(MERGE, {"N": "0"}), Trans(nx, {"0": "N", "N": "D"}, where=r"cache_control::finalize", pre=True)]
    ipub = field_index(c, CC, "is_public")
    public = lambda a, fr: strip(dict(strip(a[0])[2]).get(ipub, TOP)) != FALSE if strip(a[0])[0] == "S" else True
    a = [TOP] * F.argc
    a[fb] = FALSE
    c.unreachable("public-discarded", "a response is public only if every header was understood", F, there(), [Sink("public", WRITE, argpred=public, bad=("D",))], control=False, args=a, trans=part)
    a = [TOP] * F.argc
    a[fb], a[fu] = FALSE, ("K", "2")
    c.unreachable("public-silent", "a response is public only if every subgraph said so", F, there() + [Assume("ret", r"Vec(::)?(<.*>)?::len$", ("K", "1"), where=r"cache_control::finalize")], [Sink("public", WRITE, argpred=public)], control=False, args=a)


REQ = r"legacy::Client(::)?(<.*>)?::request$|hyper_util::client::\S*Client\S*::request$"
COLLECT = r"BodyExt(>)?::collect$"


def waits(c, key, text, entry, step, assumes, where=None, args=None, never=None):
    """Under the assumptions `entry` ends, and not well, although what `step` starts never happens."""
    I = c.interp(entry, assumes + [never or Assume("ret", step, ("RF", NEVER), where=where)], [], args=args, trans=[Trans(step, {"*": "W"}, site=True, where=where)])
    if not I.trans[0].hits:
        raise Anchor("%s: %s is never reached from %s" % (key, step, shorten(entry.id)))
    rs = [r for g, r in I.final_split.items() if "W" in g and r is not BOT]
    c.ob(key, bool(rs) and not any(okay(r) for r in rs), text, "%s:%d" % (entry.file, entry.line), {"waits for": step, "ends with": [repr(r)[:100] for r in rs], "functions": len(I.visited)})


@prop("P33", "Branch feasibility with futures that never become ready: under a configured timeout every call still ends, and with a failure, although the request, the response body, the connection or the "
             "message it waits for never comes; the configured limit reaches the place that applies it.")
def p33(c):
    # the client's request
    H = c.find(r"pipeline::timeout::handle_timeout$")[0]
    limit = Assume("field", "TrafficShapingRouterConfig.request_timeout", ("K", "TAG:limit"))
    sleep = r"(^|::)time::(\w+::)?(sleep|timeout)$"
    c.unreachable("client-limit", "the limit is the configured one", H, [limit], [Sink("other", sleep, argpred=lambda a, fr: not any("TAG:limit" in repr(x) for x in a))], control=False)
    D = c.find(r"(^|::)graphql_endpoint_dispatch$")[0]
    c.unreachable("client-only", "no request is handled outside the limit", D, [], [Sink("handled", r"normalize_request_with_cache$|execute_pipeline$|pipeline::execute_planned_request$", bad=("0",))], control=False, need_hits=False,
                  trans=[Trans(sleep, {"0": "T"})])
    fa = [i for i in range(H.argc) if not tystr(H.local_ty(i + 1)).startswith("&")]
    if len(fa) != 1:
        raise Anchor("the future that handle_timeout waits for")
    a = [TOP] * H.argc
    a[fa[0]] = ("RF", NEVER)
    I = c.interp(H, [], [], args=a)
    c.ob("client-late", I.result is not BOT and not okay(I.result), "a request that takes too long is answered with an error", "%s:%d" % (H.file, H.line), {"ends with": repr(I.result)[:120], "functions": len(I.visited)})
    a[fa[0]] = ("RF", Ok(("K", "TAG:answer")))
    I = c.interp(H, [], [], args=a)
    c.ob("client-answer", "TAG:answer" in repr(I.result), "a request that is handled in time is answered", "%s:%d" % (H.file, H.line), {"ends with": repr(I.result)[:120]})
    # subgraphs
    S = c.find(r"executors::http::send_request$")[0]
    given = lambda: [Assume("field", "SendRequestOpts.timeout", Some())]
    waits(c, "subgraph-response", "a subgraph that does not answer in time is a failure", S, REQ, given())
    waits(c, "subgraph-body", "a subgraph that does not send its whole answer in time is a failure", S, COLLECT, given())
    K = c.find(r"coprocessor::client::CoprocessorClient::send$")[0]
    waits(c, "coprocessor-response", "a coprocessor that does not answer in time is a failure", K, REQ, [])
    waits(c, "coprocessor-body", "a coprocessor that does not send its whole answer in time is a failure", K, COLLECT, [])
    seen = []
    for b in c.p.bodies.values():
        if b.is_test() or not re.search(r"^<.* as (\w+::)*SubgraphExecutor>::execute$", b.id):
            continue
        n = re.sub(r"^<(\w+::)*(.*) as .*", r"\2", b.id)
        a = [TOP] * b.argc
        at = arg_of_type(b, r"^std::option::Option<std::time::Duration>$")
        a[at] = Some(("K", "TAG:limit"))
        if n == "WsSubgraphExecutor":
            reuse = lambda v: [Assume("field", n + ".reuse_connections", v)] + ([Assume("field", "SubgraphExecutionRequest.connection_fingerprint", Some())] if v == TRUE else [])
            rx = Assume("ret", r"Future(>)?::poll$", BOT, gtype=r"oneshot::Receiver<")
            waits(c, "websocket-shared", "a subgraph that does not answer in time is a failure", b, r"WebSocketPool::get_or_initialize$", reuse(TRUE), args=a)
            waits(c, "websocket-own", "a subgraph that does not answer in time is a failure", b, r"oneshot::channel$", reuse(FALSE), args=a, never=rx)
        elif n == "PooledWebSocketExecutor":
            for k, pat in (("submit", r"PooledWebSocketExecutor::submit$"), ("answer", r"mpsc::\S*Receiver\S*(::)?(<.*>)?::recv$")):
                waits(c, "websocket-pool-" + k, "a subgraph that does not answer in time is a failure", b, pat, [], args=a)
        elif n == "HTTPSubgraphExecutor":
            c.unreachable("limit-http", "the limit of the subgraph is the one that is applied", b, [], [Sink("other", r"executors::http::send_request$", argpred=lambda a, fr: not any("TAG:limit" in repr(x) for x in a))], args=a, control=False, need_hits=False)
        else:
            continue
        seen.append(n)
    if len(seen) != 3:
        raise Anchor("the ways to call a subgraph: " + ", ".join(seen))
    # the configured limit
    M = c.find(r"SubgraphExecutorMap::execute$")[0]
    c.unreachable("limit-passed", "the limit of the subgraph is the one that is applied", M, [Assume("ret", r"SubgraphExecutorMap::resolve_subgraph_timeout$", Ok(Some(("K", "TAG:limit"))))],
                  [Sink("other", r"SubgraphExecutor(>)?::execute$", argpred=lambda a, fr: not any("TAG:limit" in repr(x) for x in a), where=r"SubgraphExecutorMap::execute")], control=False)
    B = c.find(r"SubgraphExecutorMap::from_http_endpoint_map$")[0]
    c.each("limit-registered", "every subgraph has its limit", B, r"std::string::String", r"SubgraphExecutorMap::register_subgraph_timeout$", early=okay, where=r"from_http_endpoint_map")
    G = c.find(r"SubgraphExecutorMap::register_subgraph_timeout$")[0]
    c.unreachable("limit-registered-once", "every subgraph has its limit", G, [Assume("ret", r"DashMap\S*(::)?(<.*>)?::contains_key$", FALSE)], [], control=False, trans=[Trans(r"DashMap\S*(::)?(<.*>)?::insert$", {"0": "I"})], exit_bad=lambda av, s: okay(av) and s != "I")
    R = c.find(r"SubgraphExecutorMap::resolve_subgraph_timeout$")[0]
    c.unreachable("limit-resolved", "a registered limit is applied", R, [Assume("ret", r"DashMap\S*(::)?(<.*>)?::get$", Some())], [], control=False, ret_bad=lambda av: repr(NONE) in repr(av))


@prop("P35", "Element ownership and branch feasibility of the shared in-flight work: the entry is given up by a guard that lives exactly as long as the work, on success, failure and cancellation, "
             "and what a request is given is what the work it claimed produced.")
def p35(c):
    from rules_request import outlives
    D = c.find(r"^<.*inflight::InFlightCleanupGuard<.*> as (std::ops::)?Drop>::drop$")[0]
    gone = r"inflight::InFlightMap\S*(::)?(<.*>)?::remove$|DashMap\S*(::)?(<.*>)?::(remove|remove_if)$"
    c.unreachable("drop", "the entry is removed when its guard is dropped", D, [], [], control=False, trans=[Trans(r"DashMap\S*(::)?(<.*>)?::(remove|remove_if)$", {"0": "R"})], exit_bad=lambda av, s: s != "R")
    same = Assume("ret", r"sync::Arc(::)?(<.*>)?::ptr_eq$", FALSE)
    c.unreachable("drop-own", "a claim only gives up its own entry", D, [same], [Sink("any", r"DashMap\S*(::)?(<.*>)?::remove$")], control=False, need_hits=False)
    cond = [b for i in c.interp(D, [], []).visited if i in c.p.bodies for b in [c.p.bodies[i]] for _, fn, *_ in b.calls() if any(re.search(r"DashMap\S*(::)?(<.*>)?::remove_if(_mut)?$", x) for x in names(fn))]
    for b in cond:
        for k in c.p.family(b.id):
            if k.kind == "closure":
                I = c.interp(k, [clone_assume(same)], [])
                c.ob("drop-own-" + shorten(b.id).rsplit("::", 1)[1], I.result == FALSE, "a claim only gives up its own entry", "%s:%d" % (k.file, k.line), {"answers for another entry": repr(I.result)[:60]})
    for n in ("get_or_try_init", "get_or_try_init_with_guard"):
        G = c.find(r"inflight::InFlightClaim\S*(<.*>)?::%s$" % n)[0]
        fam = [b for b in c.p.family(G.id) if b.kind == "coroutine" and any(re.search(r"FnOnce(<.*>)?(>)?::call_once$", x) for _, fn, *_ in b.calls() for x in names(fn))]
        if len(fam) != 1:
            raise Anchor("the future of the work in " + n)
        W = fam[0]
        up = c.p.bodies.get(W.id.rsplit("::", 1)[0])
        Y = up if up is not None and up.kind == "closure" else W      # the guard may be made before the future
        guard = r"InFlightCleanupGuard::InFlightCleanupGuard$"
        work = r"FnOnce(<.*>)?(>)?::call_once$"
        c.unreachable(n + "-guarded", "the work starts under the guard of its entry", Y, [], [Sink("work", work, bad=("0",))], control=False, need_hits=False, trans=[Trans(None, {"0": "G"}, adt=guard)])
        poll = [i for i, fn, *_ in W.calls() if any(re.search(r"Future(>)?::poll$", x) for x in names(fn))]
        drops = [(i, blk["x"]) for i, blk in enumerate(W.bbs) if blk["x"][0] == "drop" and not blk.get("cl") and re.search(r"InFlightCleanupGuard<", W.local_ty(blk["x"][1][0])["s"]) and not W.local_ty(blk["x"][1][0]).get("r")]
        if n == "get_or_try_init":
            from ir import succs
            hot = set(poll)
            def later(i):
                seen, todo = set(), list(succs(W.bbs[i]))
                while todo:
                    k = todo.pop()
                    if k in seen or W.bbs[k].get("cl"):
                        continue
                    seen.add(k)
                    if k in hot:
                        return True
                    todo += succs(W.bbs[k])
                return False
            moved = [i for i, fn, av, *_ in W.calls() for o in av if isinstance(o, dict) and len(o.get("m") or ()) == 1 and re.search(r"InFlightCleanupGuard<", W.local_ty(o["m"][0])["s"]) and not W.local_ty(o["m"][0]).get("r")]
            early = [i for i, _ in drops if later(i)] + [i for i in moved if later(i)]
            c.ob(n + "-held", bool(drops) and bool(poll) and not early, "the entry is there until the work has ended", "%s:%d" % (W.file, W.line), {"polls": len(poll), "drops of the guard": len(drops), "before a poll": len(early)})
        else:
            c.unreachable(n + "-handed", "the guard goes to whoever does the work", Y, [], [Sink("kept", work, argpred=lambda a, fr: "InFlightCleanupGuard" not in repr(a))], control=False, need_hits=False)
    C = c.find(r"inflight::InFlightMap\S*(<.*>)?::claim$")[0]
    claim = r"InFlightClaim::InFlightClaim$"
    oc = lambda k: [Assume("ret", r"DashMap\S*(::)?(<.*>)?::entry$", variant("dashmap::Entry", k, ((0, TOP),)))]
    c.unreachable("claim-new", "new work can be found by others", C, oc(1), [Sink("lost", adt=claim, bad=("0",))], control=False, trans=[Trans(r"VacantEntry\S*(::)?(<.*>)?::(insert|insert_entry)$", {"0": "I"})])
    c.unreachable("claim-join", "work that is under way is joined, not replaced", C, oc(0), [Sink("replaced", r"OccupiedEntry\S*(::)?(<.*>)?::(insert|remove)$|OnceCell\S*(::)?(<.*>)?::new$")], control=False)
    makers(c, "guard-made", "the guard of an entry is only made by the claim on it", "InFlightCleanupGuard", [r"inflight::InFlightClaim\S*(<.*>)?::"])
    makers(c, "claim-made", "a claim is only made by the map of the work in flight", "InFlightClaim", [r"inflight::InFlightMap\S*(<.*>)?::claim$"])


def hdr(name):
    return lambda a, fr: any("header::" + name in repr(x) for x in a)


@prop("P36", "Branch feasibility of cross-origin decisions: no origin is allowed without a matching policy, credentials only if the policy that matched allows them, and a request that only asks is never executed.")
def p36(c):
    S = c.find(r"cors::Cors::set_headers$")[0]
    put = r"HeaderMap\S*(::)?(<.*>)?::(insert|append|try_insert|try_append|entry)$"
    apply_ = r"CompiledCORSPolicy::apply_to$"
    grant = lambda a, fr: not any(repr(("K", "s:null")) in repr(x) or "TAG:null" in repr(x) for x in a)
    origin = lambda v: Assume("ret", r"HeaderMap\S*(::)?(<.*>)?::get$", v, where=r"cors::Cors::set_headers")
    nul = Assume("ret", r"HeaderValue::(from_static|from_str|try_from)$", ("K", "TAG:null"), where=r"cors::", argpred=lambda a, fr: "s:null'" in repr(a))
    none = lambda: Assume("ret", r"Cors::find_policy_for_origin$", NONE)
    c.unreachable("no-origin", "a request without origin gets no cross-origin header", S, [origin(NONE)], [Sink("granted", apply_), Sink("header", put)])
    c.unreachable("unmatched", "an origin that no policy matches is not allowed", S, [none(), nul], [Sink("granted", apply_), Sink("header", put, argpred=grant)], control=False)
    isnull = group("null", Assume("ret", r"PartialEq(<.*>)?(>)?::eq$", TRUE, where=r"cors::"), Assume("ret", r"PartialEq(<.*>)?(>)?::ne$", FALSE, where=r"cors::"))
    c.unreachable("opaque", "an opaque origin that no policy matches is not told that it is allowed", S, [none()] + isnull, [Sink("granted", apply_), Sink("header", put)])
    F = c.find(r"Cors::find_policy_for_origin$")[0]
    rules = enum(c, "cors::Cors", "ByOrigin")
    c.unreachable("matched", "a policy applies only to origins it names or matches", F, [Assume("ret", r"CompiledOriginRule::matches_origin$", FALSE)], [], control=False, args=[("R", rules), TOP], ret_bad=lambda av: may(av, ("Some",)))
    M = c.find(r"CompiledOriginRule::matches_origin$")[0]
    c.unreachable("matches", "a policy matches only the origins it lists and the patterns it has", M, [Assume("ret", r"^std::iter::Iterator::any$|::contains$", FALSE), Assume("ret", r"is_match$|Option(::)?(<.*>)?::is_some_and$", FALSE)], [], control=False, ret_bad=lambda av: strip(av) != FALSE)
    for q in sorted(q for q in c.p.bodies if q.startswith(M.id + "::{closure")):
        no = [Assume("ret", x, FALSE) for x in (r"PartialEq(<.*>)?(>)?::eq$", r"^(?!.*(impl str|::str::)).*::(contains|contains_key)$", r"::eq_ignore_ascii_case$", r"is_match$")] + [Assume("ret", r"PartialEq(<.*>)?(>)?::ne$", TRUE)]
        c.unreachable("whole-" + shorten(q), "an origin is named only by the whole of it", c.p.bodies[q], no, [], control=False, need_hits=False, ret_bad=lambda av: av != BOT and strip(av) != FALSE)
    C = c.find(r"cors::Cors::from_config$")[0]
    c.unreachable("any-origin", "every origin is allowed only if configured", C, [Assume("field", "CORSConfig.allow_any_origin", FALSE)], [Sink("all", adt=r"Cors::AllowAll$")])
    c.unreachable("disabled", "without configuration nothing is allowed", C, [Assume("field", "CORSConfig.enabled", FALSE)], [], ret_bad=lambda av: may(av, ("Ok",)) and "'V'" in repr(av) and not repr(NONE) in repr(av))
    i = field_index(c, "cors::CompiledCORSPolicy", "allow_credentials_value")
    cred = lambda av: strip(dict(strip(av)[2]).get(i, TOP)) if strip(av)[0] == "S" else TOP
    Pc = c.find(r"CompiledCORSPolicy::from_config$")[0]
    c.unreachable("credentials-off", "a policy that does not allow credentials does not inherit them", Pc, [Assume("field", "CORSPolicyConfig.allow_credentials", Some(FALSE))], [], control=False, ret_bad=lambda av: may(cred(av), ("Some",)))
    c.unreachable("credentials-default", "credentials are not allowed unless configured", Pc, [Assume("field", "CORSPolicyConfig.allow_credentials", NONE), Assume("field", "CompiledCORSPolicy.allow_credentials_value", NONE)], [], control=False, ret_bad=lambda av: may(cred(av), ("Some",)))
    acc = lambda: [Assume("field", "CORSConfig.allow_credentials", FALSE)]
    w = Trans(None, {"0": "C"}, adt=r"CompiledCORSPolicy::CompiledCORSPolicy$", val=lambda v: may(strip(dict(v[2]).get(i, TOP)), ("Some",)))
    c.unreachable("credentials-global", "credentials are not allowed unless configured", C, acc() + [Assume("ret", r"CompiledOriginRule::try_from_config$", TOP)], [], control=False, trans=[w], need_trans=False, exit_bad=lambda av, s: s == "C")
    A = c.find(apply_)[0]
    c.unreachable("credentials-applied", "credentials are only allowed by the policy that matched", A, [Assume("field", "CompiledCORSPolicy.allow_credentials_value", NONE)], [Sink("credentials", put, argpred=hdr("ACCESS_CONTROL_ALLOW_CREDENTIALS"))])
    for f, h in (("methods_value", "ACCESS_CONTROL_ALLOW_METHODS"), ("allow_headers_value", "ACCESS_CONTROL_ALLOW_HEADERS")):
        c.unreachable("configured-" + f, "configured methods and headers are not widened to what the request asks for", A, [Assume("field", "CompiledCORSPolicy." + f, Some(("K", "TAG:configured")))],
                      [Sink("other", put, argpred=lambda a, fr, h=h: hdr(h)(a, fr) and "TAG:configured" not in repr(a))], control=False)
    E = c.find(r"Cors::get_early_response$")[0]
    for v, bad, text in ((TRUE, ("None",), "a request that only asks is answered as such"), (FALSE, ("Some",), "a request that does not only ask is not swallowed")):
        c.unreachable("preflight-%s" % ("asks" if v == TRUE else "other"), text, E, group("options", Assume("ret", r"PartialEq(<.*>)?(>)?::eq$", v, where=r"cors::"), Assume("ret", r"PartialEq(<.*>)?(>)?::ne$", FALSE if v == TRUE else TRUE, where=r"cors::")),
                      [], control=False, ret_bad=lambda av, bad=bad: may(av, bad))
    on = lambda: Assume("field", "RouterSharedState.cors_runtime", Some())
    c.unreachable("preflight", "a request that only asks is never executed", HTTP, [on(), Assume("ret", r"Cors::get_early_response$", Some())], exec_sinks() + [Sink("plan", r"plan_operation_with_cache$")])
    c.unreachable("every-response", "the cross-origin rules are applied to what execution answers as well as to failures", "graphql_endpoint_dispatch",
                  [on(), Assume("field", "RouterSharedState.coprocessor", NONE)], [], control=False, trans=[Trans(r"Cors::set_headers$", {"*": "C"})], exit_bad=lambda av, s: s != "C")
