"""Schema state: reloads, selection of the supergraph a request runs on, retirement."""
import re
import flow
from registry import prop
from framework import Anchor, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, strip, getf
from rules_pipeline import may
from rules_auth import okay, tystr, enum
from rules_access import callers, field_index

BUILD = r"ConfiguredSupergraph::build$"
RTB = r"RouterSupergraphRuntime::build$"
SWAP = r"ArcSwap\w*(::)?(<.*>)?::(store|swap|rcu|compare_and_swap|from_pointee|new)$"


def changed(av):
    """Ok(Changed) may be returned."""
    if not may(av, ("Ok",)):
        return False
    v = strip(av)
    if v[0] != "V":
        return True
    x = strip(dict(dict(v[2])[0]).get(0, TOP))
    return x is not BOT and (x[0] != "V" or any(i == 1 for i, _ in x[2]))


def some(av):
    return may(av, ("Ok", "Some"))


@prop("P25", "Branch feasibility of loading, building and publishing a supergraph under every failure of a stage: no path on which something failed publishes, no failure ends the reload loop or "
             "the polling loop, and the marker that makes the next poll answer 'unchanged' is not written on a path on which the content did not arrive.")
def p25(c):
    N = "SchemaState::new_from_config"
    store = lambda: [Sink("publish", r"ArcSwap\w*(::)?(<.*>)?::(store|swap|rcu|compare_and_swap)$", gtype=r"ConfiguredSupergraph|Arc<", where=r"schema_state::")]
    for n, v in (("failed", Err()), ("must", BOT)):
        c.unreachable("publish-" + n, "a supergraph that could not be built is never published", N, [Assume("ret", BUILD, v)], store())
    c.unreachable("publish-value", "a reload never publishes the absence of a supergraph", N, [],
                  [Sink("withdraw", r"ArcSwap\w*(::)?(<.*>)?::(store|swap)$", where=r"schema_state::", argpred=lambda a, fr: strip(a[1]) == NONE)], control=False)
    callers(c, "publish-calls", "the configured supergraph is replaced only by the reload loop", BUILD, {r"schema_state::SchemaState::new_from_config"})
    pub = [b for b in c.p.bodies.values() if not b.is_test() and re.search(r"schema_state::", b.id) and any(re.search(r"ArcSwap\w*(::)?(<.*>)?::(store|swap|rcu|compare_and_swap)$", x) for _, fn, *_ in b.calls() for x in names(fn))]
    roots = {c.p.root_of(b).id for b in pub}
    c.ob("publish-who", roots == {c.fn(N).id}, "the configured supergraph is replaced only by the reload loop", pub[0].file if pub else "", {"replaced in": sorted(map(shorten, roots))})
    # the reload loop survives a failure
    loop = [b for b in c.p.bodies.values() if b.kind in ("coroutine", "closure") and c.p.root_of(b).id == c.fn(N).id and any(re.search(BUILD, x) for _, fn, *_ in b.calls() for x in names(fn))]
    if len(loop) != 1:
        raise Anchor("the reload loop of new_from_config")
    rx = lambda: Assume("ret", r"mpsc::\S*Receiver\S*(::)?(<.*>)?::recv$", Some())
    ends(c, "loop", "a failed build does not stop later supergraphs from being applied", loop[0], [rx(), Assume("ret", BUILD, Err())])
    # building
    B = c.find(BUILD)[0]
    for n, call in (("parse", r"parsing::safe_parse_schema$"), ("options", r"schema_state::supergraph_options$"), ("runtime", RTB)):
        c.unreachable("build-" + n, "a supergraph one of whose build stages fails is not built", B, [Assume("ret", call, Err())], [], ret_bad=okay)
    c.unreachable("build-planner", "a supergraph that cannot be planned on is not built unless a plugin provides another one", B,
                  [Assume("ret", r"Supergraph::from_document$", Err()), Assume("ret", r"RouterPlugin\S*::on_supergraph_reload$", BOT)], [], ret_bad=okay)
    fin = lambda t, v, *f: Assume("field", "%sHookResult.control_flow" % t, enum(c, "plugin_trait::%sControlFlow" % t, v, *f))
    asked = lambda av, st_: st_ == "V" and okay(av)
    c.unreachable("build-veto-end", "a plugin that rejects a built supergraph prevents its use", B, [fin("Start", "OnEnd"), fin("End", "EndWithResponse", Err())], [], control=False,
                  trans=[Trans(r"FnOnce(<.*>)?(>)?::call_once$", {"0": "V"}, where=r"ConfiguredSupergraph::build", gtype=r"LoadEndHook", site=True)], exit_bad=asked)
    c.unreachable("build-veto-start", "a plugin that rejects a supergraph prevents its use", B, [fin("Start", "EndWithResponse", Err())], [], control=False,
                  trans=[Trans(r"RouterPlugin\S*(>)?::on_supergraph_reload$", {"0": "V"}, where=r"ConfiguredSupergraph::build", site=True)], exit_bad=asked)
    R = c.find(RTB)[0]
    for n, call, v in (("executors", r"SubgraphExecutorMap::from_http_endpoint_map$", Err()), ("authorization", r"AuthorizationMetadata\S*::build$", Err()),
                       ("documents", r"PersistedDocumentsRuntime::init$", Err()), ("endpoint", r"supports_graphql_endpoint$", FALSE),
                       ("headers", r"compile_headers_plan$", Err()), ("labels", r"OverrideLabelsEvaluator::from_config$", Err())):
        c.unreachable("runtime-" + n, "a runtime one of whose parts cannot be built is not built", R, [Assume("ret", call, v)], [], ret_bad=okay)
    c.unreachable("runtime-workers", "background workers of a runtime that could not be built are cancelled", R, [], [], control=False,
                  trans=[Trans(r"PersistedDocumentsRuntime::init$", {"0": "W"}), Trans(r"CancellationToken::cancel$", {"W": "0"})],
                  exit_bad=lambda av, s: s == "W" and not okay(av) or s == "W" and may(av, ("Err",)) and av[0] == "V")
    D = c.find(r"RouterSupergraphRuntime as .*Drop>::drop$")[0]
    c.unreachable("runtime-drop", "background workers of a runtime end with its last user", D, [], [], control=False, trans=[Trans(r"CancellationToken::cancel$", {"0": "C"})],
                  exit_bad=lambda av, s: s != "C")
    # polling
    T = c.find(r"SupergraphBackgroundLoaderTask as .*::run$")[0]
    load = lambda v: Assume("ret", r"SupergraphLoader(>)?::load$", v)
    every = lambda: [Assume("ret", r"SupergraphLoader(>)?::reload_interval$", Some()), Assume("ret", r"CancellationToken::is_cancelled$", FALSE), Assume("ret", r"CancellationToken::cancelled$", BOT)]
    send = lambda: [Sink("apply", r"mpsc::\S*Sender\S*(::)?(<.*>)?::(send|try_send|blocking_send)$")]
    res = c.adt("supergraph::base::ReloadSupergraphResult")
    unch = enum(c, "supergraph::base::ReloadSupergraphResult", "Unchanged")
    c.unreachable("poll-failed", "a failed load applies nothing", T, [load(Err())], send())
    c.unreachable("poll-unchanged", "an unchanged supergraph is not applied again", T, [load(Ok(unch))], send())
    ends(c, "poll-loop", "a failed load does not stop polling", T, every() + [load(Err())])
    ends(c, "poll-loop-unchanged", "an unchanged supergraph does not stop polling", T, every() + [load(Ok(unch))])
    # loaders
    for n, ty, call in (("file", "SupergraphFileLoader", r"tokio::fs::read_to_string\b"), ("hive", "SupergraphHiveConsoleLoader", r"supergraph_fetcher::.*::fetch_supergraph$"),
                        ("graphos", "SupergraphApolloGraphOSLoader", r"SupergraphApolloGraphOSLoader::fetch$"), ("storage", "SupergraphStorageLoader", r"StorageRuntime(>)?::get_if_none_changed$")):
        L = c.find(r"%s as .*SupergraphLoader>::load$" % ty)[0]
        c.unreachable("load-" + n, "a supergraph that could not be fetched is not reported as changed", L, [Assume("ret", call, Err())], [], ret_bad=changed)
    guard = lambda ty: [Sink("marker", r"DerefMut(>)?::deref_mut$", gtype=ty)]
    G = r"RwLockWriteGuard|MutexGuard"
    L = c.find(r"SupergraphFileLoader as .*SupergraphLoader>::load$")[0]
    c.unreachable("marker-file", "a file whose content could not be read is read again by the next poll", L, [Assume("ret", r"tokio::fs::read_to_string\b", Err())], guard(G))
    c.unreachable("marker-file-differs", "any other modification time counts as a change", L,
                  [Assume("field", "SupergraphFileLoader.poll_interval", Some())] + group("eq", Assume("ret", r"PartialEq(<.*>)?(::|>::)eq$", FALSE, where="supergraph::file"), Assume("ret", r"PartialEq(<.*>)?(::|>::)ne$", TRUE, where="supergraph::file")),
                  [], ret_bad=lambda av: may(av, ("Ok",)) and unchanged(av))
    L = c.find(r"SupergraphStorageLoader as .*SupergraphLoader>::load$")[0]
    c.unreachable("marker-storage", "content that could not be fetched from storage is fetched again by the next poll", L, [Assume("ret", r"StorageRuntime(>)?::get_if_none_changed$", Err())], guard(G))
    L = c.find(r"SupergraphApolloGraphOSLoader as .*SupergraphLoader>::load$")[0]
    c.unreachable("marker-graphos", "a supergraph that could not be fetched from GraphOS is fetched again by the next poll", L, [Assume("ret", r"SupergraphApolloGraphOSLoader::fetch$", Err())], guard(G))
    rc = "supergraph::apollo_graphos::RouterConfigResponse"
    c.unreachable("marker-graphos-error", "an error reported by GraphOS is not recorded as a received supergraph", L, [Assume("ret", r"SupergraphApolloGraphOSLoader::fetch$", Ok(enum(c, rc, "FetchError")))], guard(G))
    for n in ("async", "sync"):
        F = c.find(r"SupergraphFetcher::<.*%sState>::fetch_supergraph$|%s_fetcher::.*::fetch_supergraph$" % (n.capitalize(), n))
        F = [f for f in F if ("/%s_fetcher" % n) in f.file]
        if not F:
            raise Anchor("fetch_supergraph of the %s fetcher" % n)
        txt = Assume("ret", r"reqwest::.*Response::(text|bytes|json|text_with_charset)\b.*$", Err())
        c.unreachable("marker-hive-" + n, "a supergraph whose transfer from the CDN broke off is fetched again by the next poll", F[0], [txt], [Sink("marker", r"::update_latest_etag$|DerefMut(>)?::deref_mut$")])
        c.unreachable("fetch-hive-" + n, "a supergraph whose transfer from the CDN broke off is not delivered", F[0], [txt], [], ret_bad=some)
        ask = r"StatusCode::is_(server_error|client_error|success)$"
        bs = [b for b in c.p.bodies.values() if ("/%s_fetcher" % n) in b.file and not b.is_test() and any(re.search(ask, x) for _, fn, *_ in b.calls() for x in names(fn))]
        if not bs:
            raise Anchor("the %s fetcher looks at the status of a response" % n)
        for which in ("is_server_error", "is_client_error"):
            other = "is_client_error" if which == "is_server_error" else "is_server_error"
            for b in bs:
                c.unreachable("status-hive-%s-%s" % (n, which), "an error response of the CDN is not taken for a supergraph", b,
                              group("status", Assume("ret", r"StatusCode::%s$" % which, TRUE), Assume("ret", r"StatusCode::is_success$", FALSE), Assume("ret", r"StatusCode::%s$" % other, FALSE)),
                              [], ret_bad=okay)
    S = c.find(r"S3StorageRuntime as .*::get_if_none_changed$")[0]
    for n, call in (("body", r"GetResult::bytes$"), ("utf8", r"String::from_utf8$")):
        c.unreachable("storage-" + n, "content that did not arrive completely is not delivered", S, [Assume("ret", call, Err())], [], ret_bad=changed)
    # the same for persisted document manifests
    M = c.find(r"StorageResolver::reload_if_needed$")[0]
    docs = lambda: [Sink("replace", r"ArcSwap\w*(::)?(<.*>)?::(store|swap)$")]
    for n, call in (("fetch", r"StorageRuntime(>)?::get_if_none_changed$"), ("parse", r"parse_manifest$"), ("convert", r"TryInto(<.*>)?(::|>::)try_into$|TryFrom(<.*>)?(::|>::)try_from$")):
        c.unreachable("documents-storage-" + n, "a manifest that cannot be used does not replace the working one", M, [Assume("ret", call, Err())], docs() + guard(G))
    M = c.find(r"FileManifestResolver::reload_if_needed$")[0]
    for n, call in (("read", r"tokio::fs::read\b"), ("parse", r"parse_manifest$"), ("convert", r"TryInto(<.*>)?(::|>::)try_into$|TryFrom(<.*>)?(::|>::)try_from$")):
        c.unreachable("documents-file-" + n, "a manifest that cannot be used does not replace the working one", M, [Assume("ret", call, Err())], docs())
    for n, ty, call in (("storage", r"StorageManifestReloadTask", r"StorageResolver::reload_if_needed$"), ("file", r"FileManifestReloadTask", r"FileManifestResolver::reload_if_needed$")):
        T = c.find(r"%s as .*::run$" % ty)[0]
        stop = [a for a in (Assume("ret", r"CancellationToken::is_cancelled$", FALSE), Assume("ret", r"CancellationToken::run_until_cancelled\b.*$", Some()), Assume("ret", r"CancellationToken::cancelled$", BOT))
                if any(a.re.search(x) for b in c.p.bodies.values() if c.p.root_of(b).id == c.p.root_of(T).id for _, fn, *_ in b.calls() for x in names(fn))]
        if not stop:
            raise Anchor("%s can be cancelled" % ty)
        ends(c, "documents-loop-" + n, "a manifest that cannot be loaded does not stop later reloads", T, [Assume("ret", call, Err())] + stop)


def names(fn):
    from ir import fnref
    return [x for x in fnref(fn) if x]


def unchanged(av):
    v = strip(av)
    if v[0] != "V":
        return True
    x = strip(dict(dict(v[2]).get(0, ())).get(0, TOP))
    return x is not BOT and (x[0] != "V" or any(i == 0 for i, _ in x[2]))


def ends(c, key, text, entry, assumes):
    """Under the assumptions the loop never ends by itself."""
    I = c.interp(entry, assumes, [])
    miss = [a.pat for a in assumes if not a.hits and a.kind == "ret"]
    if miss:
        raise Anchor("%s: assumption %s never applies from %s" % (key, miss[0], shorten(entry.id)))
    c.ob(key, I.result is BOT, text, "%s:%d" % (entry.file, entry.line), {"entry": shorten(entry.id), "functions": len(I.visited), **({} if I.result is BOT else {"returns": repr(I.result)[:200]})})
    return I


CELL = r"OnceCell<std::sync::Arc<hive_router::schema_state::RouterSupergraphRuntime>>"
ID, OTHER = ("K", "5"), ("K", "7")


def predicate(c, b, same):
    """What a predicate over cache entries answers for an entry with the same / another cache id."""
    env = ("C", b.id, tuple((i, ("R", ID)) for i in range(6)))
    entry = ("S", "tuple", ((0, ID if same else OTHER),))
    while_ref = ("R", entry)
    return c.interp(b, [Assume("field", "SupergraphData.cache_id", ID)], [], args=[("R", env), while_ref] + [TOP] * (b.argc - 2)).result


@prop("P26", "Branch feasibility of the selection of a supergraph: a request that already has one keeps it, a plugin's choice is never replaced by the configured supergraph, every first "
             "selection is recorded on the request, and a runtime is only ever returned for the snapshot it was built from; who-may rules pin where pairs of snapshot and runtime are made.")
def p26(c):
    S = c.find(r"SchemaState::select_supergraph$")[0]
    get = r"Extensions::get$|Extensions(::)?(<.*>)?::get$"
    mine = lambda v: Assume("ret", get, v, gtype=r"SelectedSupergraph$")
    plug = lambda v: Assume("ret", get, v, gtype=r"SupergraphSnapshot$")
    conf = r"ArcSwap\w*(::)?(<.*>)?::(load|load_full)$"
    rr = r"SchemaState::resolve_runtime$"
    pair = lambda: Sink("configured", r"From<&(\S+ )?\S*ConfiguredSupergraph>>::from$|SchemaState::configured_runtime$")
    c.unreachable("pinned", "a request that already runs on a supergraph keeps it", S, [mine(Some())], [Sink("other", conf), Sink("other", rr), pair()],
                  ret_bad=lambda av: may(av, ("Err",)) or may(av, ("Ok", "None")))
    c.unreachable("plugin-first", "a supergraph chosen by a plugin is not replaced by the configured one", S, [mine(NONE), plug(Some())], [Sink("configured", conf, where="select_supergraph"), pair()])
    for n, v in (("failed", Err()), ("must", BOT)):
        c.unreachable("plugin-" + n, "a supergraph chosen by a plugin is used only with its own runtime", S, [mine(NONE), plug(Some()), Assume("ret", rr, v)], [], ret_bad=okay)
    for n, v in (("plugin", Some()), ("configured", NONE)):
        c.unreachable("recorded-" + n, "the supergraph first selected for a request is recorded on it", S, [mine(NONE), plug(v)], [], control=False,
                      trans=[Trans(None, {"0": "M"}, adt=r"::SelectedSupergraph$"), Trans(r"Extensions(::)?(<.*>)?::insert$", {"M": "R"}, site=True)], exit_bad=lambda av, st_: st_ == "M" and some(av))
    # where pairs are made
    for adt, who in (("SelectedSupergraph", {r"schema_state::SelectedSupergraph as .*From<&.*ConfiguredSupergraph>>::from$", r"SchemaState::select_supergraph$", r"SelectedSupergraph as .*Clone>::clone$"}),
                     ("ConfiguredSupergraph", {r"ConfiguredSupergraph::build$"}), ("SupergraphSnapshot", {r"SupergraphSnapshot as .*From<&.*Supergraph>>::from$", r"SupergraphSnapshot as .*Clone>::clone$"}),
                     ("RouterSupergraphRuntime", {r"RouterSupergraphRuntime::build$"}), ("SupergraphData", {r"Supergraph::from_document$"})):
        makers(c, "made-" + adt, "a snapshot and the runtime built for it are paired in one place", adt, who)
    # each half of the pair comes from the same source
    F = c.find(r"SelectedSupergraph as .*From<&.*ConfiguredSupergraph>>::from$")[0]
    f = flow.Flow(c.p, F, fields=[("snapshot", r"ConfiguredSupergraph\.snapshot$"), ("runtime", r"ConfiguredSupergraph\.runtime$")])
    c.ob("pair-configured", {"snapshot", "runtime"} <= f.ret(), "the configured snapshot is paired with the configured runtime", "%s:%d" % (F.file, F.line), {"depends on": sorted(map(str, f.ret()))})
    f = flow.Flow(c.p, S, calls=[("chosen", r"Extensions(::)?(<.*>)?::get$")], inside=lambda i: "select_supergraph" in i)
    cs = f.call_args(rr)
    c.ob("pair-plugin", bool(cs) and all("chosen" in x[2][1] for x in cs), "the runtime of a plugin's supergraph is resolved for that supergraph", "%s:%d" % (S.file, S.line), {"calls": len(cs)})
    B = c.find(BUILD)[0]
    f = flow.Flow(c.p, B, calls=[("snapshot", r"Supergraph::snapshot$")], inside=lambda i: "ConfiguredSupergraph" in i)
    cs = f.call_args(RTB)
    c.ob("pair-build", bool(cs) and all("snapshot" in x[2][0] for x in cs), "the configured runtime is built for the snapshot it is published with", "%s:%d" % (B.file, B.line), {"calls": len(cs)})
    # the cache of runtimes
    R = c.find(rr)[0]
    ids = Assume("field", "SupergraphData.cache_id", ID)
    ids2 = Assume("field", "SupergraphData.cache_id", OTHER)
    entry = lambda i: ("S", "array:1", ((0, ("S", "tuple", ((0, i),))),))
    its = lambda i: Assume("ret", r"(VecDeque|Vec|HashMap|BTreeMap|IndexMap|slice|\[T\]).*::iter$", entry(i), where="resolve_runtime")
    cache = lambda: [Sink("stored", r"Arc<.*OnceCell.*Clone>::clone$|Clone(>)?::clone$", gtype=CELL + r"|&?std::sync::Arc<\S*" + CELL, where="resolve_runtime")]
    new = r"VecDeque(::<.*>)?::push_back$|VecDeque(::<.*>)?::push_front$|::insert$"
    for n, mine_, theirs in (("", ids, OTHER), ("-older", ids2, ID)):
        c.unreachable("cache-other" + n, "a runtime cached for another supergraph is not used", R, [mine_, its(theirs), Assume("ret", new, BOT, where="resolve_runtime")],
                      [Sink("use", r"OnceCell(::<.*>)?::(get_or_try_init|get_or_init|get)$")], control=False)
    c.unreachable("cache-same", "a runtime already built or being built for the same supergraph is shared", R, [ids, its(ID)], [Sink("again", new, where="resolve_runtime")], control=False)
    init = r"OnceCell(::<.*>)?::(get_or_try_init|get_or_init)$"
    c.unreachable("cache-failed", "a runtime that could not be built is not returned", R, [Assume("ret", init, Err())], [], control=False,
                  trans=[Trans(init, {"0": "F"})], exit_bad=lambda av, s_: s_ == "F" and okay(av))
    b = [x for x in c.p.bodies.values() if c.p.root_of(x).id == R.id and any(re.search(RTB, y) for _, fn, *_ in x.calls() for y in names(fn))]
    if not b:
        raise Anchor("resolve_runtime builds a runtime")
    for x in b:
        c.unreachable("cache-build", "a runtime that could not be built is not cached", x, [Assume("ret", RTB, Err())], [], ret_bad=okay)
    snap = lambda i: ("S", c.adt("SupergraphSnapshot")["id"], tuple((field_index(c, "SupergraphSnapshot", f), v) for f, v in (("data", ("R", ("S", c.adt("SupergraphData")["id"], ((field_index(c, "SupergraphData", "cache_id"), i),)))),)))
    conf_ = ("S", c.adt("ConfiguredSupergraph")["id"], ((field_index(c, "ConfiguredSupergraph", "snapshot"), snap(ID)), (field_index(c, "ConfiguredSupergraph", "runtime"), ("K", "TAG:configured"))))
    there = lambda: Assume("ret", r"(ArcSwap\S*|Guard\S*)(::<.*>)?( as .*)?::(load|load_full)$|RwLock\S*(::)?(<.*>)?::read$", ("R", ("R", Some(conf_))), where="resolve_runtime")
    built = lambda: Assume("ret", init, Ok(("K", "TAG:built")))
    for n, asked in (("", OTHER), ("-older", ("K", "4"))):
        a = [TOP] * R.argc
        a[1] = ("R", snap(asked))
        c.unreachable("configured-other" + n, "the configured runtime is not used for another supergraph", R, [there(), built()], [], control=False, args=a, ret_bad=lambda av: "TAG:configured" in repr(av))
    a = [TOP] * R.argc
    a[1] = ("R", snap(ID))
    I = c.interp(R, [there(), built()], [], args=a)
    c.ob("configured-same", "TAG:configured" in repr(I.result) and "TAG:built" not in repr(I.result), "the configured runtime is used for the configured supergraph", "%s:%d" % (R.file, R.line), {"answers": repr(I.result)[:100]})
    n = 0
    for b in c.p.bodies.values():
        if b.is_test() or not re.search(r"schema_state::", b.id):
            continue
        for _, fn, args, *_ in b.calls():
            if any(re.search(r"VecDeque(::<.*>)?::retain(_mut)?$", x) for x in names(fn)):
                for cl in closures_of(c, b, args):
                    n += 1
                    r = predicate(c, cl, False)
                    c.ob("kept-%s" % shorten(c.p.root_of(b).id), r == TRUE, "removing one runtime from the cache keeps the others", "%s:%d" % (cl.file, cl.line), {"answers for another id": repr(r)})
    if not n:
        raise Anchor("removal from the runtime cache")
    # ids are unique
    D = c.find(r"Supergraph::from_document$")[0]
    uniq(c, D)


def uniq(c, D):
    rmw = r"Atomic\w*(::)?(<.*>)?::(fetch_update|fetch_add|try_update|update)$"
    c.unreachable("fresh", "every supergraph gets an id of its own", D, [Assume("ret", rmw, BOT)], [Sink("reuse", adt=r"::SupergraphData$")])
    keep = [x for b in c.p.bodies.values() if not b.is_test() for _, fn, *_ in b.calls() for x in names(fn) if re.search(rmw, x) and c.p.root_of(b).id == D.id]
    c.ob("fresh-atomic", bool(keep), "ids are drawn with one atomic step", "%s:%d" % (D.file, D.line), {"by": keep})


def closures_of(c, b, args):
    out = []
    for a in args:
        pl = a.get("c") or a.get("m")
        if pl is None:
            continue
        h = b.local_ty(pl[0]).get("h") or ""
        if h.startswith("closure ") and h[8:] in c.p.bodies:
            out.append(c.p.bodies[h[8:]])
    return out


def makers(c, key, text, adt, who):
    pat = re.compile(r"(^|::)%s$" % adt)
    got = {}
    for nm, bids in c.p.index()["aggs"].items():
        if pat.search(nm):
            for i in bids:
                b = c.p.bodies[i]
                if not b.is_test():
                    got[c.p.root_of(b).id] = b
    if not got:
        raise Anchor("nothing constructs " + adt)
    bad = [g for g in got if not any(re.search(w, g) for w in who)]
    c.ob(key, not bad, text, got[bad[0]].file if bad else "", {"type": adt, "constructed in": sorted(map(shorten, got)), "unexpected": sorted(map(shorten, bad))})


EV = "pipeline::active_subscriptions::SubscriptionEvent"


def holding(c, pat):
    """Functions whose body (with its closures) calls something matching pat, grouped by the body containing the call."""
    return [b for b in c.p.bodies.values() if not b.is_test() and any(re.search(pat, x) for _, fn, *_ in b.calls() for x in names(fn))]


@prop("P27", "Branch feasibility and typestate of retirement: what a dropped owner cancels, what the subscription pump can still send once its supergraph is retired, what every consumer does after the "
             "closing error, what a WebSocket connection can start, and which type may keep a supergraph alive.")
def p27(c):
    cancelled = lambda v, **k: Assume("ret", r"CancellationToken::cancelled$", v, **k)
    # the owner's drop is what retires
    D = c.find(r"on_supergraph_load::Supergraph as .*Drop>::drop$")[0]
    c.unreachable("drop", "dropping the last owner of a supergraph retires it", D, [], [], control=False, trans=[Trans(r"CancellationToken::cancel$", {"0": "C"})], exit_bad=lambda av, s: s != "C")
    F = c.find(r"SupergraphSnapshot as .*From<&.*Supergraph>>::from$")[0]
    f = flow.Flow(c.p, F, fields=[("token", r"Supergraph\.retirement$"), ("data", r"Supergraph\.data$")])
    c.ob("snapshot", {"token", "data"} <= f.ret(), "a snapshot observes the retirement of the supergraph it was taken from", "%s:%d" % (F.file, F.line), {"depends on": sorted(map(str, f.ret()))})
    Q = c.find(r"SupergraphSnapshot::is_retired$")[0]
    for v, n in ((TRUE, "yes"), (FALSE, "no")):
        c.unreachable("asked-" + n, "a snapshot says whether its owner is gone", Q, [Assume("ret", r"CancellationToken::is_cancelled$", v)], [], ret_bad=lambda av, v=v: strip(av) != v)
    W = c.find(r"SupergraphSnapshot::retired$")[0]
    ends(c, "asked-wait", "waiting for retirement ends only with it", W, [cancelled(BOT)])
    K = c.find(r"SupergraphSnapshot::retirement_token$")[0]
    f = flow.Flow(c.p, K, fields=[("token", r"SupergraphSnapshot\.retirement$")])
    fresh = [x for b in [K] for _, fn, *_ in b.calls() for x in names(fn) if re.search(r"CancellationToken::(new|child_token)$", x)]
    c.ob("asked-token", f.ret() >= {"token"} and not fresh, "the token handed out is the one the owner cancels", "%s:%d" % (K.file, K.line), {"depends on": sorted(map(str, f.ret()))})
    # only the configured slot keeps a configured supergraph selectable
    hold = {}
    for nm, a in c.p.adts.items():
        if not nm.startswith("hive_router::"):
            continue
        for _, fs in a["variants"]:
            for fname, ty in fs:
                s = a["types"].get(ty, {}).get("s", "")
                if re.search(r"on_supergraph_load::Supergraph\b(?!\w)", s) and not re.search(r"^&|Weak<", s):
                    hold.setdefault(shorten(nm), []).append(fname)
    bad = sorted(set(hold) - {"schema_state::ConfiguredSupergraph", "executor::plugins::hooks::on_supergraph_load::OnSupergraphLoadEndHookPayload"})
    if not hold:
        raise Anchor("no type holds a Supergraph")
    c.ob("owner", not bad, "nothing but the configured slot keeps a configured supergraph from being retired", "", {"types holding an owner": {k: v for k, v in sorted(hold.items())}, "unexpected": bad})
    # the pump
    ret_ = r"SupergraphSnapshot::retired$"
    pumps = [b for b in holding(c, ret_) if b.id != W.id]
    pumps = [b for b in pumps if not any(b.id != x.id and b.id.startswith(x.id + "::") for x in pumps)]
    spawned = [b for b in c.p.bodies.values() if not b.is_test() and b.kind == "coroutine" and any(x.id.startswith(b.id + "::") or x.id == b.id for x in pumps) and any(re.search(r"ProducerHandle::send$", y) for z in c.p.bodies.values() if z.id == b.id or z.id.startswith(b.id + "::") for _, fn, *_ in z.calls() for y in names(fn))]
    spawned = [b for b in spawned if not any(b.id != x.id and x.id.startswith(b.id + "::") for x in spawned)]
    if not spawned:
        raise Anchor("the task that feeds a subscription's consumers watches for retirement")
    nxt = r"StreamExt(>)?::next$|TryStreamExt(>)?::try_next$"
    for i, b in enumerate(spawned):
        k = "" if i == 0 else "-%d" % i
        c.unreachable("pump-error" + k, "a subscription on a retired supergraph ends with an error", b, [Assume("ret", nxt, BOT)], [], control=False,
                      trans=[Trans(ret_, {"0": "R"}), Trans(None, {"R": "E"}, adt=EV + "::Error$"), Trans(r"ProducerHandle::send$|broadcast::\S*Sender\S*::send$", {"E": "S"})], exit_bad=lambda av, s: s != "S")
        c.unreachable("pump-late" + k, "no event is sent once the supergraph is retired", b, [], [], control=False,
                      trans=[Trans(ret_, {"0": "R"}), Trans(None, {"R": "X"}, adt=EV + "::Raw$")], exit_bad=lambda av, s: s == "X")
        I = c.interp(b, [Assume("ret", nxt, BOT)], [])
        c.ob("pump-ends" + k, I.result is not BOT, "a subscription that emits nothing still ends when its supergraph is retired", "%s:%d" % (b.file, b.line), {"functions": len(I.visited)})
        I = c.interp(b, [Assume("ret", nxt, ("RF", NONE)), Assume("ret", ret_, BOT)], [])
        c.ob("pump-done" + k, I.result is not BOT, "the producer is dropped when the upstream ends", "%s:%d" % (b.file, b.line), {"functions": len(I.visited)})
    # the consumers
    recv = r"broadcast::\S*Receiver\S*(::)?(<.*>)?::recv$"
    err = Ok(enum(c, EV, "Error"))
    cons = holding(c, recv)
    cons = [b for b in cons if b.kind in ("coroutine", "closure")]
    tops = {}
    for b in cons:
        x = b
        while x.kind == "closure" or "poll_fn" in x.id:
            y = x.id.rsplit("::{", 1)[0]
            if y not in c.p.bodies:
                break
            x = c.p.bodies[y]
        tops[x.id] = x
    if len(tops) < 2:
        raise Anchor("the HTTP and the WebSocket consumer of subscription events")
    for b in tops.values():
        k = shorten(c.p.root_of(b).id)
        still = [Assume("ret", r"mpsc::\S*Receiver\S*(::)?(<.*>)?::recv$", BOT)]
        if not any(re.search(r"mpsc::\S*Receiver\S*(::)?(<.*>)?::recv$", y) for z in c.p.bodies.values() if z.id.startswith(b.id) for _, fn, *_ in z.calls() for y in names(fn)):
            still = []
        c.unreachable("consumer-error-" + k, "a consumer that is told the subscription is over delivers the error and stops", b, [Assume("ret", recv, err)] + still, [], control=False,
                      trans=[Trans(recv, {"0": "1", "1": "2", "D": "2"}), Trans(r"FailedExecutionResult::serialize|FailedExecutionResult as|ServerMessage::error$", {"1": "D"})], exit_bad=lambda av, s: s != "D")
        I = c.interp(b, [Assume("ret", recv, err)] + still, [])
        c.ob("consumer-ends-" + k, I.result is not BOT, "a consumer that is told the subscription is over stops", "%s:%d" % (b.file, b.line), {"functions": len(I.visited)})
        ends(c, "consumer-goes-on-" + k, "an ordinary event does not end a subscription", b, [Assume("ret", recv, Ok(enum(c, EV, "Raw")))] + still)
        I = c.interp(b, [Assume("ret", recv, Err())] + still, [])
        c.ob("consumer-closed-" + k, I.result is not BOT, "a consumer stops when the producer is gone", "%s:%d" % (b.file, b.line), {"functions": len(I.visited)})
    # WebSocket connections and readiness
    T = c.find(r"websocket_server::handle_text_frame$")[0]
    c.unreachable("ws-start", "a connection whose supergraph is retired starts no operation", T, [Assume("ret", r"SupergraphSnapshot::is_retired$", TRUE)],
                  [Sink("parse", r"parse_operation_with_cache$"), Sink("execute", r"execute_planned_request$|execute_pipeline$"), Sink("validate", r"validate_operation_with_cache$")])
    R = c.find(r"SchemaState::is_ready$")[0]
    c.unreachable("ready-retired", "a router whose supergraph is retired is not ready", R, [Assume("ret", r"SupergraphSnapshot::is_retired$", TRUE)], [], ret_bad=lambda av: strip(av) != FALSE)
    for n, v in (("failed", Err()), ("none", Ok(NONE))):
        c.unreachable("ready-" + n, "a router without a supergraph is not ready", R, [Assume("ret", r"SchemaState::select_supergraph$", v)], [], ret_bad=lambda av: strip(av) != FALSE)
    # runtimes of retired plugin supergraphs leave the cache
    S = c.find(r"SchemaState::resolve_runtime$")[0]
    new = r"VecDeque(::<.*>)?::push_(back|front)$"
    c.unreachable("cache-watch", "a runtime put into the cache is watched for the retirement of its supergraph", S, [Assume("field", "SchemaState.runtime_cache_cleanup", Some())], [], control=False,
                  trans=[Trans(new, {"0": "I"}, where="resolve_runtime"), Trans(None, {"I": "T"}, adt=r"RuntimeCacheCleanupMessage::Registered$"), Trans(r"Sender\S*(::)?(<.*>)?::(send|try_send)$", {"T": "W"}, where="resolve_runtime")],
                  exit_bad=lambda av, s: s in ("I", "T"))
    L = c.find(r"RuntimeCacheCleanupTask as .*::run$")[0]
    n = 0
    for b in c.p.bodies.values():
        if b.is_test() or c.p.root_of(b).id != L.id:
            continue
        for _, fn, args, *_ in b.calls():
            if any(re.search(r"VecDeque(::<.*>)?::retain(_mut)?$", x) for x in names(fn)):
                for cl in closures_of(c, b, args):
                    n += 1
                    r = predicate(c, cl, True)
                    c.ob("cache-removed", r == FALSE, "the runtime of a retired supergraph leaves the cache", "%s:%d" % (cl.file, cl.line), {"keeps the entry": repr(r)})
    if not n:
        raise Anchor("the clean-up task removes from the runtime cache")
    P = c.find(r"ProducerHandle as .*Drop>::drop$")[0]
    c.unreachable("producer-drop", "a finished subscription leaves the registry", P, [], [], control=False, trans=[Trans(r"DashMap\S*(::)?(<.*>)?::remove(_if)?$", {"0": "X"})], exit_bad=lambda av, s: s != "X")
