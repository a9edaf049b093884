"""What crosses the router's edges: headers, configuration, buffers, text written into JSON, the order of steps."""
import re
from registry import prop
from framework import clone_trans, Anchor, nonempty, empty, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, strip
from rules_pipeline import may
from rules_auth import okay, tystr, enum, arg_of_type, tag
from rules_access import callers, field_index
from rules_state import makers, names, ends

HM = r"\bHeaderMap(::<[^>]*>)?::"
REQ = r"headers::request::"
RSP = r"headers::response::"


def has(t):
    return lambda a, fr: any("TAG:" + t in repr(x) for x in a)


def denied(direction, t=None, yes=TRUE):
    """the router asks whether a header (the one tagged `t`) may not be passed on, and the answer is yes"""
    f = r"sanitizer::is_denied_(response_)?header$"
    w = dict(argpred=has(t)) if t else {}
    g = [Assume("ret", f, yes, **w), Assume("ret", r"slice::<impl \[T\]>::contains$", yes, gtype=r"&.*str", where=r"headers::", **w)]
    if t:
        g.append(Assume("ret", r"HeaderName::as_str$", tag(t), argpred=has(t)))
    return group("denied " + (t or ""), *g)


@prop("P37", "Branch feasibility of every header rule: what a rule may not pass on is never written, under its own name or another, no rule writes what it did not match, every rule is applied, and the headers of a request to "
             "a subgraph come from the rules.")
def p37(c):
    Q = c.find(REQ + r"modify_subgraph_request_headers$")[0]
    R = c.find(RSP + r"apply_subgraph_response_headers$")[0]
    qw = lambda: [Sink("write", HM + r"(append|insert|try_append|try_insert|entry|try_entry)$", where=r"headers::", gtype=None)]
    rw = lambda: [Sink("write", r"HashMap\S*(::)?(<.*>)?::(insert|entry)$", gtype=r"HeaderName"), Sink("push", r"Vec(::)?(<.*>)?::(push|insert|extend\w*)$", gtype=r"HeaderValue")]
    for d, E, ty, sinks, pre in (("request", Q, "plan::RequestHeaderRule", qw, "Request"), ("response", R, "plan::ResponseHeaderRule", rw, "Response")):
        K = lambda n: [Assume("type", c.adt(ty)["id"], enum(c, ty, n))]
        T = "%s headers that may not be passed on are never written" % d
        for n in ("PropagateNamed", "PropagateRegex", "InsertStatic", "InsertExpression"):
            c.unreachable("%s-denied-%s" % (d, n), T, E, denied(d), sinks(), base=K(n))
        f = "%sPropagateNamed." % pre
        c.unreachable("%s-denied-rename" % d, T, E, denied(d, "dest"), sinks(), base=K("PropagateNamed") + [Assume("field", f + "rename", Some(tag("dest")))])
        # what a rule does not match
        none = group("absent", Assume("ret", HM + r"get$", NONE), Assume("ret", HM + r"contains_key$", FALSE),
                     Assume("ret", r"^std::iter::Iterator::next$", NONE, gtype=r"\bValueIter\b|\bGetAll\b"))
        c.unreachable("%s-only-named" % d, "a %s header is passed on only if it was sent or has a default" % d, E, none + [Assume("field", f + "default", NONE)], sinks(), base=K("PropagateNamed"))
        g = "%sPropagateRegex." % pre
        for nm, a in (("no-include", [Assume("field", g + "include", NONE)]), ("not-included", [Assume("field", g + "include", Some(tag("inc"))), Assume("ret", r"Regex::is_match$", FALSE, argpred=has("inc"))]),
                      ("excluded", [Assume("field", g + "exclude", Some(tag("exc"))), Assume("ret", r"Regex::is_match$", TRUE, argpred=has("exc"))])):
            c.unreachable("%s-%s" % (d, nm), "a %s header is passed on only if the rule includes and does not exclude it" % d, E, a, sinks(), base=K("PropagateRegex"))
        # removal
        rem = HM + r"(remove|remove_entry|drain)$" if d == "request" else r"HashMap\S*(::)?(<.*>)?::(remove|remove_entry|retain)$"
        D = [b for b in c.find(r"headers::.*\b%sRemoveNamed\b.*::\w+$" % pre) if b.kind == "fn" and any(re.search(r"Iterator::(next|for_each|try_for_each)$", x) for y in c.p.family(b.id) for _, fn, *_ in y.calls() for x in names(fn))]
        if len(D) != 1:
            raise Anchor("what removes %s headers" % d)
        c.each("%s-removed" % d, "every %s header a rule names is removed" % d, D[0], r"HeaderName\b", rem, assumes=denied(d, yes=FALSE), early=okay)
        # every rule
        c.each("%s-all" % d, "every rule is applied", E, r"plan::%sHeaderRule\b" % pre, (HM + r"(append|insert)$") if d == "request" else r"HashMap\S*(::)?(<.*>)?::(insert|entry|contains_key|get_mut)$",
               assumes=denied(d, yes=FALSE) + K("InsertStatic"), early=lambda av: okay(av))
        it = r"::(iter|into_iter|chain|extend|for_each|try_for_each|next|deref|as_slice)$"
        gl = r"%sHeaderRules\.global$" % pre
        got = r"HashMap\S*(::)?(<.*>)?::get$"
        c.unreachable("%s-global" % d, "rules for all subgraphs and rules for the subgraph are both applied", E, [Assume("field", "%sHeaderRules.global" % pre, tag("global")), Assume("ret", got, Some(tag("own")), gtype=r"HeaderRule\b")], [], control=False,
                      trans=[Trans(it, {"0": "G", "S": "B"}, argpred=has("global"))], exit_bad=lambda av, s: okay(av) and s == "0")
        c.unreachable("%s-own" % d, "rules for all subgraphs and rules for the subgraph are both applied", E, [Assume("field", "%sHeaderRules.global" % pre, tag("global")), Assume("ret", got, Some(tag("own")), gtype=r"HeaderRule\b")], [], control=False,
                      trans=[Trans(it, {"0": "S"}, argpred=has("own"))], exit_bad=lambda av, s: okay(av) and s == "0")
        args = [("R", tag("sub")) if re.search(r"^&('\w+ )?str$", tystr(E.local_ty(i + 1))) else TOP for i in range(E.argc)]
        if TOP not in args or len([a for a in args if a != TOP]) != 1:
            raise Anchor("the subgraph name of " + E.id)
        c.unreachable("%s-whose" % d, "the rules of a subgraph are applied to that subgraph", E, [], [Sink("other", got, gtype=r"HeaderRule\b", argpred=lambda a, fr: "TAG:sub" not in repr(a))], control="noargs", args=args)
    # what may not be passed on
    isin = lambda v: Assume("ret", r"slice::<impl \[T\]>::contains$|Iterator::any$", v, gtype=r"str")
    for n, fn, a in (("hop", r"sanitizer::is_denied_header$", [isin(TRUE)]), ("hop-response", r"sanitizer::is_denied_response_header$", [Assume("ret", r"sanitizer::is_denied_header$", TRUE), isin(FALSE)]),
                     ("own-response", r"sanitizer::is_denied_response_header$", [Assume("ret", r"sanitizer::is_denied_header$", FALSE), isin(TRUE)])):
        c.unreachable("denied-" + n, "headers of the connection, and the content type of a response, may not be passed on", c.find(fn)[0], a, [], ret_bad=lambda av: av != TRUE, need_hits=False)
    # headers that cannot be joined are sent one by one
    W = c.find(RSP + r"ResponseHeaderAggregator::modify_client_response_headers$")[0]
    c.unreachable("never-join", "headers that cannot be joined are sent one by one", W, group("single", Assume("ret", r"sanitizer::is_never_join_header$", TRUE), Assume("ret", r"slice::<impl \[T\]>::contains$", TRUE, gtype=r"&.*str", where=r"headers::")),
                  [Sink("joined", HM + r"insert$")])
    # where the headers of a subgraph request come from
    made = r"(^|::)SubgraphExecutionRequest::SubgraphExecutionRequest$"
    mod = Trans(REQ + r"modify_subgraph_request_headers$", {"0": "M"})
    B = {x for nm, ids in c.p.index()["aggs"].items() if re.search(r"(^|::)SubgraphExecutionRequest$", nm) for x in ids if not c.p.bodies[x].is_test()}
    for b in sorted(B):
        r = c.p.root_of(c.p.bodies[b]).id.rsplit("::", 1)[1]
        c.unreachable("ruled-" + r, "a request to a subgraph has the headers that the rules made", c.p.bodies[b], [], [Sink("unruled", adt=made, bad=("0",))], control=False, need_hits=False, trans=[clone_trans(mod)])
    wr = re.compile(r"^http::" + HM[2:] + r"(append|insert|try_append|try_insert|entry|try_entry|get_mut|values_mut|iter_mut|extend)$")
    own = [b for x in sorted(B) for b in c.p.family(c.p.root_of(c.p.bodies[x]).id)]
    extra = ["%s:%d" % (b.file, rest[-1] if rest and isinstance(rest[-1], int) else b.line) for b in own for _, fn, *rest in b.calls() if any(wr.search(x) for x in names(fn))]
    c.ob("ruled-nothing-else", not extra, "a request to a subgraph has the headers that the rules made", extra[0] if extra else "", {"functions": sorted(shorten(b.id) for b in own), "writes": extra})
    makers(c, "ruled-only", "a request to a subgraph has the headers that the rules made", "SubgraphExecutionRequest", [r"plan::Executor\S*(<.*>)?::prepare_execution_job", r"plan::execute_query_plan$"])
    # a coprocessor
    hop = lambda: [Assume("ret", r"slice::<impl \[T\]>::contains$", TRUE, gtype=r"&.*str", where=r"coprocessor::")]
    for n in ("replace_into", "apply_to_response_builder"):
        B = c.find(r"coprocessor::stage::StageResponseHeaders\S*(<.*>)?::%s$" % n)[0]
        c.unreachable("coprocessor-" + n, "a coprocessor cannot set headers of the connection", B, hop(), [Sink("set", HM + r"(append|insert|entry)$"), Sink("set", r"ResponseBuilder(::<[^>]*>)?::(set_header|header)$")])


def built(av, adt):
    """the struct of this type inside a value"""
    if not isinstance(av, tuple):
        return None
    if len(av) > 2 and av[0] == "S" and av[1] == adt:
        return dict(av[2])
    for x in av:
        r = built(x, adt)
        if r:
            return r


@prop("P38", "Branch feasibility and value origin in what builds TLS clients and the TLS server: without the setting no verifier is replaced, the configured roots, certificate and client check are the ones used, and the "
             "merged settings are what every connection to a subgraph is made with.")
def p38(c):
    T = "executors::tls::"
    C = c.find(T + r"build_https_client_config$")[0]
    cfg = c.adt("config::traffic_shaping::ClientTLSConfig")["id"]
    ix = lambda n: field_index(c, "config::traffic_shaping::ClientTLSConfig", n)
    CE, CA, IN = ix("cert_file"), ix("client_auth"), ix("insecure_skip_ca_verification")
    conf = lambda cert=TOP, auth=TOP, ins=FALSE: ("S", cfg, ((CE, cert), (CA, auth), (IN, ins)))
    opt = lambda x: Some(("R", x))
    danger = r"ClientConfig\S*(::)?.*::dangerous$|with_custom_certificate_verifier$|set_certificate_verifier$"
    bad = lambda: [Sink("unverified", danger)]
    c.unreachable("verified", "certificates are verified unless the configuration says otherwise", C, [], bad(), args=[opt(conf())], control="noargs")
    c.unreachable("verified-default", "certificates are verified unless the configuration says otherwise", C, [], bad(), args=[NONE], control="noargs")
    roots = r"::with_native_roots$|::with_webpki_roots$|with_platform_verifier$|load_native_certs$"
    c.unreachable("own-roots", "with certificates configured only those are trusted", C, [], [Sink("other roots", roots)], args=[opt(conf(cert=Some(tag("cert"))))], control="noargs")
    c.unreachable("own-roots-some", "a certificate file without certificates is refused", C, group("empty", *empty(r"CertificateDer")), [], args=[opt(conf(cert=Some(tag("cert"))))], control="noargs", ret_bad=okay)
    c.unreachable("own-roots-read", "with certificates configured only those are trusted", C, [Assume("ret", T + r"from_cert_file_config_to_certificate_der$", Err())], [], args=[opt(conf(cert=Some(tag("cert"))))], control="noargs", ret_bad=okay)
    c.unreachable("own-roots-which", "with certificates configured only those are trusted", C, [], [Sink("other", T + r"from_cert_file_config_to_certificate_der$", argpred=lambda a, fr: "TAG:cert" not in repr(a))],
                  args=[opt(conf(cert=Some(tag("cert")), auth=NONE))], control="noargs")
    c.unreachable("client-cert", "with a client certificate configured it is presented", C, [], [Sink("none", r"::with_no_client_auth$")], args=[opt(conf(auth=Some(tag("auth"))))], control="noargs")
    c.unreachable("client-cert-read", "with a client certificate configured it is presented", C, [Assume("ret", r"PrivateKeyDer.*::from_pem_file$|PemObject::from_pem_file$", Err())], [],
                  args=[opt(conf(auth=Some(tag("auth"))))], control="noargs", ret_bad=okay)
    # who may
    callers(c, "verifier-only", "certificates are verified unless the configuration says otherwise", danger, [T + r"build_https_client_config$"])
    callers(c, "config-only", "every TLS client is configured in one place", r"^rustls::ClientConfig::builder\w*$", [T + r"build_https_client_config$", r"websocket_client::connect$"])
    callers(c, "connector-only", "every TLS client is configured in one place", r"HttpsConnectorBuilder\S*(<.*>)?::new$|HttpsConnector(<.*>|::<.*>)?::new$", [T + r"build_https_connector$"])
    K = c.find(T + r"build_https_connector$")[0]
    cc = [Assume("ret", T + r"build_https_client_config$", Ok(tag("cfg")))]
    c.unreachable("connector-uses", "every TLS client is configured in one place", K, cc, [Sink("other", r"HttpsConnectorBuilder.*::with_tls_config$", argpred=lambda a, fr: "TAG:cfg" not in repr(a)), Sink("other", r"HttpsConnectorBuilder.*::with_(native|webpki|platform|provider)\w*$")], control=False)
    c.unreachable("connector-passes", "every TLS client is configured in one place", K, [], [Sink("other", T + r"build_https_client_config$", argpred=lambda a, fr: "TAG:given" not in repr(a))], args=[opt(tag("given"))], control="noargs")
    # merging
    M = c.find(T + r"get_merged_tls_config$")[0]
    t = lambda n: Some(tag(n))
    g = lambda **k: opt(conf(**k))
    which = lambda i, want: lambda av: (lambda s: s is None or "TAG:" + want not in repr(s.get(i, TOP)))(built(strip(av), cfg))
    insec = lambda av: (lambda s: s is None or s.get(IN, TOP) != FALSE)(built(strip(av), cfg))
    cases = [("insecure-neither", g(), g(), insec), ("insecure-global-only", g(), NONE, insec), ("insecure-own-only", NONE, g(), insec)]
    for i, k in ((CE, "cert"), (CA, "auth")):
        cases += [(k + "-own", g(**{k: t("global")}), g(**{k: t("own")}), which(i, "own")), (k + "-fallback", g(**{k: t("global")}), g(**{k: NONE}), which(i, "global")),
                  (k + "-no-own", g(**{k: t("global")}), NONE, which(i, "global")), (k + "-no-global", NONE, g(**{k: t("own")}), which(i, "own"))]
    for n, a, b, rb in cases:
        c.unreachable("merge-" + n, "a subgraph's TLS settings come first, then those for all subgraphs", M, [], [], args=[a, b], control="noargs", ret_bad=rb)
    # what connections are made with
    allt = [Assume("field", "TrafficShapingExecutorGlobalConfig.tls", Some(tag("all")))]
    merged = [Assume("ret", T + r"get_merged_tls_config$", Some(tag("merged")))]
    own = [Assume("field", "TrafficShapingExecutorSubgraphConfig.tls", Some(tag("own")))]
    sure = lambda x, t: "TAG:" + t in repr(x) and not (strip(x)[0] == "V" and strip(x)[1].endswith("Option") and may(x, ("None",)))
    lacks = lambda *ts: lambda a, fr: any(not any(sure(x, t) for x in a) for t in ts)
    X = "SubgraphExecutorMap(::<.*>|<.*>)?::"
    there = [Assume("ret", r"HashMap\S*(::)?(<.*>)?::get$", Some(TOP), gtype=r"TrafficShapingExecutorSubgraphConfig")]
    W = "every connection to a subgraph is made with the merged TLS settings"
    N = c.find(X + "new$")[0]
    c.unreachable("all-clients", W, N, allt, [Sink("other", T + r"build_https_connector$", argpred=lacks("all"))], control=False)
    S = c.find(X + "resolve_subgraph_config$")[0]
    R = c.find(X + "register_executor$")[0]
    for n, E in (("http", S), ("ws", R)):
        c.unreachable(n + "-merges", W, E, allt + own + there, [Sink("other", T + r"get_merged_tls_config$", argpred=lacks("all", "own"))], control=False)
        c.unreachable(n + "-merged", W, E, merged, [Sink("other", T + r"build_https_(connector|client_config)$", argpred=lacks("merged"), where=r"::(resolve_subgraph_config|register_executor)\b")], control=False)
    hc = [Assume("ret", r"hyper_util::client::legacy::Builder::build$", tag("client"))]
    c.unreachable("http-client", W, S, own + hc + there, [], control=False, ret_bad=lambda av: okay(av) and "TAG:client" not in repr(av))
    c.unreachable("http-connector", W, S, own + [Assume("ret", T + r"build_https_connector$", Ok(tag("conn")))], [Sink("other", r"hyper_util::client::legacy::Builder::build$", argpred=lacks("conn"))], control=False)
    c.unreachable("all-connector", W, N, [Assume("ret", T + r"build_https_connector$", Ok(tag("conn")))], [Sink("other", r"hyper_util::client::legacy::Builder::build$", argpred=lacks("conn"))], control=False)
    res = [Assume("ret", X + "resolve_subgraph_config$", Ok(tag("resolved")))]
    c.unreachable("http-uses", W, R, [Assume("field", "ResolvedSubgraphConfig.client", tag("client"))], [Sink("other", r"(HTTPSubgraphExecutor|HttpCallbackSubgraphExecutor)(::<.*>|<.*>)?::new$", argpred=lacks("client"))], control=False)
    wc = merged + [Assume("ret", T + r"build_https_client_config$", Ok(tag("cfg")))]
    c.unreachable("ws-uses", W, R, wc, [Sink("other", r"WsSubgraphExecutor(::<.*>|<.*>)?::new$", argpred=lacks("cfg"))], control=False)
    conn = r"websocket_client::connect$"
    held = [Assume("field", "WsSubgraphExecutor.tls_config", Some(tag("cfg")))]
    c.unreachable("ws-kept", W, c.find(r"WsSubgraphExecutor(::<.*>|<.*>)?::new$")[0], [], [], args=[Some(tag("cfg")) if re.search(r"ClientConfig", tystr(b)) else TOP for b in argtypes(c, r"WsSubgraphExecutor(::<.*>|<.*>)?::new$")],
                  control="noargs", ret_bad=lambda av: "TAG:cfg" not in repr(av))
    for m in ("execute", "subscribe"):
        E = c.find(r"WsSubgraphExecutor as .*SubgraphExecutor>::%s$" % m)[0]
        c.unreachable("ws-connect-" + m, W, E, held, [Sink("other", conn, argpred=lacks("cfg")), Sink("other", adt=r"(^|::)WebSocketInit::WebSocketInit$", argpred=lacks("cfg"))], control=False)
    for b in c.p.bodies.values():
        if not b.is_test() and "websocket_pool::" in b.id and any(re.search(conn, x) for _, fn, *_ in b.calls() for x in names(fn)):
            c.unreachable("ws-connect-pool", W, b, [Assume("field", "WebSocketInit.tls_config", Some(tag("cfg")))], [Sink("other", conn, argpred=lacks("cfg"))], control=False)
    callers(c, "ws-connect-only", W, conn, [r"WsSubgraphExecutor as .*SubgraphExecutor>::(execute|subscribe)", r"websocket_pool::"])
    makers(c, "ws-init-only", W, "WebSocketInit", [r"WsSubgraphExecutor as .*SubgraphExecutor>::(execute|subscribe)"])
    B = c.find(conn)[0]
    targs = [Some(tag("cfg")) if re.search(r"ClientConfig", tystr(x)) else TOP for x in argtypes(c, conn)]
    rus = r"WsClientBuilder\S*(::)?.*::rustls$"
    c.unreachable("ws-config", W, B, [], [Sink("other roots", roots), Sink("unverified", danger), Sink("other", rus, argpred=lacks("cfg"))], args=targs, control="noargs")
    eq = lambda s, v: Assume("ret", r"(::eq|::eq_ignore_ascii_case)$", v, gtype=None, argpred=lambda a, fr: "s:%s'" % s in repr(a))
    c.unreachable("ws-secure", "a secure address is reached securely", B, [eq("wss", TRUE)], [Sink("plain", r"ntex::ws::\S*(::)?.*WsClientBuilder.*::build$|WsClientBuilder.*::build$", bad=("0",))], control=False, trans=[Trans(rus, {"0": "T"})])
    V = c.find(X + "convert_to_websocket_endpoint$")[0]
    sch = [Assume("ret", r"Uri::scheme_str$", Some(tag("scheme")))]
    for s in ("https", "wss"):
        c.unreachable("ws-scheme-" + s, "a secure address is reached securely", V, sch + [eq(s, TRUE)], [Sink("plain", r"uri::Builder::scheme$", argpred=lambda a, fr: "s:wss'" not in repr(a))], control=False)
    # the flag for invalid certificates
    flag = r"::(danger_)?accept_invalid_certs$"
    nf = lambda a, fr: len(a) < 2 or strip(a[1]) != FALSE
    for n, pat in (("persisted", r"HiveCDNResolver::from_storage_config$"), ("usage", r"usage_reporting::init_hive_usage_agent$")):
        c.unreachable("flag-" + n, "invalid certificates are accepted only where configured", c.find(pat)[0], [Assume("field", "Config.accept_invalid_certs", FALSE)], [Sink("accepted", flag, argpred=nf)], control=False)
    for n, pat, src in (("hive", r"SupergraphHiveConsoleLoader::try_new$", "HiveConsole"), ("graphos", r"SupergraphApolloGraphOSLoader::try_new$", "ApolloGraphOS")):
        E = c.find(pat)[0]
        c.unreachable("flag-" + n, "invalid certificates are accepted only where configured", E, [], [Sink("accepted", flag, argpred=nf)], args=[FALSE if tystr(x) == "bool" else TOP for x in argtypes(c, pat)], control=False)
        c.unreachable("flag-from-" + n, "invalid certificates are accepted only where configured", c.find(r"supergraph::resolve_from_config$")[0], [Assume("field", "SupergraphSource::%s.accept_invalid_certs" % src, tag("flag"))],
                      [Sink("other", pat, argpred=lacks("flag"))], control=False)
    callers(c, "flag-only", "invalid certificates are accepted only where configured", r"::accept_invalid_certs$",
            [r"from_storage_config$", r"init_hive_usage_agent$", r"SupergraphHiveConsoleLoader::try_new$", r"SupergraphApolloGraphOSLoader::try_new$", r"^hive_router::config::"])
    rd = r"^reqwest::.*::(danger_\w+|tls_danger_\w+|use_preconfigured_tls|tls_built_in_root_certs|tls_certs_only)$"
    for (d, r), uses in sorted(c.p.index()["calls"].items()):
        if re.search(rd, d) or re.search(rd, r):
            for x in sorted({x for x, _, _ in uses}):
                b = c.p.bodies[x]
                if b.is_test():
                    continue
                base = [Assume("field", "Builder.accept_invalid_certs", FALSE)] if any("Builder" in tystr(b.local_ty(i + 1)) for i in range(b.argc)) else []
                c.unreachable("flag-client-" + c.p.root_of(b).id.split("::", 1)[1], "invalid certificates are accepted only where configured", b, base, [Sink("accepted", rd, argpred=nf)],
                              args=[FALSE if tystr(b.local_ty(i + 1)) == "bool" else TOP for i in range(b.argc)], control=False)
    for b in c.find(r"config::\w+::default_\w*accept_invalid_certs$"):
        c.unreachable("flag-default-" + b.id.split("::")[-2], "invalid certificates are accepted only where configured", b, [], [], control=False, need_hits=False, ret_bad=lambda av: av != FALSE)
    # the server
    Z = c.find(r"^hive_router::tls::build_rustls_config$")[0]
    Q = "clients must show a certificate where the configuration asks for one"
    ask = [Assume("field", "ServerTLSConfig.client_auth", Some(tag("auth")))]
    open_ = [Sink("open", r"::allow_unauthenticated$"), Sink("open", adt=r"(^|::)NoClientAuth::NoClientAuth$"), Sink("open", r"::with_no_client_auth$")]
    for n, v in (("default", NONE), ("required", Some(TRUE))):
        c.unreachable("server-" + n, Q, Z, ask + [Assume("field", "ServerClientAuthConfig.required", v)], open_)
    c.unreachable("server-optional", Q, Z, ask + [Assume("field", "ServerClientAuthConfig.required", Some(FALSE))], open_[1:])
    c.unreachable("server-uses", Q, Z, ask + [Assume("ret", r"ClientCertVerifierBuilder::build$", Ok(tag("verifier")))], [Sink("other", r"::with_client_cert_verifier$", argpred=lacks("verifier"))], control=False)
    callers(c, "server-config-only", Q, r"^rustls::ServerConfig::builder\w*$", [r"^hive_router::tls::build_rustls_config$"])
    P = c.find(r"^hive_router::router_entrypoint$")[0]
    tls = [Assume("field", "TrafficShapingRouterConfig.tls", Some(tag("tls")))]
    here = r"router_entrypoint\b"
    tls.append(Assume("field", "CallbackConfig.listen", NONE))
    c.unreachable("server-tls", "with TLS configured the router does not answer without it", P, tls, [Sink("plain", r"HttpServer(::<.*>)?::(bind|listen)$", where=here)])
    c.unreachable("server-tls-config", "with TLS configured the router does not answer without it", P, tls + [Assume("ret", r"^hive_router::tls::build_rustls_config$", Ok(tag("cfg")))], [Sink("other", r"HttpServer(::<.*>)?::bind_rustls$", argpred=lacks("cfg"))], control=False)
    c.unreachable("server-tls-given", "with TLS configured the router does not answer without it", P, tls, [Sink("other", r"^hive_router::tls::build_rustls_config$", argpred=lacks("tls"))], control=False)
    c.unreachable("server-tls-broken", "with TLS configured the router does not answer without it", P, tls + [Assume("ret", r"^hive_router::tls::build_rustls_config$", Err())], [Sink("plain", r"HttpServer(::<.*>)?::(bind|bind_rustls|listen)$", where=here)])


def argtypes(c, pat):
    b = c.find(pat)[0]
    return [b.local_ty(i + 1) for i in range(b.argc)]
