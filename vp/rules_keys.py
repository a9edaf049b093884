"""Keys: a result may be shared (deduplicated, cached, pooled, merged) only between requests that agree on everything the
result depends on.  Each rule shows that the key depends on every such input (E2, see flow.py), and that variable-length
parts of the key are unambiguous."""
import re
import flow
from registry import prop
from framework import Anchor, group, shorten
from absint import Assume, Sink, Trans, TOP, BOT, NONE, Some, Ok, Err, variant
from ir import fnref, callee_targets
from rules_pipeline import HTTP, WS
from rules_auth import tystr, okay

CLAIM = r"InFlightMap(::)?(<.*>)?::claim$"
HNAME, HVALUE = r"^&(\S+ )?[\w:]*HeaderName$", r"^&(\S+ )?[\w:]*HeaderValue$"
LOSSYHDR = r"HeaderValue::to_str$|HeaderMap(<.*>)?::(get|get_all|contains_key)$"


def run(c, entry, **kw):
    b = entry if hasattr(entry, "bbs") else c.fn(entry)
    f = flow.Flow(c.p, b, **kw)
    c.stats["functions_analysed"] |= {i[0] for i in f.insts}
    c.stats["call_sites_analysed"] += len(f.sites)
    return f


def have(c, key, text, got, need, at, flow_=None):
    """Every needed input is among the labels that reach the key."""
    for n, what in need.items():
        c.ob("%s|%s" % (key, n), n in got, "%s: %s" % (text, what), at, {"key depends on": sorted(got), "functions": len(flow_.insts) if flow_ else None})


def one(c, f, pattern, what, where=None, argi=None):
    """The labels reaching argument argi of every call matching pattern: what all of them have in common."""
    cs = f.call_args(pattern, where=where)
    if not cs:
        raise Anchor("no call %s from %s" % (what, shorten(f.root[0])))
    got = set.intersection(*[x[2][argi] for x in cs])
    b, line, _ = cs[0]
    return got, "%s:%s" % (b.file, line)


SUBSET = re.compile(r"Iterator::(take|skip|step_by|filter|filter_map|take_while|skip_while|map_while|nth|last|find|find_map|min|max|min_by_key|max_by_key|unique\w*|dedup\w*)$|::(first|last|get|split_at|split_first|split_last)$")
SHRINK = re.compile(r"::(dedup\w*|truncate|pop|retain\w*|drain\w*|remove|swap_remove|clear|split_off|take)$")


def no_subset(c, key, text, f, labels, allow, sink):
    """No call on the way to the key (the nodes `sink`) reduces a collection that carries one of the labels, except a filter that is exactly `allow`."""
    bad, on = [], f.back(sink)
    labels = set(labels)
    hit = lambda inst, l: any((inst, l, x) in on for x in {None} | f.known[(inst, l)])
    for inst, b, fn, args, dest, line in f.sites:
        d, rr = fnref(fn)
        if not d or not (SUBSET.search(d) or SHRINK.search(d)) or not args:
            continue
        if re.search(r"^std::(option|result)::|Map(::)?<.*>::get$", d):
            continue
        pl = args[0].get("c") or args[0].get("m")
        if pl is None or not (f.at(inst, pl[0]) & labels):
            continue
        if not (hit(inst, pl[0]) if SHRINK.search(d) else dest and hit(inst, dest[0])):
            continue
        if allow and any(isinstance(l, tuple) and l[0] == "FN" and only(c, l[1], allow) for a in args for q in [a.get("c") or a.get("m")] if q is not None for l in f.labels[(inst, q[0], None)]):
            continue
        bad.append((b, line, d))
    c.ob(key, not bad, text, "%s:%s" % (bad[0][0].file, bad[0][1]) if bad else "", {"calls": [shorten(x[2]) for x in bad], "reductions considered on values": sorted(labels)})


def only(c, bid, allow):
    """The predicate keeps everything that `allow` accepts."""
    if not any(re.search(allow, x) for x in reach(c.p, bid)):
        return False
    a = Assume("ret", allow, ("K", "1"))
    I = c.interp(c.p.bodies[bid], [a], [])
    return I.result == ("K", "1")


LOOPNEXT = re.compile(r"Iterator::next$")


def reach(p, bid):
    out, seen, todo = set(), {bid}, [bid]
    while todo:
        i = todo.pop()
        for _, fn, *_ in p.bodies[i].calls():
            d, r = fnref(fn)
            out |= {x for x in (d, r) if x}
            for t in callee_targets(p, fn):
                out.add(t)
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    return out


@prop("P19", "Value dependence from every input of a client request to the fingerprint under which concurrent requests share a response, in both transports; element coverage and kind "
             "discrimination of the hash over JSON variables and extensions.")
def p19(c):
    ins = flow.reaching(c.p, CLAIM, flow.hashing, r"::pipeline::")
    src = [("init", r"\.init_payload$"), ("variables", r"GraphQLParams\.variables$"), ("extensions", r"GraphQLParams\.extensions$"), ("schema", r"SupergraphData\.cache_id$"),
           ("operation", r"GraphQLNormalizationPayload\.normalized_operation_hash$")]
    calls = [("method", r"HttpRequest::method$"), ("path", r"HttpRequest::(path|uri)$|Uri::path$"), ("headers", r"HttpRequest::headers$|HttpMessage::message_headers$")]
    need = {"variables": "its variables", "extensions": "its extensions", "schema": "the schema it runs on", "operation": "the normalized operation"}
    for n, e, more in (("http", HTTP, {"method": "the HTTP method", "path": "the path", "headers": "its headers"}), ("ws", WS, {"path": "the path of the connection", "init": "the connection's initial payload"})):
        f = run(c, e, fields=src, calls=calls, inside=ins)
        got, at = one(c, f, CLAIM, "that joins an in-flight request", argi=1)
        if n == "ws":
            got |= {"path"} if "path" in got else set()
        have(c, "key-" + n, "two operations share a response only if they agree on", got, {**need, **{k: v for k, v in more.items() if not (n == "ws" and k == "path")}}, at, f)
        no_subset(c, "all-" + n, "no variable and no extension is left out of the fingerprint", f, ["variables", "extensions"], None, f.nodes(CLAIM, 1))
    # the connection part
    F = c.find(r"pipeline::connection_fingerprint$")[0]
    names = {}
    for i in range(F.argc):
        t = tystr(F.local_ty(i + 1))
        names[i + 1] = "method" if re.search(r"\bMethod\b", t) else "path" if t in ("&str", "&'static str") or t.endswith(" str") else "headers" if "HeaderMap" in t else "schema" if t == "u64" else "policy"
    f = run(c, F, args=list(names.items()), types=[("name", HNAME), ("value", HVALUE)], lossy=LOSSYHDR)
    have(c, "connection", "the fingerprint of the connection depends on", f.ret(), {"method": "the method", "path": "the path", "schema": "the schema", "name": "the name of each header", "value": "every value of each header"}, "%s:%d" % (F.file, F.line), f)
    no_subset(c, "connection-all", "no header that the policy includes is left out of the fingerprint", f, ["headers", "name", "value"], r"RouterRequestDedupeHeaderPolicy::should_include$", {(f.root, 0, None), (f.root, 0, "0")})
    jsonhash(c)


def kinds(c, enum_path, names, k):
    """The JSON value is of kind k, however the code asks."""
    out = [Assume("ret", r"::get_type$", variant(enum_path, names.index(k)))]
    low = {"Null": ("null",), "Boolean": ("bool", "boolean", "true", "false"), "Number": ("number", "i64", "u64", "f64"), "String": ("str", "string"), "Object": ("object", "object_mut"), "Array": ("array", "array_mut")}
    for n, ls in low.items():
        if n != k:
            for l in ls:
                out.append(Assume("ret", r"JsonValueTrait\S*::as_%s$|JsonContainerTrait\S*::as_%s$" % (l, l), NONE))
                out.append(Assume("ret", r"JsonValueTrait\S*::is_%s$" % l, ("K", "0")))
        elif k not in ("Number", "Boolean"):
            for l in ls:
                out.append(Assume("ret", r"JsonValueTrait\S*::as_%s$|JsonContainerTrait\S*::as_%s$" % (l, l), Some()))
                out.append(Assume("ret", r"JsonValueTrait\S*::is_%s$" % l, ("K", "1")))
    return group("kind", *out)


JSON = ["Null", "Boolean", "Number", "String", "Object", "Array"]


def jsonhash(c):
    """The hash over JSON values, found by its shape: a function of a JSON value and a hasher."""
    def takes(b, r):
        return any(re.search(r, tystr(b.local_ty(i + 1))) for i in range(b.argc))
    hs = [b for b in c.p.bodies.values() if b.kind == "fn" and not b.is_test() and takes(b, r"^&(\S+ )?sonic_rs::\S*Value$|^&(\S+ )?Value$") and takes(b, r"Xxh3|Hasher") and re.search(r"::pipeline::", b.id)]
    hs = [b for b in hs if any("get_type" in x or "::as_str" in x for x in reach(c.p, b.id))]
    if len(hs) != 1:
        raise Anchor("expected one hash function over JSON values, found %s" % [shorten(b.id) for b in hs])
    H = hs[0]
    at = "%s:%d" % (H.file, H.line)
    hi = [i + 1 for i in range(H.argc) if re.search(r"Xxh3|Hasher", tystr(H.local_ty(i + 1)))][0]
    src = {"as_bool": "booleans", "as_i64": "integers", "as_u64": "large integers", "as_f64": "floating point numbers", "as_str": "strings"}
    f = run(c, H, calls=[(n, r"::%s$" % n) for n in src] + [("len", r"::len$")], types=[("key", r"^&(\S+ )?(mut )?str$")])
    got = f.at(f.root, hi)
    have(c, "json", "the hash of a JSON value depends on the content of", got, src, at, f)
    have(c, "json", "the hash of a JSON value depends on", got, {"key": "the keys of objects", "len": "the number of elements"}, at, f)
    firsts = {}
    for k in JSON:
        rec, I = words(c, H, kinds(c, "sonic_rs::JsonType", JSON, k), 1)
        firsts[k] = rec["0"]
        c.ob("json-kind|" + k, rec["0"] and "0" not in I.final and all(w[1] is not None for w in rec["0"]), "a %s writes its kind into the hash before its content" % k.lower(), at, {"writes first": sorted(map(str, rec["0"]))})
    for k in ("Array", "Object"):
        rec, I = words(c, H, kinds(c, "sonic_rs::JsonType", JSON, k), 3)
        c.ob("json-length|" + k, rec["1"] and {w[0] for w in rec["1"]} == {"usize"} and "1" not in I.final, "the number of elements of a JSON %s comes before them, so that nested and flat values differ" % k.lower(), at,
             {"writes second": sorted(map(str, rec["1"]))})
    for i, a in enumerate(JSON):
        for b in JSON[i + 1:]:
            if firsts[a] & firsts[b]:
                c.ob("json-kinds|%s-%s" % (a, b), False, "values of different kinds never have the same hash input", at, {a: sorted(map(str, firsts[a])), b: sorted(map(str, firsts[b]))})
    for k, elem in (("Object", r"^sonic_rs::value::object::Iter|object::Iter"), ("Array", r"slice::Iter<.*Value")):
        c.each("json-each|" + k, "every element of a JSON %s is hashed" % k.lower(), H, elem, re.escape(H.id) + "$", assumes=kinds(c, "sonic_rs::JsonType", JSON, k), fix=True)
    V = [b for b in c.p.bodies.values() if b.kind == "fn" and not b.is_test() and re.search(r"::pipeline::", b.id) and takes(b, r"HashMap<.*String, .*Value") and tystr(b.local_ty(0)) == "u64"
         and H.id in reach(c.p, b.id)]
    if not V:
        raise Anchor("no hash over variables found")
    for b in V:
        if any(x.id != b.id and x.id in reach(c.p, b.id) for x in V):
            continue
        c.each("variables-each", "every variable is hashed", b, r"IntoIter<.*str|slice::Iter<.*str|hash_map::Iter<.*Value", r"::hash::Hash::hash$", fix=True)
        f = run(c, b, calls=[("len", r"::len$"), ("value", r"HashMap(::)?<.*>::(get|iter|values)$")], types=[("key", r"^&(\S+ )?(mut )?str$")])
        have(c, "variables", "the hash of the variables depends on", f.ret(), {"key": "their names", "len": "their number", "value": "their values"}, "%s:%d" % (b.file, b.line), f)


HASH = r"hash::Hash::hash$|hash::Hash::hash_slice$|hash::Hasher::write\w*$"


def words(c, body, assumes, n=2, args=None):
    """What a hash function writes first: per position the set of (type, constant or None), and whether it may write less."""
    rec = {str(i): set() for i in range(n + 1)}

    def see(a, fr):
        i = 1 if re.search(r"\&.*(mut|Hasher|Xxh3)", argty(fr, 0)) else 0
        pl = fr.argplaces[i] if i < len(fr.argplaces) else None
        ty = fr.b.local_ty(pl[0])["s"] if pl is not None and len(pl) == 1 else "?"
        v = a[i]
        while v is not None and v[0] == "R":
            v = v[1]
        for g in fr.I.g:
            if g in rec:
                rec[g].add((ty.lstrip("&").replace("'static ", ""), v[1] if v is not None and v[0] == "K" else None))
        return False
    steps = {str(i): str(i + 1) for i in range(n)}
    I = c.interp(body, assumes, [Sink("word", HASH, argpred=see)], trans=[Trans(HASH, steps, site=True)], args=args, fix=True)
    return rec, I


def argty(fr, i):
    pl = fr.argplaces[i] if i < len(fr.argplaces) else None
    return fr.b.local_ty(pl[0])["s"] if pl is not None and len(pl) == 1 else "?"


SENDOPTS = "http::SendRequestOpts"


@prop("P20", "Value dependence from everything a subgraph request consists of (method, endpoint, every header name and value, body) to the fingerprint under which requests to subgraphs share a "
             "response, and from the execution request to the body that is sent.")
def p20(c):
    E = c.find(r"HTTPSubgraphExecutor as .*SubgraphExecutor>::execute$")[0]
    fields = {n: "the %s" % n for n in ("method", "endpoint", "headers", "body")}
    for n in fields:
        c.adt(SENDOPTS)
    src = [(n, r"SendRequestOpts(<.*>)?\.%s$" % n) for n in fields]
    f = run(c, E, fields=src, types=[("name", HNAME), ("value", HVALUE)], lossy=LOSSYHDR, inside=flow.reaching(c.p, CLAIM, flow.hashing, r"::executors::"))
    got, at = one(c, f, CLAIM, "that joins an in-flight subgraph request", argi=1)
    have(c, "key", "two subgraph requests share a response only if they agree on", got, {**fields, "name": "the name of each header", "value": "every value of each header"}, at, f)
    no_subset(c, "key-all", "no header is left out of the fingerprint", f, ["headers", "name", "value"], None, f.nodes(CLAIM, 1))
    # what is sent is what was hashed
    S = c.find(r"executors::http::send_request$")[0]
    g = run(c, S, fields=src, inside=lambda t: c.p.root_of(c.p.bodies[t]).id == S.id)
    sent = g.call_args(r"Client(::)?(<.*>)?::request$", where=r"http::send_request")
    if not sent:
        raise Anchor("send_request sends nothing")
    for b, line, ls in sent:
        extra = {x for x in ls[1] if x not in fields}
        c.ob("sent", not extra and set(ls[1]) >= set(fields), "the request that is sent consists of the fields that are part of the fingerprint", "%s:%s" % (b.file, line), {"sent": sorted(ls[1])})
    # the body
    B = c.find(r"executors::http::build_request_body$")[0]
    parts = {"query": "the operation", "variables": "the variables", "raw_variable_values": "the entity representations", "operation_name": "the operation name", "extensions": "the extensions"}
    g = run(c, B, fields=[(n, r"SubgraphExecutionRequest(<.*>)?\.%s$" % n) for n in parts])
    have(c, "body", "the body sent to a subgraph carries", g.ret(), parts, "%s:%d" % (B.file, B.line), g)
    for k, e in (("variables", r"hash_map::Iter<.*Value|HashMap<.*Value"), ("raw_variable_values", r"Iter<.*Vec<u8>")):
        c.each("body-each|" + k, "every one of %s is part of the body" % parts[k], B, e, r"Vec(::)?<.*>::extend_from_slice$|BufMut(<.*>)?(>)?::put\w*$|Vec::.*extend_from_slice$", early=okay,
               assumes=[Assume("field", "SubgraphExecutionRequest." + k, Some())])
    W = [b for b in c.p.bodies.values() if b.kind == "fn" and re.search(r"SubscribePayload as .*From<.*SubgraphExecutionRequest<.*>>>::(try_)?from$", b.id)]
    if len(W) != 1:
        raise Anchor("expected one conversion to SubscribePayload")
    g = run(c, W[0], fields=[(n, r"SubgraphExecutionRequest(<.*>)?\.%s$" % n) for n in parts])
    have(c, "ws-body", "the message that starts a WebSocket operation at a subgraph carries", g.ret(), parts, "%s:%d" % (W[0].file, W[0].line), g)


SITE = r"^moka::.*Cache(::)?(<.*>)?::(entry|entry_by_ref|get_with|get_with_by_ref|try_get_with|try_get_with_by_ref|optionally_get_with|insert)$"
FILL = r"(or_(try_|optionally_)?insert(_with\w*)?|and_(try_)?compute_with|(try_|optionally_)?get_with(_by_ref)?|or_default)$|moka::.*::insert$"
HOOKS = r"RouterPlugin\w*::on_\w+$|plugin_trait::\S*::on_\w+$"
CACHED = [
    # entry, what the key must depend on
    ("parse", r"pipeline::parser::parse_operation_with_cache$", ["document"]),
    ("validate", r"pipeline::validation::validate_operation_with_cache$", ["document", "schema", "rules"]),
    ("normalize", r"pipeline::normalize::normalize_request_with_cache$", ["document", "operation name"]),
    ("plan", r"pipeline::query_plan::plan_operation_with_cache$", ["operation", "override labels"]),
    ("formula", r"DemandControlRuntime::evaluate$", ["plan key"]),
    ("jwt", r"JwtAuthRuntime::validate_headers$", ["token"]),
    ("persisted", r"PersistedDocumentsManager::resolve_document$", ["document id"]),
    ("usage", r"agent::utils::OperationProcessor::process$", ["operation text"]),
]
CSRC = [("document", r"GraphQLParams\.query$|GraphQLParserPayload\.(parsed_operation|cache_key|cache_key_string|minified_document)$"),
        ("operation name", r"GraphQLParams\.operation_name$"), ("variables", r"GraphQLParams\.variables$"), ("extensions", r"GraphQLParams\.extensions$"),
        ("schema", r"ConsumerSchema\.|ValidationSchema\w*\.|OnGraphQLValidationStartHookPayload.*\.schema$"),
        ("rules", r"ValidationPlan\.|OnGraphQLValidationStartHookPayload.*\.validation_plan$"), ("replaced document", r"OnGraphQLValidationStartHookPayload.*\.document$"),
        ("operation", r"GraphQLNormalizationPayload\.(operation_for_plan|operation_for_plan_hash|normalized_operation_hash)$"),
        ("filtered operation", r"OnQueryPlanStartHookPayload.*\.filtered_operation_for_plan$")]
CTY = [("override labels", r"RequestOverrideContext$"), ("client headers", r"^&(\S+ )?[\w:]*HeaderMap$")]


@prop("P21", "Value dependence at every cache of the process: whatever request-specific input the cached value is computed from, the key depends on; every cache site is covered.")
def p21(c):
    seen, sites = set(), {}
    ix = c.p.index()
    for (d, r), ss in ix["calls"].items():
        if d and re.search(SITE, d):
            for s in ss:
                if not c.p.bodies[s[0]].is_test():
                    sites[s[0]] = d
    if not sites:
        raise Anchor("no cache access found")
    for name, pat, need in CACHED:
        b = c.find(pat)[0]
        ins = flow.reaching(c.p, SITE, flow.hashing, where=None)
        args = []
        for i in range(1, b.argc + 1):
            t, n = tystr(b.local_ty(i)), b.local_name(i) or ""
            if name == "formula" and t == "u64":
                args.append((i, "plan key"))
            if name in ("persisted", "usage") and re.search(r"^&(\S+ )?str$", t):
                args.append((i, need[0]))
            if name == "usage" and "Document" in t:
                args.append((i, "schema"))
        calls = [("token", r"JwtAuthRuntime::\w*(lookup|extract)\w*$")] if name == "jwt" else []
        f = run(c, b, fields=CSRC, types=CTY, args=args, calls=calls, inside=lambda t: ins(t) or t.startswith(b.id), lossy=HOOKS)
        seen |= {i[0] for i in f.insts}
        got, at = one(c, f, SITE, "of the %s cache" % name, argi=1)
        have(c, name, "what is cached by the %s cache is shared only between requests that agree on" % name, got, {n: "the " + n for n in need}, at, f)
        vals = f.call_args(FILL)
        if not vals:
            raise Anchor("the %s cache is never filled" % name)
        val = set().union(*[ls[-1] for _, _, ls in vals])
        # the replaced document is an input only when there is one
        extra = {v for v in val if v not in got}
        c.ob("value|" + name, not extra, "what the %s cache stores depends on nothing request-specific that its key does not depend on" % name, at,
             {"value depends on": sorted(val), "key depends on": sorted(got), "missing from the key": sorted(extra)})
    # the key of cost formulas is computed by the caller
    EV = r"DemandControlRuntime::evaluate$"
    callers = sorted({c.p.root_of(c.p.bodies[s[0]]).id for (d, r), ss in ix["calls"].items() if re.search(EV, r or d or "") for s in ss if not c.p.bodies[s[0]].is_test()})
    if not callers:
        raise Anchor("nothing evaluates the cost of plans")
    b = c.find(EV)[0]
    ki = [i for i in range(1, b.argc + 1) if tystr(b.local_ty(i)) == "u64"]
    pi = [i for i in range(1, b.argc + 1) if "QueryPlan" in tystr(b.local_ty(i))]
    if len(ki) != 1 or len(pi) != 1:
        raise Anchor("the cost evaluation has no key or no plan")
    for u in callers:
        e = c.p.bodies[u]
        f = run(c, e, fields=[CSRC[6], CSRC[7], ("replaced plan", r"OnQueryPlanEndHookPayload.*\.query_plan$")], types=CTY[:1], lossy=HOOKS,
                inside=lambda t: c.p.root_of(c.p.bodies[t]).id == u or flow.hashing(c.p.bodies[t]) or re.search(r"pipeline::query_plan::", t) is not None)
        for b, line, ls in f.call_args(EV):
            k, v = ls[ki[0] - 1], ls[pi[0] - 1]
            have(c, "formula-key|" + shorten(u), "the cost formula of a plan is reused only for requests that agree on", k, {"operation": "the operation", "override labels": "the override labels"}, "%s:%s" % (b.file, line), f)
            for x in sorted(v - k):
                c.ob("formula-plan|" + x, False, "the cost formula of a plan is reused only for the same plan", "%s:%s" % (b.file, line), {"plan depends on": sorted(v), "key depends on": sorted(k)})
    missed = [s for s in sites if s not in seen]
    c.ob("sites", not missed, "every cache of the process is covered by these rules", "", {"sites": sorted(shorten(s) for s in sites), "uncovered": sorted(shorten(s) for s in missed)})


INT = re.compile(r"^(bool|char|[iu](8|16|32|64|128|size))$")


def wclass(t):
    return "I" if INT.match(t) else "S" if re.search(r"\bstr$|String$", t) else t


def compat(a, b):
    return wclass(a[0]) == wclass(b[0]) and (a[1] is None or b[1] is None or a[1] == b[1])


def apart(A, B, n, whole):
    """Can no stream of A equal (whole: the streams are compared as a whole, otherwise they may be followed by anything) one of B?
    A, B: (words per position, final states)."""
    for i in range(n):
        s = str(i)
        ea, eb = s in A[1], s in B[1]
        if not any(compat(x, y) for x in A[0][s] for y in B[0][s]):
            if whole:
                return not (ea and eb)
            return not ea and not eb
        if ea and eb or not whole and (ea or eb):
            return False
    return False


@prop("P22", "Value dependence from every field of every operation syntax node to the operation hash, element coverage of its collections, and a comparison of the words that different kinds of "
             "values and selections write, so that operations that differ cannot feed the same input to the hash.")
def p22(c):
    V = "ast::value::Value"
    imp = lambda t: c.find(r"<&?.*::%s as .*ASTHash>::ast_hash$" % t)[0] if t != "Vec" else c.find(r"<std::vec::Vec<.*> as .*ASTHash>::ast_hash$")[0]
    skip = {"OperationDefinition.name": "the name of the operation does not change its result"}
    for t in ("OperationDefinition", "FieldSelection", "InlineFragmentSelection", "VariableDefinition"):
        b = imp(t)
        a = [x for k, x in c.p.adts.items() if re.search(r"query_planner::ast::.*::%s$" % t, k)]
        if len(a) != 1:
            raise Anchor("no syntax node " + t)
        names = [f[0] for f in a[0]["variants"][0][1]]
        f = run(c, b, fields=[(n, r"ast::\w+::%s\.%s$" % (t, n)) for n in names], inside=lambda x: x.startswith(b.id) or not re.search(r"ASTHash", x) and flow.hashing(c.p.bodies[x]))
        got = f.at(f.root, 2)
        have(c, t, "the operation hash covers every part of %s" % t, got, {n: n for n in names if "%s.%s" % (t, n) not in skip}, "%s:%d" % (b.file, b.line), f)
    for n, t, elem, call in (("selections", "SelectionSet", r"Iter<.*SelectionItem", r"ASTHash(>)?::ast_hash$"), ("arguments", "ArgumentsMap", r"Value>?\)?", r"ASTHash(>)?::ast_hash$"),
                             ("variables", "Vec", r"Iter<.*VariableDefinition", r"ASTHash(>)?::ast_hash$")):
        c.each("each-" + n, "every one of the %s is hashed" % n, imp(t), elem, call, fix=True)
    b = imp("InlineFragmentSelection")
    f = run(c, b, calls=[("len", r"::len$")], inside=lambda x: x.startswith(b.id) or not re.search(r"ASTHash", x) and flow.hashing(c.p.bodies[x]))
    c.ob("fragment-end", "len" in f.at(f.root, 2) or marked(c, b), "the end of an inline fragment's selections is part of the hash", "%s:%d" % (b.file, b.line), None)
    # values
    top = imp("Value")
    adt = c.adt(V)
    names = [v[0] for v in adt["variants"]]
    helper = [x for x in c.p.bodies.values() if x.kind == "fn" and x.id != top.id and x.id in reach(c.p, top.id) and any(re.search(r"^&(\S+ )?\S*ast::value::Value$", tystr(x.local_ty(i + 1))) for i in range(x.argc))
              and any(re.search(r"^&mut ", tystr(x.local_ty(i + 1))) for i in range(x.argc))]
    for level, body, whole in (("value", top, True), ("nested", helper[0] if helper else top, False)):
        ws = {}
        for i, n in enumerate(names):
            rec, I = words(c, body, [Assume("type", adt["id"], variant(adt["id"], i, ((0, TOP),)))], 2)
            ws[n] = (rec, {s for s in I.final})
        bad = 0
        for i, a in enumerate(names):
            for z in names[i + 1:]:
                if not apart(ws[a], ws[z], 2, whole):
                    bad += 1
                    c.ob("%s-kinds|%s-%s" % (level, a, z), False, "%s values of different kinds never have the same hash input" % ("two" if whole else "two nested"), "%s:%d" % (body.file, body.line),
                         {k: {"words": {p: sorted(map(str, s)) for p, s in ws[k][0].items()}, "may end after": sorted(ws[k][1])} for k in (a, z)})
        c.ob("%s-kinds" % level, True, "pairs of kinds of values compared", "%s:%d" % (body.file, body.line), {"pairs": len(names) * (len(names) - 1) // 2, "indistinct": bad})
    T = imp("TypeNode")
    ta = c.adt("supergraph_state::TypeNode")
    tags = []
    for i, v in enumerate(ta["variants"]):
        rec, I = words(c, T, [Assume("type", ta["id"], variant(ta["id"], i, ((0, TOP),)))], 1)
        tags.append((v[0], rec["0"]))
    wrapped = [x for x in tags if x[0] != "Named"]
    c.ob("type-kinds", all(len(w) == 1 and list(w)[0][1] is not None for _, w in wrapped) and len({str(w) for _, w in wrapped}) == len(wrapped), "list and non-null types write distinct tags",
         "%s:%d" % (T.file, T.line), {k: sorted(map(str, w)) for k, w in tags})
    # both halves of a partitioned operation
    N = c.find(r"::hash_normalized_operation$")[0]
    f = run(c, N, args=[(1, "the downstream part"), (2, "the introspection part")], inside=lambda x: x.startswith(N.id))
    h = c.adt([k for k in c.p.adts if k == tystr(N.local_ty(0))][0] if [k for k in c.p.adts if k == tystr(N.local_ty(0))] else "NormalizedOperationHashes")
    fi = [x[0] for x in h["variants"][0][1]].index("combined_operation_hash")
    got = {x for x in f.labels[(f.root, 0, str(fi))] | f.labels[(f.root, 0, None)] if not isinstance(x, tuple)}
    have(c, "combined", "the hash that identifies an operation covers", got, {x: x for x in ("the downstream part", "the introspection part")}, "%s:%d" % (N.file, N.line), f)


def marked(c, b):
    """Something is written after the last selection even when there is none."""
    I = c.interp(b, [Assume("ret", r"ASTHash(>)?::ast_hash$", TOP)], [], trans=[Trans(r"ASTHash(>)?::ast_hash$", {"0": "1"}, site=True), Trans(HASH, {"1": "2"}, site=True)], fix=True)
    return "1" not in I.final
