"""Authentication, authorization, demand control."""
import re
from registry import prop
from framework import Anchor, nonempty, empty, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, OVER, EQUAL, strip
from rules_pipeline import may, HTTP, WS, EXEC, exec_sinks, ERR
from rules_access import busy, gate, callers, field_index, kind, op_kind, may_inner


def tag(s):
    return ("K", '"TAG:%s"' % s)


def enum(c, adt, name, *fields):
    return variant(c.adt(adt)["id"], c.variant_index(adt, name), tuple(enumerate(fields)))


okay = lambda av: may(av, ("Ok",))


@prop("P10", "Branch feasibility of token verification: with authentication required, no path accepts a request whose token is missing or fails; inside verification, each of "
             "'algorithm not allowed', 'signature or expiry check failed', 'issuer not listed or missing', 'audience not listed or missing' leaves no accepting path, and nothing "
             "switches off checks of the JWT library; the verdict gates every operation on the HTTP and WebSocket paths.")
def p10(c):
    val = r"JwtAuthRuntime\S*::validate_headers$"
    on = Assume("field", "RouterSharedState.jwt_auth_runtime", Some())
    for n, e in (("http", HTTP), ("ws", WS)):
        gate(c, "gate-" + n, "an operation whose token is refused is neither planned nor executed", e, val, [on])
        c.unreachable("identity-" + n, "a request is treated as authenticated only if its token was verified", e, [on, Assume("ret", val, Ok(NONE))],
                      [Sink("authenticated", adt=r"JwtRequestDetails::Authenticated$")])
    V = c.find(r"jwt::JwtAuthRuntime\S*::validate_headers$")[0]
    must = Assume("field", "JwtAuthConfig.require_authentication", Some(TRUE))
    look, cache = r"JwtAuthRuntime\S*::lookup$", r"moka::.*Cache.*::(try_get_with\w*|get_with\w*|entry\w*|get)$"
    c.unreachable("missing", "with authentication required, a request without a token is refused", V, [must, Assume("ret", look, Err())], [], ret_bad=okay)
    c.unreachable("invalid", "with authentication required, a request whose token fails verification is refused", V,
                  [must, Assume("ret", look, Ok()), Assume("ret", r"moka::.*Cache.*::try_get_with\w*$", Err())], [], ret_bad=okay)
    auth = r"JwtAuthRuntime\S*::authenticate$"
    c.unreachable("optional", "a token that fails verification never yields an identity", V,
                  [Assume("ret", r"moka::.*Cache.*::try_get_with\w*$", Err(), enter=True)], [], ret_bad=lambda av: may(av, ("Ok", "Some")))
    c.unreachable("verify-must", "an identity is produced only by the verified-token cache", V, [Assume("ret", r"moka::.*Cache.*::try_get_with\w*$", BOT)], [],
                  ret_bad=lambda av: may(av, ("Ok", "Some")))
    A = c.find(r"jwt::JwtAuthRuntime\S*::authenticate$")[0]
    dec = r"JwtAuthRuntime\S*::decode_and_validate_token$"
    for k, call in (("header", r"jsonwebtoken::(\w+::)*decode_header$"), ("provider", r"JwtAuthRuntime\S*::find_matching_jwks$"), ("decode", dec)):
        c.unreachable("authenticate-" + k, "a token is accepted only if every verification step accepts it", A, [Assume("ret", call, Err())], [], ret_bad=okay)
        c.unreachable("authenticate-must-" + k, "no verification step is skipped", A, [Assume("ret", call, BOT)], [], ret_bad=okay)
    D = c.find(r"jwt::JwtAuthRuntime\S*::try_decode_from_jwk$")[0]
    decode = r"^jsonwebtoken::(\w+::)*decode$"
    cfg = lambda f, v: Assume("field", "JwtAuthConfig." + f, v)
    claim = lambda f, v: Assume("field", "JwtClaims." + f, v)
    isin = lambda g, v=FALSE: group("contains", Assume("ret", r"(contains|contains_key)$", v, where=r"jwt::"))
    c.unreachable("signature", "a token whose signature or registered claims fail is refused", D, [Assume("ret", decode, Err())], [], ret_bad=okay)
    c.unreachable("signature-must", "no token is accepted without checking its signature", D, [Assume("ret", decode, BOT)], [], ret_bad=okay)
    c.unreachable("key", "the signature is checked with a key built from the configured key set", D,
                  [Assume("ret", r"jsonwebtoken::(\w+::)*DecodingKey::from_jwk$", BOT)], [Sink("decode", decode)])
    c.unreachable("algorithm", "a token whose algorithm is not allowed is refused before its signature is looked at", D,
                  [cfg("allowed_algorithms", Some())] + isin(""), [Sink("decode", decode)])
    c.unreachable("issuer", "a token from an issuer that is not listed is refused", D,
                  [cfg("allowed_algorithms", NONE), cfg("audiences", NONE), cfg("issuers", Some()), claim("iss", Some())] + isin(""), [], ret_bad=okay)
    c.unreachable("issuer-missing", "with issuers configured, a token without issuer is refused", D, [cfg("issuers", Some()), claim("iss", NONE)], [], ret_bad=okay)
    aud = lambda n: Some(enum(c, "jwt::context::Audience", n, TOP))
    c.unreachable("audience", "a token for an audience that is not listed is refused", D,
                  [cfg("allowed_algorithms", NONE), cfg("issuers", NONE), cfg("audiences", Some()), claim("aud", aud("Single"))] + isin(""), [], ret_bad=okay)
    c.unreachable("audience-missing", "with audiences configured, a token without audience is refused", D, [cfg("audiences", Some()), claim("aud", NONE)], [], ret_bad=okay)
    weaken = lambda: [Sink("weaken", field_write=r"jsonwebtoken::(\w+::)*Validation\.(validate_exp|validate_nbf|leeway|required_spec_claims|reject_tokens_expiring_in_less_than|algorithms|iss|sub)$"),
                      Sink("weaken", r"jsonwebtoken::(\w+::)*(Validation::insecure_\w+|dangerous::\w+|insecure_\w+|Validation::set_required_spec_claims)$")]
    c.unreachable("aud-check-on", "with audiences configured, the audience check of the JWT library stays on and knows the audiences", D,
                  [cfg("audiences", Some())],
                  [Sink("off", field_write=r"jsonwebtoken::(\w+::)*Validation\.validate_aud$")])
    c.unreachable("aud-set", "with audiences configured, the JWT library checks them", D, [cfg("audiences", Some()), Assume("ret", r"Validation::set_audience$", BOT)], [Sink("decode", decode)])
    c.unreachable("iss-set", "with issuers configured, the JWT library checks them", D, [cfg("issuers", Some()), Assume("ret", r"Validation::set_issuer$", BOT)], [Sink("decode", decode)])
    c.unreachable("not-weakened", "no check of the JWT library is switched off", D, [], weaken(), control=False)
    E = c.find(r"JwtClaimsExpiry as .*expire_after_create$")[0]
    c.unreachable("cache-expiry", "the lifetime of a cached verdict is capped by the time left until the token expires", E,
                  [claim("exp", Some()), Assume("ret", r"SystemTime::duration_since$", Ok()), Assume("ret", r"(Ord|cmp)\S*::min$", BOT)] +
                  group("expired", Assume("ret", r"nothing-matches", TRUE)) [:0], [],
                  ret_bad=lambda av: bad_ttl(av))
    callers(c, "cache-built", "the token cache is built with the expiry rule", r"moka::.*CacheBuilder.*::expire_after$", {r"shared_state::RouterSharedState::new$"})


def bad_ttl(av):
    """Anything but Some(Duration::ZERO constant) - the only value allowed without taking the minimum."""
    av = strip(av)
    if av is BOT:
        return False
    if av[0] != "V":
        return True
    for i, fs in av[2]:
        if i == 0:
            return True
        x = strip(dict(fs).get(0, TOP))
        if x == TOP or (x[0] == "K" and "ZERO" not in x[1]):
            return True
    return False


@prop("P12", "Branch feasibility of the authorization stage and of what follows it: a rejecting verdict leaves no path to planning, and the operation that is planned and executed is "
             "the one the stage returned, never the client's original; inside the stage, violations never lead to 'no change'.")
def p12(c):
    enf, apply_ = r"authorization::enforce_operation_authorization$", r"authorization::apply_authorization_to_operation$"
    for n, e in (("http", HTTP), ("ws", WS)):
        gate(c, "gate-" + n, "an operation that fails authorization is neither planned nor executed", e, enf)
    on = lambda: [Assume("field", "AuthorizationDirectivesConfig.enabled", TRUE), Assume("field", "JwtAuthConfig.enabled", TRUE)]
    E = "enforce_operation_authorization"
    dec = lambda n: Ok(enum(c, "authorization::AuthorizationDecision", n))
    c.unreachable("stage-must", "with authorization enabled, no operation passes the stage without being checked", E, on() + [Assume("ret", apply_, BOT)], [], ret_bad=okay)
    c.unreachable("stage-error", "an error while checking refuses the operation", E, on() + [Assume("ret", apply_, Err())], [], ret_bad=okay)
    c.unreachable("stage-reject", "a rejecting verdict refuses the operation", E, on() + [Assume("ret", apply_, dec("Reject"))], [], ret_bad=okay)
    c.unreachable("stage-modified", "a modified operation replaces the original one", E,
                  on() + [Assume("ret", apply_, dec("Modified")), Assume("ret", r"GraphQLNormalizationPayload::with_operation$", BOT)], [], ret_bad=okay)
    A = "apply_authorization_to_operation"
    nochange = lambda av: may_inner(av, c.variant_index("authorization::AuthorizationDecision", "NoChange"))
    modified = lambda av: may_inner(av, c.variant_index("authorization::AuthorizationDecision", "Modified"))
    rules = lambda: [Assume("ret", r"AuthorizationMetadata>?::is_empty$", FALSE)]
    anon = lambda: [Assume("field", "UserAuthContext.is_authenticated", FALSE)]
    errs = nonempty("GraphQLError|AuthorizationError", where=r"authorization::apply")
    flt = r"OperationFilter\S*::filter$|OperationFilter.*::filter$"
    c.unreachable("verdict", "violations are never reported as 'no change'", A, rules() + anon() + errs, [], ret_bad=nochange)
    c.unreachable("verdict-filter", "for an anonymous client the whole operation is checked", A, rules() + anon() + [Assume("ret", flt, BOT)], [], ret_bad=okay)
    c.unreachable("verdict-filter-scopes", "when the schema requires scopes the whole operation is checked", A,
                  rules() + [Assume("ret", r"(Rodeo|ScopeInterner).*::(is_empty)$", FALSE), Assume("ret", flt, BOT)], [], ret_bad=okay)
    c.unreachable("verdict-filter-error", "an operation that cannot be checked is refused", A, rules() + anon() + [Assume("ret", flt, Err())], [], ret_bad=okay)
    rej = c.fn(A)
    args = [TOP] * rej.argc
    args[arg_of_type(rej, r"^bool$")] = TRUE
    c.unreachable("verdict-reject", "in reject mode violations refuse the operation", A, rules() + anon() + errs, [], args=args, ret_bad=modified, control="noargs")
    # what is planned and executed
    pipe = c.fn("pipeline::execute_pipeline")
    args = [TOP] * pipe.argc
    args[arg_of_type(pipe, r"GraphQLNormalizationPayload")] = ("R", ("R", tag("client")))
    pi = field_index(c, "execution::PlannedRequest", "normalized_payload")
    client = lambda v: "TAG:client" in repr(v)
    checked = Assume("ret", enf, Ok(("S", "tuple", ((0, ("R", tag("checked"))),))))
    orig = lambda ops, fr: client(ops[pi])
    c.unreachable("used", "the operation that is planned and executed is the one authorization returned", pipe, [checked],
                  [Sink("plan", r"plan_operation_with_cache$", argpred=lambda a, fr: any(client(x) for x in a)), Sink("execute", adt=r"execution::PlannedRequest", argpred=orig)],
                  args=args, control=False)


def arg_of_type(b, pat):
    m = [i for i in range(b.argc) if re.search(pat, tystr(b.local_ty(i + 1)))]
    if len(m) != 1:
        raise Anchor("%s has %d arguments of type /%s/" % (b.id, len(m), pat))
    return m[0]


def tystr(t):
    return t["s"] if isinstance(t, dict) else str(t)


@prop("P13", "Branch feasibility and element coverage of the selection walk: every selection is visited, the decision is negative as soon as the parent type, the field, or the field's "
             "output type is not authorized, a negative decision always records the path and the error, and null propagation is never lost on the way up.")
def p13(c):
    A = "apply_authorization_to_operation"
    rules = lambda: [Assume("ret", r"AuthorizationMetadata>?::is_empty$", FALSE), Assume("field", "UserAuthContext.is_authenticated", FALSE),
                     Assume("ret", r"AuthorizationChecker.*::parent_has_auth$", TRUE)]
    sel = c.adt("operation_filter::Selection")["id"]
    isf = lambda n: Assume("type", sel, enum(c, "operation_filter::Selection", n))
    keep = lambda: [Sink("keep", r"Selection.*::keep$"), Sink("keep", adt=r"FilterDecision::Keep$", where=r"authorization::")]
    ty = r"AuthorizationChecker.*::is_type_authorized$"
    fields = lambda: [Assume("field", "FieldInfo.parent_type_name", ("R", tag("parent"))), Assume("field", "FieldInfo.output_type_name", ("R", tag("output"))),
                      Assume("field", "FieldInfo.field_name", ("R", tag("name")))]
    has = lambda s: (lambda a, fr: any("TAG:" + s in repr(x) for x in a))
    vis = visitor(c)
    fargs = [TOP, ("R", enum(c, "operation_filter::Selection", "Field"))]
    gargs = [TOP, ("R", enum(c, "operation_filter::Selection", "Fragment"))]
    pa = Assume("ret", r"AuthorizationChecker.*::parent_has_auth$", TRUE)
    yes = lambda p: Assume("ret", p, TRUE)
    for n, k in enumerate(("parent", "output")):
        c.unreachable("field-" + k, "a field is kept only if its %s type is authorized" % k, vis,
                      [pa, fields()[n]] + [Assume("ret", ty, FALSE, argpred=has(k))], keep(), args=fargs, control="noargs", need_hits=True)
    c.unreachable("field-rule", "a field is kept only if its own rule is satisfied", vis, [pa, Assume("ret", r"AuthorizationChecker.*::is_field_authorized$", FALSE)], keep(), args=fargs, control="noargs")
    c.unreachable("fragment", "a fragment is kept only if its type condition is authorized", vis, [pa, Assume("ret", ty, FALSE)], keep(), args=gargs, control="noargs")
    S = c.find(r"AuthorizationChecker.*::is_rule_satisfied$")[0]
    anon = Assume("field", "UserAuthContext.is_authenticated", FALSE)
    c.unreachable("rule-anonymous", "an anonymous client satisfies no rule", S, [anon], [], ret_bad=lambda av: av != FALSE)
    T = c.find(r"AuthorizationChecker.*::is_type_authorized$")[0]
    sat = r"AuthorizationChecker.*::is_rule_satisfied$"
    get = lambda: Assume("ret", r"HashMap.*::get$", Some(), gtype=r"AuthorizationRule")
    none = lambda: Assume("ret", r"HashMap.*::get$", NONE, gtype=r"StrByAddr|^bool")
    c.unreachable("rule-type", "a type with an unsatisfied rule is not authorized", T, [none(), get(), Assume("ret", sat, FALSE)], [], ret_bad=lambda av: av != FALSE)
    F = c.find(r"AuthorizationChecker.*::is_field_authorized$")[0]
    c.unreachable("rule-field", "a field with an unsatisfied rule is not authorized", F, [get(), Assume("ret", r"Option.*::and_then$", Some())][:1] + [Assume("ret", sat, FALSE)], [],
                  ret_bad=lambda av: av != FALSE)
    # identity
    ctx = c.find(r"UserAuthContext::from_jwt$")[0]
    un = c.adt("client_request_details::JwtRequestDetails")["id"]
    c.unreachable("identity", "a request without a verified token is anonymous", ctx, [Assume("type", un, enum(c, "client_request_details::JwtRequestDetails", "Unauthenticated"))],
                  [Sink("authenticated", adt=r"UserAuthContext$", argpred=lambda ops, fr: ops[field_index(c, "UserAuthContext", "is_authenticated")] != FALSE)])
    # the walk
    W = c.find(r"FilteringContext.*::visit_selection_set$")[0]
    ign = Assume("ret", r"FilteringContext.*::is_ignored$", FALSE)
    item = c.adt("ast::selection_item::SelectionItem")["id"]
    two = ("V", item, tuple((c.variant_index("ast::selection_item::SelectionItem", n), ()) for n in ("InlineFragment", "Field")))
    c.each("walk", "every selection that is not excluded by @skip/@include is checked", W, r"SelectionItem", r"FilteringContext.*::visit_(field|inline_fragment)$",
           assumes=[ign, Assume("type", item, two)], fix=True, early=False)
    Vf = c.find(r"FilteringContext.*::visit_field$")[0]
    dec = c.adt("operation_filter::FilterDecision")["id"]
    notmeta = [Assume("field", "FieldSelection.name", tag("fname")), Assume("ret", r"PartialEq(<.*>)?(::|>::)eq$", FALSE, where=r"operation_filter::", argpred=has("fname")),
               Assume("ret", r"PartialEq(<.*>)?(::|>::)ne$", TRUE, where=r"operation_filter::", argpred=has("fname"))]
    rej = Assume("type", dec, enum(c, "operation_filter::FilterDecision", "Reject"))
    kp = Assume("type", dec, enum(c, "operation_filter::FilterDecision", "Keep"))
    for nm, call in (("path", r"FilteringContext.*::record_rejected_path$"), ("error", r"FilteringContext.*::record_error$")):
        c.unreachable("record-" + nm, "a rejected field is recorded", Vf, [rej] + group('nm', *notmeta) + [Assume("ret", call, BOT)], [], ret_bad=okay, fix=True)
    nest = r"FilteringContext.*::visit_selection_set$"
    c.unreachable("nested", "the selections of a kept field are checked", Vf, [kp] + group('nm', *notmeta) + [Assume("ret", nest, BOT)] + nonempty("SelectionItem") +
                  group("ne", Assume("ret", r"SelectionSet::is_empty$", FALSE)), [], ret_bad=okay, fix=True)
    np = c.adt("operation_filter::NullPropagation")["id"]
    prop_ = enum(c, "operation_filter::NullPropagation", "Propagate")
    nonp = lambda av: may_inner(av, c.variant_index("operation_filter::NullPropagation", "None"))
    nn = Assume("ret", r"::is_non_null$", TRUE)
    c.unreachable("bubble-field", "a rejected non-null field nulls its parent", Vf, [rej, nn] + group('nm', *notmeta), [], ret_bad=nonp, fix=True)
    c.unreachable("bubble-nested", "a non-null field whose child was nulled nulls its parent", Vf,
                  [kp, nn] + group('nm', *notmeta) + [Assume("ret", nest, Ok(prop_))] + nonempty("SelectionItem") + group("ne", Assume("ret", r"SelectionSet::is_empty$", FALSE)), [], ret_bad=nonp, fix=True)
    Vi = c.find(r"FilteringContext.*::visit_inline_fragment$")[0]
    c.unreachable("fragment-nested", "the selections of a kept fragment are checked", Vi, [kp, Assume("ret", nest, BOT)], [], ret_bad=okay, fix=True)
    c.unreachable("fragment-reject", "all selections of a rejected fragment are recorded", Vi, [rej, Assume("ret", r"FilteringContext.*::collect_all_field_paths$", BOT)], [], ret_bad=okay, fix=True)
    c.unreachable("fragment-error", "a rejected fragment is reported", Vi, [rej, Assume("ret", r"FilteringContext.*::record_error$", BOT)], [], ret_bad=okay, fix=True)
    o = c.find(r"NullPropagation::or$")[0]
    for k, a in (("left", [prop_, TOP]), ("right", [TOP, prop_])):
        c.unreachable("bubble-or-" + k, "null propagation is never lost when siblings are combined", o, [], [], args=a,
                      ret_bad=lambda av: (strip(av) or TOP) != prop_, control="noargs")
    # the rebuilt operation
    R = c.fn("nullify::rebuilder::rebuild_nulled_selection_set")
    hit = lambda v: Assume("ret", r"Trie.*::find_segment_at_position$", Some(("S", "tuple", ((1, v),))))
    kids = Assume("ret", r"Trie.*::has_children$", TRUE)
    fld = Assume("type", item, enum(c, "ast::selection_item::SelectionItem", "Field"))
    c.unreachable("removed", "a rejected field is not part of the operation that is planned", R, [kids, fld, hit(TRUE)],
                  [Sink("kept", r"Vec(::<.*>)?::(push|insert|extend)$", gtype=r"SelectionItem"), Sink("kept", r"FieldSelection::with_new_selections$")], fix=True)
    Pn = c.find(r"rebuilder::rebuild_nulled_projection_plan_recursive$")[0]
    nul = enum(c, "projection::plan::ProjectionValueSource", "Null")
    c.unreachable("projected-null", "a rejected field is projected as null", Pn, [hit(TRUE)],
                  [Sink("data", r"FieldProjectionPlan::with_new_value$", argpred=lambda a, fr: a[1] != nul), ], fix=True)
    c.unreachable("projected-kept", "a rejected field is not projected unchanged", Pn,
                  [hit(TRUE), Assume("field", "FieldProjectionPlan.parent_type_guard", NONE)], [Sink("unchanged", r"Clone(>)?::clone$", gtype=r"FieldProjectionPlan", where="rebuilder"),
                              Sink("unchanged", r"Clone>::clone$", gtype=r"^hive_router.*FieldProjectionPlan$")], fix=True, control=False)


def visitor(c):
    """The closure deciding one selection: the closure of the stage that consults the type rules."""
    ids = [b for b in c.p.bodies.values() if b.kind == "closure" and c.p.root_of(b).id.endswith("apply_authorization_to_operation") and not b.is_test()]
    m = []
    for b in ids:
        if any("is_type_authorized" in str(bb["x"][1]) for bb in b.bbs if bb["x"][0] == "call"):
            m.append(b)
    if len(m) != 1:
        m2 = [b for b in c.p.bodies.values() if b.kind == "fn" and not b.is_test() and re.search(r"pipeline::authorization::", b.id) and
              any("is_type_authorized" in str(bb["x"][1]) for bb in b.bbs if bb["x"][0] == "call")]
        if len(m2) == 1:
            return m2[0]
        raise Anchor("no single decision function for authorization")
    return m[0]
