"""Validation rules and structural limits of client operations."""
import re
from registry import prop
from framework import Anchor, nonempty, empty, group, shorten
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, OVER, EQUAL
from rules_pipeline import may

VISITORS = "ValidationVisitors"


def impl_methods(c, trait, self_pat):
    out = {}
    for b in c.p.bodies.values():
        if b.kind == "fn" and b.trait and (b.trait == trait or b.trait.endswith("::" + trait)) and re.search(self_pat, b.id) and not b.is_test():
            out[b.id.rsplit("::", 1)[-1]] = b
    return out


def trait_methods(c, trait):
    out = {}
    for b in c.p.bodies.values():
        if b.kind == "fn" and not b.id.startswith("<") and "::" + trait + "::" in b.id and b.id.rsplit("::", 2)[-2] == trait:
            out[b.id.rsplit("::", 1)[-1]] = b
    return out


@prop("P02", "Three rules. Registration: with a limit configured (and the others not), every path from start-up to the shared state adds a rule to the "
             "validation plan, and every rule type of the standard set is constructed for the default plan. Dispatch: each event of the document visitor is "
             "forwarded to every rule, element by element. Judgement: with 'everything measured exceeds the limit' each operation of a document gets an error "
             "reported, with 'equals the limit' none does; token limit likewise in the tokenizer.")
def p02(c):
    limits = {"max_depth": "MaxDepth", "max_directives": "MaxDirectives", "max_aliases": "MaxAliases"}
    conf = c.fn("configure_app_from_config")
    for name in limits:
        base = [Assume("field", "LimitsConfig." + n, Some() if n == name else NONE) for n in limits]
        c.unreachable("register-" + name, "with limits.%s set the request handling state is built only after a rule was added to the validation plan" % name,
                      conf, base, [Sink("state", r"RouterSharedState::new$", bad=["0"])],
                      trans=[Trans(r"ValidationPlan::add_rule$", {"*": "A"}, where="hive_router")])
    # each rule type exists, is a ValidationRule, and start-up constructs it from the configured value
    I = c.interp(conf, [], [Sink("x", r"ValidationPlan::add_rule$")])
    built = constructed(c, I.visited | {conf.id})
    for name, short in limits.items():
        ids = [a for a in c.p.adts if a.endswith("::" + short + "Rule") and a.startswith("hive_router")]
        if len(ids) != 1:
            raise Anchor("no unique rule type %sRule" % short)
        c.ob("constructed-" + name, ids[0] in built, "start-up constructs the %s rule" % name, conf.file, {"type": ids[0]})
    # the standard rules
    dflt = c.fn("default_rules_validation_plan")
    J = c.interp(dflt, [], [], descend_all=True)
    built = constructed(c, J.visited | {dflt.id})
    made = J.visited
    rules = set()
    for b in c.p.bodies.values():
        if b.kind == "fn" and b.trait and b.trait.endswith("::ValidationRule") and b.crate == "graphql_tools" and not b.is_test():
            rules.add(c.p.types[b.crate][c_self(b)]["h"] if c_self(b) is not None else b.id)
    if len(rules) < 20:
        raise Anchor("found only %d validation rule types" % len(rules))
    for r in sorted(rules):
        ok = r in built or any(x.startswith(r + "::") or ("<" + r + " as ") in x for x in made)
        c.ob("standard|" + shorten(r), ok, "the default plan contains every implemented validation rule", dflt.file, {"rule": r})
    spec = ["UniqueOperationNames", "LoneAnonymousOperation", "SingleFieldSubscriptions", "KnownTypeNames", "FragmentsOnCompositeTypes", "VariablesAreInputTypes",
            "LeafFieldSelections", "FieldsOnCorrectType", "UniqueFragmentNames", "KnownFragmentNames", "NoUnusedFragments", "OverlappingFieldsCanBeMerged",
            "NoFragmentsCycle", "PossibleFragmentSpreads", "NoUnusedVariables", "NoUndefinedVariables", "KnownArgumentNames", "UniqueArgumentNames",
            "UniqueVariableNames", "ProvidedRequiredArguments", "KnownDirectives", "VariablesInAllowedPosition", "ValuesOfCorrectType",
            "UniqueInputFieldNames", "UniqueDirectivesPerLocation"]
    gone = [s for s in spec if not any(r.endswith("::" + s) for r in rules)]
    c.ob("spec-rules", not gone, "each rule of the GraphQL specification's validation chapter is implemented", dflt.file, {"missing": gone})
    # dispatch to each rule
    impl = impl_methods(c, "OperationVisitor", r"^<\S*" + VISITORS)
    for m in sorted(trait_methods(c, "OperationVisitor")):
        if m not in impl:
            c.ob("dispatch|" + m, False, "every visitor event reaches every rule", "", {"reason": "event not forwarded"})
            continue
        c.each("dispatch|" + m, "every visitor event reaches every rule", impl[m], "OperationVisitor", r"OperationVisitor::%s$" % m)
    v = c.fn("validation::validate::validate")
    c.each("instances", "every rule of the plan gets a visitor for the document", v, "dyn .*ValidationRule", r"ValidationRule::visitor$")
    c.unreachable("visit", "a non-empty plan always visits the document", v, nonempty("OperationVisitor|ValidationRule") +
                  [Assume("ret", r"ValidationVisitors\S*::is_empty$", FALSE), Assume("ret", r"::visit_document$", BOT)], [], ret_bad=lambda av: av is not BOT)
    # judgement
    for name, short in limits.items():
        ent = [b for b in c.find(r"^<\S*%sVisitor\S* as .*OperationVisitor.*>::enter_document$" % short)]
        if len(ent) != 1:
            raise Anchor("no unique %sVisitor::enter_document" % short)
        over = [Assume("field", short + "RuleConfig.n", OVER), Assume("type", "graphql_tools::parser::query::ast::Definition", variant("graphql_tools::parser::query::ast::Definition", 0)),
                Assume("field", "Field.alias", Some())]
        inner = Assume("ret", r"^std::iter::Iterator::next$", Some(), gtype=r"Selection\b")
        c.each("over-" + name, "an operation that exceeds limits.%s gets an error" % name, ent[0], r"Definition\b", r"ValidationErrorContext::report_error$",
               over + [inner], fix=True)
        c.unreachable("equal-" + name, "an operation that just meets limits.%s is not refused" % name, ent[0],
                      [Assume("field", short + "RuleConfig.n", EQUAL)], [Sink("report", r"ValidationErrorContext::report_error$")], fix=True)
    # the counting descends into every child
    for short, fn in (("MaxDepth", "count_depth"), ("MaxAliases", "count_aliases"), ("MaxDirectives", "count_directives")):
        b = c.find(r"%sVisitor::<'doc>::%s$" % (short, fn))[0]
        c.each("children-" + short, "the count covers every selection below a node", b, r"Selection\b", r"%sVisitor\S*::%s$" % (short, fn), early=False)
        c.unreachable("fragment-" + short, "a fragment that was not counted before is counted where it is spread", b,
                      [Assume("type", "hive_router::pipeline::validation::shared::CountableNode", variant("hive_router::pipeline::validation::shared::CountableNode", 1)),
                       Assume("ret", r"HashMap(::<.*>)?::get$", NONE, gtype="VisitedFragment"),
                       Assume("ret", r"HashMap(::<.*>)?::get$", Some(), gtype="FragmentDefinition"),
                       Assume("ret", r"%sVisitor\S*::%s$" % (short, fn), BOT)], [], ret_bad=lambda av: may(av, ("Ok",)))
    cn = "hive_router::pipeline::validation::shared::CountableNode"
    sel = c.fn("CountableNode::<'a>::selection_set")
    for i, (n, _) in enumerate(c.adt("shared::CountableNode")["variants"]):
        if n == "FragmentSpread":
            continue
        r = c.interp(sel, [], [], args=[("R", variant(cn, i))], descend_all=True).result
        c.ob("selections|" + n, not may(r, ("None",)), "every kind of node that has selections exposes them to the limit rules", sel.file, {"returns": repr(r)[:80]})
    # tokens
    parse = c.fn("parse_operation_with_cache")
    unlimited = r"parser::query::grammar::parse_query$"
    c.unreachable("tokens-limited", "with limits.max_tokens set the document is never parsed without the limit", parse,
                  [Assume("field", "LimitsConfig.max_tokens", Some(("S", "hive_router::config::limits::MaxTokensRuleConfig", ((0, OVER),))))],
                  [Sink("parse", unlimited), Sink("parse-other-limit", r"grammar::parse_query_with_token_limit$", argpred=lambda av, fr: av[1] != OVER)])
    tok = c.find(r"TokenStream\S* as combine::\S*StreamOnce\S*>::uncons$")[0]
    c.unreachable("tokens-over", "the tokenizer yields no token beyond the limit", tok, [Assume("field", "TokenStream.token_limit", Some(OVER)),
                  Assume("field", "TokenStream.next_state", NONE)], [], ret_bad=lambda av: may(av, ("Ok",)))
    c.unreachable("tokens-kept", "the limit given to the parser is the limit the tokenizer enforces", c.fn("grammar::parse_query_with_token_limit"),
                  [], [Sink("no-limit", adt=r"tokenizer::TokenStream$", argpred=lambda ops, fr: not has_limit(ops))], control=False, need_hits=False,
                  args=[TOP, OVER])


def has_limit(ops):
    return any(o == Some(OVER) for o in ops)


def c_self(b):
    return b.self_ty if isinstance(b.self_ty, int) else None


def constructed(c, ids):
    out = set()
    todo = list(ids)
    for i in todo:
        for b in c.p.family(i):
            for _, s in b.stmts():
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt":
                    out.add(s[2][1][1])
                elif s[0] == "=" and s[2][0] == "use" and s[2][1].get("k") == "zst":
                    out.add(b.ty(s[2][1]["t"])["h"])
    return out
