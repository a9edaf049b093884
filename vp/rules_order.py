"""The order of the steps of a query plan, and the conditions under which they run."""
import re
from registry import prop
from framework import Anchor, group, nonempty, empty, shorten
from absint import NEVER, Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, strip
from rules_auth import okay, tystr, enum, tag
from rules_access import callers, field_index
from rules_wire import argtypes, has
from rules_state import names


@prop("P39", "Branch feasibility and call order in the executor of plan nodes and in the planner's passes over fetch steps: no step starts while an earlier one is under way, none runs against its condition, and the passes keep "
             "the order of root mutation fields.")
def p39(c):
    X = r"plan::Executor\S*(<.*>)?::"
    E, Jf = c.find(X + "execute_plan_node$")[0], c.find(X + "prepare_job_future$")[0]
    node = lambda n: ("R", enum(c, "plan_nodes::PlanNode", n))

    def given(b, v):
        a = [v if re.search(r"^&('\w+ )?[\w:]*PlanNode$", tystr(b.local_ty(i + 1))) else TOP for i in range(b.argc)]
        if v not in a:
            raise Anchor("the step that %s is given" % shorten(b.id))
        return a
    rec, job, done, prep = X + "execute_plan_node$", X + "prepare_job_future$", X + "process_job_result$", X + "prepare_execution_job$"
    W = "a step starts only after the steps before it"
    c.unreachable("sequence", W, E, [Assume("ret", rec, ("RF", NEVER))], [Sink("next", rec, bad=("1",))], control=False, args=given(E, node("Sequence")), trans=[Trans(rec, {"0": "1"}, site=True)])
    for n, a in (("Sequence", Assume("ret", rec, ("RF", NEVER))), ("Condition", Assume("ret", rec, ("RF", NEVER))), ("Fetch", Assume("ret", job, Some(("RF", NEVER)))),
                 ("Flatten", Assume("ret", job, Some(("RF", NEVER)))), ("BatchFetch", Assume("ret", job, Some(("RF", NEVER))))):
        it = [Assume("ret", r"^std::iter::Iterator::next$", Some(), gtype=r"PlanNode")] if n == "Sequence" else [Assume("ret", r"plan::condition_node_by_variables$", Some())] if n == "Condition" else []
        I = c.interp(E, [a] + it, [], args=given(E, node(n)))
        c.ob("ends-" + n, I.result is BOT, "a step ends only when its work is done", "%s:%d" % (E.file, E.line), {"step": n, "ends with": repr(I.result)[:80], "functions": len(I.visited)})
    D = c.find(r"plan::execute_query_plan_with_data$")[0]
    c.unreachable("answer", "a response is made only after the plan has been executed", D, [Assume("field", "QueryPlan.node", Some()), Assume("ret", rec, ("RF", NEVER))], [], control=False, ret_bad=lambda av: av is not BOT)
    # conditions
    Q = "a conditional step runs only if its variable says so"
    B = c.find(r"plan::condition_node_by_variables$")[0]
    cl = [Assume("field", "ConditionNode.if_clause", Some(tag("yes"))), Assume("field", "ConditionNode.else_clause", Some(tag("no")))]
    got = r"HashMap\S*(::)?(<.*>)?::get$"
    vref = lambda v: variant("sonic_rs::ValueRef", 1, ((0, v),))          # Null, Bool, Number, String, Array, Object
    bool_ = lambda v: [Assume("ret", got, Some(("R", tag("val"))))] + group("value", Assume("ret", r"sonic_rs\S*Value(>)?::as_ref$", vref(v), argpred=has("val")), Assume("ret", r"::as_bool$", Some(v), argpred=has("val")),
                                                                     Assume("ret", r"::is_true$", v, argpred=has("val")))
    for n, v, want, not_ in (("true", TRUE, "yes", "no"), ("false", FALSE, "no", "yes")):
        c.unreachable("condition-" + n, Q, B, cl + bool_(v), [], control=False, need_hits=False, ret_bad=lambda av, w=not_, x=want: "TAG:" + w in repr(av) or "TAG:" + x not in repr(av))
    miss = cl + [Assume("ret", got, NONE)]
    null = [Assume("ret", r"(Value|ValueRef)\S*::as_ref$", variant("sonic_rs::ValueRef", 0, ())), Assume("ret", r"as_bool$", NONE), Assume("ret", r"is_(true|false)$", FALSE), Assume("ret", r"is_null$", TRUE)]
    c.unreachable("condition-null", Q, B, cl + null, [], control=False, need_hits=False, ret_bad=lambda av: "TAG:yes" in repr(av))
    alone = [Assume("field", "ConditionNode.if_clause", Some(tag("yes"))), Assume("field", "ConditionNode.else_clause", NONE)]
    for n, v in (("false", bool_(FALSE)), ("null", [Assume("ret", got, Some(("R", tag("val"))))] + null)):
        c.unreachable("condition-alone-" + n, Q, B, alone + v, [], control=False, need_hits=False, ret_bad=lambda av: "TAG:yes" in repr(av))
    c.unreachable("condition-missing", Q, B, miss, [], control=False, need_hits=False, ret_bad=lambda av: "TAG:yes" in repr(av))
    key = [Assume("field", "ConditionNode.condition", tag("name"))]
    c.unreachable("condition-name", Q, B, key, [Sink("other", got, argpred=lambda a, fr: "TAG:name" not in repr(a))], control=False)
    by = r"plan::condition_node_by_variables$"
    none = [Assume("ret", by, NONE)]
    c.unreachable("condition-skipped", Q, E, none, [Sink("runs", job), Sink("runs", rec), Sink("runs", prep)], args=given(E, node("Condition")))
    c.unreachable("condition-skipped-parallel", Q, Jf, none, [Sink("runs", prep), Sink("runs", job)], args=given(Jf, node("Condition")))
    pick = [Assume("ret", by, Some(("R", tag("picked"))))]
    c.unreachable("condition-picked", Q, E, pick + [Assume("ret", rec, ("RF", TOP))], [Sink("other", rec, argpred=lambda a, fr: "TAG:picked" not in repr(a))], args=given(E, node("Condition")), control=False)
    c.unreachable("condition-picked-parallel", Q, Jf, pick + [Assume("ret", job, TOP)], [Sink("other", job, argpred=lambda a, fr: "TAG:picked" not in repr(a))], args=given(Jf, node("Condition")), control=False)
    # nothing to fetch
    N = "a step with nothing to fetch calls no subgraph"
    c.unreachable("nothing-entity", N, Jf, [Assume("field", "FetchNode.requires", Some())] + group("empty", Assume("ret", r"Map(<.*>|::<.*>)?::is_empty$", TRUE), Assume("ret", r"Map(<.*>|::<.*>)?::len$", ("K", "0"))),
                  [Sink("calls", prep)], args=given(Jf, node("Flatten")))
    c.unreachable("nothing-batch", N, Jf, group("empty", Assume("ret", r"^std::iter::Iterator::all$", TRUE, where=r"prepare_job_future"), Assume("ret", r"^std::iter::Iterator::any$", FALSE, where=r"prepare_job_future")),
                  [Sink("calls", prep)], args=given(Jf, node("BatchFetch")))
    # the planner: the order of root mutation fields
    M = "root mutation fields run one after another in the order of the operation"
    S = c.adt("fetch_step_data::FetchStepData")["id"]
    PI = field_index(c, "fetch_step_data::FetchStepData", "mutation_field_position")
    step = lambda v: ("R", ("S", S, ((PI, v),)))
    two = lambda b, x, y: place(b, [x, y])

    def place(b, vals):
        ix = [i for i in range(b.argc) if re.search(r"^&('\w+ )?[\w:]*FetchStepData\b", tystr(b.local_ty(i + 1)))]
        if len(ix) != len(vals):
            raise Anchor("the steps that %s compares" % shorten(b.id))
        a = [TOP] * b.argc
        for i, v in zip(ix, vals):
            a[i] = v
        return a
    sib, leaf = c.find(r"::can_merge_siblings$")[0], c.find(r"::can_merge_leafs$")[0]
    apart = [Assume("ret", r"::(abs|abs_diff|unsigned_abs)$", ("K", "5"))]
    yes = lambda av: av != FALSE
    for x, y in (("0", "5"), ("5", "0")):
        c.unreachable("siblings-apart-%s-%s" % (x, y), M, sib, apart, [], control=False, need_hits=False, args=place(sib, [step(Some(("K", x))), step(Some(("K", y)))]), ret_bad=yes)
        c.unreachable("leafs-apart-%s-%s" % (x, y), M, leaf, [], [], control=False, args=place(leaf, [step(Some(("K", x))), step(Some(("K", y)))]), ret_bad=yes)
    for n, pat in (("siblings", r"::merge_siblings$"), ("leafs", r"::find_merge_candidate$")):
        b = c.find(pat)[0]
        c.ob("asks-" + n, any(re.search(r"::can_merge_" + n, z) for f in c.p.family(b.id) for _, fn, *_ in f.calls() for z in names(fn)), M, "%s:%d" % (b.file, b.line), {"asks": "can_merge_" + n})
    T = c.find(r"::turn_mutations_into_sequence$")[0]
    kind = [Assume("field", "FetchGraph.operation_kind", enum(c, "supergraph_state::OperationKind", "Mutation"))]
    con = r"FetchGraph\S*(<.*>)?::connect$"
    c.unreachable("sorted", M, T, kind, [Sink("unsorted", con, bad=("0",))], control=False, trans=[Trans(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sorted|sorted_by|sorted_by_key)$", {"0": "S"})])
    c.unreachable("sequenced", M, T, kind, [], control=False, trans=[Trans(con, {"0": "C"})], exit_bad=lambda av, s: okay(av) and s == "0")
    c.unreachable("detached", M, T, kind + [Assume("ret", r"^std::iter::Iterator::next$", Some(), gtype=r"EdgeIndex")], [Sink("kept", con)], control=False, need_hits=False)
    O = c.find(r"FetchGraph\S*(<.*>)?::optimize$")[0]
    seq = Trans(r"::turn_mutations_into_sequence$", {"0": "T"})
    c.unreachable("sequence-must", M, O, [], [], control=False, trans=[seq], exit_bad=lambda av, s: okay(av) and s == "0")
    c.unreachable("sequence-last", M, O, [], [Sink("merges", r"::(merge_\w+|batch_multi_type|deduplicate_and_prune_fetch_steps)$", where=r"::optimize$", bad=("T",))], control=False, trans=[seq])
    # waves
    F = c.find(r"query_plan::build_query_plan_from_fetch_graph$")[0]
    ful = r"InDegree(<.*>|::<.*>)?::is_fulfilled$"
    c.unreachable("fulfilled", W, F, [Assume("ret", ful, FALSE)], [Sink("placed", r"VecDeque(::)?(<.*>)?::(push_back|push_front|extend)$")])
