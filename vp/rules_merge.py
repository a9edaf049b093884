"""Entities: what is sent to a subgraph for an entity, and which entities share an answer."""
import re
import flow
from registry import prop
from framework import Anchor, group, shorten
from absint import Assume, Sink, Trans, TOP, BOT, NONE, Some, Ok, Err, variant
from ir import fnref
from rules_auth import tystr
from rules_keys import run, have, words, apart, reach, HASH

SEARCH = r"::binary_search(_by(_key)?)?$"
COND = r"PossibleTypes::entity_satisfies_type_condition$"
VALUE = r"executor::response::value::Value<"


def lookups(c, f):
    """Which names a function looks for in the entity, and what it compares type conditions with."""
    names, conds = set(), set()
    for b, line, ls in f.call_args(SEARCH + r"|str as .*PartialEq.*::eq$|cmp::PartialEq::eq$|cmp::Ord::cmp$"):
        for l in ls[1:]:
            names |= {x for x in l if x in ("name", "response key")}
    for b, line, ls in f.call_args(COND):
        conds.add(tuple("condition only" if "entity" not in l else "type of the entity" for l in ls[1:3]))
    return names, conds


@prop("P34", "Comparison of two analyses of the compiler's MIR: what the representation of an entity is built from (value dependence, lookups, type condition tests) must be covered by the hash that decides "
             "which entities share a representation; word comparison and element coverage of that hash.")
def p34(c):
    pr = c.find(r"projection::request::project_requires$")[0]
    th = [b for b in c.p.bodies.values() if b.kind == "fn" and re.search(r"response::value::Value(::)?<.*>::to_hash$", b.id)]
    if len(th) != 1:
        raise Anchor("no entity hash")
    th = th[0]
    at = "%s:%d" % (th.file, th.line)
    src = dict(fields=[("name", r"FieldSelection\.name$"), ("condition", r"InlineFragmentSelection\.type_condition$"), ("selected", r"FieldSelection\.selections$|InlineFragmentSelection\.selections$")],
               calls=[("response key", r"FieldSelection::(selection_identifier|alias_or_name|response_key)$"), ("text", r"Value(::)?(<.*>)?::as_str$"), ("found", SEARCH), ("condition holds", COND)])
    ent = lambda b: [(i, "entity") for i in range(1, b.argc + 1) if re.search(VALUE, tystr(b.local_ty(i)))][:1]
    fp, fh = run(c, pr, args=ent(pr), **src), run(c, th, args=ent(th), **src)
    pn, pc = lookups(c, fp)
    hn, hc = lookups(c, fh)
    if not pn or not pc:
        raise Anchor("the projection of entities looks nothing up")
    for n in sorted(pn):
        c.ob("lookup|" + n, n in hn, "a field that the projection finds by its %s is found by the hash too" % n, at, {"projection": sorted(pn), "hash": sorted(hn)})
    for k in sorted(pc):
        c.ob("condition|" + " / ".join(k), k in hc, "a type condition under which the projection sends fields is tested by the hash too", at, {"projection": sorted(map(list, pc)), "hash": sorted(map(list, hc))})
    ho = [i for i in fh.insts if re.search(r"Xxh3|Hasher", " ".join(c.p.bodies[i[0]].local_ty(l)["s"] for l in range(1, c.p.bodies[i[0]].argc + 1)))]
    got = set(fh.ret())
    have(c, "hash", "the hash of an entity depends on", got, {"entity": "its values", "text": "its type name"}, at, fh)
    # each condition alone is enough, in both
    def below(e, shape):
        return [b for b in (c.p.bodies[x] for x in sorted(reach(c.p, e.id) | {e.id}) if x in c.p.bodies) if b.kind == "fn" and b.id.rsplit("::", 1)[0] == e.id.rsplit("::", 1)[0] and
                any(re.search(shape, tystr(b.local_ty(i))) for i in range(1, b.argc + 1)) and any("SelectionItem" in tystr(b.local_ty(i)) for i in range(1, b.argc + 1))]
    FIELDS = r"\(&(\S+ )?str, .*Value<.*>\)"
    O, M = below(th, FIELDS), below(pr, FIELDS)
    sites = {}
    for fl in (fp, fh):
        for inst, b, fn, args, dest, line in fl.sites:
            d, r = fnref(fn)
            if d and re.search(COND, d):
                ls = ["condition only" if "entity" not in fl.at(inst, (a.get("c") or a.get("m"))[0]) else "type of the entity" for a in args[1:3]]
                sites[(b.id, tuple((a.get("c") or a.get("m") or (None,))[0] for a in args))] = tuple(ls)

    def alone(k):
        def pred(a, fr):
            return sites.get((fr.b.id, tuple((p or (None,))[0] for p in fr.argplaces))) != k
        return [Assume("ret", COND, ("K", "0"), argpred=pred)]
    IF = c.adt("selection_item::SelectionItem")
    frag = variant(IF["id"], [v[0] for v in IF["variants"]].index("InlineFragment"), ((0, TOP),))
    for k in sorted(pc):
        for n, bs in (("projection", M), ("hash", O)):
            for b in bs:
                if not any(x[0] == b.id or c.p.bodies[x[0]].id.startswith(b.id) for x in sites):
                    continue
                t = [Trans(re.escape(b.id) + "$", {"0": "1"}, site=True)]
                I = c.interp(b, alone(k) + [Assume("type", IF["id"], frag), Assume("ret", COND, ("K", "1"), argpred=lambda a, fr: sites.get((fr.b.id, tuple((p or (None,))[0] for p in fr.argplaces))) == k)], [], trans=t, fix=True)
                c.ob("alone|%s|%s" % (n, " / ".join(k)), t[0].hits > 0, "a type condition that holds in this direction alone is enough for the %s" % n, "%s:%d" % (b.file, b.line), {"nested selections reached": t[0].hits})
    # coverage
    if not O:
        raise Anchor("no hash over the fields of an entity")
    o = O[0]
    c.each("each-selection", "every selected field of an entity is hashed", o, r"slice::Iter<.*SelectionItem", HASH + r"|::hash_\w+$|entity_satisfies_type_condition$", fix=True)
    hw = [b for b in below(th, r"^&(\S+ )?[\w:]*Value<.*>$") if b.id != th.id]
    if len(hw) != 1:
        raise Anchor("no hash of a selected value")
    VA = c.adt("executor::response::value::Value")
    names = [v[0] for v in VA["variants"]]
    arr = variant(VA["id"], names.index("Array"), ((0, TOP),))
    c.each("each-item", "every item of a list is hashed", hw[0], r"slice::Iter<.*Value<", r"::hash_\w+$|" + HASH, fix=True, assumes=[Assume("type", VA["id"], arr), Assume("ret", r"::is_empty$", ("K", "0"))])
    rec, I = words(c, hw[0], [Assume("type", VA["id"], arr), Assume("ret", r"::is_empty$", ("K", "0"))], 2)
    c.ob("list-length", {w[0] for w in rec["0"]} == {"usize"}, "the number of items of a list is hashed before them", "%s:%d" % (hw[0].file, hw[0].line), {"writes first": sorted(map(str, rec["0"]))})
    # whole values
    H = [b for b in c.p.bodies.values() if re.search(r"^<\S*response::value::Value<.*> as .*Hash>::hash$", b.id)]
    if len(H) != 1:
        raise Anchor("no Hash implementation of response values")
    ws = {}
    for i, v in enumerate(VA["variants"]):
        rec, I = words(c, H[0], [Assume("type", VA["id"], variant(VA["id"], i, ((0, TOP),)))], 2)
        ws[v[0]] = ({k: {("tag " + v[0], v[0]) if "Discriminant" in w[0] else w for w in ww} for k, ww in rec.items()}, I.final)
    bad = []
    for i, a in enumerate(names):
        for z in names[i + 1:]:
            if not apart(ws[a], ws[z], 2, False) and not any(w[0].startswith("tag ") for w in ws[a][0]["0"]):
                bad.append((a, z))
    for a, z in bad:
        c.ob("kinds|%s-%s" % (a, z), False, "values of different kinds never have the same hash input", "%s:%d" % (H[0].file, H[0].line), {k: {p: sorted(map(str, s)) for p, s in ws[k][0].items()} for k in (a, z)})
    c.ob("kinds", True, "pairs of kinds of response values compared", "%s:%d" % (H[0].file, H[0].line), {"pairs": len(names) * (len(names) - 1) // 2, "indistinct": len(bad)})
    pay = {}
    for i, v in enumerate(VA["variants"]):
        if v[1]:
            pay[v[0]] = r"Value(<.*>)?::%s\.0$" % v[0]
    f = run(c, H[0], fields=list(pay.items()))
    have(c, "payload", "the hash of a value depends on the content of", f.at(f.root, 2), {k: k for k in pay}, "%s:%d" % (H[0].file, H[0].line), f)
    # hash and representation are made of the same thing
    users = {}
    ix = c.p.index()
    for (d, r), ss in ix["calls"].items():
        for pat, n in ((re.escape(th.id) + "$", "hash"), (re.escape(pr.id) + "$", "projection")):
            if re.search(pat, r or "") or re.search(pat, d or ""):
                for s in ss:
                    b = c.p.bodies[s[0]]
                    if not b.is_test() and b.id != pr.id and not b.id.startswith(pr.id.rsplit("::", 1)[0]) and b.id != th.id:
                        users.setdefault(b.id, set()).add(n)
    n = 0
    for bid, kinds in sorted(users.items()):
        root = c.p.root_of(c.p.bodies[bid])
        if "projection" not in kinds:
            continue
        n += 1
        f = run(c, root, fields=[("requires", r"(FetchNode|EntityBatchAlias)\w*\.requires$")], inside=lambda t: c.p.root_of(c.p.bodies[t]).id == root.id)
        hs = [ls[1] for b, _, ls in f.call_args(re.escape(th.id) + "$") if b.id == bid]
        ps = [ls[1] for b, _, ls in f.call_args(re.escape(pr.id) + "$") if b.id == bid]
        c.ob("same|" + shorten(root.id), bool(hs) and all("requires" in x for x in hs) and all("requires" in x for x in ps), "the hash of an entity covers the selections that are sent for it", "%s:%d" % (root.file, root.line),
             {"hash over": [sorted(x) for x in hs], "sent": [sorted(x) for x in ps]})
    if n < 1:
        raise Anchor("nothing projects entities")


@prop("P24", "Value dependence and branch feasibility in the compiler's MIR: the identity under which connections to subgraphs are pooled covers subgraph, endpoint and client fingerprint, every access to "
             "the pool uses it, and nothing without a fingerprint, with reuse switched off, or closed is ever shared.")
def p24(c):
    ID = r"WebSocketConnectionId::new$"
    n = c.find(ID)[0]
    a = c.adt("WebSocketConnectionId")
    parts = [f[0] for f in a["variants"][0][1]]
    at = "%s:%d" % (n.file, n.line)
    what = {}
    for i in range(1, n.argc + 1):
        t = tystr(n.local_ty(i))
        what[i] = "the endpoint" if t.endswith("Uri") else "the client's fingerprint" if "Fingerprint" in t else "the subgraph"
    f = run(c, n, args=list(what.items()))
    have(c, "identity", "the identity of a pooled connection depends on", f.ret(), {x: x for x in what.values()}, at, f)
    for tr, m in (("PartialEq", "eq"), ("Hash", "hash")):
        b = [x for x in c.p.bodies.values() if re.search(r"<\S*WebSocketConnectionId as .*%s.*>::%s$" % (tr, m), x.id)]
        if len(b) != 1:
            raise Anchor("no %s of the identity of pooled connections" % tr)
        f = run(c, b[0], fields=[(x, r"WebSocketConnectionId\.%s$" % x) for x in parts])
        got = f.ret() if m == "eq" else f.at(f.root, 2)
        if m == "eq":
            # a comparison of every field decides: E1 below
            pass
            got = {x for x in parts if f.hits[x]}
        have(c, m, "two pooled connections are the same only if they agree on", got, {x: x for x in parts}, "%s:%d" % (b[0].file, b[0].line), f)
        if m == "eq":
            c.unreachable("eq-false", "identities that differ in any part are different", b[0], [Assume("ret", r"cmp::PartialEq(<.*>)?(>)?::eq$", ("K", "0"))], [], control=False, need_hits=True,
                          ret_bad=lambda v: v != ("K", "0"))
    # every use of the pool
    POOL = r"WebSocketPool::(get_initialized|get_or_initialize)$"
    users = set()
    for (d, r), ss in c.p.index()["calls"].items():
        if re.search(POOL, r or d or ""):
            users |= {s[0] for s in ss if not c.p.bodies[s[0]].is_test()}
    if not users:
        raise Anchor("nothing uses the connection pool")
    src = [("the client's fingerprint", r"SubgraphExecutionRequest(<.*>)?\.connection_fingerprint$"), ("the subgraph", r"WsSubgraphExecutor\.subgraph_name$"), ("the endpoint", r"WsSubgraphExecutor\.endpoint$"),
           ("the headers", r"SubgraphExecutionRequest(<.*>)?\.headers$")]
    for u in sorted(users):
        root = c.p.root_of(c.p.bodies[u])
        args = [(i, "the subgraph") for i in range(1, root.argc + 1) if (root.local_name(i) or "").startswith("subgraph")]
        f = run(c, root, fields=src, args=args, calls=[("the endpoint", r"::endpoint$")], inside=lambda t: c.p.root_of(c.p.bodies[t]).id == root.id or re.search(ID, t) is not None)
        for b, line, ls in f.call_args(POOL):
            have(c, "use|" + shorten(root.id), "the connection that is looked up belongs to", ls[1], {x: x for x in what.values()}, "%s:%s" % (b.file, line), f)
            if len(ls) > 2:
                have(c, "open|" + shorten(root.id), "the connection that is opened for it uses", ls[2], {"the endpoint": "its endpoint", "the headers": "the headers of the request"}, "%s:%s" % (b.file, line), f)
        E = [x for x in c.p.bodies.values() if x.id == root.id][0]
        nofp = Assume("field", "SubgraphExecutionRequest.connection_fingerprint", NONE)
        c.unreachable("no-fingerprint|" + shorten(root.id), "a request without a fingerprint uses no shared connection", E, [nofp], [Sink("shared", POOL)])
        off = [Assume("field", "WsSubgraphExecutor.reuse_connections", ("K", "0")), Assume("ret", r"::websocket_reuse_connections$", ("K", "0"))]
        c.unreachable("reuse-off|" + shorten(root.id), "with connection reuse switched off no connection is shared or looked up", E, group("off", *off), [Sink("shared", POOL)])
    # closed connections
    closed = Assume("ret", r"mpsc::(bounded::)?Sender(::)?<.*>::is_closed$", ("K", "1"))
    g = c.find(r"WebSocketPool::get_initialized$")[0]
    c.unreachable("closed|get_initialized", "a closed connection is never handed out", g, [closed], [], control=False, ret_bad=lambda v: v != NONE)
    # removal
    preds = [b for b in c.p.bodies.values() if not b.is_test() and b.kind in ("closure", "fn") and any(re.search(r"^&(\S+ )?\S*websocket_pool::PoolEntry$", tystr(b.local_ty(i))) for i in range(1, b.argc + 1)) and tystr(b.local_ty(0)) == "bool"]
    if len(preds) < 2:
        raise Anchor("entries are removed from the pool without a condition")
    for b in preds:
        c.unreachable("own|" + shorten(b.id), "nothing removes the entry of another connection attempt from the pool", b, [Assume("ret", r"::same_channel$|Arc(::)?<.*>::ptr_eq$", ("K", "0"))], [], control=False,
                      ret_bad=lambda v: v != ("K", "0"))
    RM = r"DashMap(::)?<.*>::(remove|retain|clear|remove_if_mut|alter|alter_all)$|OccupiedEntry(::)?<.*>::remove(_entry)?$"
    bad = []
    for b in c.p.bodies.values():
        if "websocket_pool" in b.id and not b.is_test():
            for _, fn, *rest in b.calls():
                d, r = fnref(fn)
                if d and re.search(RM, d):
                    bad.append("%s:%s" % (b.file, rest[-1]))
    c.ob("unconditional", not bad, "nothing removes entries from the pool without checking whose they are", bad[0] if bad else "", {"sites": bad})
    pub = [b for b in c.p.bodies.values() if b.kind == "fn" and re.search(r"websocket_pool::\S*::publish$", b.id)]
    if len(pub) != 1:
        raise Anchor("no publication of an initialized connection")
    c.unreachable("late", "a connection attempt that was replaced publishes nothing", pub[0], [Assume("ret", r"Arc(::)?<.*>::ptr_eq$", ("K", "0"))], [Sink("published", adt=r"PoolEntry::Initialized$")])
    dr = [b for b in c.p.bodies.values() if b.kind == "fn" and re.search(r"InitializationCleanup as .*Drop>::drop$", b.id)]
    if len(dr) != 1:
        raise Anchor("no cleanup of abandoned connection attempts")
    t = Trans(r"DashMap(::)?<.*>::remove_if$", {"0": "1"}, site=True)
    c.unreachable("abandoned", "an abandoned connection attempt leaves no entry behind that others wait for", dr[0], [Assume("field", "InitializationCleanup.armed", ("K", "1"))], [], control=False, trans=[t],
                  exit_bad=lambda v, st: st == "0")
    init = c.find(r"websocket_pool::initialize_connection$")[0]
    G = [b for b in c.p.bodies.values() if "::get_or_initialize::{closure#" in b.id and any(re.search(re.escape(init.id) + "$", (fnref(fn)[1] or "")) for _, fn, *_ in b.calls())]
    if len(G) != 1:
        raise Anchor("no task that opens connections")
    t = Trans(r"oneshot::Sender(::)?<.*>::send$|websocket_pool::notify_\w+$", {"0": "1"}, site=True)
    c.unreachable("failed", "everyone who waits for a connection that could not be opened gets the error", G[0], [Assume("ret", r"websocket_pool::initialize_connection$", Err())], [], control=False, trans=[t],
                  exit_bad=lambda v, st: st == "0")
