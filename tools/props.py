"""The property list.  `python3 tools/props.py` writes properties.jsonl and MANIFEST.json from it."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "bin/router/src/"
PROPS, NA = [], {}


def P(id, title, statement, over, text, why, files, mech, tech=None, na=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                  "anchors": {"files": [f if f.startswith(("lib/", "bin/")) else R + f for f in files], "mechanism": [{"name": mech, "where": (files[0] if files[0].startswith(("lib/", "bin/")) else R + files[0])}]}, "_tech": tech, "_na": na})


E1 = "interprocedural abstract interpretation of the compiler's MIR (branch feasibility under an assumption, with a control run)"
TS = E1 + " combined with a typestate automaton"

P("P01", "Only validated operations run",
  "No operation is planned or executed, over HTTP or WebSocket, unless the operation text most recently accepted for that request (from the client, a persisted document or a coprocessor that "
  "replaced it) was validated against the schema the request runs on and produced no validation error. A request whose validation fails, or for which validation produced an early answer, never reaches a subgraph.",
  "inputs histories", "every request, document, transport and coprocessor mutation",
  "Tests send a handful of invalid documents through one path each; a path that skips or reorders validation (a coprocessor rewriting the body, a cached verdict) needs a specific combination.",
  ["pipeline/mod.rs", "pipeline/validation/mod.rs", "pipeline/websocket_server.rs"], "parse -> validate -> normalize -> plan -> execute order in both handlers", TS)
P("P02", "Validation applies every rule and every configured document limit",
  "Validation runs every rule of its standard rule set and every configured limit (depth, directives, aliases, root fields, tokens and the like) on every part of the document. A document that exceeds a configured "
  "limit is always refused, one that is exactly at the limit is not refused for it, and without configuration a limit does not apply.",
  "inputs configurations", "every document and every limit configuration",
  "Each rule has a few sample documents; that every visitor event reaches every rule and that no fragment, operation or limit combination is skipped is not sampled.",
  ["pipeline/validation/mod.rs", "pipeline/validation/max_depth_rule.rs", "lib/graphql-tools/src/validation/validate.rs", "lib/graphql-tools/src/ast/operation_visitor.rs", "lib/graphql-tools/src/parser/tokenizer.rs"],
  "rule registration, visitor dispatch, limit comparisons", E1 + "; element-coverage of the visitor loops")
P("P03", "CSRF and request size limits stop a request before it is processed",
  "With CSRF prevention enabled, a request that a browser could send without preflight and that carries none of the required headers is refused before its operation is looked at. A request whose headers or body exceed "
  "the configured size is refused before its operation is looked at, and no more than the configured number of body bytes is ever buffered.",
  "inputs configurations", "every request and every limit",
  "Tests use one oversized body and one header set; chunk boundaries, missing content-length and content-type variants are unbounded.",
  ["pipeline/csrf_prevention.rs", "pipeline/mod.rs", "http_utils/body.rs"], "checks at the start of the HTTP handler and in the body reader", E1)
P("P04", "GET never runs a mutation",
  "A mutation sent with HTTP GET is refused and reaches neither planning nor a subgraph, however the operation was supplied; a query sent with GET is not refused for its method.",
  "inputs", "every request", "Tests use one GET mutation; persisted documents, operation selection by name and coprocessor changes multiply the paths.",
  ["pipeline/mod.rs", "pipeline/error.rs"], "method check after normalization", E1)
P("P05", "Mutations are never deduplicated",
  "A mutation is always executed by itself: it neither joins nor leads a shared in-flight client request, and none of the subgraph requests made for it joins another in-flight subgraph call. The same holds for the "
  "subgraph requests of a subscription.",
  "inputs schedules", "every operation and every interleaving of concurrent identical requests",
  "Needs two concurrent identical mutations at the right moment; tests cover queries.",
  ["pipeline/mod.rs", "pipeline/websocket_server.rs", "executor/execution/plan.rs", "executor/executors/http.rs"], "operation kind checks before claiming in-flight entries", E1)
P("P06", "Denied introspection is never answered",
  "When the introspection policy evaluates to false, or cannot be evaluated, an operation that selects schema introspection fields is refused before planning on every transport; introspection configured as disabled always denies. "
  "Schema introspection results are produced nowhere else.",
  "inputs configurations", "every operation, policy expression and transport", "Tests deny one query; aliased, nested or mixed introspection selections and the WebSocket path are combinations.",
  ["pipeline/introspection_policy.rs", "pipeline/mod.rs", "pipeline/websocket_server.rs", "executor/introspection/partition.rs"], "policy stage before planning", E1)
P("P07", "Required persisted documents admit nothing else",
  "When persisted documents are enabled and required, an operation without a resolvable document id is refused over HTTP and WebSocket, and operation text sent by the client alongside an id is never what runs. An error while "
  "deciding whether an id is required, or while resolving it, refuses the operation.",
  "inputs configurations fault_sequences", "every request and every storage answer", "Tests cover one manifest; resolver failures and mixed id/query requests per transport are combinations.",
  ["pipeline/execution_request.rs", "pipeline/persisted_documents/mod.rs"], "operation preparation", TS)
P("P08", "Subscriptions respect their switch, transport and client limit",
  "While subscriptions are disabled, or for a client that cannot receive a stream, no subscription is planned or executed. No subscription or WebSocket connection is admitted once the configured number of long-lived clients is reached, "
  "and every admitted one holds a slot.",
  "inputs schedules configurations", "every request, configuration and interleaving of admissions", "Limits are exercised at one value without concurrent admissions.",
  ["pipeline/long_lived_client_limit.rs", "pipeline/mod.rs", "pipeline/websocket_server.rs"], "slot reservation and mode checks", E1)
P("P09", "The WebSocket protocol is enforced per connection and operation",
  "No operation runs before the connection was acknowledged, a second connection init or a reused operation id is refused, and an operation whose token is rejected closes the connection. After the terminal error message of an operation "
  "nothing else is sent for it. A finished subscription frees its id, and never that of a newer one that reuses it.",
  "inputs histories", "every message sequence", "Tests replay a few message sequences out of an unbounded set.",
  ["pipeline/websocket_server.rs"], "message handler and connection state", TS)
P("P10", "Only verified tokens authenticate a request",
  "With JWT authentication required, no operation is planned or executed for a request whose token is missing, malformed, expired, signed with a key or algorithm that is not allowed, or issued by or for someone not configured. A token's "
  "cached verification result is never used after the token expired, on HTTP or WebSocket.",
  "inputs histories configurations", "every token, key set and time", "Tests sign a few tokens; each check must hold on every path including the cached one, for every configured combination.",
  ["pipeline/mod.rs", "jwt/mod.rs", "jwt/context.rs", "pipeline/websocket_server.rs"], "token extraction, verification and gate", E1)
P("P12", "Authorization decides before planning and its verdict is what runs",
  "With authorization directives enabled, every operation is checked before it is planned; in reject mode an operation with any unauthorized part is refused as a whole. In filter mode the operation that is planned and executed is the reduced one, "
  "never the client's original, and an error while checking refuses the operation.",
  "inputs configurations", "every operation, schema and identity", "Tests check sample operations; that no path plans the original operation must hold for all.",
  ["pipeline/authorization/mod.rs", "pipeline/mod.rs"], "authorization stage and payload replacement", E1)
P("P13", "Unauthorized fields are always found and removed",
  "Every selected field and fragment that is not excluded by its conditions is checked: it is kept only if its parent type, its own rule and its output type are all satisfied by the client's identity, and an anonymous client satisfies no rule. "
  "A rejected selection is reported, removed from what is sent to subgraphs and answered with null, and a rejected non-null field nulls its parent.",
  "inputs programs", "every operation shape, schema rule set and identity", "Nesting, aliases, fragments and nullability multiply; tests sample a few shapes.",
  ["executor/operation_filter.rs", "pipeline/authorization/mod.rs", "pipeline/authorization/user_auth_context.rs", "pipeline/nullify/rebuilder.rs"], "selection walk, decision closure, rebuilder", E1 + "; element coverage of the walk")
P("P14", "Demand control keeps over-budget work away from subgraphs",
  "In enforce mode an operation whose estimated cost exceeds the configured maximum never reaches a subgraph, and neither does one whose cost cannot be estimated; in measure mode, or at the maximum, no operation is refused for its cost. A subgraph whose "
  "share exceeds its own budget is not contacted in enforce mode, by fetches or subscriptions.",
  "inputs configurations", "every operation, variable set and budget", "Tests use a few budgets and one transport; subscriptions were not covered at all.",
  ["pipeline/demand_control/runtime.rs", "pipeline/mod.rs", "executor/executors/map.rs"], "evaluation gate and blocked-subgraph check", E1)
P("P15", "Query plans are exposed only where allowed and asked for",
  "A response carries the query plan only if the configuration allows it and the client asked for it; otherwise no request is answered without execution in place of its result.",
  "inputs configurations", "every request and configuration", "One header and one setting are sampled.", ["pipeline/execution.rs"], "exposure switch in plan execution", E1)
P("P17", "Subgraph errors are masked before they leave the router",
  "With error masking enabled, every error that a subgraph fetch contributed to a response has its message replaced, and its extensions reduced as configured, before it is serialised to the client; the failure that ends a subscription is masked in the same way. "
  "Per-subgraph settings take precedence over the default for all.",
  "inputs configurations", "every subgraph response and masking configuration", "Tests mask a few messages; each path on which an error reaches the client must pass the mask.",
  ["executor/execution/error_masking.rs", "executor/execution/plan.rs", "executor/execution_context.rs"], "masking loop before projection; attribution of errors", TS)
P("P18", "A failing or stopping coprocessor stops the request",
  "When a configured coprocessor stage that applies fails, times out, answers with an error status or an unusable payload, or asks to stop, the request does not continue as if it had succeeded: no later stage plans or executes the operation. "
  "A coprocessor's answer to stop is what the client gets.",
  "inputs fault_sequences", "every coprocessor answer and failure at every stage", "Each stage multiplied by each failure; tests inject a few.",
  ["executor/coprocessor/runtime.rs", "executor/coprocessor/stage.rs", "pipeline/mod.rs", "plugins/plugins_service.rs"], "stage runtime and its callers", E1)

E2 = "interprocedural value-dependence (dataflow) analysis of the compiler's MIR, from sources to the key and to what is stored under it"
P("P19", "Clients share a response only for the same request",
  "When in-flight requests are deduplicated, two client operations get the same response only if they run on the same schema, have the same normalized operation, the same variables and extensions (every value, at every depth, of every kind) "
  "and, over HTTP, the same method, path and the same values of every header that the configured header policy includes; over WebSocket, the same connection and the same initial payload. Values of different kinds (\"1\" and 1, null and missing, nested and flat) never count as the same.",
  "inputs schedules", "every pair of concurrent requests", "Tests send pairs that differ in one obvious way; a part left out of the key matters only for the pair that differs in exactly that part.",
  ["shared_state.rs", "pipeline/mod.rs", "pipeline/websocket_server.rs", "pipeline/request_extensions.rs"], "fingerprint of a client request", E2 + "; " + E1)
P("P20", "Subgraph requests share a response only if they are identical",
  "Two concurrent requests to a subgraph share one response only if method, endpoint, every header value and the whole body are the same. The fingerprint covers exactly what is sent: the request that goes out is built from the fingerprinted parts, "
  "and the body carries the operation, every variable, every entity representation, the operation name and the extensions.",
  "inputs schedules", "every pair of concurrent subgraph requests", "A leak between users needs two requests in flight that differ only in an uncovered part, such as a header byte.",
  ["executor/executors/http.rs", "executor/executors/map.rs"], "fingerprint of a subgraph request", E2)
P("P21", "A cached result is reused only for the request it was computed for",
  "Every cache that outlives a request (parsing, validation, normalization, planning, persisted documents, tokens, cost formulas, usage processing) is keyed by everything request-specific from which the stored value is computed: "
  "a request never receives a parsed document, verdict, plan, token or formula computed from another document, schema, operation name, override label or token.",
  "inputs histories", "every history of requests against every cache", "A wrong hit needs two requests in one process that agree on the key and differ in an input that is missing from it.",
  ["pipeline/parser.rs", "pipeline/validation/mod.rs", "pipeline/normalize.rs", "pipeline/query_plan.rs", "cache_state.rs", "schema_state.rs", "lib/hive-console-sdk/src/agent/utils.rs"], "cache keys and cached values", E2)
P("P22", "Different operations have different hash inputs",
  "The hash that identifies a normalized operation (and selects its plan) is fed with every part of the operation that can change its result: every selection, alias, argument, value, type condition, directive, variable definition, type and default. "
  "Two operations that differ in structure or in the kind of a value never feed it the same input.",
  "inputs", "every pair of operations", "A collision needs two operations that differ only in an uncovered part or in how parts are grouped; no sample of operations reaches the pairs.",
  ["query_planner/ast/hash.rs", "query_planner/ast/normalization/mod.rs"], "ASTHash implementations", E2 + "; " + E1)

P("P24", "Pooled subgraph connections are shared only by the same client identity",
  "A WebSocket connection to a subgraph is reused only for requests with the same subgraph, endpoint and client fingerprint; a request without a fingerprint, or with connection reuse switched off, uses no shared connection. "
  "A closed connection is never handed out, a connection attempt that was replaced neither publishes nor removes another's entry, and everyone who waits for an attempt that fails or is abandoned gets an error.",
  "schedules fault_sequences", "every interleaving of connection attempts, failures and requests", "Replacing an attempt while its predecessor is still running needs a specific interleaving.",
  ["executor/executors/websocket_pool.rs", "executor/executors/websocket.rs", "executor/executors/map.rs"], "pool of subgraph WebSocket connections", E2 + "; " + E1)
P("P25", "A supergraph reload is all or nothing and keeps being attempted",
  "A supergraph is published only if it was fetched, parsed, planned on, accepted by every plugin and its runtime built; when any of these fails, the one in use stays and later ones are still applied. Polling survives failures, and "
  "a source that could not be read or fetched completely is fetched again by the next poll instead of being taken for unchanged. The same holds for persisted document manifests.",
  "fault_sequences", "every sequence of successful and failed polls, builds and vetoes, for every source", "Tests inject a few faults at a few stages; a marker remembered too early shows only after a fault at exactly that point.",
  ["schema_state.rs", "supergraph/file.rs", "supergraph/hive.rs", "supergraph/apollo_graphos.rs", "supergraph/storage.rs", "pipeline/persisted_documents/resolve/storage.rs", "pipeline/persisted_documents/resolve/fs.rs"], "reload loop, loaders and their change markers", E1)
P("P26", "A request runs on one supergraph with the runtime built for it",
  "Once selected, the supergraph of a request never changes, whatever is reloaded meanwhile. A supergraph chosen by a plugin is never replaced by the configured one, not even when its runtime cannot be built. The runtime used "
  "was built for exactly the selected supergraph; a runtime of another one is never taken from the cache and a failed one is never kept.",
  "schedules histories", "every interleaving of requests, reloads and plugin choices", "A mismatch needs a reload or another selection between two steps of one request.",
  ["schema_state.rs", "executor/plugins/hooks/on_supergraph_load.rs"], "selection, runtime cache and supergraph identity", E1 + "; " + E2)
P("P27", "Retiring a supergraph ends what runs on it",
  "When the last owner of a supergraph is dropped, every subscription on it sends its clients a closing error, sends no event after noticing, and ends; clients that receive it stop. A WebSocket connection that selected it starts no further "
  "operation, readiness is not reported on it, its cached runtime is removed, and nothing else keeps a configured supergraph alive.",
  "schedules histories", "every interleaving of events, clients and reloads", "Whether a silent subscription notices a reload depends on timing that tests fix.",
  ["pipeline/mod.rs", "pipeline/websocket_server.rs", "shared_state.rs", "schema_state.rs", "executor/plugins/hooks/on_supergraph_load.rs", "pipeline/active_subscriptions.rs"], "retirement token and its observers", TS + "; " + E2)
P("P28", "Only variables that fit their declared types reach execution",
  "Every variable an operation declares is checked against its declared type before anything is planned or executed: null or nothing where the type is non-null, a value of another kind for a built-in scalar, a number the type cannot "
  "represent, a value an enum does not have, and a list or wrapped value with a part that does not fit are refused, and the refusal fails the request. A request whose variables were refused runs no plan and calls no subgraph.",
  "inputs", "every operation, declared type and variable value", "Tests send a few bad values for a few types; which kinds of value a type refuses must hold for every type and nesting.",
  ["pipeline/coerce_variables.rs", "executor/variables/mod.rs", "pipeline/mod.rs"], "variable coercion", E1)
P("P29", "A callback subscription acts only on messages meant for it and always ends",
  "A message to the callback endpoint has an effect only if its id is the one it was sent to, the subscription exists, its verifier matches and the message is well formed. Complete ends the subscription, next delivers or answers that it could not, "
  "and check changes nothing but the time of the last sign of life. What is registered is removed when its stream ends, fails or is dropped, and a subscription without a sign of life within its limit is ended and its reader told.",
  "schedules histories", "every message, order of messages, reader and heartbeat timing", "Early callbacks, slow readers and lost subgraphs need interleavings that tests do not force.",
  ["pipeline/http_callback.rs", "executor/executors/http_callback.rs"], "HTTP callback protocol", TS + "; " + E1)
P("P30", "No request can deadlock on the router's own locks",
  "No mutex, read-write lock, cell or concurrent-map reference is alive while its task waits for something else; none is taken again by the task that already holds it, directly or through any call; and locks that are held together are always taken in the same order.",
  "schedules", "every interleaving of requests, subscriptions, reloads and background tasks", "A deadlock needs two tasks at exact points, or one shard of a map to hold both keys; tests that pass say nothing about it.",
  ["executor/executors/http_callback.rs", "pipeline/http_callback.rs", "pipeline/active_subscriptions.rs", "executor/executors/websocket_pool.rs", "executor/executors/map.rs", "executor/request_context/mod.rs"], "every lock of the router", "dataflow of live lock guards over MIR, call-graph summaries of locks taken, cycle detection in the lock order (vp/rules_locks.py)")
P("P31", "A failing subgraph call is never silent",
  "Every subgraph call that fails (it cannot be sent, times out, ends early, is empty, has an error status, another content type or cannot be read), and every error inside a subgraph's response, adds an error to the list the client's response is written "
  "from; failures of one step do not keep other parallel steps from being started and looked at. A failure of a shared call is a failure for everyone who shares it.",
  "fault_sequences", "every way and combination in which subgraph calls of a plan fail", "Tests fail a few calls in a few ways; a null without an error appears only for a specific kind of step and failure.",
  ["executor/execution/plan.rs", "executor/executors/http.rs", "executor/executors/map.rs", "executor/executors/inflight.rs", "executor/response/subgraph_response.rs", "executor/projection/response.rs"], "execution of plan nodes and the HTTP transport", TS + "; " + E1)
P("P32", "The response's caching header is never more permissive than its sources",
  "With cache control switched on, a response to a mutation or with errors present when execution ends always says that it must not be stored, and so does one with data of a subgraph whose header said no-store, no-cache or private, whatever "
  "else that header or other subgraphs' headers contain. A response is called public only if every header was understood and says so, and no subgraph was silent.",
  "inputs histories", "every set of subgraph headers, in every order of arrival", "A shared cache serving one user's data to another needs a specific mix of headers across subgraphs.",
  ["executor/headers/cache_control.rs", "executor/execution/plan.rs"], "merge of caching headers", TS)
P("P33", "Configured timeouts bound every call to its end",
  "A client request that takes longer than the router's limit is answered with an error, and a query or mutation sent to a subgraph over HTTP or WebSocket, or a call to a coprocessor, fails when its limit passes, whether the connection, "
  "the response or the rest of its body never comes. The limit configured for a subgraph is the one that is applied to it.",
  "fault_sequences", "every point at which the other side can stop answering", "Tests let a subgraph delay its response head; a peer that stalls midway through the body, or never accepts a WebSocket operation, is not tried.",
  ["pipeline/timeout.rs", "executor/executors/http.rs", "executor/executors/websocket.rs", "executor/executors/map.rs", "executor/coprocessor/client.rs"], "timeouts", E1 + ", with futures that never become ready")
P("P34", "Entities share an answer only if their representations are the same",
  "When the representations of entities are deduplicated within a fetch, two entities are treated as one only if everything that would be sent for them is the same: type name, presence, value and kind of every selected field at every depth, length of lists, "
  "and the same fields found by name or by response key, under the same type conditions.",
  "inputs", "every pair of entities and every selection of required fields", "A mix-up needs two entities that differ only in a part that the hash leaves out.",
  ["executor/response/value.rs", "executor/projection/request.rs", "executor/execution/plan.rs"], "entity hash and representation", E2 + "; " + E1)
P("P35", "Shared in-flight work is found by others only while it is under way",
  "Work shared between identical requests is registered before it starts, joined rather than replaced by requests that come while it is under way, and unregistered when it has succeeded, failed or been cancelled, and not earlier. "
  "A registration is only ever given up by the claim that made it.",
  "schedules fault_sequences", "every interleaving of requests that share work, including cancellation", "An entry that outlives a cancelled leader, or is dropped before a failure is seen, needs a request to go away at one particular await.",
  ["executor/executors/inflight.rs", "executor/executors/map.rs"], "in-flight map and its cleanup guard", TS)
P("P36", "Cross-origin access is only granted as configured",
  "A browser origin is granted access only if cross-origin sharing is enabled and either any origin is allowed or a policy names it or has a pattern that matches it; credentials are allowed only by the configuration of the policy that matched. "
  "A preflight request is answered without executing anything, and methods and headers that are configured are never widened to what the request asks for.",
  "inputs configurations", "every origin, request and policy configuration", "Tests cover a few policies; the interplay of global settings, policy overrides and unusual origins is open.",
  ["pipeline/cors.rs", "pipeline/mod.rs", "lib.rs"], "CORS", E1)

P("P37", "Headers cross the router only as the rules say, never those of a connection",
  "No header rule, through a name, pattern, rename, default or expression, puts a header that belongs to the connection (connection, te, transfer-encoding, content-length, host and the like) on a request to a subgraph, or one of these or a content type "
  "on a response to the client; neither does a coprocessor. A request to a subgraph has exactly the headers that the rules for all subgraphs and those for this subgraph made: every rule is applied, and what a rule does not name or match, or excludes, it does not pass on. "
  "Headers that cannot be joined are sent one by one.",
  "inputs configurations", "every request, subgraph response and header configuration", "Tests use one rule with one header each; the combination of renames, defaults, patterns and headers of the connection is open.",
  ["executor/headers/request.rs", "executor/headers/response.rs", "executor/headers/sanitizer.rs", "executor/coprocessor/stage.rs", "executor/execution/plan.rs"], "header rules", E1)
P("P38", "Encrypted connections are as strict as the configuration asks",
  "A connection to a subgraph over https or wss verifies the certificate of the subgraph, against the configured certificates only where some are configured, and presents the configured client certificate, with the subgraph's own settings before those for all subgraphs; "
  "verification is left out only where the configuration says so, which also holds for the connections that fetch supergraphs and persisted documents and report usage; a secure address is never reached without encryption. "
  "With TLS configured the router answers on nothing else, and where a client certificate is asked for no client is served without a valid one.",
  "inputs configurations", "every TLS configuration of the router, of all subgraphs and of one", "Tests use one configuration per feature; merging of settings, subgraphs with other protocols, and broken certificate files are open.",
  ["executor/executors/tls.rs", "executor/executors/map.rs", "executor/executors/websocket.rs", "executor/executors/websocket_client.rs", "tls.rs", "lib.rs", "supergraph/mod.rs"], "TLS clients and server", E1)
P("P39", "Steps of a plan run in its order and only under their conditions",
  "A step of a query plan starts only after the steps it depends on have finished, and no response is made before the plan has been executed. Root mutation fields run one after another in the order of the operation, and no merging of steps changes that. "
  "A conditional step runs only if its variable has the value that the condition asks for, and a step with nothing to fetch calls no subgraph.",
  "inputs schedules", "every plan, every timing of subgraph responses", "Tests run few plans with subgraphs that answer at once; which step overtakes which depends on timing and on the shape of the plan.",
  ["executor/execution/plan.rs", "query_planner/planner/query_plan.rs", "query_planner/planner/fetch/optimize/mod.rs", "query_planner/planner/fetch/optimize/merge_siblings.rs", "query_planner/planner/fetch/optimize/merge_leafs.rs",
   "query_planner/planner/fetch/optimize/turn_mutations_into_sequence.rs"], "order of plan steps", E1)
P("P40", "Buffers of events are bounded, drop when full and work at any configured size",
  "Subscription events wait only in buffers of bounded size: an event that finds its buffer full is dropped without holding up its source and without ending the subscription, and nothing more is read for a consumer that is gone. "
  "No size or interval that the configuration accepts makes the router panic where it is used, also not zero.",
  "inputs schedules", "every configuration, every speed of sources and consumers", "Tests use the default sizes and consumers that keep up; a full buffer or a zero in the configuration is not what they sample.",
  ["executor/executors/subscription_buffer.rs", "pipeline/active_subscriptions.rs", "executor/executors/websocket_pool.rs", "executor/executors/websocket.rs", "executor/executors/http.rs", "executor/executors/map.rs", "jwt/jwks_manager.rs",
   "telemetry/traces/trace_batch_span_processor.rs"], "sizes and intervals, full buffers", E1)
P("P41", "Data cannot break out of the JSON or event it is written into",
  "Text that comes from subgraphs, clients or errors is written to responses and subgraph requests only escaped or serialized, so that no value can end the string, object or event that it belongs to; what is written unescaped is constant, a GraphQL name of the operation or JSON already. "
  "Every character that JSON does not allow in a string is escaped, a number that JSON cannot express is not written as one, and a null item of a list stays in what is sent for an entity.",
  "inputs", "every string, key, number and type name of every subgraph response and request", "Tests use plain strings; a quote in a type name, a line break between the tokens of a custom scalar or a null in a required list is not what they sample.",
  ["executor/json_writer.rs", "executor/projection/response.rs", "executor/projection/request.rs", "executor/executors/http.rs", "executor/execution/plan.rs", "pipeline/sse.rs"], "writers of JSON and events", "backward slice over the compiler's MIR of every text written unescaped, evaluation of the escape tables in the MIR, and branch feasibility of the writers")
P("P11", "A query plan fetches exactly what the operation asks for",
  "For every composed supergraph and valid operation the plan fetches every selected field from a subgraph that can resolve it under the keys, provides, requires and overrides of the supergraph, and nothing that is not needed.",
  "inputs", "every supergraph and operation", "The space of supergraphs and operations is unbounded; fixtures sample it.",
  ["query_planner/planner/mod.rs"], "graph search and fetch graph construction", None,
  na="whether the chosen paths are correct depends on graph contents (which subgraph resolves which field under which key) that are runtime values; no dataflow or effect argument relates the result of the search to the meaning of the supergraph")
P("P16", "A response is what one server holding all data would have answered",
  "The merged and projected response has the fields of the operation, in order and under their response keys, with the values the subgraphs returned for them, and nulls where GraphQL prescribes them.",
  "inputs", "every operation and every set of subgraph responses", "Shapes of responses and operations are unbounded.",
  ["executor/projection/response.rs"], "merge and projection", None,
  na="equality of output and input values at matching positions quantifies over the runtime shapes of two JSON trees and a selection; static analysis here decides which values may flow (P13, P17, P31, P34), not that every value arrives at its place")
P("P23", "The estimated cost of an operation is the documented formula",
  "The cost compared with the budget is the sum over the operation of type, field and argument weights times list sizes as the demand control documentation defines it.",
  "inputs", "every operation and schema with cost directives", "Fixtures pin a few sums.",
  ["pipeline/demand_control/formula.rs"], "cost formula", None,
  na="an arithmetic identity over runtime quantities (list sizes, weights, variables); P14 decides what happens with the estimate, not its value")


def main():
    sys.path.insert(0, os.path.join(ROOT, "vp"))
    import registry
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 vp/build.py", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["_na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
            continue
        assert p["id"] in registry.RULES, p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s" % p["id"], "technique": p["_tech"],
                            "level": "other", "level_note": registry.META[p["id"]]["explain"]})
    missing = set(registry.RULES) - {p["id"] for p in PROPS}
    assert not missing, missing
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x


    design(m)


def design(m):
    """the generated parts of DESIGN.md"""
    import registry
    d = open(os.path.join(ROOT, "DESIGN.md")).read()

    def put(name, text):
        nonlocal d
        a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
        i, j = d.index(a) + len(a), d.index(b)
        d = d[:i] + "\n" + text.rstrip() + "\n" + d[j:]

    out = []
    for p in PROPS:
        if p["_na"]:
            out.append("- **%s %s** - not applicable: %s" % (p["id"], p["title"], p["_na"]))
            continue
        out.append("- **%s %s** - over %s. *Method:* %s. *Decides:* %s *Why not tests:* %s" % (p["id"], p["title"], p["quantifier"]["text"], p["_tech"], registry.META[p["id"]]["explain"], p["why_tests_cant"]))
    put("properties", "\n".join(out))
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    out = ["- %s `%s` %s" % (k["property"], k["fixed"], k["what"]) for k in kf if k.get("fixed")]
    out += ["", "Recorded, not repaired (`KNOWN-FINDING` lines):", ""]
    out += ["- %s `%s` %s. Fails on: %s. *Why recorded:* %s" % (k["property"], k["key"], k["what"].rstrip("."), k.get("failing_input", "see above").rstrip("."), k.get("why_open", "not a small change")) for k in kf if not k.get("fixed")]
    put("findings", "\n".join(out))
    out = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
    sd = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        t = json.load(open(os.path.join(sd, s, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (s, t["needs"], t["what_it_breaks"], t.get("caught_by", t["property"])))
    put("seeds", "\n".join(out))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)


if __name__ == "__main__":
    main()
