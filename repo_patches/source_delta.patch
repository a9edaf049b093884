From d043eafb8419fee8c13461c57f2ea6398712845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:32 +0000
Subject: [PATCH 01/28] fix: validate the operation again after a coprocessor
 replaces it

---
 bin/router/src/pipeline/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 7e3d07d..7f70205 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -339,6 +339,19 @@ pub async fn graphql_request_handler(
                     }
                 };
 
+                // the coprocessor may have replaced the operation with one that was never validated
+                if let Some(response) = validate_operation_with_cache(
+                    &supergraph,
+                    schema_state,
+                    shared_state,
+                    &parser_payload,
+                    &plugin_req_state,
+                )
+                .await?
+                {
+                    return Ok(response);
+                }
+
                 request_context.update(|ctx| {
                     ctx.operation.update(
                         parser_payload.operation_name.clone(),
-- 
2.43.0


From 021bd81a012113b0aa860d5375b4abe40d7a7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:33 +0000
Subject: [PATCH 02/28] fix: include header values that are not valid strings
 in the client request fingerprint

---
 bin/router/src/pipeline/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 7f70205..64ee216 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -941,10 +941,11 @@ pub fn connection_fingerprint(
 ) -> ConnectionFingerprint {
     let mut hasher = Xxh3::new();
 
-    let mut headers: Vec<(&str, &str)> = request_headers
+    // values are compared as bytes: they are not guaranteed to be valid strings
+    let mut headers: Vec<(&str, &[u8])> = request_headers
         .iter()
         .filter(|(name, _)| header_policy.should_include(name.as_str()))
-        .filter_map(|(name, value)| value.to_str().ok().map(|value| (name.as_str(), value)))
+        .map(|(name, value)| (name.as_str(), value.as_bytes()))
         .collect();
     headers.sort_unstable();
 
-- 
2.43.0


From c6ecd46fbe62e9cba8f1c592d502025432fd9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 03/28] fix: hash every header value in the subgraph request
 fingerprint

---
 bin/router/src/executor/executors/dedupe.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/executors/dedupe.rs b/bin/router/src/executor/executors/dedupe.rs
index 84841e4..196046f 100644
--- a/bin/router/src/executor/executors/dedupe.rs
+++ b/bin/router/src/executor/executors/dedupe.rs
@@ -1,5 +1,4 @@
 use ahash::RandomState;
-use std::collections::BTreeMap;
 use std::hash::{Hash, Hasher};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::OnceLock;
@@ -9,13 +8,14 @@ use crate::executor::executors::http::SendRequestOpts;
 
 impl Hash for SendRequestOpts<'_> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        // BTreeMap to ensure case-insensitivity and consistent order for hashing
-        let mut headers = BTreeMap::new();
-        for (header_name, header_value) in self.headers.iter() {
-            if let Ok(value_str) = header_value.to_str() {
-                headers.insert(header_name.as_str(), value_str);
-            }
-        }
+        // Sorted for a consistent order; names are already lower-cased by the HeaderMap.
+        // Every value counts, including repeated names and values that are not valid strings.
+        let mut headers: Vec<(&str, &[u8])> = self
+            .headers
+            .iter()
+            .map(|(name, value)| (name.as_str(), value.as_bytes()))
+            .collect();
+        headers.sort_unstable();
 
         self.method.hash(state);
         self.endpoint.hash(state);
-- 
2.43.0


From 477e3792dc348ff8a4050afa06f9fc6523dbdeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:41 +0000
Subject: [PATCH 04/28] fix: do not send a complete message after a terminal
 error over WebSocket

---
 bin/router/src/pipeline/websocket_server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index bf72440..df805a9 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -743,7 +743,9 @@ async fn handle_text_frame(
                                               Ok(SubscriptionEvent::Error(errors)) => {
                                                   client_op_guard.set_end_reason(SubscriptionEndReason::Error);
                                                   let _ = sink.send(ServerMessage::error(&id_for_loop, &errors)).await;
-                                                  break;
+                                                  // an error message terminates the operation,
+                                                  // it must not be followed by a complete message
+                                                  return;
                                               }
                                               Err(tokio::sync::broadcast::error::RecvError::Lagged(n)) => {
                                                   // NOTE: not warn to avoid log spam when receiver starts
-- 
2.43.0


From 71bad45484399a29724479149720231cbb88e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:26 +0000
Subject: [PATCH 05/28] fix: key demand control formulas by the override labels
 their plan was built for

---
 bin/router/src/pipeline/demand_control/runtime.rs |  4 ++--
 bin/router/src/pipeline/mod.rs                    | 13 ++++++++++---
 bin/router/src/pipeline/query_plan.rs             |  2 +-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/bin/router/src/pipeline/demand_control/runtime.rs b/bin/router/src/pipeline/demand_control/runtime.rs
index 7d3fdbc..0426f55 100644
--- a/bin/router/src/pipeline/demand_control/runtime.rs
+++ b/bin/router/src/pipeline/demand_control/runtime.rs
@@ -102,13 +102,13 @@ impl DemandControlRuntime {
         query_plan: &'exec QueryPlan,
         operation_for_plan: &'exec OperationDefinition,
         root_type_name: &'exec str,
-        normalized_operation_hash: u64,
+        plan_cache_key: u64,
         operation_identity: GraphQLSpanOperationIdentity<'exec>,
     ) -> Result<DemandControlExecutionContext, PipelineError> {
         let operation_name = operation_identity.name;
         let compiled_plan = self
             .formula_cache
-            .entry(normalized_operation_hash)
+            .entry(plan_cache_key)
             .or_insert_with(async {
                 Arc::new(self.compile_demand_control_plan(
                     query_plan,
diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 64ee216..f0c0f2b 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -67,8 +67,8 @@ use crate::{
         long_lived_client_limit::try_reserve_long_lived_client,
         normalize::{normalize_request_with_cache, FilterOutputExt, GraphQLNormalizationPayload},
         parser::{parse_operation_with_cache, ParseResult},
-        progressive_override::RequestOverrideContext,
-        query_plan::{plan_operation_with_cache, QueryPlanResult},
+        progressive_override::{RequestOverrideContext, StableOverrideContext},
+        query_plan::{calculate_cache_key, plan_operation_with_cache, QueryPlanResult},
         request_extensions::{
             write_graphql_operation_metric_identity, write_graphql_response_metric_status,
         },
@@ -896,7 +896,14 @@ pub async fn execute_pipeline<'exec>(
                 &query_plan_payload,
                 normalize_payload.operation_for_plan.as_ref(),
                 normalize_payload.root_type_name.as_str(),
-                normalize_payload.normalized_operation_hash,
+                // the same operation has a different plan for different override labels
+                calculate_cache_key(
+                    normalize_payload.normalized_operation_hash,
+                    &StableOverrideContext::new(
+                        &supergraph.snapshot.planner.supergraph,
+                        &progressive_override_ctx,
+                    ),
+                ),
                 (&normalize_payload.operation_identity).into(),
             )
             .await
diff --git a/bin/router/src/pipeline/query_plan.rs b/bin/router/src/pipeline/query_plan.rs
index 5cde110..975b6ce 100644
--- a/bin/router/src/pipeline/query_plan.rs
+++ b/bin/router/src/pipeline/query_plan.rs
@@ -181,7 +181,7 @@ pub async fn plan_operation_with_cache(
 }
 
 #[inline]
-fn calculate_cache_key(operation_hash: u64, context: &StableOverrideContext) -> u64 {
+pub(crate) fn calculate_cache_key(operation_hash: u64, context: &StableOverrideContext) -> u64 {
     let mut hasher = Xxh3::new();
     operation_hash.hash(&mut hasher);
     context.hash(&mut hasher);
-- 
2.43.0


From 8f2b1676c0127156da5535ecf873dc50195896cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:43 +0000
Subject: [PATCH 06/28] fix: apply the subgraph cost budget to subscriptions

---
 bin/router/src/executor/execution/plan.rs |  1 +
 bin/router/src/executor/executors/map.rs  | 26 +++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/bin/router/src/executor/execution/plan.rs b/bin/router/src/executor/execution/plan.rs
index b673473..e9a2782 100644
--- a/bin/router/src/executor/execution/plan.rs
+++ b/bin/router/src/executor/execution/plan.rs
@@ -335,6 +335,7 @@ pub async fn execute_query_plan<'exec>(
                 &fetch_node.service_name,
                 subgraph_request,
                 &opts.client_request,
+                opts.demand_control_context.as_deref(),
             )
             .await
             .with_plan_context(LazyPlanContext {
diff --git a/bin/router/src/executor/executors/map.rs b/bin/router/src/executor/executors/map.rs
index 239c0ea..3a0f914 100644
--- a/bin/router/src/executor/executors/map.rs
+++ b/bin/router/src/executor/executors/map.rs
@@ -288,14 +288,12 @@ impl SubgraphExecutorMap {
         self.callback_subscriptions.clone()
     }
 
-    pub async fn execute<'exec>(
+    /// Fails if the subgraph must not be contacted because its estimated cost exceeds its budget.
+    fn check_subgraph_budget(
         &self,
-        subgraph_name: &'exec str,
-        mut execution_request: SubgraphExecutionRequest<'exec>,
-        client_request: &ClientRequestDetails<'exec>,
-        plugin_req_state: Option<&'exec PluginRequestState<'exec>>,
+        subgraph_name: &str,
         demand_control_ctx: Option<&DemandControlExecutionContext>,
-    ) -> Result<SubgraphResponse<'exec>, SubgraphExecutorError> {
+    ) -> Result<(), SubgraphExecutorError> {
         if let Some(demand_control_opts) = demand_control_ctx {
             if let Some(subgraph_max_cost) = demand_control_opts
                 .subgraphs
@@ -331,6 +329,19 @@ impl SubgraphExecutorMap {
             }
         }
 
+        Ok(())
+    }
+
+    pub async fn execute<'exec>(
+        &self,
+        subgraph_name: &'exec str,
+        mut execution_request: SubgraphExecutionRequest<'exec>,
+        client_request: &ClientRequestDetails<'exec>,
+        plugin_req_state: Option<&'exec PluginRequestState<'exec>>,
+        demand_control_ctx: Option<&DemandControlExecutionContext>,
+    ) -> Result<SubgraphResponse<'exec>, SubgraphExecutorError> {
+        self.check_subgraph_budget(subgraph_name, demand_control_ctx)?;
+
         // resolve once because both the normal http executor and any websocket pool lookup must
         // use the same destination, including request-dependent endpoint overrides
         let endpoint_str = self.resolve_endpoint(subgraph_name, client_request)?;
@@ -579,10 +590,13 @@ impl SubgraphExecutorMap {
         subgraph_name: &str,
         execution_request: SubgraphExecutionRequest<'exec>,
         client_request: &ClientRequestDetails<'exec>,
+        demand_control_ctx: Option<&DemandControlExecutionContext>,
     ) -> Result<
         BoxStream<'static, Result<SubgraphResponse<'static>, SubgraphExecutorError>>,
         SubgraphExecutorError,
     > {
+        self.check_subgraph_budget(subgraph_name, demand_control_ctx)?;
+
         let endpoint_str = self.resolve_endpoint(subgraph_name, client_request)?;
         let executor = self.get_or_create_subscription_executor(subgraph_name, &endpoint_str)?;
         let timeout = self.resolve_subgraph_timeout(subgraph_name, client_request)?;
-- 
2.43.0


From d1032cbb2b77df481a72c3d7117511373bdc4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 07/28] fix: hash different literal values and selections
 differently

---
 bin/router/src/query_planner/ast/hash.rs | 41 +++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/query_planner/ast/hash.rs b/bin/router/src/query_planner/ast/hash.rs
index 3af0921..850a96e 100644
--- a/bin/router/src/query_planner/ast/hash.rs
+++ b/bin/router/src/query_planner/ast/hash.rs
@@ -220,6 +220,9 @@ impl ASTHash for &FieldSelection {
 impl ASTHash for &InlineFragmentSelection {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
         self.type_condition.hash(hasher);
+        // The end of the selection set is not marked by anything that follows,
+        // so without the length `... on T { a } b` would be the same as `... on T { a b }`
+        self.selections.items.len().hash(hasher);
         self.selections.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
         if let Some(var_name) = self.include_if.as_ref() {
             "@include".hash(hasher);
@@ -307,21 +310,26 @@ impl ASTHash for TypeNode {
     }
 }
 
+// Different values must never write the same bytes: the kinds that are not told apart by their
+// payload start with a tag, and everything of variable length is preceded by its length.
 impl ASTHash for Value {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
         match self {
             Value::List(values) => {
+                b'['.hash(hasher);
+                values.len().hash(hasher);
                 for value in values {
-                    value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
+                    hash_nested_value::<_, ORDER_INDEPENDENT>(value, hasher);
                 }
             }
             Value::Object(map) => {
                 for (name, value) in map {
                     name.hash(hasher);
-                    value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
+                    hash_nested_value::<_, ORDER_INDEPENDENT>(value, hasher);
                 }
             }
             Value::Null => {
+                b'n'.hash(hasher);
                 "null".hash(hasher);
             }
             Value::Int(value) => value.hash(hasher),
@@ -330,14 +338,39 @@ impl ASTHash for Value {
                     panic!("Attempted to hash a NaN value");
                 }
 
+                b'f'.hash(hasher);
                 value.to_bits().hash(hasher);
             }
             Value::Enum(value) => value.hash(hasher),
             Value::Boolean(value) => value.hash(hasher),
-            Value::String(value) => value.hash(hasher),
-            Value::Variable(value) => value.hash(hasher),
+            Value::String(value) => {
+                b'"'.hash(hasher);
+                value.hash(hasher);
+            }
+            Value::Variable(value) => {
+                b'$'.hash(hasher);
+                value.hash(hasher);
+            }
+        }
+    }
+}
+
+/// Inside of a list or an object a value is followed by other values, so that its kind
+/// and its end have to be known: `{ a: { b: 1 }, c: 2 }` is not `{ a: { b: 1, c: 2 } }`
+fn hash_nested_value<H: Hasher, const ORDER_INDEPENDENT: bool>(value: &Value, hasher: &mut H) {
+    match value {
+        // the only kind without a tag
+        Value::String(value) => return value.hash(hasher),
+        Value::Object(map) => {
+            b'{'.hash(hasher);
+            map.len().hash(hasher);
         }
+        Value::Int(_) => b'i'.hash(hasher),
+        Value::Enum(_) => b'e'.hash(hasher),
+        Value::Boolean(_) => b'b'.hash(hasher),
+        Value::List(_) | Value::Null | Value::Float(_) | Value::Variable(_) => {}
     }
+    value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1415cb7037f70b493551b9b8893b40136eaef4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 08/28] fix: hash everything that an entity representation is
 built from

---
 bin/router/src/executor/response/value.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/response/value.rs b/bin/router/src/executor/response/value.rs
index a8f42aa..1f345a7 100644
--- a/bin/router/src/executor/response/value.rs
+++ b/bin/router/src/executor/response/value.rs
@@ -95,6 +95,7 @@ impl<'a> Value<'a> {
                 Value::hash_object_with_requires(state, obj, selection_items, possible_types);
             }
             Value::Array(arr) => {
+                arr.len().hash(state);
                 for item in arr {
                     item.hash_with_requires(state, selection_items, possible_types);
                 }
@@ -111,11 +112,23 @@ impl<'a> Value<'a> {
         selection_items: &[SelectionItem],
         possible_types: &PossibleTypes,
     ) {
+        // the representation carries the type name even if it is not selected
+        obj.binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| k)
+            .ok()
+            .and_then(|idx| obj[idx].1.as_str())
+            .hash(state);
+
         for item in selection_items {
             match item {
                 SelectionItem::Field(field_selection) => {
-                    let field_name = &field_selection.name;
-                    if let Ok(idx) = obj.binary_search_by_key(&field_name.as_str(), |(k, _)| k) {
+                    let field_name = field_selection.name.as_str();
+                    let response_key = field_selection.selection_identifier();
+                    // the same lookup as in `project_requires`
+                    let found = obj
+                        .binary_search_by_key(&field_name, |(k, _)| k)
+                        .or_else(|_| obj.binary_search_by_key(&response_key, |(k, _)| k));
+                    found.is_ok().hash(state);
+                    if let Ok(idx) = found {
                         let (key, value) = &obj[idx];
                         key.hash(state);
                         value.hash_with_requires(
@@ -133,7 +146,10 @@ impl<'a> Value<'a> {
                         .and_then(|idx| obj[idx].1.as_str())
                         .unwrap_or(type_condition);
 
-                    if possible_types.entity_satisfies_type_condition(type_name, type_condition) {
+                    // the same condition as in `project_requires`: what it sends has to be hashed
+                    if possible_types.entity_satisfies_type_condition(type_name, type_condition)
+                        || possible_types.entity_satisfies_type_condition(type_condition, type_name)
+                    {
                         Value::hash_object_with_requires(
                             state,
                             obj,
-- 
2.43.0


From 536b6fd57f60181d79af15d3917bf87415ea0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 09/28] fix: do not share validation results between a document
 and its replacement

---
 bin/router/src/pipeline/validation/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/router/src/pipeline/validation/mod.rs b/bin/router/src/pipeline/validation/mod.rs
index bc6b30d..8c59494 100644
--- a/bin/router/src/pipeline/validation/mod.rs
+++ b/bin/router/src/pipeline/validation/mod.rs
@@ -83,6 +83,10 @@ pub async fn validate_operation_with_cache(
             validation_schema.hash.hash(&mut hasher);
             validation_plan.hash.hash(&mut hasher);
             parser_payload.cache_key.hash(&mut hasher);
+            if !Arc::ptr_eq(&validation_operation, &parser_payload.parsed_operation) {
+                // a plugin replaced the document, so the result is not the one of the parsed document
+                validation_operation.to_string().hash(&mut hasher);
+            }
             hasher.finish()
         };
 
-- 
2.43.0


From 26440b98afb94c49f489e3581aa916b66bb39f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 10/28] fix: do not share cached operations with requests whose
 document was replaced

---
 bin/router/src/pipeline/normalize.rs |  2 +-
 bin/router/src/pipeline/parser.rs    | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/pipeline/normalize.rs b/bin/router/src/pipeline/normalize.rs
index 62665ad..b438bff 100644
--- a/bin/router/src/pipeline/normalize.rs
+++ b/bin/router/src/pipeline/normalize.rs
@@ -148,7 +148,7 @@ pub async fn normalize_request_with_cache(
         let cache_key = match &graphql_params.operation_name {
             Some(operation_name) => {
                 let mut hasher = Xxh3::new();
-                graphql_params.query.hash(&mut hasher);
+                parser_payload.cache_key.hash(&mut hasher);
                 operation_name.hash(&mut hasher);
                 hasher.finish()
             }
diff --git a/bin/router/src/pipeline/parser.rs b/bin/router/src/pipeline/parser.rs
index 09a599d..ee11120 100644
--- a/bin/router/src/pipeline/parser.rs
+++ b/bin/router/src/pipeline/parser.rs
@@ -130,11 +130,12 @@ pub async fn parse_operation_with_cache(
 
         let metrics = &app_state.telemetry_context.metrics;
         let parse_cache_capture = metrics.cache.parse.capture_request();
-        let cache_key = {
+        let mut cache_key = {
             let mut hasher = Xxh3::new();
             graphql_params.query.hash(&mut hasher);
             hasher.finish()
         };
+        let cache_key_string = cache_key.to_string();
 
         let mut cache_hint = CacheHint::Hit;
 
@@ -209,7 +210,7 @@ pub async fn parse_operation_with_cache(
 
         if !on_end_callbacks.is_empty() {
             let mut end_payload = OnGraphQLParseEndHookPayload {
-                document: parsed_operation,
+                document: parsed_operation.clone(),
                 cache_hint,
                 request_context: plugin_req_state
                     .as_ref()
@@ -230,12 +231,18 @@ pub async fn parse_operation_with_cache(
                     }
                 }
             }
+            if !Arc::ptr_eq(&parsed_operation, &end_payload.document) {
+                // a plugin replaced the document, so the later stages must not share
+                // what they cache with requests that run the original one
+                let mut hasher = Xxh3::new();
+                cache_key.hash(&mut hasher);
+                end_payload.document.to_string().hash(&mut hasher);
+                cache_key = hasher.finish();
+            }
             // Give the ownership back to variables
             parsed_operation = end_payload.document;
         }
 
-        let cache_key_string = cache_key.to_string();
-
         let (operation_type, operation_name) =
             match parsed_operation
                 .definitions
-- 
2.43.0


From 3f9316d0335d85d76dcade3e6854856b29f62458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 11/28] fix: hash entity values of different kinds differently

---
 bin/router/src/executor/response/value.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/response/value.rs b/bin/router/src/executor/response/value.rs
index 1f345a7..f1b50be 100644
--- a/bin/router/src/executor/response/value.rs
+++ b/bin/router/src/executor/response/value.rs
@@ -36,8 +36,10 @@ impl<'a> AsRef<Value<'a>> for Value<'a> {
 
 impl Hash for Value<'_> {
     fn hash<H: Hasher>(&self, state: &mut H) {
+        // values of different kinds are never equal, even if their payloads consist of the same bytes
+        std::mem::discriminant(self).hash(state);
         match self {
-            Value::Null => 0.hash(state),
+            Value::Null => {}
             Value::F64(f) => f.to_bits().hash(state),
             Value::I64(i) => i.hash(state),
             Value::U64(u) => u.hash(state),
-- 
2.43.0


From 2ba0723b55192e72a5d0c8061d365baffefc6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 12/28] fix: remember a supergraph etag only after its content
 arrived

---
 .../src/supergraph_fetcher/async_fetcher.rs                 | 6 ++++--
 lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
index 0c39fd4..d88b0ec 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
@@ -78,12 +78,14 @@ impl SupergraphFetcher<SupergraphFetcherAsyncState> {
                 return Ok(None);
             }
 
-            let etag = last_resp.headers().get("etag");
-            self.update_latest_etag(etag).await;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .await
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // remember the etag only once its content was received, otherwise the next poll is
+            // answered with 304 and the content that failed to arrive is never fetched again
+            self.update_latest_etag(etag.as_ref()).await;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
index 57a572c..9d21499 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
@@ -121,10 +121,13 @@ impl SupergraphFetcher<SupergraphFetcherSyncState> {
                 return Ok(None);
             }
 
-            self.update_latest_etag(last_resp.headers().get("etag"))?;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // remember the etag only once its content was received, otherwise the next poll is
+            // answered with 304 and the content that failed to arrive is never fetched again
+            self.update_latest_etag(etag.as_ref())?;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
-- 
2.43.0


From 601c17c4db657aa6d66a738b63313158ab99ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 13/28] fix: reload the supergraph file when its modification
 time goes back

---
 bin/router/src/supergraph/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/supergraph/file.rs b/bin/router/src/supergraph/file.rs
index 0cd78ec..6f3ffe2 100644
--- a/bin/router/src/supergraph/file.rs
+++ b/bin/router/src/supergraph/file.rs
@@ -28,7 +28,8 @@ impl SupergraphFileLoader {
         let current_time = file_metadata.modified()?;
         let mut modified_time = self.modified_time.write().await;
 
-        if modified_time.is_none() || current_time > modified_time.unwrap() {
+        // any other modification time is a change, e.g. rolling back to an older file keeps its mtime
+        if *modified_time != Some(current_time) {
             let content = fs::read_to_string(&self.file_path.absolute).await?;
             *modified_time = Some(current_time);
 
-- 
2.43.0


From d86e1b2c65e5b1e5a09672c21d6998adfab5ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:21 +0000
Subject: [PATCH 14/28] fix: keep a reused WebSocket subscription id registered
 when the earlier subscription ends

---
 bin/router/src/pipeline/websocket_server.rs | 24 +++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index df805a9..8e5ed70 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -213,11 +213,22 @@ async fn ws_service(
 struct SubscriptionGuard {
     state: WsStateRef,
     id: String,
+    cancel_tx: mpsc::WeakSender<()>,
 }
 
 impl Drop for SubscriptionGuard {
     fn drop(&mut self) {
-        self.state.borrow_mut().subscriptions.remove(&self.id);
+        // the client may have completed this subscription and reused its id since,
+        // the entry of the newer subscription must stay
+        let mut state = self.state.borrow_mut();
+        let is_own_entry = match (self.cancel_tx.upgrade(), state.subscriptions.get(&self.id)) {
+            (Some(own), Some(current)) => own.same_channel(current),
+            _ => false,
+        };
+        if !is_own_entry {
+            return;
+        }
+        state.subscriptions.remove(&self.id);
         trace!(target: targets::WEBSOCKET_SERVER, id = %self.id, "Subscription removed from active subscriptions");
     }
 }
@@ -702,16 +713,17 @@ async fn handle_text_frame(
                       SharedRouterResponse::Stream(response) => {
                           let (cancel_tx, mut cancel_rx) = mpsc::channel::<()>(1);
 
-                          state
-                              .borrow_mut()
-                              .subscriptions
-                              .insert(id.clone(), cancel_tx);
-
                           let guard = SubscriptionGuard {
                               state: state.clone(),
                               id: id.clone(),
+                              cancel_tx: cancel_tx.downgrade(),
                           };
 
+                          state
+                              .borrow_mut()
+                              .subscriptions
+                              .insert(id.clone(), cancel_tx);
+
                           let mut receiver = response
                               .receiver
                               .unwrap_or_else(|| response.body.subscribe());
-- 
2.43.0


From 7b072d6c347aacfeb18ef6b7d48fdcd21bf056b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 15/28] fix: respect no-store, no-cache and private in a
 cache-control header that has an unrecognized directive

A subgraph header such as 'private, s-maxage=0' was discarded as a whole, so the
client's response could be cached publicly. The header is still discarded
when nothing in it forbids caching, but then its subgraph did not assert public.
---
 .../src/executor/headers/cache_control.rs     | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/bin/router/src/executor/headers/cache_control.rs b/bin/router/src/executor/headers/cache_control.rs
index 547d31c..ac0aa1a 100644
--- a/bin/router/src/executor/headers/cache_control.rs
+++ b/bin/router/src/executor/headers/cache_control.rs
@@ -27,6 +27,7 @@ fn parse(header: &str) -> Option<CacheControl> {
     }
 
     let mut p = CacheControl::default();
+    let mut valid = true;
 
     for part in trimmed.split(',') {
         let part = part.trim();
@@ -43,32 +44,29 @@ fn parse(header: &str) -> Option<CacheControl> {
             "must-revalidate" => p.must_revalidate = true,
             "private" => p.is_private = true,
             "public" => p.is_public = true,
-            "max-age" => {
-                let max_age = match value {
-                    Some(v) => match v.parse::<u32>() {
-                        Ok(n) => Some(n),
-                        Err(_) => {
-                            warn!(target: targets::CACHE_CONTROL, value = v, "cache-control max-age has non-numeric value");
-                            return None;
-                        }
-                    },
-                    None => {
-                        warn!(target: targets::CACHE_CONTROL, "cache-control max-age is missing a value");
-
-                        return None;
+            "max-age" => match value {
+                Some(v) => match v.parse::<u32>() {
+                    Ok(n) => p.max_age = Some(n),
+                    Err(_) => {
+                        warn!(target: targets::CACHE_CONTROL, value = v, "cache-control max-age has non-numeric value");
+                        valid = false;
                     }
-                };
-                p.max_age = max_age;
-            }
+                },
+                None => {
+                    warn!(target: targets::CACHE_CONTROL, "cache-control max-age is missing a value");
+                    valid = false;
+                }
+            },
             v => {
-                // one invalid part is enough to stop parsing and discard the header
                 warn!(target: targets::CACHE_CONTROL, directive = v, "cache-control has unrecognized directive");
-                return None;
+                valid = false;
             }
         }
     }
 
-    Some(p)
+    // one invalid part is enough to discard the header, unless another part forbids caching:
+    // that one must be respected no matter what else the header contains
+    (valid || p.no_store || p.no_cache || p.is_private).then_some(p)
 }
 
 fn merge_into(acc: &mut Option<CacheControl>, incoming: CacheControl) {
@@ -190,18 +188,18 @@ pub fn finalize(
     }
 
     let mut acc: Option<CacheControl> = None;
+    let mut discarded = false;
     for v in values {
-        if let Ok(s) = v.to_str() {
-            if let Some(parsed) = parse(s) {
-                merge_into(&mut acc, parsed);
-            }
+        match v.to_str().ok().and_then(parse) {
+            Some(parsed) => merge_into(&mut acc, parsed),
+            None => discarded = true,
         }
     }
 
     if let Some(mut merged) = acc {
-        // a silent subgraph (no cache-control header at all) did not assert public,
-        // so public cannot hold when not every contacted subgraph sent it
-        if total_responses > values.len() {
+        // a silent subgraph (no cache-control header at all, or one that had to be discarded)
+        // did not assert public, so public cannot hold when not every contacted subgraph sent it
+        if discarded || total_responses > values.len() {
             merged.is_public = false;
         }
         let serialized = to_header_value(&merged);
-- 
2.43.0


From cfed0d85aaa46c92661c76e43e7a44742296a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 16/28] fix: apply the subgraph request timeout to the response
 body

The timeout ended when the response headers arrived, so a subgraph that stalled
while sending the body kept the request waiting forever.
---
 bin/router/src/executor/executors/http.rs | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/executors/http.rs b/bin/router/src/executor/executors/http.rs
index 83351d9..c46661d 100644
--- a/bin/router/src/executor/executors/http.rs
+++ b/bin/router/src/executor/executors/http.rs
@@ -1,3 +1,4 @@
+use std::future::Future;
 use std::sync::Arc;
 use std::time::{Duration, Instant};
 
@@ -241,13 +242,7 @@ async fn send_request<'a>(
         //       should be part of the fingerprint or not.
         telemetry_context.inject_context_into_http_headers(req.headers_mut());
 
-        let res_fut = http_client.request(req);
-
-        let res = if let Some(timeout_duration) = timeout {
-            tokio::time::timeout(timeout_duration, res_fut).await?
-        } else {
-            res_fut.await
-        }?;
+        let res = within(timeout, http_client.request(req)).await??;
 
         http_request_span.record_response(&res);
         http_request_capture.set_status_code(res.status().as_u16());
@@ -262,7 +257,10 @@ async fn send_request<'a>(
 
         let (parts, body) = res.into_parts();
 
-        let body = match body.collect().await {
+        // the body is part of the request, so it has to arrive in what is left of the timeout
+        let remaining =
+            timeout.map(|timeout| timeout.saturating_sub(transport_started_at.elapsed()));
+        let body = match within(remaining, body.collect()).await? {
             Ok(body) => body.to_bytes(),
             Err(err) => {
                 return Err(SubgraphExecutorError::ResponseBodyReadFailure(
@@ -305,6 +303,17 @@ async fn send_request<'a>(
     }
 }
 
+/// Waits for the future, but not longer than the timeout.
+async fn within<F: Future>(
+    timeout: Option<Duration>,
+    future: F,
+) -> Result<F::Output, tokio::time::error::Elapsed> {
+    match timeout {
+        Some(timeout) => tokio::time::timeout(timeout, future).await,
+        None => Ok(future.await),
+    }
+}
+
 pub enum DeduplicationHint {
     Deduped {
         fingerprint: u64,
-- 
2.43.0


From c780595b02d6a750ecdef6cb2db98cc770f96b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 17/28] fix: apply the coprocessor timeout to the response body

---
 bin/router/src/executor/coprocessor/client.rs | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bin/router/src/executor/coprocessor/client.rs b/bin/router/src/executor/coprocessor/client.rs
index 1710ce3..79f2cb7 100644
--- a/bin/router/src/executor/coprocessor/client.rs
+++ b/bin/router/src/executor/coprocessor/client.rs
@@ -221,12 +221,13 @@ impl CoprocessorClient {
                 .inject_context_into_http_headers(request.headers_mut());
 
             let start = std::time::Instant::now();
+            let timed_out = |_| CoprocessorError::RequestTimeout {
+                endpoint: self.endpoint.to_string(),
+                timeout_ms: self.timeout.as_millis(),
+            };
             let response = tokio::time::timeout(self.timeout, self.client.request(request))
                 .await
-                .map_err(|_| CoprocessorError::RequestTimeout {
-                    endpoint: self.endpoint.to_string(),
-                    timeout_ms: self.timeout.as_millis(),
-                });
+                .map_err(timed_out);
 
             let response = match response {
                 Ok(Ok(res)) => res,
@@ -255,10 +256,15 @@ impl CoprocessorClient {
             }
 
             let (parts, response_body) = response.into_parts();
-            let response_body = match response_body.collect().await {
+            // the body is part of the call, so it has to arrive in what is left of the timeout
+            let remaining = self.timeout.saturating_sub(start.elapsed());
+            let response_body = match tokio::time::timeout(remaining, response_body.collect())
+                .await
+                .map_err(timed_out)
+                .and_then(|body| body.map_err(CoprocessorError::ResponseBodyReadFailure))
+            {
                 Ok(body) => body.to_bytes(),
-                Err(err) => {
-                    let error = CoprocessorError::ResponseBodyReadFailure(err);
+                Err(error) => {
                     request_capture.finish_error(error.error_code(), start.elapsed());
                     return Err(error);
                 }
-- 
2.43.0


From 3af78000f2df2462a308e518d86355af0eed168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:07 +0000
Subject: [PATCH 18/28] fix: let a CORS policy turn off credentials that are
 allowed globally

A policy with 'allow_credentials: false' inherited 'allow_credentials: true' from
the global configuration, although only a policy that omits the setting inherits it.
---
 bin/router/src/pipeline/cors.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/pipeline/cors.rs b/bin/router/src/pipeline/cors.rs
index 89c895a..9599b5f 100644
--- a/bin/router/src/pipeline/cors.rs
+++ b/bin/router/src/pipeline/cors.rs
@@ -35,10 +35,10 @@ impl CompiledCORSPolicy {
                 .or_else(|| global.allow_headers_value.clone()),
             expose_headers_value: header_value_from_list(&policy_config.expose_headers)
                 .or_else(|| global.expose_headers_value.clone()),
-            allow_credentials_value: if policy_config.allow_credentials == Some(true) {
-                Some(HeaderValue::from_static("true"))
-            } else {
-                global.allow_credentials_value.clone()
+            allow_credentials_value: match policy_config.allow_credentials {
+                Some(true) => Some(HeaderValue::from_static("true")),
+                Some(false) => None,
+                None => global.allow_credentials_value.clone(),
             },
             max_age_value: if let Some(max_age) = policy_config.max_age {
                 HeaderValue::from_str(&max_age.to_string()).ok()
-- 
2.43.0


From 695684cf3acc75ff8adc73cad317fcba81cc9196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:07 +0000
Subject: [PATCH 19/28] fix: do not grant the opaque origin access when no CORS
 policy matches it

A browser sends 'Origin: null' for a sandboxed document, and the 'null' that
marks an origin as refused is a grant for it.
---
 bin/router/src/pipeline/cors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/pipeline/cors.rs b/bin/router/src/pipeline/cors.rs
index 9599b5f..a877634 100644
--- a/bin/router/src/pipeline/cors.rs
+++ b/bin/router/src/pipeline/cors.rs
@@ -241,7 +241,8 @@ impl Cors {
         let origin_str = current_origin.to_str().ok().unwrap_or_default();
         if let Some(policy) = self.find_policy_for_origin(origin_str) {
             policy.apply_to(req, headers, current_origin);
-        } else {
+        } else if current_origin.as_bytes() != b"null" {
+            // browsers send the origin "null" for sandboxed documents, where this would match
             headers.insert(
                 header::ACCESS_CONTROL_ALLOW_ORIGIN,
                 HeaderValue::from_static("null"),
-- 
2.43.0


From 97c47f8a2fd49fa21f911f6ba4841dbaa69a46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 20/28] fix: let a claim give up only its own entry of the
 in-flight work

When shared work fails, the requests that waited for it try again one after
another. Such a retry removed whatever was registered under its key when it
ended, including an entry that a newer request had claimed meanwhile.
---
 bin/router/src/executor/executors/inflight.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/executor/executors/inflight.rs b/bin/router/src/executor/executors/inflight.rs
index d9fb5ce..61cd4bb 100644
--- a/bin/router/src/executor/executors/inflight.rs
+++ b/bin/router/src/executor/executors/inflight.rs
@@ -75,9 +75,11 @@ where
         }
     }
 
+    /// Removes the entry of the claim, but not one that was claimed anew in the meantime
     #[inline]
-    pub fn remove(&self, key: &K) {
-        self.inner.remove(key);
+    fn remove(&self, key: &K, cell: &InFlightCell<V>) {
+        self.inner
+            .remove_if(key, |_, registered| Arc::ptr_eq(registered, cell));
     }
 }
 
@@ -104,8 +106,9 @@ where
         let value = cell
             .get_or_try_init(|| {
                 did_initialize = true;
+                let cell = cell.clone();
                 async {
-                    let _cleanup = InFlightCleanupGuard { key, map };
+                    let _cleanup = InFlightCleanupGuard { key, map, cell };
                     init().await.map(Arc::new)
                 }
             })
@@ -140,8 +143,9 @@ where
         let value = cell
             .get_or_try_init(|| {
                 did_initialize = true;
+                let cell = cell.clone();
                 async {
-                    let guard = InFlightCleanupGuard { key, map };
+                    let guard = InFlightCleanupGuard { key, map, cell };
                     init(guard).await.map(Arc::new)
                 }
             })
@@ -165,6 +169,7 @@ where
 {
     key: K,
     map: InFlightMap<K, V, S>,
+    cell: InFlightCell<V>,
 }
 
 impl<K, V, S> Drop for InFlightCleanupGuard<K, V, S>
@@ -176,6 +181,6 @@ where
         // It's important to remove the entry from the map before returning the result.
         // This ensures that once the OnceCell is set, no future requests can join it.
         // The cache is for the lifetime of the in-flight request only.
-        self.map.remove(&self.key);
+        self.map.remove(&self.key, &self.cell);
     }
 }
-- 
2.43.0


From 7147c53c1eff54816fce3fa32f811eeb6db29607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 21/28] fix: never rename a propagated header to a hop-by-hop
 header

The destination of a rename was only checked for the default value, so a
client (or subgraph) could set connection, transfer-encoding, content-length
or, towards the client, content-type through a renaming rule.
---
 bin/router/src/executor/headers/request.rs  |  5 +++++
 bin/router/src/executor/headers/response.rs | 17 ++++++-----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/bin/router/src/executor/headers/request.rs b/bin/router/src/executor/headers/request.rs
index f7d4260..fe88f78 100644
--- a/bin/router/src/executor/headers/request.rs
+++ b/bin/router/src/executor/headers/request.rs
@@ -82,6 +82,11 @@ impl ApplyRequestHeader for RequestPropagateNamed {
             }
             if let Some(header_value) = ctx.client_request.headers.get(header_name) {
                 let destination_name = self.rename.as_ref().unwrap_or(header_name);
+
+                if is_denied_header(destination_name) {
+                    continue;
+                }
+
                 output_headers.append(destination_name, header_value.into());
                 matched = true;
             }
diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index d18f141..9d63adc 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -91,7 +91,10 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
         let mut matched = false;
 
         for header_name in &self.names {
-            if is_denied_response_header(header_name) {
+            let destination_name = self.rename.as_ref().unwrap_or(header_name);
+
+            if is_denied_response_header(header_name) || is_denied_response_header(destination_name)
+            {
                 continue;
             }
 
@@ -100,19 +103,11 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
                 // times in a single subgraph response, so we need to propagate them all
                 for header_value in ctx.subgraph_headers.get_all(header_name) {
                     matched = true;
-                    accumulator.write(
-                        self.rename.as_ref().unwrap_or(header_name),
-                        header_value,
-                        self.strategy,
-                    );
+                    accumulator.write(destination_name, header_value, self.strategy);
                 }
             } else if let Some(header_value) = ctx.subgraph_headers.get(header_name) {
                 matched = true;
-                accumulator.write(
-                    self.rename.as_ref().unwrap_or(header_name),
-                    header_value,
-                    self.strategy,
-                );
+                accumulator.write(destination_name, header_value, self.strategy);
             }
         }
 
-- 
2.43.0


From d2dacdbccd36aed1404eadf4106a2509b30c29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:51 +0000
Subject: [PATCH 22/28] fix: reach a wss subgraph by a secure websocket

---
 bin/router/src/executor/executors/map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/executors/map.rs b/bin/router/src/executor/executors/map.rs
index 3a0f914..6bb964f 100644
--- a/bin/router/src/executor/executors/map.rs
+++ b/bin/router/src/executor/executors/map.rs
@@ -788,7 +788,11 @@ impl SubgraphExecutorMap {
         endpoint_uri: &Uri,
     ) -> Result<Uri, SubgraphExecutorError> {
         let ws_scheme = match endpoint_uri.scheme_str() {
-            Some("https") => "wss",
+            Some(scheme)
+                if scheme.eq_ignore_ascii_case("https") || scheme.eq_ignore_ascii_case("wss") =>
+            {
+                "wss"
+            }
             _ => "ws",
         };
         let path_and_query = self
-- 
2.43.0


From a98c1fe523fdf94e69232a262756dec1bc02ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:50 +0000
Subject: [PATCH 23/28] fix: take a configured subscription capacity of zero
 for the smallest one

---
 bin/router/src/executor/executors/map.rs        | 6 ++++--
 bin/router/src/pipeline/active_subscriptions.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/executors/map.rs b/bin/router/src/executor/executors/map.rs
index 6bb964f..798c62e 100644
--- a/bin/router/src/executor/executors/map.rs
+++ b/bin/router/src/executor/executors/map.rs
@@ -882,7 +882,8 @@ impl SubgraphExecutorMap {
                     subgraph_config.dedupe_enabled,
                     self.in_flight_requests.clone(),
                     self.telemetry_context.clone(),
-                    self.config.subscriptions.subgraph_buffer_capacity,
+                    // a channel without any capacity cannot be created
+                    self.config.subscriptions.subgraph_buffer_capacity.max(1),
                 )
                 .to_boxed_arc();
 
@@ -916,7 +917,8 @@ impl SubgraphExecutorMap {
                     // we use the new constructed ws_endpoint_uri here
                     ws_endpoint_uri,
                     ws_tls_config,
-                    self.config.subscriptions.subgraph_buffer_capacity,
+                    // a channel without any capacity cannot be created
+                    self.config.subscriptions.subgraph_buffer_capacity.max(1),
                     self.telemetry_context.clone(),
                     // every websocket subscription executor contributes to the same pool so
                     // normal execution can reuse connections initialized by subscriptions
diff --git a/bin/router/src/pipeline/active_subscriptions.rs b/bin/router/src/pipeline/active_subscriptions.rs
index cf7b813..3cc8938 100644
--- a/bin/router/src/pipeline/active_subscriptions.rs
+++ b/bin/router/src/pipeline/active_subscriptions.rs
@@ -32,7 +32,8 @@ impl ActiveSubscriptions {
     pub fn new(broadcast_capacity: usize) -> Self {
         Self {
             map: Arc::new(DashMap::new()),
-            broadcast_capacity,
+            // a channel without any capacity cannot be created
+            broadcast_capacity: broadcast_capacity.max(1),
         }
     }
 
-- 
2.43.0


From 924faacc46286f8da1350065294b76d1a2608d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:06 +0000
Subject: [PATCH 24/28] fix: keep refreshing the keys when their polling
 interval is zero

---
 bin/router/src/jwt/jwks_manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/jwt/jwks_manager.rs b/bin/router/src/jwt/jwks_manager.rs
index 4622ada..79f8b1c 100644
--- a/bin/router/src/jwt/jwks_manager.rs
+++ b/bin/router/src/jwt/jwks_manager.rs
@@ -3,12 +3,16 @@ use crate::config::jwt_auth::{JwksProviderSourceConfig, JwtAuthConfig};
 use crate::telemetry::logging::targets;
 use sonic_rs::from_str;
 use std::sync::{Arc, RwLock};
+use std::time::Duration;
 use tokio::fs::read_to_string;
 use tokio_util::sync::CancellationToken;
 use tracing::{debug, error, info};
 
 use jsonwebtoken::jwk::JwkSet;
 
+/// The finest interval the timer can tick, it panics on zero
+const MIN_POLLING_INTERVAL: Duration = Duration::from_millis(1);
+
 pub struct JwksManager {
     sources: Vec<Arc<JwksSource>>,
 }
@@ -85,7 +89,7 @@ impl BackgroundTask for JwksSourceTask {
                 source = ?self.0.config,
                 "starting remote jwks polling for source",
             );
-            let mut tokio_interval = tokio::time::interval(*interval);
+            let mut tokio_interval = tokio::time::interval((*interval).max(MIN_POLLING_INTERVAL));
 
             loop {
                 tokio::select! {
-- 
2.43.0


From 896adbba5026be3ec75ad984ba33974ac1c5c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:06 +0000
Subject: [PATCH 25/28] fix: export traces when the configured delay or queue
 size is zero

---
 .../src/telemetry/traces/trace_batch_span_processor.rs       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/telemetry/traces/trace_batch_span_processor.rs b/bin/router/src/telemetry/traces/trace_batch_span_processor.rs
index 943f102..dac3699 100644
--- a/bin/router/src/telemetry/traces/trace_batch_span_processor.rs
+++ b/bin/router/src/telemetry/traces/trace_batch_span_processor.rs
@@ -594,7 +594,7 @@ impl TraceBatchSpanProcessor {
             ));
         }
 
-        let (message_sender, message_receiver) = mpsc::channel(config.max_queue_size as usize);
+        let (message_sender, message_receiver) = mpsc::channel((config.max_queue_size as usize).max(1));
 
         let exporter = Arc::new(RwLock::new(exporter));
         let drop_metrics = Arc::new(DropMetrics::default());
@@ -606,7 +606,8 @@ impl TraceBatchSpanProcessor {
             max_spans_per_trace: config.max_spans_per_trace as usize,
             max_export_timeout: config.max_export_timeout,
             max_export_batch_size: config.max_export_batch_size as usize,
-            scheduled_delay: config.scheduled_delay,
+            // the timer panics on an interval of zero
+            scheduled_delay: config.scheduled_delay.max(Duration::from_millis(1)),
             max_concurrent_exports: config.max_concurrent_exports as usize,
         };
 
-- 
2.43.0


From cb004ba9d01fc043b69366ee7e48968883a483c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:36 +0000
Subject: [PATCH 26/28] fix: keep the null items of a list in an entity's
 representation

---
 bin/router/src/executor/projection/request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/executor/projection/request.rs b/bin/router/src/executor/projection/request.rs
index 6680df3..b814b73 100644
--- a/bin/router/src/executor/projection/request.rs
+++ b/bin/router/src/executor/projection/request.rs
@@ -72,6 +72,13 @@ pub fn project_requires(
 
             let mut first = true;
             for entity_item in entity_array {
+                if entity_item.is_null() {
+                    // A null item is a part of the list, leaving it out would change the list.
+                    write_response_key(first, None, buffer);
+                    buffer.put(NULL);
+                    first = false;
+                    continue;
+                }
                 let projected = project_requires(
                     possible_types,
                     requires_selections,
-- 
2.43.0


From 3b9dd84c120ad6c4399acaad8402e1a60bd3021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 27/28] fix: escape a type name from a subgraph where it is
 written to the response

---
 bin/router/src/executor/projection/response.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index 2478d9d..eb13925 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -382,9 +382,8 @@ fn project_selection_set_with_map<'a>(
                     ProjectionValueSource::ResponseData { .. } => {
                         if plan.is_typename {
                             // If the field is TYPENAME_FIELD, we should set it to the parent type name
-                            buffer.put(QUOTE);
-                            buffer.put(parent_type_name.get()?.as_bytes());
-                            buffer.put(QUOTE);
+                            // It may be the name a subgraph gave, which can be any string
+                            write_and_escape_string(buffer, parent_type_name.get()?);
                             NullPropagationDecision::KeepNullValue
                         } else if let Some(field_val) = field_val {
                             project_selection_set(
-- 
2.43.0


From a60fb3d9b76e4b4f5894b43f5460b260c2e58f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:46 +0000
Subject: [PATCH 28/28] fix: keep the line breaks of a response from breaking
 its SSE event

---
 bin/router/src/pipeline/sse.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/sse.rs b/bin/router/src/pipeline/sse.rs
index 9c9acb7..cfb8c8c 100644
--- a/bin/router/src/pipeline/sse.rs
+++ b/bin/router/src/pipeline/sse.rs
@@ -21,9 +21,15 @@ pub fn create_stream(
                              match std::str::from_utf8(&resp) {
                                 Ok(json_str) => {
                                     let mut sse_event = ntex::util::BytesMut::with_capacity(json_str.len() + 25);
-                                    sse_event.put_slice(b"event: next\ndata: ");
-                                    sse_event.put_slice(json_str.as_bytes());
-                                    sse_event.put_slice(b"\n\n");
+                                    sse_event.put_slice(b"event: next\n");
+                                    // a line break would end the field: the raw JSON of a
+                                    // custom scalar may have some between its tokens
+                                    for line in json_str.split(['\n', '\r']) {
+                                        sse_event.put_slice(b"data: ");
+                                        sse_event.put_slice(line.as_bytes());
+                                        sse_event.put_slice(b"\n");
+                                    }
+                                    sse_event.put_slice(b"\n");
                                     yield Ok(sse_event.freeze());
                                 }
                                 Err(e) => {
-- 
2.43.0

