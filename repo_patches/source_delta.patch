From 0f1328eb5e9e71328783c6b000c0fb8c14b604ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 01/34] fix: keep the failure mode of tasks that are requeued

---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs             | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 4ea6472..0e8f91a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -35,6 +35,12 @@ impl Task for FailureModeTask {
                     abort: self.abort,
                 }),
             },
+            TaskOutcome::Requeued(tasks) => TaskOutcome::Requeued(
+                tasks
+                    .into_iter()
+                    .map(|task| Box::new(FailureModeTask::new(task, self.abort)) as Box<dyn Task>)
+                    .collect(),
+            ),
             outcome => outcome,
         }
     }
-- 
2.43.0


From d2428feb3b6e72cc8288d773c4d0283a6e3c14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 02/34] fix: apply the failure mode of services called from
 onReply

---
 .../src/kuadrant/pipeline/blueprint.rs                | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5347717..cef3bde 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -81,7 +81,7 @@ impl Action {
                     | ServiceInstance::RateLimit(dynamic_service)
                     | ServiceInstance::RateLimitCheck(dynamic_service)
                     | ServiceInstance::RateLimitReport(dynamic_service) => {
-                        Some(Box::new(DynamicTask::new_with_attributes(
+                        let task = Box::new(DynamicTask::new_with_attributes(
                             ctx,
                             self.id.clone(),
                             Arc::clone(dynamic_service),
@@ -91,7 +91,10 @@ impl Action {
                             self.predicate.clone(),
                             self.dependencies.clone(),
                             self.is_guard,
-                        )))
+                        ));
+                        let abort_on_failure =
+                            service.failure_mode() == configuration::FailureMode::Deny;
+                        Some(Box::new(FailureModeTask::new(task, abort_on_failure)))
                     }
                     ServiceInstance::Tracing(_) => {
                         ctx.set_public_tracker_id(var.clone());
@@ -410,10 +413,6 @@ impl Blueprint {
                         }
 
                         if let Some(mut task) = action.to_core_task(ctx) {
-                            let abort_on_failure =
-                                service.failure_mode() == configuration::FailureMode::Deny;
-                            task = Box::new(FailureModeTask::new(task, abort_on_failure));
-
                             if tracing_enabled {
                                 task = Box::new(TracingDecoratorTask::new(
                                     label.clone(),
-- 
2.43.0


From 58e208e624c464833af6aceb392449123e3cd72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 03/34] fix: lower the barrier of guard calls abandoned after
 termination

---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs               | 4 ++++
 .../src/kuadrant/pipeline/tasks/tracing_decorator.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 0e8f91a..1c515de 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -52,4 +52,8 @@ impl Task for FailureModeTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index 1eb6d18..c8273c1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -85,4 +85,8 @@ impl Task for TracingDecoratorTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
-- 
2.43.0


From 57e44d2099a9e1d256c0c15146c0b70eb88b6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 04/34] fix: a failed task no longer blocks the tasks that
 depend on it

---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2a93e63..3cf0d5a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -132,6 +132,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
@@ -193,6 +194,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Failed to process response for token_id: {}", token_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
-- 
2.43.0


From 927b67ec2f125dc61e01ba0b9fed4ad01bb6e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 05/34] fix: pause the end of the response only while calls are
 outstanding

---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 4 ++++
 crates/wasm-shim/src/filter/kuadrant_filter.rs           | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 3cf0d5a..a581fc1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -215,6 +215,10 @@ impl Pipeline {
     pub fn requires_pause(&self) -> bool {
         self.ctx.barrier.is_tripped()
     }
+
+    pub fn has_deferred(&self) -> bool {
+        !self.deferred_tasks.is_empty()
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 0c7d284..bbb7482 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -206,8 +206,8 @@ impl HttpContext for KuadrantFilter {
             trace!("on_http_response_body: pause");
             Action::Pause
         } else {
-            if self.pipeline.is_some() && end_of_stream {
-                trace!("on_http_response_body: pipeline is some, pause");
+            if self.pipeline.as_ref().is_some_and(|p| p.has_deferred()) && end_of_stream {
+                trace!("on_http_response_body: calls outstanding, pause");
                 self.force_resume = true;
                 Action::Pause
             } else {
-- 
2.43.0


From 3918879ceeb39050dd564cb7d4333b666a1d45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 06/34] fix: a request without a body ends at its headers

---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index bbb7482..cde9c87 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -88,7 +88,7 @@ impl Context for KuadrantFilter {
 }
 
 impl HttpContext for KuadrantFilter {
-    fn on_http_request_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_request_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_headers", self.context_id);
 
         #[cfg(feature = "debug-host-behaviour")]
@@ -97,8 +97,12 @@ impl HttpContext for KuadrantFilter {
         let ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
 
         match self.factory.build(ctx) {
-            Ok(Some(pipeline)) => {
+            Ok(Some(mut pipeline)) => {
                 debug!("#{} pipeline built successfully", self.context_id);
+                if end_of_stream {
+                    // there is no body, on_http_request_body won't be called
+                    pipeline.ctx.request_body.set_buffer_size(0, true);
+                }
                 METRICS.hits().increment();
                 match pipeline.eval() {
                     PipelineState::InProgress(p) => {
-- 
2.43.0


From e0c60fdf49ea6a99d121fb035930b2be89b1cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 07/34] fix: source.remote_address of an IPv6 client

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 2906266..038998f 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -237,8 +237,14 @@ impl ReqRespCtx {
         match self.backend.get_attribute(&"source.address".into()) {
             Ok(Some(host_vec)) => match String::from_utf8(host_vec) {
                 Ok(source_address) => {
-                    let split_address = source_address.split(':').collect::<Vec<_>>();
-                    Ok(Some(split_address[0].as_bytes().to_vec()))
+                    // the port is optional and IPv6 addresses are in brackets
+                    let address = match source_address.strip_prefix('[') {
+                        Some(ipv6) => ipv6.split(']').next(),
+                        None if source_address.matches(':').count() > 1 => None,
+                        None => source_address.split(':').next(),
+                    };
+                    let address = address.unwrap_or(&source_address);
+                    Ok(Some(address.as_bytes().to_vec()))
                 }
                 Err(_) => Err(AttributeError::Parse(
                     "source.address not valid UTF-8".to_string(),
-- 
2.43.0


From 9f3932188677463f23efe221afd49457d13defcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 08/34] fix: read every byte of a body once, whether or not the
 host buffers it

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 18 ++++++++++++++++++
 .../src/kuadrant/pipeline/tasks/store.rs       | 16 +++++++---------
 .../pipeline/tasks/store/body_parser.rs        |  1 -
 .../pipeline/tasks/store/json_body_parser.rs   |  9 +++++----
 .../pipeline/tasks/store/sse_body_parser.rs    |  9 +++++----
 .../src/kuadrant/pipeline/tasks/token_usage.rs |  8 ++++++--
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 13 +++++++++++++
 7 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 038998f..08ac2bd 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -466,6 +466,8 @@ impl Barrier {
 
 #[derive(Default)]
 pub struct BodyContext {
+    // bytes the host has already let through, i.e. that precede the buffer
+    forwarded: usize,
     buffer_size: usize,
     end_of_stream: bool,
     values: HashMap<String, Value>,
@@ -485,6 +487,22 @@ impl BodyContext {
         self.end_of_stream = end_of_stream;
     }
 
+    pub fn mark_forwarded(&mut self) {
+        self.forwarded += self.buffer_size;
+        self.buffer_size = 0;
+    }
+
+    /// Number of bytes received so far
+    pub fn received(&self) -> usize {
+        self.forwarded + self.buffer_size
+    }
+
+    /// Offset in the buffer and size of what follows the first `read` bytes received, if any
+    pub fn unread(&self, read: usize) -> Option<(usize, usize)> {
+        let start = read.saturating_sub(self.forwarded);
+        (start < self.buffer_size).then(|| (start, self.buffer_size - start))
+    }
+
     pub fn set_value<K: Into<String>, V: Into<Value>>(&mut self, key: K, value: V) {
         self.values.insert(key.into(), value.into());
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 124d50d..c7761f5 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -35,6 +35,7 @@ pub struct StoreTask {
     export_to_host: bool,
     terminal: bool,
     body_parse_state: BodyParseState,
+    body_read: usize,
     _reservation: PathReservation,
 }
 
@@ -58,6 +59,7 @@ impl StoreTask {
             export_to_host,
             terminal,
             body_parse_state,
+            body_read: 0,
             _reservation: reservation,
         })
     }
@@ -151,19 +153,14 @@ impl Task for StoreTask {
                 BodySource::Response => &ctx.response_body,
             };
 
-            if body_ctx.buffer_size() == 0 && !body_ctx.is_end_of_stream() {
+            if body_ctx.received() == 0 && !body_ctx.is_end_of_stream() {
                 return TaskOutcome::Requeued(vec![self]);
             }
 
-            if body_ctx.buffer_size() > parser.bytes_consumed() {
-                let bytes_to_read = body_ctx.buffer_size() - parser.bytes_consumed();
+            if let Some((start, size)) = body_ctx.unread(self.body_read) {
                 let chunk = match source {
-                    BodySource::Request => {
-                        ctx.get_http_request_body(parser.bytes_consumed(), bytes_to_read)
-                    }
-                    BodySource::Response => {
-                        ctx.get_http_response_body(parser.bytes_consumed(), bytes_to_read)
-                    }
+                    BodySource::Request => ctx.get_http_request_body(start, size),
+                    BodySource::Response => ctx.get_http_response_body(start, size),
                 };
 
                 let chunk_bytes = match chunk {
@@ -181,6 +178,7 @@ impl Task for StoreTask {
                     }
                 };
 
+                self.body_read = body_ctx.received();
                 if let Err(e) = parser.feed(&chunk_bytes) {
                     error!("Failed to parse body for '{}': {e}", self.path);
                     return TaskOutcome::Failed;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index bf07e54..8b2f9a9 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -8,7 +8,6 @@ pub(super) trait BodyParser {
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
     fn populate(&self, body_ctx: &mut BodyContext);
-    fn bytes_consumed(&self) -> usize;
 }
 
 pub(super) fn parse_json_scalar(raw: &str) -> Value {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 748a78b..32d6cf7 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -68,6 +68,11 @@ impl JsonBodyParser {
         })
     }
 
+    #[cfg(test)]
+    fn bytes_consumed(&self) -> usize {
+        self.bytes_consumed
+    }
+
     fn finalize_extracted(&mut self) -> Result<(), AttributeError> {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
@@ -85,10 +90,6 @@ impl JsonBodyParser {
 }
 
 impl BodyParser for JsonBodyParser {
-    fn bytes_consumed(&self) -> usize {
-        self.bytes_consumed
-    }
-
     fn finalize(&mut self) -> Result<(), AttributeError> {
         if let Some(ref mut parser) = self.parser {
             parser
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 3353b67..005102c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -149,6 +149,11 @@ impl SseBodyParser {
         self.last_two_events[0] = Some(event);
     }
 
+    #[cfg(test)]
+    fn bytes_consumed(&self) -> usize {
+        0
+    }
+
     #[cfg(test)]
     fn is_complete(&self) -> bool {
         self.complete
@@ -156,10 +161,6 @@ impl SseBodyParser {
 }
 
 impl BodyParser for SseBodyParser {
-    fn bytes_consumed(&self) -> usize {
-        0
-    }
-
     fn finalize(&mut self) -> Result<(), AttributeError> {
         self.complete = true;
         let penultimate = match &self.last_two_events[1] {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 35ff962..727009d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -10,6 +10,7 @@ use tracing::{debug, error, warn};
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
     expected_response_fields: Vec<String>,
+    body_read: usize,
 }
 
 impl TokenUsageTask {
@@ -22,6 +23,7 @@ impl TokenUsageTask {
         Self {
             strategy: None,
             expected_response_fields,
+            body_read: 0,
         }
     }
 }
@@ -31,6 +33,7 @@ impl From<Box<Self>> for TokenUsageTask {
         Self {
             strategy: value.strategy,
             expected_response_fields: value.expected_response_fields,
+            body_read: value.body_read,
         }
     }
 }
@@ -64,9 +67,10 @@ impl Task for TokenUsageTask {
             }
         };
 
-        if ctx.response_body.buffer_size() > 0 {
-            match ctx.get_http_response_body(0, ctx.response_body.buffer_size()) {
+        if let Some((start, size)) = ctx.response_body.unread(task.body_read) {
+            match ctx.get_http_response_body(start, size) {
                 Ok(AttributeState::Available(Some(bytes))) => {
+                    task.body_read = ctx.response_body.received();
                     strategy.feed_buffer(bytes);
                 }
                 Ok(AttributeState::Available(None)) => {
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index cde9c87..84b389b 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -66,6 +66,13 @@ impl Context for KuadrantFilter {
             };
 
             if should_resume {
+                if let Some(pipeline) = self.pipeline.as_mut() {
+                    if self.in_response_phase {
+                        pipeline.ctx.response_body.mark_forwarded();
+                    } else {
+                        pipeline.ctx.request_body.mark_forwarded();
+                    }
+                }
                 let result = if self.in_response_phase {
                     trace!("on_grpc_call_response: resume_http_response");
                     self.resume_http_response()
@@ -163,6 +170,9 @@ impl HttpContext for KuadrantFilter {
             Action::Pause
         } else {
             trace!("on_http_request_body: continue");
+            if let Some(pipeline) = self.pipeline.as_mut() {
+                pipeline.ctx.request_body.mark_forwarded();
+            }
             Action::Continue
         }
     }
@@ -216,6 +226,9 @@ impl HttpContext for KuadrantFilter {
                 Action::Pause
             } else {
                 trace!("on_http_response_body: continue");
+                if let Some(pipeline) = self.pipeline.as_mut() {
+                    pipeline.ctx.response_body.mark_forwarded();
+                }
                 Action::Continue
             }
         }
-- 
2.43.0


From e3cba373840767f8c5a50c0868fd353686855a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 09/34] fix: event streams with characters split between chunks

---
 .../kuadrant/pipeline/tasks/store/sse_body_parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 005102c..932800c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -24,16 +24,26 @@ pub struct Event {
 #[derive(Default)]
 pub struct EventParser {
     buffer: String,
+    // a character that is split between two chunks
+    partial_char: Vec<u8>,
     event_builder: EventBuilder,
 }
 
 impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
+        self.partial_char.extend(chunk_bytes);
+        let mut bytes = core::mem::take(&mut self.partial_char);
+        if let Err(e) = core::str::from_utf8(&bytes) {
+            if e.error_len().is_some() {
+                return Err(e.to_string());
+            }
+            self.partial_char = bytes.split_off(e.valid_up_to());
+        }
         // taking advantage by the automatic deref coercion.
         // Because String implements Deref<Target=str>,
         // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
         self.buffer
-            .push_str(&String::from_utf8(chunk_bytes).map_err(|e| e.to_string())?);
+            .push_str(&String::from_utf8(bytes).map_err(|e| e.to_string())?);
 
         let mut events = Vec::default();
 
-- 
2.43.0


From 2703bd36b76e998c7634ecf062b6e3617f635860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 10/34] fix: keep the type and the characters of strings
 extracted from JSON bodies

---
 .../pipeline/tasks/store/json_body_parser.rs  | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 32d6cf7..2e4e7b7 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -14,6 +14,7 @@ pub(crate) struct JsonBodyParser {
     parser: Option<acutejson::Parser>,
     buffers: Arc<Mutex<HashMap<String, Vec<u8>>>>,
     matched: Arc<Mutex<HashSet<String>>>,
+    strings: Arc<Mutex<HashSet<String>>>,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
@@ -23,6 +24,7 @@ impl JsonBodyParser {
     pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
         let buffers: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::new(Mutex::new(HashMap::new()));
         let matched: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
+        let strings: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
         let results: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::clone(&buffers);
 
         let mut builder = acutejson::Builder::new();
@@ -30,16 +32,24 @@ impl JsonBodyParser {
             let field_name = field.clone();
             let field_buffers = Arc::clone(&results);
             let field_matched = Arc::clone(&matched);
+            let field_strings = Arc::clone(&strings);
             field_buffers
                 .lock()
                 .unwrap_or_else(|e| e.into_inner())
                 .insert(field_name.clone(), Vec::new());
 
-            builder = match builder.register(field, move |bytes, _is_complete| {
+            builder = match builder.register(field, move |bytes, is_complete| {
                 field_matched
                     .lock()
                     .unwrap_or_else(|e| e.into_inner())
                     .insert(field_name.clone());
+                // only strings complete without any bytes
+                if is_complete && bytes.is_empty() {
+                    field_strings
+                        .lock()
+                        .unwrap_or_else(|e| e.into_inner())
+                        .insert(field_name.clone());
+                }
                 let mut bufs = field_buffers.lock().unwrap_or_else(|e| e.into_inner());
                 if let Some(buf) = bufs.get_mut(&field_name) {
                     buf.extend_from_slice(bytes);
@@ -62,6 +72,7 @@ impl JsonBodyParser {
             parser: Some(builder.build()),
             buffers,
             matched,
+            strings,
             extracted: HashMap::new(),
             bytes_consumed: 0,
             complete: false,
@@ -76,12 +87,22 @@ impl JsonBodyParser {
     fn finalize_extracted(&mut self) -> Result<(), AttributeError> {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
+        let strings = self.strings.lock().unwrap_or_else(|e| e.into_inner());
         for (field, raw_bytes) in buffers.iter() {
             if matched.contains(field) {
                 let raw_value = std::str::from_utf8(raw_bytes).map_err(|e| {
                     AttributeError::Parse(format!("Body field '{field}' is not valid UTF-8: {e}"))
                 })?;
-                let value = parse_json_scalar(raw_value);
+                let value = if strings.contains(field) {
+                    // the parser leaves the escape sequences as they are
+                    let string: String = serde_json::from_str(&format!("\"{raw_value}\""))
+                        .map_err(|e| {
+                            AttributeError::Parse(format!("Body field '{field}' is invalid: {e}"))
+                        })?;
+                    Value::String(Arc::new(string))
+                } else {
+                    parse_json_scalar(raw_value)
+                };
                 self.extracted.insert(field.clone(), value);
             }
         }
-- 
2.43.0


From 3afcdb97199cd2134932f31c4fd8ecadf462e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 11/34] fix: actions that are not calls also wait for the
 actions they follow

`execution` is common to every typed action, but only grpc actions held back
until the actions they depend on completed.
---
 .../src/kuadrant/pipeline/blueprint.rs        |  9 +++--
 .../src/kuadrant/pipeline/tasks/mod.rs        |  2 ++
 .../src/kuadrant/pipeline/tasks/ordered.rs    | 34 +++++++++++++++++++
 3 files changed, 42 insertions(+), 3 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index cef3bde..398a40b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,8 +5,8 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, Task,
-    TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, OrderedTask,
+    Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
@@ -427,7 +427,10 @@ impl Blueprint {
                 },
                 _ => {
                     if let Some(task) = action.to_core_task(ctx) {
-                        tasks.push(task);
+                        tasks.push(Box::new(OrderedTask::new(
+                            task,
+                            action.dependencies.clone(),
+                        )));
                     }
                 }
             }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 4a73471..c8c5a25 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -3,6 +3,7 @@ mod export_traces;
 mod fail;
 mod failure_mode;
 mod headers;
+mod ordered;
 mod send_reply;
 mod store;
 mod token_usage;
@@ -13,6 +14,7 @@ pub use export_traces::ExportTracesTask;
 pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
+pub use ordered::OrderedTask;
 pub use send_reply::SendReplyTask;
 pub use store::StoreTask;
 pub use token_usage::TokenUsageTask;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
new file mode 100644
index 0000000..e398a7e
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
@@ -0,0 +1,34 @@
+use crate::kuadrant::{
+    pipeline::tasks::{Task, TaskOutcome},
+    ReqRespCtx,
+};
+
+/// Holds a task back until the actions it depends on have completed
+pub struct OrderedTask {
+    task: Box<dyn Task>,
+    dependencies: Vec<String>,
+}
+
+impl OrderedTask {
+    pub fn new(task: Box<dyn Task>, dependencies: Vec<String>) -> Self {
+        Self { task, dependencies }
+    }
+}
+
+impl Task for OrderedTask {
+    fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        self.task.apply(ctx)
+    }
+
+    fn id(&self) -> &str {
+        self.task.id()
+    }
+
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
+}
-- 
2.43.0


From f17b2181b97ca5672aabc685814beab955a0e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 12/34] fix: guard actions held back by a call pause the
 request

A guard that has to wait for a call which is not a guard itself was not yet
dispatched when the callback returned, so the request went upstream without it.
---
 .../src/kuadrant/pipeline/executor.rs             | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index a581fc1..6b2f9d5 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -214,6 +214,21 @@ impl Pipeline {
 
     pub fn requires_pause(&self) -> bool {
         self.ctx.barrier.is_tripped()
+            || self
+                .task_queue
+                .iter()
+                .any(|task| task.is_guard() && self.waits_for_call(task.as_ref()))
+    }
+
+    /// Whether the task is held back, directly or not, by a call that is still outstanding
+    fn waits_for_call(&self, task: &dyn Task) -> bool {
+        task.dependencies().iter().any(|dep| {
+            self.deferred_tasks.values().any(|d| d.id() == dep)
+                || self
+                    .task_queue
+                    .iter()
+                    .any(|t| t.id() == dep && self.waits_for_call(t.as_ref()))
+        })
     }
 
     pub fn has_deferred(&self) -> bool {
-- 
2.43.0


From 84cf32dcc14928199f19a47679d0c55c17325602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 13/34] fix: failureMode of a service defaults to deny

as documented; without it the whole configuration was rejected.
---
 crates/kuadrant-filter/src/configuration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 90cff37..78d7c5d 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -242,6 +242,7 @@ pub struct Service {
     pub service_type: ServiceType,
     pub endpoint: String,
     // Deny/Allow request when faced with an irrecoverable failure.
+    #[serde(default)]
     pub failure_mode: FailureMode,
     #[serde(default)]
     pub timeout: Timeout,
-- 
2.43.0


From 46b8495732f3ab0beb75d06704d48f244b630a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 14/34] fix: keep the trace contexts of concurrent requests
 apart

The request span stayed entered between callbacks, so that the calls and spans
of one request became part of the trace of whichever request came last.
---
 .../kuadrant-filter/src/kuadrant/context.rs   | 20 +++++++++++++------
 .../src/kuadrant/pipeline/executor.rs         | 12 ++++++++---
 .../kuadrant/pipeline/tasks/export_traces.rs  |  2 +-
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 08ac2bd..ed5f039 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -68,7 +68,7 @@ impl ReqRespCtx {
         }
     }
 
-    pub fn enter_request_span(&mut self) {
+    pub fn start_request_span(&mut self) {
         let span = tracing::info_span!(
             "kuadrant_filter",
             action_set = tracing::field::Empty,
@@ -86,12 +86,20 @@ impl ReqRespCtx {
             if let Some(hostname) = &self.tracing.hostname {
                 span.record("hostname", hostname.as_str());
             }
-            self.tracing.request_span_guard = Some(span.entered());
+            self.tracing.request_span = Some(span);
         }
     }
 
     pub fn end_request_span(&mut self) {
-        std::mem::drop(self.tracing.request_span_guard.take());
+        std::mem::drop(self.tracing.request_span.take());
+    }
+
+    /// The span to enter for as long as this request is being processed
+    pub fn request_span(&self) -> tracing::Span {
+        self.tracing
+            .request_span
+            .clone()
+            .unwrap_or_else(tracing::Span::none)
     }
 
     pub fn set_action_set_name(&mut self, name: String) {
@@ -349,7 +357,7 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span_guard.is_some() {
+        let context = if self.tracing.request_span.is_some() {
             &tracing::Span::current().context()
         } else {
             &self.tracing.otel_context
@@ -417,7 +425,7 @@ impl Tracker {
 
 struct TracingContext {
     otel_context: opentelemetry::Context,
-    request_span_guard: Option<tracing::span::EnteredSpan>,
+    request_span: Option<tracing::Span>,
     action_set_name: Option<String>,
     hostname: Option<String>,
 }
@@ -426,7 +434,7 @@ impl Default for TracingContext {
     fn default() -> Self {
         Self {
             otel_context: opentelemetry::Context::new(),
-            request_span_guard: None,
+            request_span: None,
             action_set_name: None,
             hostname: None,
         }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 6b2f9d5..d9f10e3 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -147,7 +147,10 @@ impl Pipeline {
 
     pub fn eval(mut self) -> PipelineState {
         let tasks = self.task_queue.drain(..).collect();
-        match self.process_tasks(tasks) {
+        let span = self.ctx.request_span();
+        let outcome = span.in_scope(|| self.process_tasks(tasks));
+        drop(span);
+        match outcome {
             ProcessOutcome::Terminated => {
                 self.execute_teardown();
                 return self.into();
@@ -176,7 +179,9 @@ impl Pipeline {
                 Err(err) => error!("Failed to set gRPC response data: {}", err),
             };
             let task_id = pending.id().to_string();
-            match pending.apply(&mut self.ctx) {
+            let span = self.ctx.request_span();
+            let outcome = span.in_scope(|| pending.apply(&mut self.ctx));
+            match outcome {
                 TaskOutcome::Done => {
                     self.completed_tasks.insert(task_id);
                 }
@@ -197,7 +202,8 @@ impl Pipeline {
                     self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
-                    terminal_task.apply(&mut self.ctx);
+                    span.in_scope(|| terminal_task.apply(&mut self.ctx));
+                    drop(span);
                     self.task_queue.clear();
                     self.terminated = true;
                     self.execute_teardown();
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
index e88cc88..5dd10a4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
@@ -10,7 +10,7 @@ pub struct ExportTracesTask {
 
 impl ExportTracesTask {
     pub fn new(ctx: &mut ReqRespCtx, service: Arc<TracingService>) -> Self {
-        ctx.enter_request_span();
+        ctx.start_request_span();
         Self { service }
     }
 }
-- 
2.43.0


From b0b55b211c817804d08a58b028ef29ebd76c12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 15/34] fix: actions wait for values stored under a bare name

---
 crates/kuadrant-filter/src/data/cel.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e5822cc..54bc571 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -104,6 +104,7 @@ pub(crate) mod errors {
 #[derive(Clone, Debug)]
 pub struct Expression {
     attributes: Vec<Attribute>,
+    names: Vec<String>,
     request_body_values: Vec<String>,
     response_body_values: Vec<String>,
     expression: CelExpression,
@@ -169,6 +170,9 @@ impl Expression {
             &mut Vec::default(),
         );
 
+        let (names, props): (Vec<_>, Vec<_>) = props.into_iter().partition(|p| p.len() == 1);
+        let names = names.concat().into_iter().map(String::from).collect();
+
         let mut needs_grpc = false;
         let mut attributes: Vec<Attribute> = props
             .into_iter()
@@ -189,6 +193,7 @@ impl Expression {
 
         Ok(Self {
             attributes,
+            names,
             request_body_values: request_props,
             response_body_values: response_props,
             expression,
@@ -208,6 +213,10 @@ impl Expression {
     }
 
     pub fn eval(&self, req_ctx: &ReqRespCtx, cel_ctx: &mut Context<'_>) -> EvalResult {
+        if self.names.iter().any(|n| req_ctx.values.is_pending(n)) {
+            return Ok(AttributeState::Pending);
+        }
+
         add_string_extensions(cel_ctx);
         if self.extended {
             Self::add_extended_capabilities(cel_ctx)
@@ -869,7 +878,8 @@ fn properties<'e>(
             properties(&select.operand, all, request_props, response_props, path);
         }
         Expr::Ident(name) => {
-            if !path.is_empty() {
+            // a bare name is no host attribute, but it can be a stored value
+            if !path.is_empty() || !is_host_property_root(name) {
                 path.insert(0, name.as_str());
                 all.push(path.clone());
                 path.clear();
-- 
2.43.0


From 91da743f17ebd66d81bd7678f35a5a72c484f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 16/34] fix: hold the end of the response until every call is
 answered

---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 84b389b..bb08d0f 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -40,6 +40,13 @@ impl KuadrantFilter {
 
         pipeline.is_terminated().not() && self.should_pause().not()
     }
+
+    /// The end of the response is held until all calls are answered
+    fn holds_end_of_response(&self) -> bool {
+        self.pipeline
+            .as_ref()
+            .is_some_and(|p| p.ctx.response_body.is_end_of_stream() && p.has_deferred())
+    }
 }
 
 impl Context for KuadrantFilter {
@@ -52,7 +59,7 @@ impl Context for KuadrantFilter {
             let should_resume = match pipeline.digest(token_id, status_code, response_size) {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
-                    self.should_resume()
+                    self.should_resume() && self.holds_end_of_response().not()
                 }
                 PipelineState::Completed { should_resume } => {
                     self.pipeline = None;
-- 
2.43.0


From 9175ff88725ec5dd1bbe464eb7443752b32ee5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 17/34] fix: do not match an exact hostname with part of a
 request's host

---
 .../src/kuadrant/pipeline/factory.rs               | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index ee5aa79..fb7fe2e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -175,7 +175,7 @@ impl PipelineFactory {
         let hostname = self.get_hostname(ctx)?;
         ctx.set_hostname(hostname.clone());
 
-        let candidates = match self.index.get_ancestor_value(&reverse_subdomain(&hostname)) {
+        let candidates = match self.lookup(&reverse_subdomain(&hostname)) {
             Some(blueprints) => blueprints,
             None => {
                 debug!("No matching blueprint found for hostname: {}", hostname);
@@ -197,6 +197,18 @@ impl PipelineFactory {
         Ok(self.fallback_blueprint.clone())
     }
 
+    /// The most specific entry for a reversed hostname. An exact hostname only matches as a whole:
+    /// the host of a request may contain a '$' of its own.
+    fn lookup(&self, key: &str) -> Option<&Vec<Arc<Blueprint>>> {
+        self.index.get(key).or_else(|| {
+            key.char_indices()
+                .rev()
+                .map(|(end, _)| &key[..end])
+                .filter(|prefix| !prefix.ends_with('$'))
+                .find_map(|prefix| self.index.get(prefix))
+        })
+    }
+
     fn get_hostname(&self, ctx: &ReqRespCtx) -> Result<String, BuildError> {
         match ctx.get_attribute::<String>("request.host") {
             Ok(AttributeState::Available(Some(host))) => {
-- 
2.43.0


From e30d06bbfab2425fc7044f3fb43d4b02743cd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 18/34] fix: set and remove headers whatever the case of their
 names

---
 crates/kuadrant-filter/src/data/headers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/headers.rs b/crates/kuadrant-filter/src/data/headers.rs
index 53554ca..cb53472 100644
--- a/crates/kuadrant-filter/src/data/headers.rs
+++ b/crates/kuadrant-filter/src/data/headers.rs
@@ -14,12 +14,12 @@ impl Headers {
     }
 
     pub fn set(&mut self, key: String, value: String) {
-        self.0.retain(|(k, _)| k != &key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(&key));
         self.0.push((key, value));
     }
 
     pub fn remove(&mut self, key: &str) {
-        self.0.retain(|(k, _)| k != key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
     }
 
     pub fn get_all(&self, key: &str) -> Vec<&str> {
-- 
2.43.0


From 26e30574ac588c4aab9c629244ac382fc6e64077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 19/34] fix: accept any JSON whitespace in the values that are
 not extracted

---
 .../pipeline/tasks/store/json_body_parser.rs  | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 2e4e7b7..0878025 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -18,6 +18,8 @@ pub(crate) struct JsonBodyParser {
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
+    in_string: bool,
+    in_escape: bool,
 }
 
 impl JsonBodyParser {
@@ -76,9 +78,28 @@ impl JsonBodyParser {
             extracted: HashMap::new(),
             bytes_consumed: 0,
             complete: false,
+            in_string: false,
+            in_escape: false,
         })
     }
 
+    // the parser only skips spaces within the values that it does not extract
+    fn spaces_only(&mut self, chunk: &[u8]) -> Vec<u8> {
+        let mut bytes = chunk.to_vec();
+        for byte in &mut bytes {
+            if self.in_escape {
+                self.in_escape = false;
+            } else if *byte == b'"' {
+                self.in_string = !self.in_string;
+            } else if self.in_string {
+                self.in_escape = *byte == b'\\';
+            } else if matches!(*byte, b'\n' | b'\r' | b'\t') {
+                *byte = b' ';
+            }
+        }
+        bytes
+    }
+
     #[cfg(test)]
     fn bytes_consumed(&self) -> usize {
         self.bytes_consumed
@@ -135,12 +156,13 @@ impl BodyParser for JsonBodyParser {
             return Ok(());
         }
 
+        let chunk = self.spaces_only(chunk);
         let parser = match self.parser.as_mut() {
             Some(p) => p,
             None => return Err(AttributeError::Parse("Parser not initialized".to_string())),
         };
 
-        match parser.feed(chunk) {
+        match parser.feed(&chunk) {
             Ok(acutejson::Status::Done) => {
                 self.complete = true;
                 self.finalize_extracted()?;
-- 
2.43.0


From 07fefcb9b8c8b01347c8c2f2e3af443c3f63e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 20/34] fix: end the last line of an event stream that ends
 with a lone CR

---
 .../pipeline/tasks/store/sse_body_parser.rs      | 16 ++++++++++++++++
 .../src/kuadrant/pipeline/tasks/token_usage.rs   |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 932800c..44d7fd1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -54,6 +54,14 @@ impl EventParser {
         Ok(events)
     }
 
+    // a lone CR at the end of the stream ends its line, no LF can follow it
+    pub(crate) fn finish(&mut self) -> Result<Vec<Event>, String> {
+        if self.buffer.ends_with('\r') {
+            return self.parse(b"\n".to_vec());
+        }
+        Ok(Vec::default())
+    }
+
     fn parse_one_event(&mut self) -> Result<Option<Event>, String> {
         if self.buffer.is_empty() {
             return Ok(None);
@@ -173,6 +181,14 @@ impl SseBodyParser {
 impl BodyParser for SseBodyParser {
     fn finalize(&mut self) -> Result<(), AttributeError> {
         self.complete = true;
+        let events = self
+            .event_parser
+            .finish()
+            .map_err(|e| AttributeError::Parse(format!("SSE parse error: {e}")))?;
+        for event in events {
+            self.push_event(event);
+        }
+
         let penultimate = match &self.last_two_events[1] {
             Some(event) => &event.data,
             None => return Ok(()),
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 727009d..ecf0792 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -169,6 +169,11 @@ impl ExtractionStrategy for SseStrategy {
 
     fn extract_property(&mut self, prop: &str) -> Option<Value> {
         if self.parsed_json.is_none() {
+            if let Ok(events) = self.event_parser.finish() {
+                for event in events {
+                    self.push_event(event);
+                }
+            }
             if let Some(event) = &self.last_two_events[1] {
                 if let Ok(json) = serde_json::from_str::<Value>(&event.data) {
                     self.parsed_json = Some(json);
-- 
2.43.0


From 0ca2b13d4ef51cb41f41386a63982cbbf166306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 21/34] fix: ignore a byte order mark at the start of an event
 stream

---
 .../src/kuadrant/pipeline/tasks/store/sse_body_parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 44d7fd1..f929160 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -26,6 +26,7 @@ pub struct EventParser {
     buffer: String,
     // a character that is split between two chunks
     partial_char: Vec<u8>,
+    started: bool,
     event_builder: EventBuilder,
 }
 
@@ -45,6 +46,14 @@ impl EventParser {
         self.buffer
             .push_str(&String::from_utf8(bytes).map_err(|e| e.to_string())?);
 
+        if !self.started && !self.buffer.is_empty() {
+            self.started = true;
+            // a byte order mark may precede the first line
+            if self.buffer.starts_with('\u{FEFF}') {
+                self.buffer.remove(0);
+            }
+        }
+
         let mut events = Vec::default();
 
         while let Some(event) = self.parse_one_event()? {
-- 
2.43.0


From c8760ae48c8d328b3e502f523dfe133a4fd24538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 22/34] fix: count characters, not bytes, in the positions of
 indexOf and lastIndexOf

---
 .../kuadrant-filter/src/data/cel/strings.rs   | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index e86416b..190edf4 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -12,16 +12,19 @@ pub fn char_at(This(this): This<Arc<String>>, arg: i64) -> ResolveResult {
     }
 }
 
+/// The position a byte index stands for: positions count characters, as they do for `charAt` and
+/// `substring`, and are integers, so that they compare with, and add to, integer literals
+fn position(this: &str, byte_index: Option<usize>) -> Value {
+    Value::Int(byte_index.map_or(-1, |idx| this[..idx].chars().count() as i64))
+}
+
 pub fn index_of(
     This(this): This<Arc<String>>,
     arg: Arc<String>,
     Arguments(args): Arguments,
 ) -> ResolveResult {
     match args.len() {
-        1 => match this.find(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
+        1 => Ok(position(&this, this.find(&*arg))),
         2 => {
             let base = match args[1] {
                 Value::Int(i) => i as usize,
@@ -36,13 +39,11 @@ pub fn index_of(
                     })
                 }
             };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].find(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt((base + idx) as u64)),
-            }
+            let found = this
+                .char_indices()
+                .nth(base)
+                .and_then(|(start, _)| this[start..].find(&*arg).map(|idx| start + idx));
+            Ok(position(&this, found))
         }
         _ => Err(ExecutionError::FunctionError {
             function: "String.indexOf".to_owned(),
@@ -57,10 +58,7 @@ pub fn last_index_of(
     Arguments(args): Arguments,
 ) -> ResolveResult {
     match args.len() {
-        1 => match this.rfind(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
+        1 => Ok(position(&this, this.rfind(&*arg))),
         2 => {
             let base = match args[1] {
                 Value::Int(i) => i as usize,
@@ -75,13 +73,15 @@ pub fn last_index_of(
                     })
                 }
             };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].rfind(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt(idx as u64)),
-            }
+            // the last occurrence that starts at `base` or before
+            let found = this.char_indices().nth(base).and_then(|(last, _)| {
+                this.char_indices()
+                    .map(|(start, _)| start)
+                    .take_while(|start| *start <= last)
+                    .filter(|start| this[*start..].starts_with(arg.as_str()))
+                    .last()
+            });
+            Ok(position(&this, found))
         }
         _ => Err(ExecutionError::FunctionError {
             function: "String.lastIndexOf".to_owned(),
-- 
2.43.0


From d7ea4706718f27fec8ab002a4c2a92f60e8789e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:19 +0000
Subject: [PATCH 23/34] fix: take only a chain of selects down to a name for an
 attribute path

---
 crates/kuadrant-filter/src/data/cel.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 54bc571..59e706d 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -847,6 +847,11 @@ fn properties<'e>(
     response_props: &mut Vec<String>,
     path: &mut Vec<&'e str>,
 ) {
+    // the fields selected so far are fields of this expression's value: only a chain of selects down
+    // to a name is the path of an attribute
+    if !matches!(&ided_exp.expr, Expr::Select(_) | Expr::Ident(_)) {
+        path.clear();
+    }
     match &ided_exp.expr {
         Expr::Call(call) => {
             if call.target.is_none()
@@ -866,8 +871,6 @@ fn properties<'e>(
             }
             if let Some(target) = &call.target {
                 properties(target, all, request_props, response_props, path);
-            } else {
-                path.clear();
             }
             for arg in &call.args {
                 properties(arg, all, request_props, response_props, path);
-- 
2.43.0


From 02a750bc739678215c374bd954b4e6f615dfb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 24/34] fix: find headers that actions set in mixed case

---
 crates/kuadrant-filter/src/data/cel.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 59e706d..eabcc89 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -689,7 +689,13 @@ impl Attribute {
                     //todo(refactor/pull/245): We should think about and handle other types of maps
                     // other than Headers / Vec<(String, String)>
                     opt.map(|headers| {
-                        let map: HashMap<String, String> = headers.into();
+                        // header names compare without case, and expressions look them up in
+                        // lower case, as the proxy delivers them; actions may set any case
+                        let mut headers = headers.into_inner();
+                        for (name, _) in &mut headers {
+                            name.make_ascii_lowercase();
+                        }
+                        let map: HashMap<String, String> = Headers::from(headers).into();
                         Value::Map(cel::objects::Map::from(map))
                     })
                     .unwrap_or(Value::Null)
-- 
2.43.0


From 886e7d02849b1dd55a552a2105e10d738d0f54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 25/34] fix: quote the request identifier for the expression
 that sends it back

---
 .../src/kuadrant/pipeline/blueprint.rs        | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 398a40b..39638d0 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -101,9 +101,12 @@ impl Action {
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
                         #[allow(clippy::expect_used)]
-                        let headers_expr =
-                            Expression::new(&format!("[['{var}', '{}']]", ctx.request_id()))
-                                .expect("Needs to be valid CEL!");
+                        let headers_expr = Expression::new(&format!(
+                            "[[{}, {}]]",
+                            cel_literal(var),
+                            cel_literal(ctx.request_id())
+                        ))
+                        .expect("Needs to be valid CEL!");
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
                             predicate,
@@ -578,6 +581,23 @@ impl Action {
     }
 }
 
+/// The CEL string literal for `text`, which may come from the client
+fn cel_literal(text: &str) -> String {
+    let mut literal = String::with_capacity(text.len() + 2);
+    literal.push('\'');
+    for c in text.chars() {
+        match c {
+            '\\' => literal.push_str("\\\\"),
+            '\'' => literal.push_str("\\'"),
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            c => literal.push(c),
+        }
+    }
+    literal.push('\'');
+    literal
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From c38ad9510a33debd507e685e6abe8e38360c8de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 26/34] fix: keep the trace context of calls whatever the
 host's log level

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index ed5f039..491d17b 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -1,4 +1,5 @@
 use cel::{Context, Env, Value};
+use opentelemetry::trace::TraceContextExt;
 use std::cell::OnceCell;
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap, HashSet};
@@ -357,8 +358,11 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span.is_some() {
-            &tracing::Span::current().context()
+        // spans can exist for the log only, whatever the trace level: what goes upstream is the
+        // innermost span that is traced, or what the client sent when there is none
+        let current = opentelemetry::Context::current();
+        let context = if self.tracing.request_span.is_some() && current.has_active_span() {
+            &current
         } else {
             &self.tracing.otel_context
         };
-- 
2.43.0


From 7d8b39662af01134ba04e9877e6d1aeb9326af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 27/34] fix: trace no request while tracing is not configured

---
 crates/kuadrant-filter/src/tracing/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/tracing/mod.rs b/crates/kuadrant-filter/src/tracing/mod.rs
index 1f23bdc..5f5a5af 100644
--- a/crates/kuadrant-filter/src/tracing/mod.rs
+++ b/crates/kuadrant-filter/src/tracing/mod.rs
@@ -46,7 +46,8 @@ pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_fi
             _ => LevelFilter::WARN,
         })
     } else {
-        None
+        // no filter would let every span through
+        Some(LevelFilter::OFF)
     };
 
     if let Some(otel_handle) = OTEL_FILTER_HANDLE.get() {
-- 
2.43.0


From 82fe7d4e630fe00ea40d7d5eaa0410f4e7da2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 28/34] fix: leave the tracing of the running configuration
 alone when a configuration is rejected

---
 crates/kuadrant-filter/src/tracing/mod.rs   | 49 ++++++++++++---------
 crates/wasm-shim/src/filter/root_context.rs | 18 +++++---
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/crates/kuadrant-filter/src/tracing/mod.rs b/crates/kuadrant-filter/src/tracing/mod.rs
index 5f5a5af..1adc459 100644
--- a/crates/kuadrant-filter/src/tracing/mod.rs
+++ b/crates/kuadrant-filter/src/tracing/mod.rs
@@ -34,27 +34,10 @@ type LogFilterHandle = reload::Handle<
 static OTEL_FILTER_HANDLE: OnceLock<OtelFilterHandle> = OnceLock::new();
 static LOG_FILTER_HANDLE: OnceLock<LogFilterHandle> = OnceLock::new();
 
-pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_filter: LevelFilter) {
-    let otel_filter = if use_tracing {
-        Some(match log_level {
-            Some("TRACE") => LevelFilter::TRACE,
-            Some("DEBUG") => LevelFilter::DEBUG,
-            Some("INFO") => LevelFilter::INFO,
-            Some("WARN") => LevelFilter::WARN,
-            Some("ERROR") => LevelFilter::ERROR,
-            Some("OFF") => LevelFilter::OFF,
-            _ => LevelFilter::WARN,
-        })
-    } else {
-        // no filter would let every span through
-        Some(LevelFilter::OFF)
-    };
-
-    if let Some(otel_handle) = OTEL_FILTER_HANDLE.get() {
+/// Sets up logging, and tracing with every span filtered out until `set_tracing`
+pub fn init_observability(initial_filter: LevelFilter) {
+    if OTEL_FILTER_HANDLE.get().is_some() {
         // Handle already set, reload the layer
-        if let Err(e) = otel_handle.reload(otel_filter) {
-            log::error!("Failed to reload OpenTelemetry filter: {:?}", e);
-        }
         set_log_level(initial_filter);
     } else {
         // Initialise global tracing subscriber and store handles to the filters
@@ -64,7 +47,8 @@ pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_fi
             .build();
         let tracer = provider.tracer("wasm-shim");
 
-        let (otel_filter_layer, otel_filter_handle) = reload::Layer::new(otel_filter);
+        // no filter would let every span through
+        let (otel_filter_layer, otel_filter_handle) = reload::Layer::new(Some(LevelFilter::OFF));
         let (log_filter_layer, log_filter_handle) = reload::Layer::new(initial_filter);
 
         let _ = tracing_subscriber::registry()
@@ -81,6 +65,29 @@ pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_fi
     }
 }
 
+/// Applies what the configuration says about tracing
+pub fn set_tracing(use_tracing: bool, log_level: Option<&str>) {
+    let otel_filter = if use_tracing {
+        match log_level {
+            Some("TRACE") => LevelFilter::TRACE,
+            Some("DEBUG") => LevelFilter::DEBUG,
+            Some("INFO") => LevelFilter::INFO,
+            Some("WARN") => LevelFilter::WARN,
+            Some("ERROR") => LevelFilter::ERROR,
+            Some("OFF") => LevelFilter::OFF,
+            _ => LevelFilter::WARN,
+        }
+    } else {
+        LevelFilter::OFF
+    };
+
+    if let Some(otel_handle) = OTEL_FILTER_HANDLE.get() {
+        if let Err(e) = otel_handle.reload(Some(otel_filter)) {
+            log::error!("Failed to reload OpenTelemetry filter: {:?}", e);
+        }
+    }
+}
+
 pub fn set_log_level(filter: LevelFilter) {
     if let Some(log_handle) = LOG_FILTER_HANDLE.get() {
         if let Err(e) = log_handle.reload(filter) {
diff --git a/crates/wasm-shim/src/filter/root_context.rs b/crates/wasm-shim/src/filter/root_context.rs
index b2ae6e7..84f04c4 100644
--- a/crates/wasm-shim/src/filter/root_context.rs
+++ b/crates/wasm-shim/src/filter/root_context.rs
@@ -142,15 +142,19 @@ impl RootContext for FilterRoot {
         };
         match serde_json::from_slice::<PluginConfiguration>(&configuration) {
             Ok(config) => {
-                let use_tracing_exporter = config.observability.tracing.is_some();
-                kuadrant_filter::tracing::init_observability(
-                    use_tracing_exporter,
-                    config.observability.default_level.as_deref(),
-                    crate::wasm_host::current_log_filter(),
-                );
+                kuadrant_filter::tracing::init_observability(crate::wasm_host::current_log_filter());
 
                 info!("plugin config parsed: {:?}", config);
-                self.process_config(config)
+                let use_tracing_exporter = config.observability.tracing.is_some();
+                let default_level = config.observability.default_level.clone();
+                let accepted = self.process_config(config);
+                if accepted {
+                    kuadrant_filter::tracing::set_tracing(
+                        use_tracing_exporter,
+                        default_level.as_deref(),
+                    );
+                }
+                accepted
             }
             Err(e) => {
                 log::error!("failed to parse plugin config: {}", e);
-- 
2.43.0


From 835b02f96400154901f583886dc4f137f7599ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 29/34] fix: reject map keys of another type than the field's
 instead of panicking

---
 .../src/services/dynamic/converters.rs        | 53 +++++++++----------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 344bf8f..06db706 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -480,37 +480,32 @@ impl MessageConverter {
     ) -> Result<MapKey, ConversionError> {
         use cel::common::types::CelMapKey;
 
-        match cel_key {
-            CelMapKey::Bool(b) => Ok(MapKey::Bool(*b.inner())),
-            CelMapKey::Int(i) => {
-                let value = *i.inner();
-                match key_field.kind() {
-                    ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32 => {
-                        Ok(MapKey::I32(value as i32))
-                    }
-                    ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
-                        Ok(MapKey::I64(value))
-                    }
-                    _ => Err(ConversionError::TypeMismatch {
-                        field: key_field.name().to_string(),
-                        expected: "int32 or int64".to_string(),
-                        got: format!("{:?}", key_field.kind()),
-                    }),
-                }
+        let mismatch = |expected: &str| ConversionError::TypeMismatch {
+            field: key_field.name().to_string(),
+            expected: expected.to_string(),
+            got: format!("{:?}", cel_key),
+        };
+
+        match (key_field.kind(), cel_key) {
+            (ProtoKind::Bool, CelMapKey::Bool(b)) => Ok(MapKey::Bool(*b.inner())),
+            (ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32, CelMapKey::Int(i)) => {
+                i32::try_from(*i.inner())
+                    .map(MapKey::I32)
+                    .map_err(|_| mismatch("int key within i32 range"))
             }
-            CelMapKey::UInt(u) => {
-                let value = *u.inner();
-                match key_field.kind() {
-                    ProtoKind::Uint32 | ProtoKind::Fixed32 => Ok(MapKey::U32(value as u32)),
-                    ProtoKind::Uint64 | ProtoKind::Fixed64 => Ok(MapKey::U64(value)),
-                    _ => Err(ConversionError::TypeMismatch {
-                        field: key_field.name().to_string(),
-                        expected: "uint32 or uint64".to_string(),
-                        got: format!("{:?}", key_field.kind()),
-                    }),
-                }
+            (ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64, CelMapKey::Int(i)) => {
+                Ok(MapKey::I64(*i.inner()))
+            }
+            (ProtoKind::Uint32 | ProtoKind::Fixed32, CelMapKey::UInt(u)) => {
+                u32::try_from(*u.inner())
+                    .map(MapKey::U32)
+                    .map_err(|_| mismatch("uint key within u32 range"))
+            }
+            (ProtoKind::Uint64 | ProtoKind::Fixed64, CelMapKey::UInt(u)) => {
+                Ok(MapKey::U64(*u.inner()))
             }
-            CelMapKey::String(s) => Ok(MapKey::String(s.inner().to_string())),
+            (ProtoKind::String, CelMapKey::String(s)) => Ok(MapKey::String(s.inner().to_string())),
+            (kind, _) => Err(mismatch(&format!("{:?}", kind))),
         }
     }
 
-- 
2.43.0


From 8a654bf113893a69aec8ba41b9699b2c9c57042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 30/34] fix: reject integers that do not fit a 32 bit field
 instead of cutting them short

---
 .../src/services/dynamic/converters.rs           | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 06db706..4cd5ab7 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -534,7 +534,13 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::I32(*i.inner() as i32))
+                let value =
+                    i32::try_from(*i.inner()).map_err(|_| ConversionError::TypeMismatch {
+                        field: field_name.to_string(),
+                        expected: "int value within i32 range".to_string(),
+                        got: format!("{}", i.inner()),
+                    })?;
+                Ok(ProtoValue::I32(value))
             }
             ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                 let i = cel_val.downcast_ref::<CelInt>().ok_or_else(|| {
@@ -554,7 +560,13 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::U32(*u.inner() as u32))
+                let value =
+                    u32::try_from(*u.inner()).map_err(|_| ConversionError::TypeMismatch {
+                        field: field_name.to_string(),
+                        expected: "uint value within u32 range".to_string(),
+                        got: format!("{}", u.inner()),
+                    })?;
+                Ok(ProtoValue::U32(value))
             }
             ProtoKind::Uint64 | ProtoKind::Fixed64 => {
                 let u = cel_val.downcast_ref::<CelUInt>().ok_or_else(|| {
-- 
2.43.0


From 97d889973a7a6d9c9ac6316950969b1716fd26c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 31/34] fix: a message of another type is not sent in place of
 the one a call takes

---
 .../src/services/dynamic/converters.rs           | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 4cd5ab7..1e292bc 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -376,6 +376,14 @@ impl MessageConverter {
         cel_struct: &Arc<CelStruct>,
         descriptor: &MessageDescriptor,
     ) -> Result<DynamicMessage, ConversionError> {
+        if cel_struct.name() != descriptor.full_name() {
+            return Err(ConversionError::TypeMismatch {
+                field: "message".to_string(),
+                expected: descriptor.full_name().to_string(),
+                got: cel_struct.name().to_string(),
+            });
+        }
+
         let mut message = DynamicMessage::new(descriptor.clone());
 
         for field in descriptor.fields() {
@@ -869,6 +877,14 @@ impl MessageConverter {
                     got: format!("{:?}", cel_val),
                 })?;
 
+        if nested_struct.name() != descriptor.full_name() {
+            return Err(ConversionError::TypeMismatch {
+                field: field_name.to_string(),
+                expected: descriptor.full_name().to_string(),
+                got: nested_struct.name().to_string(),
+            });
+        }
+
         let mut message = DynamicMessage::new(descriptor.clone());
 
         for field in descriptor.fields() {
-- 
2.43.0


From 453cd73f86c5c7922d42ce638c001612fe8b85f4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 32/34] fix: two fields of a oneof are an error, not silently
 one of them

---
 .../src/services/dynamic/converters.rs        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 1e292bc..fb3ad4a 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -388,6 +388,7 @@ impl MessageConverter {
 
         for field in descriptor.fields() {
             if let Some(val) = cel_struct.field_value(field.name()) {
+                Self::check_oneof(&message, &field)?;
                 let proto_value = Self::cel_val_to_proto_value(val, &field)?;
                 message.set_field(&field, proto_value);
             }
@@ -396,6 +397,23 @@ impl MessageConverter {
         Ok(message)
     }
 
+    /// At most one field of a oneof can be in a message, so setting another one would drop the first.
+    fn check_oneof(
+        message: &DynamicMessage,
+        field: &FieldDescriptor,
+    ) -> Result<(), ConversionError> {
+        if let Some(oneof) = field.containing_oneof() {
+            if let Some(other) = oneof.fields().find(|other| message.has_field(other)) {
+                return Err(ConversionError::TypeMismatch {
+                    field: field.name().to_string(),
+                    expected: format!("one field of oneof '{}'", oneof.name()),
+                    got: format!("'{}' as well", other.name()),
+                });
+            }
+        }
+        Ok(())
+    }
+
     fn cel_val_to_proto_value(
         cel_val: &dyn cel::common::value::Val,
         field: &FieldDescriptor,
@@ -889,6 +907,7 @@ impl MessageConverter {
 
         for field in descriptor.fields() {
             if let Some(val) = nested_struct.field_value(field.name()) {
+                Self::check_oneof(&message, &field)?;
                 let proto_value = Self::cel_val_to_proto_value(val, &field)?;
                 message.set_field(&field, proto_value);
             }
-- 
2.43.0


From 64d91e3fe6b48ca2444b8070ba8880c32163fc1f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 33/34] fix: a deny status out of range fails instead of
 answering with another one

---
 .../src/kuadrant/pipeline/tasks/send_reply.rs        | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 86453fe..6d30f5d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -87,10 +87,18 @@ impl Task for SendReplyTask {
                         return TaskOutcome::Failed;
                     };
 
-                    let status = deny_response
+                    let status = match deny_response
                         .field_value("status")
                         .and_then(|v| v.downcast_ref::<CelUInt>())
-                        .map(|v| *v.inner() as u32);
+                        .map(|v| u32::try_from(*v.inner()))
+                        .transpose()
+                    {
+                        Ok(status) => status,
+                        Err(e) => {
+                            error!("Invalid DenyResponse status: {e}");
+                            return TaskOutcome::Failed;
+                        }
+                    };
 
                     let body = deny_response
                         .field_value("body")
-- 
2.43.0


From 0c0930381de02022b7c1e416d9c60f8b3ea13439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 34/34] fix: an event stream is one whatever the case of its
 content type

Media types are case-insensitive (RFC 9110, 8.3.1): a response with
'Content-Type: Text/Event-Stream' was read as one JSON document.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs     | 2 +-
 .../kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index c7761f5..1e8c9a3 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -103,7 +103,7 @@ impl StoreTask {
                 let is_sse = match ctx.get_attribute_ref::<Headers>(&"response.headers".into()) {
                     Ok(AttributeState::Available(Some(headers))) => headers
                         .get("content-type")
-                        .is_some_and(|ct| ct.contains("text/event-stream")),
+                        .is_some_and(|ct| ct.to_ascii_lowercase().contains("text/event-stream")),
                     Ok(AttributeState::Available(None)) => false,
                     Ok(AttributeState::Pending) => return Ok(None),
                     Err(e) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index ecf0792..347692e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -120,7 +120,7 @@ impl Task for TokenUsageTask {
 
 fn select_strategy(headers: &Headers) -> Box<dyn ExtractionStrategy> {
     if let Some(ct) = headers.get("content-type") {
-        if ct.contains("text/event-stream") {
+        if ct.to_ascii_lowercase().contains("text/event-stream") {
             Box::new(SseStrategy::new())
         } else {
             Box::new(JsonStrategy::new())
-- 
2.43.0

