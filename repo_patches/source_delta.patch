From ec567eb111a211ee12add0b298d3c3e692e1b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 01/32] fix: forward SpanExporter::shutdown to the OTLP
 transport client

---
 opentelemetry-otlp/src/span.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-otlp/src/span.rs b/opentelemetry-otlp/src/span.rs
index 81c2ced..56e62e4 100644
--- a/opentelemetry-otlp/src/span.rs
+++ b/opentelemetry-otlp/src/span.rs
@@ -151,6 +151,15 @@ impl opentelemetry_sdk::trace::SpanExporter for SpanExporter {
         }
     }
 
+    fn shutdown(&mut self) -> OTelSdkResult {
+        match &mut self.client {
+            #[cfg(feature = "grpc-tonic")]
+            SupportedTransportClient::Tonic(client) => client.shutdown(),
+            #[cfg(any(feature = "http-proto", feature = "http-json"))]
+            SupportedTransportClient::Http(client) => client.shutdown(),
+        }
+    }
+
     fn set_resource(&mut self, resource: &opentelemetry_sdk::Resource) {
         match &mut self.client {
             #[cfg(feature = "grpc-tonic")]
-- 
2.43.0


From 8aab1107abed1a0b81e4aa5794b6a3a3e9e4f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 02/32] fix: report a non-success HTTP status from the OTLP
 metrics collector as an export error

---
 opentelemetry-otlp/src/exporter/http/metrics.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/http/metrics.rs b/opentelemetry-otlp/src/exporter/http/metrics.rs
index 1503368..0571bfe 100644
--- a/opentelemetry-otlp/src/exporter/http/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/http/metrics.rs
@@ -33,12 +33,23 @@ impl MetricsClient for OtlpHttpClient {
             request.headers_mut().insert(k.clone(), v.clone());
         }
 
+        let request_uri = request.uri().to_string();
         otel_debug!(name: "HttpMetricsClient.CallingExport");
-        client
+        let response = client
             .send_bytes(request)
             .await
             .map_err(|e| OTelSdkError::InternalFailure(format!("{e:?}")))?;
 
+        if !response.status().is_success() {
+            let error = format!(
+                "OpenTelemetry metrics export failed. Url: {}, Status Code: {}, Response: {:?}",
+                request_uri,
+                response.status().as_u16(),
+                response.body()
+            );
+            return Err(OTelSdkError::InternalFailure(error));
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 6de47e7c46981ca8f28648e9b071698b07815039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 03/32] fix: OTLP/gRPC metrics export after shutdown reports
 AlreadyShutdown

---
 opentelemetry-otlp/src/exporter/tonic/metrics.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/tonic/metrics.rs b/opentelemetry-otlp/src/exporter/tonic/metrics.rs
index 2e5eb9d..0c4edf6 100644
--- a/opentelemetry-otlp/src/exporter/tonic/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/metrics.rs
@@ -70,9 +70,7 @@ impl MetricsClient for TonicMetricsClient {
                         .into_parts();
                     Ok((inner.client.clone(), m, e))
                 }
-                None => Err(OTelSdkError::InternalFailure(
-                    "exporter is already shut down".into(),
-                )),
+                None => Err(OTelSdkError::AlreadyShutdown),
             })?;
 
         otel_debug!(name: "TonicsMetricsClient.CallingExport");
-- 
2.43.0


From bbab7e4fe9ebf3813eef8685b46687f6cba8d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 04/32] fix: implement shutdown for the OTLP/gRPC log exporter

---
 opentelemetry-otlp/src/exporter/tonic/logs.rs | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/tonic/logs.rs b/opentelemetry-otlp/src/exporter/tonic/logs.rs
index cbcf528..7946d5f 100644
--- a/opentelemetry-otlp/src/exporter/tonic/logs.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/logs.rs
@@ -1,11 +1,12 @@
 use core::fmt;
+use std::sync::Mutex;
+
 use opentelemetry::otel_debug;
 use opentelemetry_proto::tonic::collector::logs::v1::{
     logs_service_client::LogsServiceClient, ExportLogsServiceRequest,
 };
 use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
 use opentelemetry_sdk::logs::{LogBatch, LogExporter};
-use tokio::sync::Mutex;
 use tonic::{codegen::CompressionEncoding, service::Interceptor, transport::Channel, Request};
 
 use opentelemetry_proto::transform::logs::tonic::group_logs_by_resource_and_scope;
@@ -57,17 +58,21 @@ impl TonicLogsClient {
 
 impl LogExporter for TonicLogsClient {
     async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
-        let (mut client, metadata, extensions) = match self.inner.lock().await.as_mut() {
-            Some(inner) => {
-                let (m, e, _) = inner
-                    .interceptor
-                    .call(Request::new(()))
-                    .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
-                    .into_parts();
-                (inner.client.clone(), m, e)
-            }
-            None => return Err(OTelSdkError::AlreadyShutdown),
-        };
+        let (mut client, metadata, extensions) = self
+            .inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {e:?}")))
+            .and_then(|mut inner| match &mut *inner {
+                Some(inner) => {
+                    let (m, e, _) = inner
+                        .interceptor
+                        .call(Request::new(()))
+                        .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
+                        .into_parts();
+                    Ok((inner.client.clone(), m, e))
+                }
+                None => Err(OTelSdkError::AlreadyShutdown),
+            })?;
 
         let resource_logs = group_logs_by_resource_and_scope(batch, &self.resource);
 
@@ -85,13 +90,11 @@ impl LogExporter for TonicLogsClient {
     }
 
     fn shutdown(&self) -> OTelSdkResult {
-        // TODO: Implement actual shutdown
-        // Due to the use of tokio::sync::Mutex to guard
-        // the inner client, we need to await the call to lock the mutex
-        // and that requires async runtime.
-        // It is possible to fix this by using
-        // a dedicated thread just to handle shutdown.
-        // But for now, we just return Ok.
+        self.inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {}", e)))?
+            .take();
+
         Ok(())
     }
 
-- 
2.43.0


From 8a61edb6f96417a6eff73781ebddeb240efe7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 05/32] fix: drop a detached Context only after the context
 stack borrow has ended

---
 opentelemetry/src/context.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index ecad94d..bb24b07 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -464,7 +464,11 @@ impl Drop for ContextGuard {
     fn drop(&mut self) {
         let id = self.cx_pos;
         if id > ContextStack::BASE_POS && id < ContextStack::MAX_POS {
-            CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            // The popped context may hold the last reference to a span or a user
+            // value whose destructor uses the current context, so it must only be
+            // dropped once the context stack is no longer borrowed.
+            let _popped =
+                CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
         }
     }
 }
@@ -543,7 +547,7 @@ impl ContextStack {
     }
 
     #[inline(always)]
-    fn pop_id(&mut self, pos: u16) {
+    fn pop_id(&mut self, pos: u16) -> Option<Context> {
         if pos == ContextStack::BASE_POS || pos == ContextStack::MAX_POS {
             // The empty context is always at the bottom of the [`ContextStack`]
             // and cannot be popped, and the overflow position is invalid, so do
@@ -557,7 +561,7 @@ impl ContextStack {
                     "Attempted to pop the overflow position which is not allowed"
                 }
             );
-            return;
+            return None;
         }
         let len: u16 = self.stack.len() as u16;
         // Are we at the top of the [`ContextStack`]?
@@ -570,8 +574,9 @@ impl ContextStack {
             // empty context is always at the bottom of the stack if the
             // [`ContextStack`] is not empty.
             if let Some(Some(next_cx)) = self.stack.pop() {
-                self.current_cx = next_cx;
+                return Some(std::mem::replace(&mut self.current_cx, next_cx));
             }
+            None
         } else {
             // This is an out of order pop.
             if pos >= len {
@@ -582,10 +587,10 @@ impl ContextStack {
                     stack_length = len,
                     message = "Attempted to pop beyond the end of the context stack"
                 );
-                return;
+                return None;
             }
             // Clear out the entry at the given id.
-            _ = self.stack[pos as usize].take();
+            self.stack[pos as usize].take()
         }
     }
 
-- 
2.43.0


From 24edffbe929f76e944209d8cb1058565d9506440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 06/32] fix: Baggage::remove gives back the removed entry's
 share of the length limit

---
 opentelemetry/src/baggage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index f38d817..7084d17 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -208,7 +208,10 @@ impl Baggage {
     /// Removes a name from the baggage, returning the value
     /// corresponding to the name if the pair was previously in the map.
     pub fn remove<K: AsRef<str>>(&mut self, key: K) -> Option<(StringValue, BaggageMetadata)> {
-        self.inner.remove(key.as_ref())
+        let (key, pair) = self.inner.remove_entry(key.as_ref())?;
+        self.kv_content_len -=
+            key_value_metadata_bytes_size(key.as_str(), pair.0.as_str(), pair.1.as_str());
+        Some(pair)
     }
 
     /// Returns the number of attributes for this baggage
-- 
2.43.0


From e785d3a6e9ecf6595475145a8f0cbc26d4ddf669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 07/32] fix: with_cleared_baggage clears the baggage it is
 documented to clear

---
 opentelemetry/src/baggage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index 7084d17..1b11560 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -415,7 +415,7 @@ impl BaggageExt for Context {
     }
 
     fn with_cleared_baggage(&self) -> Self {
-        self.with_value(Baggage::new())
+        self.with_baggage(Baggage::new())
     }
 
     fn baggage(&self) -> &Baggage {
-- 
2.43.0


From c8b8853c6ac630dc0b2bc0341bb208f9e5acb112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 08/32] fix: hash equal KeyValues alike when they hold a zero
 float

---
 opentelemetry/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/common.rs b/opentelemetry/src/common.rs
index 4fb32ef..1aed80a 100644
--- a/opentelemetry/src/common.rs
+++ b/opentelemetry/src/common.rs
@@ -425,7 +425,9 @@ impl Eq for F64Hashable {}
 
 impl Hash for F64Hashable {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.to_bits().hash(state);
+        // `0.0` and `-0.0` are equal, so they must hash alike.
+        let value = if self.0 == 0.0 { 0.0 } else { self.0 };
+        value.to_bits().hash(state);
     }
 }
 
-- 
2.43.0


From f33aa890a49a56ddce80bbeed1d6f799f7a433f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 09/32] fix: Jaeger extraction ignores an all-zero trace or
 span id

---
 opentelemetry-jaeger-propagator/src/propagator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-jaeger-propagator/src/propagator.rs b/opentelemetry-jaeger-propagator/src/propagator.rs
index dfbbf3b..f37f10e 100644
--- a/opentelemetry-jaeger-propagator/src/propagator.rs
+++ b/opentelemetry-jaeger-propagator/src/propagator.rs
@@ -210,6 +210,7 @@ impl TextMapPropagator for Propagator {
 
     fn extract_with_context(&self, cx: &Context, extractor: &dyn Extractor) -> Context {
         self.extract_span_context(extractor)
+            .filter(|sc| sc.is_valid())
             .map(|sc| cx.with_remote_span_context(sc))
             .unwrap_or_else(|| cx.clone())
     }
-- 
2.43.0


From dd38fc6ff506f17602e9be7fb61e9c69d6edd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 10/32] fix: Jaeger fields() reports the trimmed header name
 that inject sets

---
 opentelemetry-jaeger-propagator/src/propagator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-jaeger-propagator/src/propagator.rs b/opentelemetry-jaeger-propagator/src/propagator.rs
index f37f10e..9280431 100644
--- a/opentelemetry-jaeger-propagator/src/propagator.rs
+++ b/opentelemetry-jaeger-propagator/src/propagator.rs
@@ -67,7 +67,7 @@ impl Propagator {
         Propagator {
             baggage_prefix: custom_baggage_prefix.trim(),
             header_name: custom_header_name.trim(),
-            fields: [custom_header_name.to_owned()],
+            fields: [custom_header_name.trim().to_owned()],
         }
     }
 
-- 
2.43.0


From 057709218e8d4100fc13b819b179f01b5066bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 11/32] fix: NoopTextMapPropagator extraction keeps the given
 context

---
 opentelemetry/src/trace/noop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace/noop.rs b/opentelemetry/src/trace/noop.rs
index ffb4717..3aa22d0 100644
--- a/opentelemetry/src/trace/noop.rs
+++ b/opentelemetry/src/trace/noop.rs
@@ -151,8 +151,8 @@ impl TextMapPropagator for NoopTextMapPropagator {
         // ignored
     }
 
-    fn extract_with_context(&self, _cx: &Context, _extractor: &dyn Extractor) -> Context {
-        Context::current()
+    fn extract_with_context(&self, cx: &Context, _extractor: &dyn Extractor) -> Context {
+        cx.clone()
     }
 
     fn fields(&self) -> FieldIter<'_> {
-- 
2.43.0


From 99ef1cec9b3d66ed215e7146b285aa51c28ce342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 12/32] fix: drop a replaced global provider or propagator
 outside the global lock

---
 opentelemetry/src/global/metrics.rs     | 10 +++++++---
 opentelemetry/src/global/propagation.rs |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/opentelemetry/src/global/metrics.rs b/opentelemetry/src/global/metrics.rs
index 450ba2d..27a68bd 100644
--- a/opentelemetry/src/global/metrics.rs
+++ b/opentelemetry/src/global/metrics.rs
@@ -23,9 +23,13 @@ where
     P: metrics::MeterProvider + Send + Sync + 'static,
 {
     // Try to set the global meter provider. If the RwLock is poisoned, we'll log an error.
-    let mut global_provider = global_meter_provider().write();
-    if let Ok(ref mut provider) = global_provider {
-        **provider = Arc::new(new_provider);
+    let previous_provider = global_meter_provider()
+        .write()
+        .map(|mut provider| std::mem::replace(&mut *provider, Arc::new(new_provider)))
+        .ok();
+    // The lock is released here: dropping the previous provider may shut it down,
+    // and that runs user code which may use the global meter provider.
+    if previous_provider.is_some() {
         otel_info!(name: "MeterProvider.GlobalSet", message = "Global meter provider is set. Meters can now be created using global::meter() or global::meter_with_scope().");
     } else {
         otel_error!(name: "MeterProvider.GlobalSetFailed", message = "Setting global meter provider failed. Meters created using global::meter() or global::meter_with_scope() will not function. Report this issue in OpenTelemetry repo.");
diff --git a/opentelemetry/src/global/propagation.rs b/opentelemetry/src/global/propagation.rs
index 4a8a296..c299d9a 100644
--- a/opentelemetry/src/global/propagation.rs
+++ b/opentelemetry/src/global/propagation.rs
@@ -23,9 +23,12 @@ fn default_text_map_propagator() -> &'static NoopTextMapPropagator {
 
 /// Sets the given [`TextMapPropagator`] propagator as the current global propagator.
 pub fn set_text_map_propagator<P: TextMapPropagator + Send + Sync + 'static>(propagator: P) {
-    let _lock = global_text_map_propagator()
+    // The previous propagator is dropped after the lock has been released.
+    let _previous = global_text_map_propagator()
         .write()
-        .map(|mut global_propagator| *global_propagator = Box::new(propagator));
+        .map(|mut global_propagator| {
+            std::mem::replace(&mut *global_propagator, Box::new(propagator))
+        });
 }
 
 /// Executes a closure with a reference to the current global [`TextMapPropagator`] propagator.
-- 
2.43.0


From cf681988ee81841e7435ccd3a738897613847ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 13/32] fix: BatchSpanProcessor flush and shutdown export
 everything that is buffered

---
 opentelemetry-sdk/src/trace/span_processor.rs | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 595099e..5ecb775 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -445,8 +445,8 @@ impl BatchSpanProcessor {
         }
     }
 
-    // This method gets upto `max_export_batch_size` amount of spans from the channel and exports them.
-    // It returns the result of the export operation.
+    // This method gets the buffered spans from the channel and exports them, in batches of
+    // upto `max_export_batch_size`. It returns an error if the export of any batch failed.
     // It expects the span vec to be empty when it's called.
     #[inline]
     fn get_spans_and_export<E>(
@@ -460,18 +460,32 @@ impl BatchSpanProcessor {
     where
         E: SpanExporter + Send + Sync + 'static,
     {
-        // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
-        while let Ok(span) = spans_receiver.try_recv() {
-            spans.push(span);
-            if spans.len() == config.max_export_batch_size {
-                break;
+        let mut result = OTelSdkResult::Ok(());
+        let mut total_exported_spans: usize = 0;
+
+        loop {
+            // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
+            while let Ok(span) = spans_receiver.try_recv() {
+                spans.push(span);
+                if spans.len() == config.max_export_batch_size {
+                    break;
+                }
+            }
+
+            let count_of_spans = spans.len(); // Count of spans that will be exported
+            let batch_result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            if batch_result.is_err() {
+                result = batch_result;
             }
-        }
 
-        let count_of_spans = spans.len(); // Count of spans that will be exported
-        let result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
 
-        current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
+            // Stop once the channel is empty, or everything it can have held at the start is exported.
+            total_exported_spans += count_of_spans;
+            if count_of_spans == 0 || total_exported_spans >= config.max_queue_size {
+                break;
+            }
+        }
         result
     }
 
-- 
2.43.0


From a1597646b8030f17c7cdf20f702d8146575c69c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 14/32] fix: BatchSpanProcessor shutdown shuts the exporter
 down

---
 opentelemetry-sdk/src/trace/span_processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 5ecb775..a23b8c1 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -373,6 +373,7 @@ impl BatchSpanProcessor {
                                     &current_batch_size,
                                     &config,
                                 );
+                                let _ = exporter.shutdown();
                                 let _ = sender.send(result);
 
                                 otel_debug!(
-- 
2.43.0


From 0ae6ecedd900018a7404cca33c2135bbab049e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 15/32] fix: batch processors count an item before the worker
 can see it, and only if it is enqueued

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 13 ++++++++-----
 opentelemetry-sdk/src/trace/span_processor.rs     | 10 ++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 7f37914..c605f8b 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -154,6 +154,9 @@ impl Debug for BatchLogProcessor {
 
 impl LogProcessor for BatchLogProcessor {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        // Count the record before it becomes visible to the worker, so that the worker never
+        // subtracts a record that has not been added yet.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self
             .logs_sender
             .try_send(Box::new((record.clone(), instrumentation.clone())));
@@ -162,11 +165,9 @@ impl LogProcessor for BatchLogProcessor {
         match result {
             Ok(_) => {
                 // Successfully sent the log record to the data channel.
-                // Increment the current batch size and check if it has reached
-                // the max export batch size.
-                if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1
-                    >= self.max_export_batch_size
-                {
+                // Check if the current batch size has reached the max export
+                // batch size.
+                if batch_size >= self.max_export_batch_size {
                     // Check if the a control message for exporting logs is
                     // already sent to the worker thread. If not, send a control
                     // message to export logs. `export_log_message_sent` is set
@@ -202,6 +203,7 @@ impl LogProcessor for BatchLogProcessor {
                 }
             }
             Err(mpsc::TrySendError::Full(_)) => {
+                self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
                 // Increment dropped logs count. The first time we have to drop
                 // a log, emit a warning.
                 if self.dropped_logs_count.fetch_add(1, Ordering::Relaxed) == 0 {
@@ -210,6 +212,7 @@ impl LogProcessor for BatchLogProcessor {
                 }
             }
             Err(mpsc::TrySendError::Disconnected(_)) => {
+                self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
                 // Given background thread is the only receiver, and it's
                 // disconnected, it indicates the thread is shutdown
                 otel_warn!(
diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index a23b8c1..e86ddb6 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -537,9 +537,13 @@ impl SpanProcessor for BatchSpanProcessor {
             );
             return;
         }
+        // Count the span before it becomes visible to the worker, so that the worker never
+        // subtracts a span that has not been added yet.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self.span_sender.try_send(span);
 
         if result.is_err() {
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
             // Increment dropped span count. The first time we have to drop a span,
             // emit a warning.
             if self.dropped_span_count.fetch_add(1, Ordering::Relaxed) == 0 {
@@ -547,10 +551,8 @@ impl SpanProcessor for BatchSpanProcessor {
                     message = "BatchSpanProcessor dropped a Span due to queue full/internal errors. No further internal log will be emitted for further drops until Shutdown. During Shutdown time, a log will be emitted with exact count of total Spans dropped.");
             }
         }
-        // At this point, sending the span to the data channel was successful.
-        // Increment the current batch size and check if it has reached the max export batch size.
-        if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1 >= self.max_export_batch_size
-        {
+        // Check if the current batch size has reached the max export batch size.
+        if batch_size >= self.max_export_batch_size {
             // Check if the a control message for exporting spans is already sent to the worker thread.
             // If not, send a control message to export spans.
             // `export_span_message_sent` is set to false ONLY when the worker thread has processed the control message.
-- 
2.43.0


From 9129df3663ea7bd4c2e7b2b8f0584f78feef8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 16/32] fix: BatchLogProcessor flush cannot spin or miss
 records when its counter lags, and reports any failed batch

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index c605f8b..77b5a3a 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -371,11 +371,11 @@ impl BatchLogProcessor {
                 where
                     E: LogExporter + Send + Sync + 'static,
                 {
-                    let target = current_batch_size.load(Ordering::Relaxed); // `target` is used to determine the stopping criteria for exporting logs.
                     let mut result = OTelSdkResult::Ok(());
                     let mut total_exported_logs: usize = 0;
 
-                    while target > 0 && total_exported_logs < target {
+                    // Everything that is buffered at the start is within the next `max_queue_size` logs.
+                    while total_exported_logs < config.max_queue_size {
                         // Get upto `max_export_batch_size` amount of logs log records from the channel and push them to the logs vec
                         while let Ok(log) = logs_receiver.try_recv() {
                             logs.push(log);
@@ -387,9 +387,16 @@ impl BatchLogProcessor {
                         let count_of_logs = logs.len(); // Count of logs that will be exported
                         total_exported_logs += count_of_logs;
 
-                        result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
+                        let batch_result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
+                        if batch_result.is_err() {
+                            result = batch_result;
+                        }
 
                         current_batch_size.fetch_sub(count_of_logs, Ordering::Relaxed);
+
+                        if count_of_logs == 0 {
+                            break; // The channel is empty.
+                        }
                     }
                     result
                 }
-- 
2.43.0


From dfc33011edb16cade3a5fd5b5ed3da3ff9c42531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 17/32] fix: SimpleSpanProcessor exports with telemetry
 suppressed

---
 opentelemetry-sdk/src/trace/span_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index e86ddb6..50d4d1c 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -134,6 +134,8 @@ impl<T: SpanExporter> SpanProcessor for SimpleSpanProcessor<T> {
             return;
         }
 
+        // The exporter must not generate spans that end up in this processor again.
+        let _suppress_guard = Context::enter_telemetry_suppressed_scope();
         let result = self
             .exporter
             .lock()
-- 
2.43.0


From 5500fccc371ce9eabf12a6ba8cdf51d2dbc5a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 18/32] fix: async-runtime export workers run with telemetry
 suppressed

---
 .../src/logs/log_processor_with_async_runtime.rs       | 10 +++++++---
 .../src/metrics/periodic_reader_with_async_runtime.rs  |  9 ++++++---
 .../src/trace/span_processor_with_async_runtime.rs     |  8 +++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index 961fa99..00ed5aa 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -4,7 +4,9 @@ use crate::{
     Resource,
 };
 
-use opentelemetry::{otel_debug, otel_error, otel_warn, InstrumentationScope};
+use opentelemetry::{
+    context::FutureExt as _, otel_debug, otel_error, otel_warn, Context, InstrumentationScope,
+};
 
 use std::{
     fmt::{self, Debug, Formatter},
@@ -126,7 +128,7 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
         let inner_runtime = runtime.clone();
 
         // Spawn worker process via user-defined spawn function.
-        runtime.spawn(async move {
+        let worker = async move {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
@@ -204,7 +206,9 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
                     }
                 }
             }
-        });
+        };
+        // The exporter must not generate logs that end up in this processor again.
+        runtime.spawn(worker.with_context(Context::new().with_telemetry_suppressed()));
         // Return batch processor with link to worker
         BatchLogProcessor {
             message_sender,
diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 03e0230..a1aa20e 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -11,7 +11,7 @@ use futures_util::{
     stream::{self, FusedStream},
     StreamExt,
 };
-use opentelemetry::{otel_debug, otel_error};
+use opentelemetry::{context::FutureExt as _, otel_debug, otel_error, Context};
 
 use crate::runtime::{to_interval_stream, Runtime};
 use crate::{
@@ -111,7 +111,7 @@ where
         let worker = move |reader: &PeriodicReader<E>| {
             let runtime = self.runtime.clone();
             let reader = reader.clone();
-            self.runtime.spawn(async move {
+            let worker = async move {
                 let ticker = to_interval_stream(runtime.clone(), self.interval)
                     .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                     .map(|_| Message::Export);
@@ -127,7 +127,10 @@ where
                 }
                 .run(messages)
                 .await
-            });
+            };
+            // Collecting and exporting must not generate telemetry of its own.
+            self.runtime
+                .spawn(worker.with_context(Context::new().with_telemetry_suppressed()));
         };
 
         otel_debug!(
diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index cb4d2fc..7b985d2 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -13,7 +13,7 @@ use futures_util::{
     stream::{self, FusedStream, FuturesUnordered},
     StreamExt as _,
 };
-use opentelemetry::Context;
+use opentelemetry::{context::FutureExt as _, Context};
 use opentelemetry::{otel_debug, otel_error, otel_warn};
 use std::fmt;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -353,7 +353,7 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
 
         let inner_runtime = runtime.clone();
         // Spawn worker process via user-defined spawn function.
-        runtime.spawn(async move {
+        let worker = async move {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
@@ -371,7 +371,9 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
             };
 
             processor.run(messages).await
-        });
+        };
+        // The exporter must not generate spans that end up in this processor again.
+        runtime.spawn(worker.with_context(Context::new().with_telemetry_suppressed()));
 
         // Return batch processor with link to worker
         BatchSpanProcessor {
-- 
2.43.0


From d937e1471287d7b67c6af248b75b757b37ea36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 19/32] fix: async-runtime BatchSpanProcessor acknowledges
 shutdown after the exporter is shut down

---
 .../src/trace/span_processor_with_async_runtime.rs            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index 7b985d2..7359c83 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -286,8 +286,10 @@ impl<E: SpanExporter, R: RuntimeChannel> BatchSpanProcessorInternal<E, R> {
             }
             // Stream has terminated or processor is shutdown, return to finish execution.
             BatchMessage::Shutdown(ch) => {
-                self.flush(Some(ch)).await;
+                let result = self.export().await;
+                while self.export_tasks.next().await.is_some() {}
                 let _ = self.exporter.shutdown();
+                let _ = ch.send(result);
                 return false;
             }
             // propagate the resource
-- 
2.43.0


From 279049700b45f3c66154a399e306c39c44a03708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 20/32] fix: SimpleConcurrentLogProcessor exports with
 telemetry suppressed

---
 opentelemetry-sdk/src/logs/concurrent_log_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
index d77a0cc..2de55eb 100644
--- a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
@@ -1,4 +1,4 @@
-use opentelemetry::{otel_info, InstrumentationScope};
+use opentelemetry::{otel_info, Context, InstrumentationScope};
 
 use crate::{error::OTelSdkResult, Resource};
 
@@ -26,6 +26,8 @@ impl<T: LogExporter> SimpleConcurrentLogProcessor<T> {
 
 impl<T: LogExporter> LogProcessor for SimpleConcurrentLogProcessor<T> {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        let _suppress_guard = Context::enter_telemetry_suppressed_scope();
+
         let log_tuple = &[(record as &SdkLogRecord, instrumentation)];
         let result = futures_executor::block_on(self.exporter.export(LogBatch::new(log_tuple)));
         if let Err(err) = result {
-- 
2.43.0


From 1f8111e0db4a5422204bb900ae54870c16e07126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 21/32] fix: BatchLogProcessor shutdown reports the result of
 its final export

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 77b5a3a..20e6112 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -276,13 +276,13 @@ impl LogProcessor for BatchLogProcessor {
             Ok(_) => {
                 receiver
                     .recv_timeout(self.shutdown_timeout)
-                    .map(|_| {
+                    .map(|result| {
                         // join the background thread after receiving back the
                         // shutdown signal
                         if let Some(handle) = self.handle.lock().unwrap().take() {
                             handle.join().unwrap();
                         }
-                        OTelSdkResult::Ok(())
+                        result
                     })
                     .map_err(|err| match err {
                         RecvTimeoutError::Timeout => {
-- 
2.43.0


From 18416f317840fe52e7c31e2f5c5409521b63b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 22/32] fix: a span with an invalid active parent starts a new
 trace

An active span whose span context is invalid (a no-op span, or one created
while telemetry was suppressed or after shutdown) was taken as parent and its
all-zero trace id was given to the new span, which was then recorded and
exported with an invalid trace id. Such a span is a root span: its trace id
comes from the builder or the id generator.
---
 opentelemetry-sdk/src/trace/tracer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index 40e55fd..6e60667 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -213,7 +213,12 @@ impl opentelemetry::trace::Tracer for SdkTracer {
         };
 
         // Build context for sampling decision
-        if let Some(sc) = parent_span.as_ref().map(|parent| parent.span_context()) {
+        // An active span whose context is invalid (e.g. a no-op span) is no parent
+        if let Some(sc) = parent_span
+            .as_ref()
+            .map(|parent| parent.span_context())
+            .filter(|sc| sc.is_valid())
+        {
             trace_id = sc.trace_id();
             psc = sc;
         } else {
-- 
2.43.0


From aad987c99d7cd6d7463d02d54eb674c2d28ce652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 23/32] fix: B3 single-header injection no longer writes multi
 headers

support(UnSpecified) is true for every encoding, so the single-header
encoding wrote the x-b3-* headers too, which fields() does not list.
---
 opentelemetry-zipkin/src/propagator/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-zipkin/src/propagator/mod.rs b/opentelemetry-zipkin/src/propagator/mod.rs
index c91d0cd..db044b4 100644
--- a/opentelemetry-zipkin/src/propagator/mod.rs
+++ b/opentelemetry-zipkin/src/propagator/mod.rs
@@ -243,7 +243,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, value);
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 // if inject_encoding is Unspecified, default to use MultipleHeader
                 injector.set(B3_TRACE_ID_HEADER, span_context.trace_id().to_string());
@@ -262,7 +262,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, flag.to_string())
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 injector.set(B3_SAMPLED_HEADER, flag.to_string())
             }
-- 
2.43.0


From a7bf470dd0c90d36d40e2267bf647a6de40174c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 24/32] fix: traceparent ids, version and flags must have their
 exact length in lowercase hex

---
 .../src/propagation/trace_context.rs            | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/trace_context.rs b/opentelemetry-sdk/src/propagation/trace_context.rs
index 2a6d53e..69ede5a 100644
--- a/opentelemetry-sdk/src/propagation/trace_context.rs
+++ b/opentelemetry-sdk/src/propagation/trace_context.rs
@@ -22,6 +22,10 @@ fn trace_context_header_fields() -> &'static [String; 2] {
         .get_or_init(|| [TRACEPARENT_HEADER.to_owned(), TRACESTATE_HEADER.to_owned()])
 }
 
+fn is_lower_hex(part: &str, len: usize) -> bool {
+    part.len() == len && part.bytes().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f'))
+}
+
 /// Propagates `SpanContext`s in [W3C TraceContext] format under `traceparent` and `tracestate` header.
 ///
 /// The `traceparent` header represents the incoming request in a
@@ -74,19 +78,18 @@ impl TraceContextPropagator {
             return Err(());
         }
 
-        // Ensure trace id is lowercase
-        if parts[1].chars().any(|c| c.is_ascii_uppercase()) {
+        // Ensure every part has its exact length and nothing but lowercase hex digits
+        if !is_lower_hex(parts[0], 2)
+            || !is_lower_hex(parts[1], 32)
+            || !is_lower_hex(parts[2], 16)
+            || !is_lower_hex(parts[3], 2)
+        {
             return Err(());
         }
 
         // Parse trace id section
         let trace_id = TraceId::from_hex(parts[1]).map_err(|_| ())?;
 
-        // Ensure span id is lowercase
-        if parts[2].chars().any(|c| c.is_ascii_uppercase()) {
-            return Err(());
-        }
-
         // Parse span id section
         let span_id = SpanId::from_hex(parts[2]).map_err(|_| ())?;
 
-- 
2.43.0


From c1bb0e9be2943c7ebbbe73352bb7763153485878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 25/32] fix: baggage injection escapes the percent sign that
 extraction decodes

---
 opentelemetry-sdk/src/propagation/baggage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index 78bb81a..d5e707a 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -9,7 +9,13 @@ use std::iter;
 use std::sync::OnceLock;
 
 static BAGGAGE_HEADER: &str = "baggage";
-const FRAGMENT: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b';').add(b',').add(b'=');
+const FRAGMENT: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b';')
+    .add(b',')
+    .add(b'=')
+    .add(b'%');
 
 // TODO Replace this with LazyLock once it is stable.
 static BAGGAGE_FIELDS: OnceLock<[String; 1]> = OnceLock::new();
-- 
2.43.0


From 3719aab5321b0f286a58084ed763ffc3285a5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 26/32] fix: an empty key is not a valid trace state key

---
 opentelemetry/src/trace/span_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index 95863cd..af8e595 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -22,7 +22,7 @@ impl TraceState {
     ///
     /// [W3 Spec]: https://www.w3.org/TR/trace-context/#key
     fn valid_key(key: &str) -> bool {
-        if key.len() > 256 {
+        if key.is_empty() || key.len() > 256 {
             return false;
         }
 
-- 
2.43.0


From e48f1cc36a525da30e1e3115da1a1fd7a8e5d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 27/32] fix: deleting a trace state key removes every entry
 with that key

---
 opentelemetry/src/trace/span_context.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index af8e595..8ab15a6 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -162,9 +162,7 @@ impl TraceState {
     fn delete_from_deque(&self, key: &str) -> TraceState {
         let mut owned = self.clone();
         if let Some(kvs) = owned.0.as_mut() {
-            if let Some(index) = kvs.iter().position(|x| x.0 == key) {
-                kvs.remove(index);
-            }
+            kvs.retain(|x| x.0 != key);
         }
         owned
     }
-- 
2.43.0


From 1b149c982f27fa37361c2dacfd65e52ade6bc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 28/32] fix: key the reported values of delta observable sums
 by sorted attributes

---
 .../src/metrics/internal/precomputed_sum.rs              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
index fc372de..730f916 100644
--- a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
+++ b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
@@ -4,7 +4,7 @@ use crate::metrics::data::{self, AggregatedMetrics, MetricData, SumDataPoint};
 use crate::metrics::Temporality;
 
 use super::aggregate::{AggregateTimeInitiator, AttributeSetFilter};
-use super::{last_value::Assign, AtomicTracker, Number, ValueMap};
+use super::{last_value::Assign, sort_and_dedup, AtomicTracker, Number, ValueMap};
 use super::{ComputeAggregation, Measure};
 use std::{collections::HashMap, sync::Mutex};
 
@@ -71,8 +71,11 @@ impl<T: Number> PrecomputedSum<T> {
         self.value_map
             .collect_and_reset(&mut s_data.data_points, |attributes, aggr| {
                 let value = aggr.value.get_value();
-                new_reported.insert(attributes.clone(), value);
-                let delta = value - *reported.get(&attributes).unwrap_or(&T::default());
+                // The attributes may be in the order the user provided them, which can
+                // differ from one collection to the next for the same attribute set.
+                let key = sort_and_dedup(&attributes);
+                let delta = value - *reported.get(&key).unwrap_or(&T::default());
+                new_reported.insert(key, value);
                 SumDataPoint {
                     attributes,
                     value: delta,
-- 
2.43.0


From ffc22c48aeda4dba823fa4f76ea98459a5d4ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:25 +0000
Subject: [PATCH 29/32] fix: views naming one stream in different case do not
 record a measurement twice

---
 opentelemetry-sdk/src/metrics/pipeline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 05d2861..83b5eb7 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -273,7 +273,10 @@ where
             };
             matched = true;
 
-            let id = self.inst_id(kind, &stream);
+            // Same normalization as the aggregator cache: streams whose names differ only in case
+            // share one aggregator.
+            let mut id = self.inst_id(kind, &stream);
+            id.normalize();
             if seen.contains(&id) {
                 continue; // This aggregator has already been added
             }
-- 
2.43.0


From 5047818200b429ad8906aa8730ec0acb1fc2adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 30/32] fix: OTLP spans carry the schema URL of their own scope

Grouping spans by scope put the schema URL of the resource on every
scope, so the one the scope was created with was never sent.
---
 opentelemetry-proto/src/transform/trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/trace.rs b/opentelemetry-proto/src/transform/trace.rs
index 636296f..a423ec6 100644
--- a/opentelemetry-proto/src/transform/trace.rs
+++ b/opentelemetry-proto/src/transform/trace.rs
@@ -169,7 +169,10 @@ pub mod tonic {
             .into_iter()
             .map(|(instrumentation, span_records)| ScopeSpans {
                 scope: Some((instrumentation, None).into()),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
                 spans: span_records
                     .into_iter()
                     .map(|span_data| span_data.clone().into())
-- 
2.43.0


From 88b5b458a3ee36d577fb1f1f4b92bf187e9f00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 31/32] fix: OTLP logs keep the version, attributes and schema
 URL of their scope

Grouping a batch always replaced the scope by one that has a name only,
even for records without a target, and put the schema URL of the
resource on it. Records of scopes that share a name were merged.
---
 opentelemetry-proto/src/transform/logs.rs | 40 +++++++++--------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index f1a992f..ef1d963 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -2,10 +2,7 @@
 pub mod tonic {
     use crate::{
         tonic::{
-            common::v1::{
-                any_value::Value, AnyValue, ArrayValue, InstrumentationScope, KeyValue,
-                KeyValueList,
-            },
+            common::v1::{any_value::Value, AnyValue, ArrayValue, KeyValue, KeyValueList},
             logs::v1::{LogRecord, ResourceLogs, ScopeLogs, SeverityNumber},
             resource::v1::Resource,
         },
@@ -168,41 +165,34 @@ pub mod tonic {
         logs: LogBatch<'_>,
         resource: &ResourceAttributesWithSchema,
     ) -> Vec<ResourceLogs> {
-        // Group logs by target or instrumentation name
+        // Group logs by instrumentation scope and target
         let scope_map = logs.iter().fold(
             HashMap::new(),
             |mut scope_map: HashMap<
-                Cow<'static, str>,
-                Vec<(
-                    &opentelemetry_sdk::logs::SdkLogRecord,
+                (
                     &opentelemetry::InstrumentationScope,
-                )>,
+                    Option<&Cow<'static, str>>,
+                ),
+                Vec<&opentelemetry_sdk::logs::SdkLogRecord>,
             >,
              (log_record, instrumentation)| {
-                let key = log_record
-                    .target()
-                    .cloned()
-                    .unwrap_or_else(|| Cow::Owned(instrumentation.name().to_owned()));
                 scope_map
-                    .entry(key)
+                    .entry((instrumentation, log_record.target()))
                     .or_default()
-                    .push((log_record, instrumentation));
+                    .push(log_record);
                 scope_map
             },
         );
 
         let scope_logs = scope_map
             .into_iter()
-            .map(|(key, log_data)| ScopeLogs {
-                scope: Some(InstrumentationScope::from((
-                    log_data.first().unwrap().1,
-                    Some(key.into_owned().into()),
-                ))),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
-                log_records: log_data
-                    .into_iter()
-                    .map(|(log_record, _)| log_record.into())
-                    .collect(),
+            .map(|((instrumentation, target), log_records)| ScopeLogs {
+                scope: Some((instrumentation, target.cloned()).into()),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
+                log_records: log_records.into_iter().map(Into::into).collect(),
             })
             .collect();
 
-- 
2.43.0


From 6984aad6efdf7d29f82c692433b9fb084231a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:48 +0000
Subject: [PATCH 32/32] fix: OTEL_SERVICE_NAME wins over service.name in
 OTEL_RESOURCE_ATTRIBUTES

---
 opentelemetry-sdk/src/resource/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index bf6f43d..2b4d08c 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -61,10 +61,13 @@ impl Resource {
     ///   If you'd like to start from an empty resource, use [Resource::builder_empty].
     pub fn builder() -> ResourceBuilder {
         ResourceBuilder {
+            // Later detectors take precedence: `SdkProvidedResourceDetector` comes
+            // last so that `OTEL_SERVICE_NAME` wins over a `service.name` in
+            // `OTEL_RESOURCE_ATTRIBUTES`.
             resource: Self::from_detectors(&[
-                Box::new(SdkProvidedResourceDetector),
                 Box::new(TelemetryResourceDetector),
                 Box::new(EnvResourceDetector::new()),
+                Box::new(SdkProvidedResourceDetector),
             ]),
         }
     }
-- 
2.43.0

