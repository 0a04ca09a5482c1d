"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/gen.py`."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


prop("C01", "Deriving a context changes only the item that is set",
     "Deriving a context by adding a value, a span, a remote parent, baggage or telemetry suppression yields a context in which exactly that item is the given one; the active span, the suppression state and every other stored value are those of the context it was derived from, and the original is unchanged. Looking a value up by its type returns the value stored for that type.",
     ["inputs", "histories"], "every context, however it was built up, and every way of deriving a new one",
     "Tests derive a handful of two- or three-item contexts; the guarantee quantifies over every combination of items already present.",
     ["opentelemetry/src/context.rs", "opentelemetry/src/trace/context.rs", "opentelemetry/src/baggage.rs"],
     [("Context::with_value copies the entry map and inserts under TypeId", "opentelemetry/src/context.rs"), ("with_synchronized_span / with_telemetry_suppressed copy the remaining fields", "opentelemetry/src/context.rs")],
     "dataflow (value provenance over inlined MIR): field-wise summary of the returned context",
     "Every returned value is summarised symbolically and compared field by field; sharing of Arc'd values is assumed from std.")

prop("C02", "Attached context is current until its guard drops; futures run under theirs",
     "Attaching a context makes it the current one and dropping its guard makes the newest still attached context current again; a guard dropped out of order only releases its own entry, and an attach beyond the limit changes nothing. A future, stream or sink wrapped with a context is only ever polled while that context is attached, and the context is detached again before the poll returns.",
     ["histories", "programs"], "every nesting and every order of dropping guards, every poll of every wrapped future",
     "Tests exercise a few nestings and orders; the order of guard drops and the number of polls are unbounded.",
     ["opentelemetry/src/context.rs", "opentelemetry/src/context/future_ext.rs"],
     [("ContextStack::push / pop_id and ContextGuard::drop", "opentelemetry/src/context.rs"), ("WithContext's Future/Stream/Sink impls", "opentelemetry/src/context/future_ext.rs")],
     "typestate / path rules over an inlined control-flow graph (inductive step of the stack discipline)",
     "Decides the per-operation rules from which the history statement follows by induction; the induction itself is argued in DESIGN.md.")

prop("C03", "No application code runs under the context stack or a global registry lock",
     "While the library exclusively holds a thread's context stack or the process-wide registry of tracer providers, meter providers or propagators, it runs no application code: no destructor of a value that may hold application data, no callback, trait object or diagnostic subscriber. Hence application destructors and providers may themselves use the current context or the global registry without panicking or deadlocking.",
     ["programs", "histories"], "every application type stored in a context or registered globally, every path of the holding operations",
     "A test would need a destructor that re-enters the API at exactly the guarded point; none exists.",
     ["opentelemetry/src/context.rs", "opentelemetry/src/global/trace.rs", "opentelemetry/src/global/metrics.rs", "opentelemetry/src/global/propagation.rs"],
     [("popped contexts and replaced providers are dropped after the borrow / lock", "opentelemetry/src/context.rs, opentelemetry/src/global")],
     "effect analysis over exclusive-hold regions (drop elaboration facts of MIR)",
     "Poisoned locks are excluded. Known findings: an attach beyond the 65535 limit drops the context and emits its warning while the stack is borrowed.")

prop("C05", "Exporters send nothing and report AlreadyShutdown after shutdown",
     "Once an OTLP (HTTP or gRPC) or stdout exporter of spans, logs or metrics has been shut down, every later export transmits nothing and reports that the exporter is already shut down.",
     ["histories", "configurations"], "every exporter, transport and signal; every sequence of export and shutdown calls",
     "Tests cover shutdown of few exporter/transport combinations and need a collector to observe a transmission.",
     ["opentelemetry-otlp/src/exporter/http", "opentelemetry-otlp/src/exporter/tonic", "opentelemetry-otlp/src/span.rs", "opentelemetry-otlp/src/logs.rs", "opentelemetry-otlp/src/metric.rs", "opentelemetry-stdout/src"],
     [("client taken out on shutdown and required by export", "opentelemetry-otlp/src/exporter"), ("is_shutdown flag", "opentelemetry-stdout/src")],
     "typestate over inlined MIR: transmissions dominated by a state that shutdown closes",
     "Sequential histories; an export racing a shutdown is not ordered by this rule. Poisoned locks excluded.")

prop("C04", "Exporting never observes itself: exporters run with telemetry suppressed",
     "Every export of spans, logs or metrics that the SDK's processors and readers perform runs with telemetry suppressed, in whichever thread or task it runs, and telemetry suppression is undone again when the work ends. While telemetry is suppressed, loggers emit no records and tracers start no recording spans, so exporting telemetry never feeds the pipeline with telemetry about itself.",
     ["programs", "schedules"], "every export path (simple, batch, concurrent, periodic; thread- or runtime-based), every exporter",
     "Tests do not run exporters that emit telemetry themselves through every processor; a missing suppression shows as an endless feedback loop only in such a set-up.",
     ["opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/logs", "opentelemetry-sdk/src/metrics", "opentelemetry-sdk/src/trace/tracer.rs"],
     [("enter_telemetry_suppressed_scope around export / worker threads", "opentelemetry-sdk/src"), ("with_context(... telemetry_suppressed) around spawned workers", "opentelemetry-sdk/src"), ("is_current_telemetry_suppressed checks", "opentelemetry-sdk/src/logs/logger.rs, opentelemetry-sdk/src/trace/tracer.rs")],
     "scope (typestate) analysis over inlined MIR: every exporter call is dominated by a live suppression scope",
     "Exports by user-written processors and readers (manual readers included) are out of scope; so is telemetry an exporter emits from threads it owns itself.")

prop("C07", "A successful flush or shutdown means everything before it was exported",
     "When force-flush or shutdown of a batching span or log processor or of a periodic metric reader reports success, everything handed over before the call and accepted has been passed to the exporter and no export made for the call failed: the worker drains its queue completely and exports it in full before answering, and a reader collects and exports. A shutdown is answered only after the exporter itself has been shut down, and nothing is exported afterwards.",
     ["histories", "schedules", "inputs"], "every queue content and size configuration, every order of records, flushes and shutdowns",
     "Tests flush a few records with the default sizes; queue contents, batch sizes and message orders are unbounded.",
     ["opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/logs/batch_log_processor.rs", "opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs", "opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs", "opentelemetry-sdk/src/metrics/periodic_reader.rs", "opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs"],
     [("force_flush / shutdown send a message and wait for the answer", "opentelemetry-sdk/src"), ("worker loops: drain, export, answer", "opentelemetry-sdk/src")],
     "path rules over the worker's inlined control-flow graph (message typestate, drain evidence, result provenance)",
     "The channels are taken to be FIFO and their capacity to bound their content. Failures of exports that happened before the call are not reported by it.")

prop("C06", "A provider shuts all its components down exactly once and is inert afterwards",
     "Over the life of a tracer, logger or meter provider each of its processors or readers is shut down at most once: by the first shutdown call from any clone or thread, or, if there was none, when the last handle is dropped; later calls report that it is already shut down. A flush or shutdown reaches every component and reports success only if each of them did. Tracers, loggers and meters obtained after shutdown are inert, and no span is started by, or handed to a processor of, a provider that was shut down.",
     ["histories", "schedules", "configurations"], "every set of processors or readers, every sequence and interleaving of flush, shutdown and drop",
     "Tests use one or two processors and sequential calls; the number of components, which of them fail and who calls when are unbounded.",
     ["opentelemetry-sdk/src/trace/provider.rs", "opentelemetry-sdk/src/logs/logger_provider.rs", "opentelemetry-sdk/src/metrics/meter_provider.rs", "opentelemetry-sdk/src/metrics/pipeline.rs", "opentelemetry-sdk/src/trace/span.rs", "opentelemetry-sdk/src/trace/tracer.rs"],
     [("compare_exchange / swap of the shutdown flag, loops over the components", "opentelemetry-sdk/src"), ("Drop of the providers' inner types", "opentelemetry-sdk/src")],
     "typestate over inlined MIR (atomic flip dominates) and for-all loop rules (iteration completeness, result provenance)",
     "Loggers obtained before a shutdown still reach the (shut down) processors; a span whose end races the shutdown may still be handed over.")

prop("C08", "Batching never blocks the producer; queue, drops and batch size stay in bounds",
     "Handing a span or log record to a batching processor never waits: it is a single non-blocking attempt to enter a queue whose capacity is the configured maximum queue size. An item that does not fit is dropped and counted exactly once in the total that shutdown reports, and a queued one is never counted as dropped. No batch passed to an exporter exceeds the configured batch size (itself capped by the queue size), and whenever that many items are queued an export is requested without waiting for the next interval.",
     ["schedules", "inputs", "configurations"], "every queue and batch size, every interleaving of producers with the exporting worker, every queue state",
     "Tests fill a queue once with fixed sizes and one producer; sizes, fill levels and interleavings are unbounded.",
     ["opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/logs/batch_log_processor.rs", "opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs", "opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs", "opentelemetry-sdk/src/runtime.rs"],
     [("on_end / emit: try_send, drop counter, export request", "opentelemetry-sdk/src"), ("worker loops: buffer bounded by max_export_batch_size", "opentelemetry-sdk/src"), ("BatchConfigBuilder::build", "opentelemetry-sdk/src/trace/span_processor.rs, opentelemetry-sdk/src/logs/batch_log_processor.rs")],
     "effect analysis (no waiting call reachable), counting typestate over inlined MIR, capacity provenance, buffer-bound path rule",
     "Bounded channels are trusted to keep their capacity. A maximum batch size of 0 is excluded; items queued while the worker ends are not counted.")

prop("C10", "A recorded span reaches every processor once, with exactly its data",
     "A recording span that ends, explicitly or by being dropped, is handed to every span processor of its provider exactly once, unless the provider was shut down; a span that has ended is never changed or handed over again. What is handed over is exactly the recorded name, kind, parent, times, attributes, events, links and status together with the span's own context, scope and drop counts, and each mutation of a recording span changes the one thing it is named for.",
     ["histories", "inputs", "schedules"], "every sequence of mutations and endings of a span, every set of processors",
     "Tests end a few spans with one processor; the sequence of calls on a span and the data it holds are unbounded.",
     ["opentelemetry-sdk/src/trace/span.rs", "opentelemetry-sdk/src/trace/events.rs", "opentelemetry-sdk/src/trace/links.rs"],
     [("Span::ensure_ended_and_exported / build_export_data", "opentelemetry-sdk/src/trace/span.rs"), ("impl opentelemetry::trace::Span for Span", "opentelemetry-sdk/src/trace/span.rs")],
     "typestate and value provenance over inlined MIR (field-by-field data map; for-all rule over the processors; store effects of each mutator)",
     "The field map is read off the code that builds the exported data, so renames do not matter. Processors' own behaviour is C07/C08.")

prop("C11", "Spans stay within their limits and count everything dropped",
     "A span never holds more attributes, events or links than its provider's configured limits, nor any of its events or links more attributes than theirs, whether they were given at creation, by a sampler or later. Everything left out is counted in the drop count that belongs to it, and nothing that fits is left out or counted.",
     ["inputs", "histories", "configurations"], "every number of attributes, events and links in every order, every combination of limits",
     "Tests cross one limit at a time with the default limits; counts, limits and their combinations are unbounded.",
     ["opentelemetry-sdk/src/trace/span.rs", "opentelemetry-sdk/src/trace/tracer.rs", "opentelemetry-sdk/src/trace/span_limit.rs", "opentelemetry-sdk/src/trace/provider.rs"],
     [("set_attribute / add_event_with_timestamp / add_link", "opentelemetry-sdk/src/trace/span.rs"), ("build_recording_span: truncation and counts", "opentelemetry-sdk/src/trace/tracer.rs")],
     "guarded-growth and truncation rules over inlined MIR: symbolic comparison of lengths against the matching limit on every path",
     "Counters are 32-bit; an excess beyond that range is not considered.")

prop("C12", "A new span takes its identity, parent and data from context and builder",
     "A span started in a context with a valid active span gets that span's trace id and has it as its parent; otherwise it starts a trace of its own, with the trace id given to it or a generated one, and has no parent. Its span id, name, kind, times and status are those given to the builder, with a generated id, internal kind and the present as defaults, its scope is its tracer's, and it is never remote. Starting without a context uses the current one, and a function run within a span runs with that span current.",
     ["inputs", "programs", "configurations"], "every parent context and every combination of builder settings",
     "Tests try a few parents and settings; the combinations of parent validity and optional settings are not enumerated.",
     ["opentelemetry-sdk/src/trace/tracer.rs", "opentelemetry-sdk/src/trace/provider.rs", "opentelemetry/src/trace/tracer.rs", "opentelemetry/src/trace/span_context.rs"],
     [("SdkTracer::build_with_context", "opentelemetry-sdk/src/trace/tracer.rs"), ("SpanBuilder setters, Tracer::start / in_span", "opentelemetry/src/trace/tracer.rs")],
     "path-sensitive value provenance over inlined MIR: value of each component of the new span under each case of parent and setting",
     "That generated ids are unique is a property of the random source and not decided.")

prop("C09", "Sampling decides exactly which spans record and are exported",
     "The configured sampler is asked once for each new span with the span's own trace id, parent, name, kind, attributes and links, and its decision alone determines the span: a dropped span records nothing, reaches no processor and is not marked sampled, a record-only span records but is not marked sampled, a sampled one does both. The sampler's attributes and trace state become the span's, other trace flags come from the parent, and the built-in span processors export sampled spans only.",
     ["inputs", "programs", "configurations"], "every parent context, every sampler and decision, every builder setting",
     "Tests fix a sampler and a parent; the combinations of decision, parent flags, parent validity and builder data are not enumerated.",
     ["opentelemetry-sdk/src/trace/tracer.rs", "opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs", "opentelemetry-sdk/src/trace/sampler.rs"],
     [("SdkTracer::build_with_context, build_recording_span", "opentelemetry-sdk/src/trace/tracer.rs"), ("SpanProcessor::on_end is_sampled checks", "opentelemetry-sdk/src/trace/span_processor.rs")],
     "path-sensitive value provenance over inlined MIR with bit-level evaluation of the sampled flag, per sampling decision",
     "One known finding: the thread-based batch span processor does not filter out unsampled spans.")

prop("C34", "Built-in samplers decide from the parent and the trace id alone, as configured",
     "The always-on and always-off samplers record and sample every span, or drop every span. The parent-based sampler follows the sampled flag of a valid parent, local or remote, and asks its delegate exactly for spans without one. The ratio sampler decides by comparing the trace id alone with a bound that grows with the configured ratio, so that every participant with the same or a higher ratio samples the same traces; a ratio of 0 samples nothing and a ratio of 1 or more everything.",
     ["inputs", "configurations"], "every trace id, ratio, parent context and nesting of samplers",
     "Tests sample statistically with a few ratios; ids and ratios are unbounded, and monotonicity in the ratio is a relation between runs.",
     ["opentelemetry-sdk/src/trace/sampler.rs"],
     [("impl ShouldSample for Sampler", "opentelemetry-sdk/src/trace/sampler.rs"), ("sample_based_on_probability", "opentelemetry-sdk/src/trace/sampler.rs")],
     "per-variant path enumeration, leaf (dependency) analysis of the decision, monotonicity by sign analysis and constant folding of the boundary ratios",
     "The fraction of traces really sampled depends on the distribution of ids and is not decided. The Jaeger remote sampler is experimental and only covered as a delegate.")

prop("C13", "Extracting from any carrier never panics and yields only valid remote parents",
     "Whatever the text headers of a carrier contain, extraction (and injection) by any propagator returns without panicking. The result is the given context, unchanged, or that context with a remote parent whose trace id and span id were both read from the carrier and are valid, or with baggage read from the carrier. Headers with a wrong number of fields, ids of a wrong length or letter case, a forbidden version or an unknown sampling state are refused where the format says so, well-formed ones are accepted, and the sampled flag is exactly what the header says.",
     ["inputs"], "every header value in every carrier, for every propagator in the repository",
     "Tests use tables of headers; the space of header texts is unbounded.",
     ["opentelemetry-sdk/src/propagation", "opentelemetry-jaeger-propagator/src/propagator.rs", "opentelemetry-zipkin/src/propagator/mod.rs", "opentelemetry/src/trace/span_context.rs", "opentelemetry-http/src/lib.rs"],
     [("TraceContextPropagator::extract_span_context", "opentelemetry-sdk/src/propagation/trace_context.rs"), ("Propagator::extract_with_context (B3)", "opentelemetry-zipkin/src/propagator/mod.rs"), ("Propagator::extract_with_context (Jaeger)", "opentelemetry-jaeger-propagator/src/propagator.rs")],
     "panic-site reachability with length-guard discharge, must-check validity rules, and constant propagation over the extraction paths under assumed header shapes",
     "Whether the parsed number equals the header's text (u128::from_str_radix) is the standard library's. A leading '+' in B3 ids is accepted by it; letter case is decided for B3 and W3C, other characters for W3C.")

prop("C14", "Injected headers are exactly what fields() lists and extraction reads",
     "Every propagator writes only header names that its fields() lists, and extraction reads the same names. For a valid span context the written header carries its trace id and span id in the format's fixed-width lowercase hex and exactly its sampling state, in the layout extraction of the same format expects; for an invalid one, or empty baggage, nothing that identifies a span is written. Baggage text is escaped so that none of the format's separators, nor the escape character itself, survives in a key or value.",
     ["inputs", "configurations"], "every span context, baggage and propagator configuration",
     "Tests inject a few contexts and compare strings; ids, flags, trace states and encodings are unbounded.",
     ["opentelemetry-sdk/src/propagation", "opentelemetry-jaeger-propagator/src/propagator.rs", "opentelemetry-zipkin/src/propagator/mod.rs", "opentelemetry/src/propagation/text_map_propagator.rs"],
     [("inject_context of each propagator", "opentelemetry-sdk/src/propagation, opentelemetry-zipkin/src/propagator/mod.rs, opentelemetry-jaeger-propagator/src/propagator.rs"), ("fields() and its header name constants", "the same files"), ("FRAGMENT escape set", "opentelemetry-sdk/src/propagation/baggage.rs")],
     "constant and format-template propagation over the injection paths under assumed span contexts; header-name set comparison between inject, extract and fields",
     "That decoding gives back the encoded text is the percent-encoding library's. A percent sign inside baggage metadata, which is written unescaped, is not covered.")

prop("C15", "Baggage and trace state stay within their limits and grammar",
     "However it is built and changed, a baggage holds at most 64 entries whose keys, values and metadata take at most 8192 bytes together, and no key that is empty or has a character outside the allowed set; an entry that would exceed a limit leaves it unchanged, one that fits is kept under its key with its value and metadata, and removing or replacing an entry gives its share back. A trace state only ever has members whose key and value follow its grammar and length limits; adding a member puts it first and replaces, and deleting a key removes, every earlier member with that key.",
     ["inputs", "histories"], "every sequence of insertions, replacements and removals with every key, value and metadata",
     "Tests try one overlong and one overfull baggage and a few keys; sequences, lengths and characters are unbounded.",
     ["opentelemetry/src/baggage.rs", "opentelemetry/src/trace/span_context.rs"],
     [("Baggage::insert_with_metadata / remove, key check", "opentelemetry/src/baggage.rs"), ("TraceState::valid_key / valid_value / insert / delete / from_key_value", "opentelemetry/src/trace/span_context.rs")],
     "linear-form analysis of the length counter, guarded-insertion rules, per-character constant propagation through the validators, sole-writer rule over the module",
     "Characters of trace state values other than ',' and '=' are not restricted by the code and not decided; the position of '@' in keys is decided for the first character only.")

prop("C23", "An export reports success exactly when the collector accepted the whole batch",
     "An export over OTLP/HTTP, OTLP/gRPC or Zipkin reports success if the batch was transmitted and answered with a 2xx status (or gRPC success), and an error whenever nothing was sent, the transmission failed or the answer had any other status; one export transmits at most once. What is sent is a POST to the configured endpoint with every configured header and, in the encoding its content type announces, all of the batch with the exporter's resource; gRPC calls carry the metadata their interceptor returned. The HTTP client adapters send the request they are given and hand back the status and body they received, or an error.",
     ["inputs", "histories", "configurations"], "every batch, every status code and every transport failure, for every exporter, protocol and HTTP client adapter",
     "Tests export to a mock that accepts; answers, failures, transports and configurations multiply.",
     ["opentelemetry-otlp/src/exporter", "opentelemetry-otlp/src/span.rs", "opentelemetry-otlp/src/logs.rs", "opentelemetry-otlp/src/metric.rs", "opentelemetry-zipkin/src/exporter", "opentelemetry-http/src/lib.rs"],
     [("OtlpHttpClient::export (traces, logs, metrics)", "opentelemetry-otlp/src/exporter/http"), ("Tonic*Client::export", "opentelemetry-otlp/src/exporter/tonic"), ("JsonV2Client::upload, zipkin_export", "opentelemetry-zipkin/src/exporter"), ("HttpClient implementations, ResponseExt::error_for_status", "opentelemetry-http/src/lib.rs")],
     "constant propagation over the exported paths under assumed transmission outcomes and status codes; provenance of method, address, headers, encoding and message; at-most-once analysis",
     "What reqwest, hyper and tonic do on the wire is theirs; partial-success answers count as acceptance, as in the code.")

prop("C18", "Every measurement lands in exactly one stored attribute set, up to the limit",
     "Each measurement is recorded exactly once: under its attributes, in whatever order they are given, or under the single overflow attribute set once the stream holds as many attribute sets as its limit allows. A collection reports every stored attribute set once, with its own value, and the value without attributes if and only if one was recorded; a delta collection takes what it reports out and starts the count again, a cumulative one changes nothing. No measurement falls between two collections: trackers are looked up, updated, stored and counted under the lock that collection excludes.",
     ["inputs", "histories", "schedules"], "every sequence of measurements, attribute orders, limits and collections, interleaved at will",
     "Tests run a few attribute sets through one order of operations; interleavings with collection and attribute permutations are not enumerated.",
     ["opentelemetry-sdk/src/metrics/internal/mod.rs", "opentelemetry-sdk/src/metrics/internal/aggregate.rs"],
     [("ValueMap::measure", "opentelemetry-sdk/src/metrics/internal/mod.rs"), ("ValueMap::collect_readonly / collect_and_reset", "opentelemetry-sdk/src/metrics/internal/mod.rs"), ("cardinality_limit through the aggregations", "opentelemetry-sdk/src/metrics/internal")],
     "must-call and at-most-once path rules, guard-held (lock scope) analysis, key provenance (raw, sorted and deduplicated, overflow), whole-container iteration over inlined MIR",
     "The value without attributes is kept outside the lock: a measurement that races with a delta collection can be reported as zero in one more report; it is not lost. Which of several values for one key is kept is not decided.")

prop("C16", "Data points report exactly what was measured, under the configured temporality",
     "Every data point carries the attributes of one stored set together with its own sum, last value, count, bucket counts, boundaries and, exactly as configured, its sum, minimum and maximum; the difference reported for an observed total is the one to the total reported before for the same attributes in any order. A delta collection covers the time from the end of the one before it to now and a cumulative one the time since the start, and every report, new or reusing an earlier one's memory, states its own interval, temporality and monotonicity. A measurement changes count, sum, extremes and exactly one bucket, the first whose upper boundary is not below it, in one atomic step, and what a delta collection takes out is what it resets.",
     ["inputs", "histories", "schedules"], "every number type, value, attribute set, sequence of measurements and collections, and configuration of the aggregations",
     "Tests check sums, gauges and histograms over a few measurements; reuse of a previous report, mixed attribute orders and interleavings with resets are barely sampled.",
     ["opentelemetry-sdk/src/metrics/internal"],
     [("ComputeAggregation::call of Sum, PrecomputedSum, LastValue, Histogram, ExpoHistogram", "opentelemetry-sdk/src/metrics/internal"), ("Aggregator and AtomicTracker implementations", "opentelemetry-sdk/src/metrics/internal"), ("Measure::call, AttributeSetFilter", "opentelemetry-sdk/src/metrics/internal/aggregate.rs")],
     "constant propagation over temporality, reuse and configuration with field-by-field provenance of reports and data points; must-write and exactly-once path rules; compare-and-exchange loop rules",
     "Which exponential bucket a value falls into, and how buckets merge, is arithmetic this family does not decide; only that one bucket on the value's side grows and that both sides and the scale are rescaled together.")

prop("C17", "Every instrument feeds the streams its views and readers ask for",
     "For every reader, an instrument feeds one stream per distinct stream its matching views ask for, or the default one if no view matches, and a measurement goes once and unchanged to each of them. A stream is aggregated as the view asks or as its kind of instrument prescribes (monotonicity, boundaries, limits and attribute filter included), with the temporality its reader prefers, is reported under its meter's scope with its own name, description and unit, and is shared only by instruments of equal name (up to case), description, unit, kind and number type; dropping or incompatible aggregations make none. Every callback of an observable instrument is registered with every reader and observes through the instrument it belongs to.",
     ["inputs", "programs", "configurations"], "every kind of instrument and number type, every set of views and readers, and every aggregation a view may ask for",
     "Tests try a handful of views on a few kinds; the product of 14 constructors, views, aggregations and readers is sampled very thinly.",
     ["opentelemetry-sdk/src/metrics/meter.rs", "opentelemetry-sdk/src/metrics/pipeline.rs", "opentelemetry-sdk/src/metrics/instrument.rs", "opentelemetry-sdk/src/metrics/internal/aggregate.rs"],
     [("SdkMeter's InstrumentProvider methods", "opentelemetry-sdk/src/metrics/meter.rs"), ("Resolver::measures, Inserter::instrument / cached_aggregator, aggregate_fn, is_aggregator_compatible", "opentelemetry-sdk/src/metrics/pipeline.rs"), ("AggregateBuilder", "opentelemetry-sdk/src/metrics/internal/aggregate.rs"), ("ResolvedMeasures::measure, Observable::observe", "opentelemetry-sdk/src/metrics/instrument.rs")],
     "case-by-case constant propagation through each constructor under assumed view answers, with provenance of every field of the aggregation, the report entry, the cache key and the returned instrument; for-all-elements loop rules",
     "Whether two streams conflict is only logged and not decided. One view that asks for something impossible turns the whole instrument into one that measures nothing, as in the code.")

prop("C37", "Meters reach every reader; views match and reshape streams as declared",
     "Every reader given to a meter provider is attached to its own pipeline with every view, in the order given, and meters of one provider with equal scope are one meter that feeds all of them. A reader or exporter reports the temporality its preference prescribes for each kind of instrument. A view made from criteria matches exactly the instruments that agree with every criterion given (name or wildcard pattern, description, kind, unit, scope name, version and schema URL), and none if no criterion is given or one name is given to all that fit a pattern; the stream it asks for has the parts its mask sets and otherwise those of the instrument.",
     ["inputs", "configurations"], "every combination of criteria and mask, every kind of instrument, every number of readers and views",
     "Tests try a few views and one preference each; criteria, masks and kinds combine freely.",
     ["opentelemetry-sdk/src/metrics/meter_provider.rs", "opentelemetry-sdk/src/metrics/view.rs", "opentelemetry-sdk/src/metrics/instrument.rs", "opentelemetry-sdk/src/metrics/pipeline.rs", "opentelemetry-sdk/src/metrics/reader.rs"],
     [("MeterProviderBuilder, SdkMeterProvider::meter_with_scope", "opentelemetry-sdk/src/metrics/meter_provider.rs"), ("new_view", "opentelemetry-sdk/src/metrics/view.rs"), ("Instrument::matches*", "opentelemetry-sdk/src/metrics/instrument.rs"), ("temporality of readers and exporters", "opentelemetry-sdk/src/metrics, opentelemetry-otlp/src/metric.rs, opentelemetry-stdout/src/metrics")],
     "path rules and table comparison by constant propagation per kind and preference; branch-condition provenance in view matching; for-all-readers loop rules",
     "What a wildcard pattern matches is the glob crate's. Attributes of the scope criteria are ignored by views, as in the code.")

prop("C35", "A collection runs every callback and reports each stream that has data once",
     "One collection runs every registered callback before it asks any stream, asks every stream of every scope once, and reports the provider's resource. A stream that has data points appears in exactly one entry, under its own scope with its own name, description, unit and data, one without any appears in none, and nothing of an earlier report whose memory is reused is left over. A reader collects once from the pipeline it was registered with and reports success only if that succeeded; a periodic reader exports exactly what it collected, once, unless there is nothing to export.",
     ["inputs", "histories", "schedules"], "every set of scopes, streams and callbacks, every answer of a stream, every state of a reused report",
     "Tests collect from one or two streams into a fresh or an equal report; the combinations of empty and full streams and scopes with reused entries are unbounded.",
     ["opentelemetry-sdk/src/metrics/pipeline.rs", "opentelemetry-sdk/src/metrics/manual_reader.rs", "opentelemetry-sdk/src/metrics/periodic_reader.rs", "opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs"],
     [("Pipeline's SdkProducer::produce", "opentelemetry-sdk/src/metrics/pipeline.rs"), ("MetricReader::collect of ManualReader, PeriodicReader", "opentelemetry-sdk/src/metrics"), ("collect_and_export", "opentelemetry-sdk/src/metrics/periodic_reader.rs")],
     "for-all-elements loop rules, counter discipline for in-place reuse, per-answer constant propagation with field provenance of the reported entries",
     "What the data of a stream is, is C16's and C18's. Observable callbacks of one provider run once per reader, as in the code.")

prop("C25", "The API hands every call on to the installed implementation once, unchanged",
     "Every call on a type-erased span, tracer or provider, on the span of a context, or on an instrument reaches the implementation behind it exactly once, with the given arguments, and its answer comes back; spans started without a context use the current one, and events and ends without a time get the current time. The global registries hand out the provider or propagator installed last, and installing one returns the one before. What is given to an instrument or scope builder (name, description, unit, limit, boundaries, callbacks; version, schema URL, attributes) reaches the provider's constructor of that kind and number type, and nothing else does.",
     ["inputs", "programs"], "every method, argument and implementation installed behind the API",
     "Tests use the API with one SDK and look at a few effects; each forwarding method, instrument kind and number type is its own chance to drop or change something.",
     ["opentelemetry/src/global", "opentelemetry/src/trace", "opentelemetry/src/metrics", "opentelemetry/src/common.rs"],
     [("BoxedSpan, BoxedTracer, GlobalTracerProvider, ObjectSafe* blanket implementations", "opentelemetry/src/global/trace.rs"), ("SpanRef, TraceContextExt", "opentelemetry/src/trace/context.rs"), ("Span and Tracer default methods", "opentelemetry/src/trace"), ("Meter, InstrumentBuilder and its siblings", "opentelemetry/src/metrics"), ("set_/get functions of the registries", "opentelemetry/src/global")],
     "exactly-once path rule and argument provenance for every forwarding method; field-wise summaries of builders",
     "A poisoned lock makes a span reference do nothing, as in the code. Who locks while calling is C03's.")

prop("C27", "A composite propagator is the composition of its parts, in their order",
     "Injecting with a composite propagator has every part inject the given context into the given carrier, and nothing else, in the order the parts were given; extracting has every part extract from the carrier, the first into the given context and each other into what the one before it made, and returns the last result. Its fields are those of all its parts. Injecting and extracting without naming a context use the current one.",
     ["inputs", "configurations"], "every list of propagators, context and carrier",
     "Tests combine two propagators; which parts, how many and in what order is up to the user.",
     ["opentelemetry/src/propagation"],
     [("TextMapCompositePropagator", "opentelemetry/src/propagation/composite.rs"), ("TextMapPropagator::inject / extract, FieldIter", "opentelemetry/src/propagation/text_map_propagator.rs")],
     "for-all-elements loop rules and provenance of the accumulated context",
     "What each part writes and reads is C13's and C14's.")

prop("C22", "OTLP messages carry every field of the telemetry they were made from",
     "Every span, log record and metric given for export appears exactly once in the outgoing message, under its own resource and its own scope with their attributes, version and schema URLs. Each message field has the value of the telemetry field it stands for (ids, names, kinds, status, times in nanoseconds, flags, attributes, events, links, dropped counts, severities, bodies, points, bounds, temporality), and what the telemetry leaves out is left out. Nothing else is filled in, and numbers are those of the telemetry wherever the wire format can represent them.",
     ["inputs"], "every span, log record, metric and batch, with every combination of optional fields, kinds, value types and severities",
     "Tests convert a few records and compare a few fields; a field that is swapped, dropped or filled from a neighbour in one variant, or a grouping that loses an element, needs the variant or the batch that shows it.",
     ["opentelemetry-proto/src/transform", "opentelemetry-sdk/src/logs/export.rs"],
     [("span conversions, group_spans_by_resource_and_scope", "opentelemetry-proto/src/transform/trace.rs"), ("log conversions, group_logs_by_resource_and_scope", "opentelemetry-proto/src/transform/logs.rs"), ("metric conversions", "opentelemetry-proto/src/transform/metrics.rs"), ("common conversions", "opentelemetry-proto/src/transform/common.rs"), ("tracez conversions", "opentelemetry-proto/src/transform/tracez.rs")],
     "path-sensitive value summaries of every conversion, compared field by field with a table per message; completeness of the table against the message types; for-all-elements loop rules for grouping",
     "A log target that is set names the scope in place of the record's own scope, as in the code. Unsigned 64-bit values above the signed range are reported as zero, as in the code. The byte encoding is prost's.")

prop("C36", "Invalid instruments measure nothing; valid ones are made",
     "An instrument is made only if its name is 1 to 255 bytes long, starts with an ASCII letter and has only ASCII letters, digits, '_', '.', '-' and '/', its unit is at most 63 ASCII bytes, and histogram boundaries given are finite and strictly increasing; any other is one that measures nothing, whose callbacks never run and which no reader ever sees. Every instrument that satisfies this is made. A view made from criteria that asks for boundaries that are not strictly increasing, or a maximum scale outside -10 to 20, applies to no instrument.",
     ["inputs"], "every kind and number type of instrument, every name, unit, list of boundaries and scale",
     "Tests check the validators on some twenty names and two units, and one kind of instrument for boundaries; each constructor and character class is another case.",
     ["opentelemetry-sdk/src/metrics/meter.rs", "opentelemetry-sdk/src/metrics/view.rs", "opentelemetry-sdk/src/metrics/aggregation.rs"],
     [("SdkMeter's InstrumentProvider methods, validate_*", "opentelemetry-sdk/src/metrics/meter.rs"), ("new_view", "opentelemetry-sdk/src/metrics/view.rs"), ("Aggregation::validate", "opentelemetry-sdk/src/metrics/aggregation.rs")],
     "constant propagation of assumed lengths, character classes and neighbouring boundaries through every constructor (reachability of registration); per-element loop and predicate rules",
     "With default features; the experimental feature that turns name validation off does just that. A view's boundaries that are NaN pass, as in the code.")

prop("C20", "OTLP exporters are set up by code first, then signal, then general variables",
     "Building an OTLP exporter takes its endpoint, timeout, headers and compression from what was set in code, else from the signal's environment variable, else from the general one, else from the documented default; an unusable endpoint, compression or TLS setting makes the build fail, or the next source count where that is documented. A general HTTP endpoint gets the signal's path appended with one slash between, others are used as they are; headers given in the environment are added to those set in code. Every outgoing gRPC request carries all the metadata and then goes through the given interceptor, and each builder method changes exactly the setting it names.",
     ["configurations", "inputs"], "every signal and transport, every combination of settings in code, signal variables and general variables, each unset, unusable or usable",
     "Tests try the precedence of one setting for one signal at a time, on the helper functions; which variables, paths and settings the eighteen ways to build an exporter really use is not looked at.",
     ["opentelemetry-otlp/src/exporter", "opentelemetry-otlp/src/span.rs", "opentelemetry-otlp/src/logs.rs", "opentelemetry-otlp/src/metric.rs"],
     [("HttpExporterBuilder::build_client, resolve_http_endpoint, build_endpoint_uri, add_header_from_string", "opentelemetry-otlp/src/exporter/http/mod.rs"), ("TonicExporterBuilder::build_channel, resolve_endpoint, resolve_compression, merge_metadata_with_headers_from_env", "opentelemetry-otlp/src/exporter/tonic/mod.rs"), ("resolve_timeout, WithExportConfig", "opentelemetry-otlp/src/exporter/mod.rs")],
     "constant propagation through each build function under every combination of configured sources, with provenance of every setting of the result; for-all-elements rules for headers and metadata",
     "What a text parses to is the parser's. How one line of the header variables is split and decoded is not decided, nor is the choice of a default HTTP client. An unparsable endpoint variable counts as unset over HTTP and fails over gRPC, as in the code.")

prop("C26", "The SDK is set up by code first, then by its variables, then by defaults",
     "Batch processors, span limits, samplers, periodic readers and the Zipkin exporter take each setting from what was set in code, else from its environment variable in the documented unit, else from the documented default; a text that does not parse counts as not set and never makes setup fail, and an export batch is never configured larger than its queue. The sampler variable selects the sampler it names with the ratio of its argument, every other name the default one. Each builder method changes exactly the setting it names, and queues and timers are made with the setting meant for them.",
     ["configurations", "inputs"], "every setting, its variable unset, usable, zero or unusable, alone and together with the others",
     "Tests set a few variables to one value each; the wrong unit, variable, default or clamp for one setting of one component is only seen by trying just that one.",
     ["opentelemetry-sdk/src/trace/config.rs", "opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/logs/batch_log_processor.rs", "opentelemetry-sdk/src/metrics", "opentelemetry-zipkin/src/exporter"],
     [("BatchConfigBuilder (both)", "opentelemetry-sdk/src/trace/span_processor.rs, opentelemetry-sdk/src/logs/batch_log_processor.rs"), ("Config::default, TracerProviderBuilder", "opentelemetry-sdk/src/trace"), ("PeriodicReaderBuilder (both)", "opentelemetry-sdk/src/metrics"), ("get_timeout, get_endpoint, ZipkinExporterBuilder", "opentelemetry-zipkin/src/exporter")],
     "constant propagation through every default, setter and build function for a table of variable texts, compared field by field; provenance of the arguments of queue and timer constructors",
     "Which texts are numbers is the parser's; texts that overflow the setting's type are not looked at. That a ratio outside 0 to 1 samples all or nothing is C34's.")

prop("C19", "Resources: later attributes win, schema URLs never mix, given names come first",
     "A resource made from attributes, from detectors or by merging holds every attribute it was made from and nothing else, a later one replacing an earlier one of the same key; merging keeps a schema URL that only one side has or both agree on, and none when two differ. The default resource names the service from OTEL_SERVICE_NAME, else from OTEL_RESOURCE_ATTRIBUTES, else the documented default, and builder steps add to what is already there. A provider uses the resource it was given, else the default one, and hands it to every processor, reader and exporter.",
     ["inputs", "configurations"], "every list of attributes and detectors, every pair of resources and schema URLs, every combination of the resource variables",
     "Tests merge two or three small resources and set one variable at a time; which layer wins depends on the order of all of them, and a component that misses the resource shows up only in its own exports.",
     ["opentelemetry-sdk/src/resource", "opentelemetry-sdk/src/trace", "opentelemetry-sdk/src/logs", "opentelemetry-sdk/src/metrics"],
     [("Resource::new, from_detectors, merge, ResourceBuilder", "opentelemetry-sdk/src/resource/mod.rs"), ("SdkProvidedResourceDetector, EnvResourceDetector", "opentelemetry-sdk/src/resource"), ("with_resource and build of the provider builders, set_resource of processors", "opentelemetry-sdk/src")],
     "map-overlay summaries of every way to make a resource, constant propagation through the merge table and the service-name detector, provenance of the resource handed to each component",
     "Whether attributes given together with a schema URL override those already in the builder is not decided. How the text of OTEL_RESOURCE_ATTRIBUTES is split is not decided. Batch processors queue the resource with the telemetry and lose it when their queue is full, as in the code.")

prop("C24", "Log bridges hand over every event with its severity, text and typed fields",
     "Every event of the log or tracing crate that the logger has enabled is emitted exactly once as a log record with the severity of its level, its target (and name), its text as the body, and each of its fields as one attribute under the field's own name. Values keep their type and number: booleans, integers that fit 64 bits, floats, bytes, lists and maps as such, larger integers and everything else as text. Nothing of one event is left out because of its other fields.",
     ["inputs"], "every level, target, field name, field type and value, with and without the optional features",
     "Tests log a few fields of a few types at one level; a type, width or field name that is dropped, narrowed or sent to the wrong place needs an event with exactly that.",
     ["opentelemetry-appender-log/src/lib.rs", "opentelemetry-appender-tracing/src/layer.rs"],
     [("OpenTelemetryLogBridge::log, severity_of_level, AttributeVisitor, ValueVisitor, ValueSerializer", "opentelemetry-appender-log/src/lib.rs"), ("OpenTelemetryTracingBridge::on_event, EventVisitor", "opentelemetry-appender-tracing/src/layer.rs")],
     "exactly-once path rules and argument provenance per bridge, constant propagation per level, per field name and per range of integers, in two feature configurations",
     "Under which name an error field is kept is not decided. Fields whose names start with 'log.' that repeat what the log crate already says may be left out or kept.")

NA = "Not decidable by static analysis here: "
prop("C30", "Exponential histograms place every value in the bucket that contains it",
     "Every recorded value falls in the bucket whose bounds contain it at the histogram's current scale, and lowering the scale moves every count to the bucket that contains the old one. The scale is the highest at which all values fit the configured number of buckets. Counts, sums and zero counts stay those of the recorded values.",
     ["inputs", "histories"], "every sequence of measurements, maximum scale and size",
     "Tests place some dozens of values at a few scales; boundaries and rescaling depend on the whole history.",
     ["opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs"],
     [("ExpoHistogramDataPoint", "opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs"), ("ExpoBuckets", "opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs")],
     "", "", na=NA + "it turns on the rounding of logarithms and on index arithmetic over unbounded histories of values, which no dataflow rule bounds; C16 decides the parts that are provenance (which counters become which fields of a point)")
prop("C31", "Ratio sampling selects the configured share of traces",
     "Over uniformly random trace ids, a ratio sampler samples the configured share of traces. A trace sampled at a lower ratio is sampled at every higher one.",
     ["inputs"], "every ratio and trace id", "Tests sample some ten thousand random ids at a few ratios.",
     ["opentelemetry-sdk/src/trace/sampler.rs"], [("sample_based_on_probability", "opentelemetry-sdk/src/trace/sampler.rs")],
     "", "", na=NA + "the realised share is a statement about the distribution of trace ids; C34 decides the comparison and the shift it rests on")
prop("C32", "Generated trace and span ids are unique",
     "No two spans of a process get the same span id, no two traces the same trace id, and no id is all zero.",
     ["histories", "schedules"], "every number of threads and spans", "Tests look at a few generated ids.",
     ["opentelemetry-sdk/src/trace/id_generator"], [("RandomIdGenerator", "opentelemetry-sdk/src/trace/id_generator/mod.rs")],
     "", "", na=NA + "ids come from a random generator, so uniqueness holds with a probability only; C12 decides that spans use what the generator gives")
prop("C33", "Batches leave on time",
     "A batch that is not full is exported within the scheduled delay, a full one at once, and a flush or shutdown returns within its timeout.",
     ["schedules"], "every load, exporter duration and schedule", "Tests wait for one batch under no load.",
     ["opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/logs/batch_log_processor.rs", "opentelemetry-sdk/src/metrics/periodic_reader.rs"],
     [("BatchSpanProcessor worker", "opentelemetry-sdk/src/trace/span_processor.rs"), ("BatchLogProcessor worker", "opentelemetry-sdk/src/logs/batch_log_processor.rs"), ("PeriodicReader worker", "opentelemetry-sdk/src/metrics/periodic_reader.rs")],
     "", "", na=NA + "how long a step takes is a quantity of the run, not of the source; C26 decides that the timers are made with the configured durations and C08 that no producer waits")
prop("C39", "What is injected is what is extracted",
     "For every span context, trace state and baggage that its format can carry, extracting what was injected gives the same value back.",
     ["inputs"], "every context and every text of names, values and metadata", "Tests go round with a few handwritten values.",
     ["opentelemetry-sdk/src/propagation", "opentelemetry-jaeger-propagator/src", "opentelemetry-zipkin/src/propagator"],
     [("TraceContextPropagator, BaggagePropagator", "opentelemetry-sdk/src/propagation"), ("B3 and Jaeger propagators", "opentelemetry-zipkin/src/propagator/mod.rs")],
     "", "", na=NA + "equality after formatting, escaping, splitting and parsing again needs an argument about strings of any length; C13 and C14 decide the headers written and read, the encodings used and what is accepted")

prop("C38", "A log record reaches every processor once, with all that was set on it",
     "Whatever is set on a log record is what it holds, and nothing else changes; every attribute added is kept once, in order, however many there are. Emitting a record hands it, with its logger's scope, to every processor of the provider exactly once, adding only the current span's ids and the time of observation where they are missing. Each processor exports or queues exactly that record and scope, and exporters read every record of a batch, first to last.",
     ["inputs", "histories"], "every record, number of attributes, set of processors, active span and batch",
     "Tests emit records with a handful of attributes to one or two processors; the attribute that no longer fits in place, the second processor or the record at another position in the batch is where one gets lost.",
     ["opentelemetry-sdk/src/logs", "opentelemetry-sdk/src/growable_array.rs"],
     [("SdkLogger::emit, event_enabled", "opentelemetry-sdk/src/logs/logger.rs"), ("SdkLogRecord", "opentelemetry-sdk/src/logs/record.rs"), ("GrowableArray", "opentelemetry-sdk/src/growable_array.rs"), ("LogBatch", "opentelemetry-sdk/src/logs/export.rs"), ("LogProcessor::emit of the processors", "opentelemetry-sdk/src/logs")],
     "for-all-elements and exactly-once path rules, guarded-write and index rules for the attribute array, path-sensitive provenance of every field written",
     "That queued records are all exported is C07's and C08's. Records emitted while telemetry is suppressed go nowhere (C04). A record that does not fit a full queue is dropped and counted (C08).")

prop("C28", "Keys, values and scopes are equal by content, and equal ones hash alike",
     "Two strings, keys and values are equal exactly if their text or content is, however each of them is held; key-values, instrumentation scopes, span contexts and ids exactly if all their parts are, the attributes of a scope in any order. What is equal has the same hash, 0.0 and -0.0 included, and a key hashes as its text does.",
     ["inputs"], "every value, attribute order and way of holding a string",
     "Tests compare a handful of values; the pair of variants, the attribute order or the zero that breaks equality and hashing apart loses or doubles a time series or a scope only when it occurs.",
     ["opentelemetry/src/common.rs", "opentelemetry/src/trace/span_context.rs", "opentelemetry/src/trace_context.rs"],
     [("Key, StringValue, Value, Array, KeyValue, InstrumentationScope", "opentelemetry/src/common.rs"), ("SpanContext, TraceState", "opentelemetry/src/trace/span_context.rs"), ("TraceId, SpanId", "opentelemetry/src/trace_context.rs")],
     "equality and hashing evaluated under assumptions per variant pair and per field; provenance of what is hashed; dominance of sorts",
     "Sorting is trusted to depend on the attributes given only. NaN equals nothing.")
