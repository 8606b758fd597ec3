#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
API = "opentelemetry-api/src/opentelemetry/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("T01", "Batch span export: every ended span once, in order, within bounds",
 "Every sampled span that ends before its batch processor begins shutting down is handed to the exporter exactly once and in the order the processor accepted it, in batches of between one span and the configured maximum batch size. The only exception is a full queue (configured maximum queue size), where the oldest waiting span, and only that one, is discarded to admit the newest; an exporter that fails or raises neither duplicates, reorders nor loses any other span and never disturbs the application thread. Spans that are not sampled are never exported, and at most one export call is in progress at a time. A batch that was handed over stays as it was, even if the exporter keeps it.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every interleaving of threads ending spans, the export worker, flushes, timers and shutdown; every queue and batch size; every exporter outcome",
 "The unit tests run a handful of fixed thread timings with a cooperative exporter; loss, duplication and reordering depend on where the worker, the producers and the flush caller interleave.",
 [SDK+"trace/export/__init__.py"],
 [("BatchSpanProcessor.on_end / _export_batch / worker", SDK+"trace/export/__init__.py:BatchSpanProcessor")],
 ["arguments and results of SpanExporter.export", "returns of on_end"],
 [("queue", "accepted spans not yet handed to the exporter", "BatchSpanProcessor.queue")])

prop("T02", "Batch span export: flush and shutdown complete what they promise",
 "When a forced flush of a batch span processor reports success while no shutdown has begun, every span whose end returned before the flush was called has been handed to the exporter and that export call has returned (or the span had been discarded by a full queue), and a flush reports failure only once its timeout has elapsed. Shutdown returns only after all spans ended before it were handed to the exporter and the exporter was shut down, no export happens after that, and spans ended later are ignored without error. Both calls make the worker act at once instead of at its next scheduled time, and neither ever hangs, whatever other threads are doing.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of concurrent end, flush and shutdown calls (several of each), worker steps, timer expiries and exporter outcomes including slow and failing exports",
 "Existing tests flush and shut down from one thread with an idle worker; the guarantee is about what other threads had finished before the call and about calls that overlap.",
 [SDK+"trace/export/__init__.py"],
 [("BatchSpanProcessor.force_flush / shutdown / _drain_queue / _notify_flush_request_finished", SDK+"trace/export/__init__.py")],
 ["return value and time of force_flush and shutdown", "order of export and shutdown calls seen by the exporter"])

prop("T03", "Batch span export happens promptly without being asked",
 "Without any flush or shutdown, a span accepted by a batch span processor is handed to the exporter no later than one scheduled delay after it was accepted, not counting time the exporter itself spends on earlier batches. As soon as a full batch is waiting, export starts without waiting for the delay to expire. An export that fails or raises does not stop later exports.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every arrival pattern and thread interleaving, every delay, queue and batch size, every exporter outcome",
 "Tests cover single arrival patterns with real clocks and generous sleeps; a lost wake-up or a skipped remainder only shows for particular arrival times relative to the worker's wait.",
 [SDK+"trace/export/__init__.py"],
 [("BatchSpanProcessor.worker wait/timeout computation", SDK+"trace/export/__init__.py"), ("on_end notification when a batch is full", SDK+"trace/export/__init__.py")],
 ["virtual time of SpanExporter.export calls relative to on_end"])

prop("T04", "Span lifecycle: starts once, ends once, immutable afterwards",
 "For a recording span every registered processor is told of the start exactly once before the span is handed to the caller and of the end exactly once no matter how many times or from how many threads end is called; the end time is the one given to (or taken at) the first end. Every attribute, event, link, status and name change made before the end is present in what is exported, in order, and any change attempted after the end is ignored without error and is never visible in the exported span. A span stops reporting that it is recording from the moment its end is reported.",
 ["schedules", "histories", "inputs"],
 "every sequence and every thread interleaving of span operations and end calls",
 "Tests check a few single-threaded sequences; two racing ends or a mutation racing an end are not exercised.",
 [SDK+"trace/__init__.py"],
 [("Span.end / set_attributes / add_event / add_link / set_status / update_name under the span lock", SDK+"trace/__init__.py:Span")],
 ["SpanProcessor.on_start/on_end", "ReadableSpan passed to on_end", "Span.is_recording"])

prop("T05", "Span limits are exact: most recent kept, every discard counted",
 "A span, its events and its links never hold more attributes, events or links than the configured limits, nor string attribute values (also inside sequences) longer than the configured length. When a limit is exceeded the oldest entries give way to the newest, updating an existing key never evicts another, and for each of attributes, events and links the number kept plus the reported dropped count equals the number of distinct additions made. An explicitly given limit takes precedence over the specific environment setting, which takes precedence over the general one and then the default, and an invalid setting is rejected.",
 ["inputs", "histories", "configurations"],
 "every sequence of attribute, event and link additions, every combination of limit arguments and environment settings including zero and unset",
 "Tests exercise one limit at a time with fixed sizes; the accounting must hold for every mix of creation-time and later additions, overwrites, invalid values and limits.",
 [SDK+"trace/__init__.py", SDK+"util/__init__.py", API+"attributes/__init__.py"],
 [("SpanLimits", SDK+"trace/__init__.py"), ("BoundedList", SDK+"util/__init__.py"), ("BoundedAttributes", API+"attributes/__init__.py")],
 ["ReadableSpan.attributes/events/links and dropped_* counts"])

prop("T06", "Span status and exceptions follow fixed precedence rules",
 "A span whose status was set to OK keeps it whatever is set later, setting the unset status never changes anything, otherwise the last status set wins, and a description is kept only together with an error status. An exception leaving a span used as a context manager (directly or as the current span) is always propagated to the caller unchanged, is recorded as exactly one event carrying its type, message and stack trace if exception recording is on (attributes the application gives to record_exception itself win over these), sets the error status with a description naming it if that is on, and the span is ended if it was to be ended on exit. Exceptions that are not errors of the program (such as generator exit) leave status and events unchanged when the span is made current.",
 ["histories", "inputs"],
 "every sequence of status changes, with every combination of the record/set-status/end-on-exit options, nested spans and exception kinds",
 "Tests sample single transitions; the rules must hold for every sequence and every combination of options and nesting.",
 [SDK+"trace/__init__.py", API+"trace/__init__.py", API+"trace/status.py"],
 [("Span.set_status, Span.__exit__, record_exception", SDK+"trace/__init__.py"), ("use_span", API+"trace/__init__.py")],
 ["ReadableSpan.status/events", "exceptions seen by the caller"])

prop("T07", "New spans are parented and identified consistently",
 "A span started while a valid span is current (or given in an explicit context, local or remote) becomes its child: same trace id, parent recorded as that span's context, and the trace state its sampler supplies (for the standard samplers the parent's); without a valid parent it is a root with a fresh non-zero trace id and no parent. Every started span has its own non-zero span id obtained from the configured generator and is never marked remote. Its name, kind, links, creation attributes, resource and instrumentation scope are those it was created with.",
 ["histories", "configurations", "inputs"],
 "every tree of nested starts across threads and explicit contexts (valid, invalid, remote, empty), every sampler decision",
 "Tests build a few fixed trees; the guarantee quantifies over every nesting, context source and sampler verdict.",
 [SDK+"trace/__init__.py", SDK+"trace/id_generator.py"],
 [("Tracer.start_span", SDK+"trace/__init__.py"), ("RandomIdGenerator", SDK+"trace/id_generator.py")],
 ["SpanContext and parent of started spans", "Sampler.should_sample arguments"])

prop("T08", "Sampling decisions are honoured, deterministic and inherited",
 "A sampler's verdict decides exactly what happens: drop gives a non-recording span unseen by processors, record-only reaches processors but is not sampled and not exported by the standard processors, record-and-sample is sampled and exported. Ratio sampling depends only on the trace id, samples none at ratio 0 and all at ratio 1, and a trace sampled at some ratio is sampled at every higher ratio. Parent-based sampling asks the root sampler only when there is no valid parent and otherwise the delegate configured for that parent's remote/local and sampled/unsampled combination.",
 ["inputs", "configurations", "histories"],
 "every trace id, ratio, parent context and combination of delegate samplers, and every verdict",
 "Tests sample a few ids and ratios at fixed points; monotonicity, boundary exactness and the five-way dispatch are universally quantified.",
 [SDK+"trace/sampling.py", SDK+"trace/__init__.py", SDK+"trace/export/__init__.py"],
 [("TraceIdRatioBased, ParentBased, StaticSampler", SDK+"trace/sampling.py"), ("Tracer.start_span decision handling", SDK+"trace/__init__.py")],
 ["trace flags and recording state of started spans", "calls on processors and exporters", "SamplingResult"])

prop("T09", "Processor fan-out reaches every processor, in order, within the deadline",
 "Every span or log record processor registered with a provider receives every start, end and emit that happens after its registration, exactly once and, for the sequential fan-out, in registration order. A forced flush reports success only if every processor's flush reported success and failure only if one failed or time ran out; the sequential fan-out gives each the time remaining of one overall timeout and flushes no further one once that time is used up, the concurrent one reports failure when it is used up. Shutting down reaches every processor. This holds while further processors are registered concurrently.",
 ["schedules", "histories", "fault_sequences"],
 "every number and order of registrations interleaved with telemetry, every combination of flush outcomes and durations, sequential and concurrent fan-out",
 "Tests use fixed mocks registered up front; outcomes, durations and concurrent registration vary freely in use.",
 [SDK+"trace/__init__.py", SDK+"_logs/_internal/__init__.py"],
 [("SynchronousMultiSpanProcessor, ConcurrentMultiSpanProcessor", SDK+"trace/__init__.py"), ("SynchronousMultiLogRecordProcessor, ConcurrentMultiLogRecordProcessor", SDK+"_logs/_internal/__init__.py")],
 ["calls received by each processor, with the timeout passed", "force_flush result"])

prop("T10", "Simple processors export each item once and never disturb the application",
 "A simple span or log record processor hands each sampled span or each emitted record to its exporter exactly once, alone, before the ending or emitting call returns, and passes on nothing that is not sampled. An exporter that fails or raises never causes an exception in the application, and later items are still exported. While any standard processor is exporting, instrumentation is marked suppressed in the context, and the previous context is restored afterwards even if the export raised.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of items and exporter outcomes, from any number of threads, with any context current",
 "Tests use a well-behaved exporter; the guarantee is about every failure pattern and the context around it.",
 [SDK+"trace/export/__init__.py", SDK+"_logs/_internal/export/__init__.py"],
 [("SimpleSpanProcessor", SDK+"trace/export/__init__.py"), ("SimpleLogRecordProcessor", SDK+"_logs/_internal/export/__init__.py"), ("suppression key attach/detach around export", "both")],
 ["exporter call arguments", "context value during and after export", "exceptions in the caller"])

prop("T11", "Export pipelines keep working across process fork",
 "After a process forks, telemetry recorded in the child through an existing batch span processor, batch log record processor or periodic metric reader is exported from the child exactly once, and spans and log records that were waiting in the parent are exported by the parent only. Flush and shutdown work in both processes and the parent's export is unaffected by the fork.",
 ["crash_points", "histories", "schedules"],
 "fork at any point relative to waiting items and running exports, with any number of items recorded before and after in either process",
 "The existing fork tests cover one point with an idle pipeline for each component.",
 [SDK+"trace/export/__init__.py", SDK+"_logs/_internal/export/__init__.py", SDK+"metrics/_internal/export/__init__.py"],
 [("_at_fork_reinit", "BatchSpanProcessor, BatchLogRecordProcessor, PeriodicExportingMetricReader")],
 ["items seen by exporters in parent and child"])

prop("C01", "Contexts are immutable and attach/detach is scoped to the execution flow",
 "A context never changes once created: setting a value yields a new context that differs in that key only, and keys created separately never collide even under the same name. Attaching makes a context current only in the attaching thread or asynchronous task (tasks start with a copy of their creator's), and detaching the returned token restores what was current before that attach. Detaching wrongly (twice, out of order, or with a token of another flow) never raises.",
 ["schedules", "histories", "inputs"],
 "every sequence of set, get, attach and detach across any number of threads and tasks and every interleaving",
 "Tests check straight-line nesting in one flow and one or two tasks; isolation is over all interleavings.",
 [API+"context/__init__.py", API+"context/context.py", API+"context/contextvars_context.py"],
 [("Context, set_value, get_value, create_key, attach, detach", API+"context/__init__.py"), ("ContextVarsRuntimeContext", API+"context/contextvars_context.py")],
 ["get_current, get_value", "exceptions"])

prop("C02", "The current span is scoped exactly to its block",
 "Inside a block (or decorated synchronous or asynchronous function) that makes a span current, that span is the current one in that execution flow, and once the block is left, normally or through any exception, the span that was current before is current again. A span started for a block is ended exactly once on leaving it unless ending on exit was turned off, and other context values are unaffected. Concurrent threads and tasks never see each other's current span.",
 ["schedules", "histories"],
 "every nesting of span blocks, decorators, exceptions and tasks or threads",
 "Tests check single blocks; leaks across nesting, exceptions and task switches are not enumerated.",
 [API+"trace/__init__.py", API+"trace/propagation/__init__.py", API+"util/_decorator.py", SDK+"trace/__init__.py"],
 [("use_span", API+"trace/__init__.py"), ("Tracer.start_as_current_span", SDK+"trace/__init__.py"), ("_agnosticcontextmanager", API+"util/_decorator.py")],
 ["get_current_span before, inside and after each block"])

prop("P01", "W3C trace context survives a hop unchanged and garbage never harms",
 "Injecting any valid span context into a carrier and extracting it again yields a remote span context with the same trace id, span id, trace flags and trace state; with no valid span current nothing is written. Any missing, malformed, all-zero or unsupported trace parent header, and any set of headers whatever, makes extraction return the given context unchanged, without raising; a malformed trace state is discarded without discarding the trace parent. Headers of a higher version are read by their known fields as the standard requires.",
 ["inputs"],
 "every span context and every carrier content",
 "Tests list a dozen headers; parsing must be right for every byte string a peer may send.",
 [API+"trace/propagation/tracecontext.py", API+"trace/span.py"],
 [("TraceContextTextMapPropagator", API+"trace/propagation/tracecontext.py")],
 ["carrier contents after inject", "span context after extract"])

prop("P02", "Trace state stays valid, ordered and immutable",
 "A trace state only ever holds valid keys and values, each key once and at most 32 entries, whatever sequence of construction, parsing, add, update and delete produced it. Adding or updating puts the entry first and leaves the order of the others; adding an existing key, updating or deleting as the standard allows, and any operation with an invalid key or value leaves the entries unchanged; no operation changes an existing trace state. Writing it as a header and parsing that gives back the same entries in the same order.",
 ["inputs", "histories"],
 "every sequence of operations with valid, invalid, duplicate and boundary-length keys and values, and every header text",
 "Tests cover individual operations on tiny states; limits, ordering and immutability must hold along every history.",
 [API+"trace/span.py"],
 [("TraceState.add/update/delete/from_header/to_header", API+"trace/span.py")],
 ["items and header of the trace state before and after"])

prop("P03", "Baggage is immutable per context and survives a hop",
 "Setting, removing or clearing baggage yields a new context and never alters the entries visible through the old one. Injecting baggage within the size limits and extracting it returns the same names and values, for any unicode value, with the latest value for each name, merged over what the receiving context had. Oversized or malformed headers, pairs and members are skipped individually or as a whole as the limits prescribe, without raising and without affecting the well-formed ones.",
 ["inputs", "histories"],
 "every sequence of baggage operations, every name and value, every header text up to and beyond the limits",
 "Tests use a few short strings; encoding, limits and partial malformation range over all texts.",
 [API+"baggage/__init__.py", API+"baggage/propagation/__init__.py"],
 [("set_baggage/remove_baggage/clear", API+"baggage/__init__.py"), ("W3CBaggagePropagator", API+"baggage/propagation/__init__.py")],
 ["get_all on old and new contexts", "baggage header"])

prop("P04", "B3 propagation survives a hop and garbage never harms",
 "A valid span context injected in the B3 single-header or multi-header format and extracted by either yields a remote span context with the same trace id, span id and sampled flag. The single header takes precedence when present, short (64-bit) trace ids are accepted, a debug flag or any accepted sampling value means sampled, and an absent decision means what the format prescribes. Malformed identifiers or headers return the given context unchanged without raising.",
 ["inputs"],
 "every span context, every combination and content of B3 headers",
 "Tests cover one example per rule; combinations of headers and arbitrary malformed texts are unbounded.",
 ["propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py"],
 [("B3MultiFormat, B3SingleFormat", "propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py")],
 ["carrier contents after inject", "span context after extract"])

prop("P05", "Jaeger propagation survives a hop and garbage never harms",
 "A valid span context injected in the Jaeger format and extracted again yields a remote span context with the same trace id, span id and sampled flag, and the baggage present at injection is present after extraction. A missing or malformed identity header leaves the current span of the given context unchanged without raising. Injection without a valid span writes nothing.",
 ["inputs"],
 "every span context, baggage and header content",
 "Tests cover a few examples; arbitrary header texts and baggage are unbounded.",
 ["propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py"],
 [("JaegerPropagator", "propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py")],
 ["carrier contents after inject", "span context and baggage after extract"])

prop("P06", "Composite and global propagation apply every configured propagator in order",
 "Injecting through a composite lets each configured propagator write to the carrier once in order, so the carrier holds the union of what they write with later ones winning, and extracting passes the context through each in order. Its advertised fields are exactly the union of its members' fields. The global propagator is the one last set, defaulting to the one described by the environment setting (trace context plus baggage when unset, none when so configured), and an unknown name there is an error.",
 ["configurations", "histories", "inputs"],
 "every list of propagators (including duplicates, empty and overlapping ones), every carrier and every environment setting",
 "Tests use one or two mock propagators; ordering and union hold for every list.",
 [API+"propagators/composite.py", API+"propagate/__init__.py"],
 [("CompositePropagator", API+"propagators/composite.py"), ("propagate module globals", API+"propagate/__init__.py")],
 ["carrier and context after inject/extract", "fields"])

prop("M01", "Sums neither lose nor duplicate measurements, for every reader",
 "For every counter and up-down counter, attribute set and reader, a cumulative collection reports exactly the total of all measurements made so far, and successive delta collections partition the measurements: each is counted in exactly one of them. A gauge reports the most recent measurement. This holds for any number of recording threads racing with collections, each reader is unaffected by when others collect, monotonic instruments ignore negative amounts, and attribute sets count as equal exactly when their items are equal (in Python's sense), as they were at the time of recording.",
 ["schedules", "histories", "configurations", "inputs"],
 "every sequence and interleaving of recordings and collections over several instruments, attribute sets, readers and temporalities",
 "Tests check short single-threaded sequences with one reader; conservation is about every interleaving and collection pattern.",
 [SDK+"metrics/_internal/aggregation.py", SDK+"metrics/_internal/_view_instrument_match.py", SDK+"metrics/_internal/metric_reader_storage.py", SDK+"metrics/_internal/measurement_consumer.py", SDK+"metrics/_internal/instrument.py"],
 [("_SumAggregation, _LastValueAggregation", SDK+"metrics/_internal/aggregation.py"), ("_ViewInstrumentMatch", SDK+"metrics/_internal/_view_instrument_match.py")],
 ["data points delivered to each metric reader"])

prop("M02", "Histograms are internally consistent and conserve measurements",
 "In every explicit-bucket histogram data point there is one more bucket than boundaries, the bucket counts add up to the count, each bucket holds exactly the recorded values above its lower and up to its upper boundary, and sum, minimum and maximum are those of the recorded values of the reported interval. Delta points partition the measurements and cumulative points cover all of them, for every reader and any number of recording threads. Bucket boundaries come from the view, else from the instrument's own advice, else the defaults, independently for each instrument.",
 ["schedules", "histories", "inputs", "configurations"],
 "every sequence and interleaving of recordings and collections, every boundary list and value including values on a boundary",
 "Tests use fixed values and boundaries in one thread with one collection.",
 [SDK+"metrics/_internal/aggregation.py"],
 [("_ExplicitBucketHistogramAggregation", SDK+"metrics/_internal/aggregation.py"), ("ExplicitBucketHistogramAggregation._create_aggregation", SDK+"metrics/_internal/aggregation.py")],
 ["histogram data points delivered to readers"])

prop("M03", "Exponential histograms keep every value in the right bucket at every scale",
 "In every exponential histogram data point the zero count and the positive and negative bucket counts add up to the count, every recorded value lies in the bucket that the reported scale and offset assign to it, and no side uses more than the configured maximum number of buckets. Sum, count, minimum and maximum equal those of the recorded values; cumulative points cover all measurements and delta points partition them, however often the scale had to be reduced or collections happened in between. Recording and collecting never fail for finite values.",
 ["inputs", "histories", "configurations"],
 "every sequence of finite values (tiny, huge, zero, negative) and collections, every maximum size and scale",
 "Tests replay fixed sequences; rescaling and merging interact with arbitrary value orders and collection points.",
 [SDK+"metrics/_internal/aggregation.py", SDK+"metrics/_internal/exponential_histogram/"],
 [("_ExponentialBucketHistogramAggregation", SDK+"metrics/_internal/aggregation.py"), ("Buckets", SDK+"metrics/_internal/exponential_histogram/buckets.py"), ("ExponentMapping, LogarithmMapping", SDK+"metrics/_internal/exponential_histogram/mapping/")],
 ["exponential histogram data points delivered to readers"])

prop("M04", "Asynchronous instruments report exactly what their callbacks observed",
 "Each collection by a reader invokes every callback of every asynchronous instrument exactly once, and the reader gets, for each attribute set observed in that collection, the observed value as cumulative or the difference from that reader's previous collection as delta. A gauge reports the observed value. A callback that raises contributes nothing after it raised and affects no other callback or instrument, and a collection cut short by its timeout never corrupts the values reported later.",
 ["histories", "fault_sequences", "configurations", "schedules"],
 "every sequence of observations (values and attribute sets appearing and disappearing), failing or slow callbacks, several readers with different temporalities",
 "Tests use one or two collections of constant observations by one reader.",
 [SDK+"metrics/_internal/aggregation.py", SDK+"metrics/_internal/measurement_consumer.py", SDK+"metrics/_internal/instrument.py"],
 [("SynchronousMeasurementConsumer.collect", SDK+"metrics/_internal/measurement_consumer.py"), ("_Asynchronous.callback", SDK+"metrics/_internal/instrument.py"), ("_SumAggregation.collect temporality conversion", SDK+"metrics/_internal/aggregation.py")],
 ["callback invocations", "data points delivered to each reader"])

prop("M05", "Views select, rename, filter and drop exactly as configured",
 "An instrument produces one metric stream for each view that matches it by every given criterion, or one default stream if none matches, and nothing else. Each stream carries the view's name and description or the instrument's, uses the view's or the reader's aggregation, keeps only the configured attribute keys with measurements that thereby coincide combined into one point, and nothing is reported for a drop aggregation. Streams of one reader are grouped under their resource and instrumentation scope, once each.",
 ["configurations", "inputs", "histories"],
 "every set of views and instruments (kinds, names, units, scopes, wildcards), attribute filters and aggregations",
 "Tests configure one or two views; matching and combination are over all configurations.",
 [SDK+"metrics/_internal/view.py", SDK+"metrics/_internal/metric_reader_storage.py", SDK+"metrics/_internal/_view_instrument_match.py"],
 [("View._match", SDK+"metrics/_internal/view.py"), ("MetricReaderStorage._handle_view_instrument_match / collect", SDK+"metrics/_internal/metric_reader_storage.py")],
 ["metrics data delivered to readers"])

prop("M06", "The same instrument, meter, tracer or logger identity is one entity",
 "Creating an instrument again on the same meter with the same case-insensitive name, kind, unit and description yields the very same instrument, also when threads race, and never fails; the same scope yields the same meter and the same recorded stream. Names and units are accepted exactly when they satisfy the specified syntax and length, otherwise creation is refused with an error. Instruments with different identity never share state.",
 ["schedules", "histories", "inputs"],
 "every sequence and interleaving of creations with names, kinds, units and descriptions that coincide or differ in case",
 "Tests create pairs sequentially; a race between two first creations is not exercised.",
 [SDK+"metrics/_internal/__init__.py", API+"metrics/_internal/__init__.py", API+"metrics/_internal/instrument.py"],
 [("Meter.create_* with _register_instrument", SDK+"metrics/_internal/__init__.py"), ("MeterProvider.get_meter", SDK+"metrics/_internal/__init__.py"), ("_check_name_unit_description", API+"metrics/_internal/instrument.py")],
 ["identity of returned objects", "exceptions", "data points"])

prop("M07", "Data point time intervals are contiguous and well formed",
 "Within one stream of one reader, successive delta points of an attribute set never overlap: each starts exactly where the previous collection of that reader ended (for asynchronous instruments: the previous one that observed the set), and all cumulative points of an attribute set share one unchanging start time not later than their end. End times of successive collections do not go backwards and all points of one collection carry the same end time. No point ends before it starts.",
 ["histories", "schedules", "configurations"],
 "every sequence of recordings and collections with attribute sets appearing at any time, any temporality and aggregation",
 "Tests check single pairs of collections of one attribute set.",
 [SDK+"metrics/_internal/aggregation.py", SDK+"metrics/_internal/_view_instrument_match.py", SDK+"metrics/_internal/measurement_consumer.py"],
 [("start/previous collection time handling", SDK+"metrics/_internal/aggregation.py")],
 ["start and end times of data points"])

prop("M08", "Periodic metric reader exports regularly, never overlapping, and finally",
 "A periodic reader collects and exports once per interval until shut down, with never two exports to its exporter at the same time, and keeps doing so although an export or callback fails, raises or times out. A flush exports everything recorded before it; shutdown exports once more what was recorded since the last export, then shuts the exporter down exactly once, after which nothing is exported. Flush and shutdown always return, from any thread and any number of callers.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every interleaving of ticks, recordings, flushes and shutdowns, every exporter outcome and duration, every interval",
 "Tests use one reader with real timers and cooperative exporters.",
 [SDK+"metrics/_internal/export/__init__.py", SDK+"metrics/_internal/__init__.py"],
 [("PeriodicExportingMetricReader._ticker/_receive_metrics/force_flush/shutdown", SDK+"metrics/_internal/export/__init__.py")],
 ["MetricExporter.export and shutdown calls with virtual time", "returns of flush and shutdown"])

prop("M09", "Exemplars are real measurements of the interval they are reported in",
 "Every exemplar of a data point is a measurement recorded into that point since the previous collection of that stream, with its own value, time and trace and span id (those of the span current when it was recorded, or none) and the attributes the view dropped. A point never has more exemplars than its reservoir's size, the bucket-aligned reservoir has at most one per bucket with a value belonging to that bucket, and while no more measurements than slots were offered none is lost. The filter decides exactly: all, none, or those recorded within a sampled span.",
 ["histories", "inputs", "configurations", "schedules"],
 "every sequence of measurements inside and outside sampled spans and collections, every reservoir, filter and random choice",
 "Tests check single offers; stale or mixed data appears only for particular sequences and random choices.",
 [SDK+"metrics/_internal/exemplar/", SDK+"metrics/_internal/aggregation.py", SDK+"metrics/_internal/_view_instrument_match.py"],
 [("ExemplarBucket, SimpleFixedSizeExemplarReservoir, AlignedHistogramBucketExemplarReservoir", SDK+"metrics/_internal/exemplar/exemplar_reservoir.py"), ("exemplar filters", SDK+"metrics/_internal/exemplar/exemplar_filter.py")],
 ["exemplars of data points"])

prop("G01", "Global providers are set once and early users are connected",
 "Of all attempts, from any threads, to set the global tracer, meter, logger or event logger provider exactly one takes effect, and every later reading returns that provider. Tracers, meters and instruments obtained before it was set do nothing harmful until then and afterwards act through it, each instrument being backed by exactly one real instrument with its original definition; none stays disconnected whatever the interleaving of creation and setting.",
 ["schedules", "histories"],
 "every interleaving of obtaining, creating, using and setting across threads",
 "Tests set the provider between two sequential steps; the window between checking and setting is never hit.",
 [API+"trace/__init__.py", API+"metrics/_internal/__init__.py", API+"metrics/_internal/instrument.py", API+"_logs/_internal/__init__.py", API+"_events/__init__.py", API+"util/_once.py"],
 [("Once", API+"util/_once.py"), ("ProxyTracer", API+"trace/__init__.py"), ("_ProxyMeterProvider/_ProxyMeter/_Proxy*", API+"metrics/_internal/__init__.py")],
 ["providers returned", "calls reaching the real provider"])

prop("G02", "Provider shutdown reaches everything once and leaves the API harmless",
 "Shutting down a tracer, meter or logger provider shuts down each of its processors or readers exactly once even if some of them fail, whether called by the application one or more times, from several threads, or at interpreter exit. After a meter provider is shut down further shutdowns only warn; using tracers, meters, loggers and instruments obtained before or after shutdown or with the SDK disabled never raises. With the SDK disabled by its environment setting nothing is recorded or exported.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every sequence and interleaving of shutdown, flush and use, every combination of failing processors and readers",
 "Tests call shutdown once or twice in sequence with cooperative parts.",
 [SDK+"trace/__init__.py", SDK+"metrics/_internal/__init__.py", SDK+"_logs/_internal/__init__.py"],
 [("TracerProvider.shutdown, MeterProvider.shutdown, LoggerProvider.shutdown", SDK)],
 ["shutdown calls received by processors and readers", "exceptions"])

prop("R01", "Resources merge by fixed precedence and detection never fails",
 "Merging two resources gives the union of their attributes with the updating one winning, the schema URL of whichever has one if the other's is empty, and on conflicting schema URLs leaves the first resource as the result with an error logged; neither input changes. A created resource contains the SDK's own identification and always a non-empty service name, with explicitly given attributes over environment settings over defaults. A detector that fails, is missing or exceeds the timeout contributes nothing and prevents nothing unless it demands to raise.",
 ["inputs", "configurations", "fault_sequences"],
 "every pair and chain of resources, environment contents and detector outcomes and durations",
 "Tests merge fixed pairs; precedence must hold for every combination.",
 [SDK+"resources/__init__.py"],
 [("Resource.create/merge, get_aggregated_resources, OTELResourceDetector", SDK+"resources/__init__.py")],
 ["attributes and schema URL of resulting resources"])

prop("R02", "Attributes hold only valid, bounded, independent values",
 "Whatever is passed as attributes of a span, event, link, resource, scope or log record, only entries with non-empty string keys and values of a permitted type (primitive, or homogeneous sequence of primitives with holes allowed) are kept; invalid ones are skipped without raising and without affecting the others. Sequences are stored as immutable copies, so changing the caller's object later has no effect, and where immutability is promised modification is refused. Strings are truncated to the configured length and at most the configured number of keys is kept, most recently set ones winning, with each eviction counted.",
 ["inputs", "histories", "configurations"],
 "every mapping of keys to values, every limit, every sequence of sets and deletes",
 "Tests list a few valid and invalid values; the rule is over all values and histories.",
 [API+"attributes/__init__.py"],
 [("_clean_attribute, BoundedAttributes", API+"attributes/__init__.py")],
 ["contents and dropped count of attribute collections"])

prop("R03", "Environment configuration builds exactly the described pipeline",
 "Initialising the SDK from the environment creates for each signal one pipeline per named exporter (none for none or unset), choosing the OTLP transport by the signal-specific, then the general protocol setting, then the default, and uses the named sampler with its argument and the named id generator. An unknown exporter, protocol or generator name is an error, while an unusable sampler name or argument falls back to the default with a warning. Numeric batch and limit settings that are valid take effect (a specific limit before the general one, explicit arguments before the environment); invalid ones fall back to their defaults or are rejected, and inconsistent batch settings are rejected.",
 ["configurations"],
 "every combination of the relevant environment settings, valid and invalid, and explicit arguments",
 "Tests cover single settings; precedence and combination are over the product of all settings.",
 [SDK+"_configuration/__init__.py", SDK+"trace/export/__init__.py", SDK+"trace/sampling.py"],
 [("_initialize_components, _get_exporter_names, _import_sampler", SDK+"_configuration/__init__.py"), ("BatchSpanProcessor._default_*", SDK+"trace/export/__init__.py")],
 ["components constructed", "exceptions"])

prop("L01", "Batch log export: every record once, in order, complete on flush and shutdown",
 "Every log record emitted before its batch processor begins shutting down is handed to the exporter exactly once, in the order accepted, in batches of between one record and the configured maximum, never two exports at a time; only a full queue discards records, oldest first. A successful flush (while no shutdown has begun) means every record emitted before it was handed over, shutdown returns after handing over all that remained and shutting the exporter down; both act at once instead of at the next scheduled time, and neither ever hangs. Export happens within one scheduled delay or as soon as a full batch waits, and failing exports disturb neither the application nor later records.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every interleaving of emitting threads, worker, flushes, timers and shutdown; every size and delay; every exporter outcome",
 "The unit tests run a handful of fixed timings with cooperative exporters.",
 [SDK+"_logs/_internal/export/__init__.py"],
 [("BatchLogRecordProcessor", SDK+"_logs/_internal/export/__init__.py")],
 ["arguments, order and time of LogExporter.export and shutdown", "return of force_flush"])

prop("L02", "Standard logging records become log records faithfully",
 "Every record of the standard logging module that reaches the handler becomes exactly one log record with its message or body, its timestamp, a severity number that never decreases as the logging level increases and falls in the range of its named level, and its extra attributes and exception information. It carries the trace id, span id and flags of the span current when it was logged, or none. Handling a record never raises into the application, and a handler bound to a disabled or absent SDK emits nothing.",
 ["inputs", "histories", "configurations"],
 "every logging level number, message, arguments, extra, exception and current span",
 "Tests log a few fixed levels; monotonicity and fidelity are over all records.",
 [SDK+"_logs/_internal/__init__.py"],
 [("LoggingHandler._translate/_get_attributes, std_to_otel", SDK+"_logs/_internal/__init__.py"), ("LogRecord", SDK+"_logs/_internal/__init__.py")],
 ["LogData delivered to processors"])

prop("E01", "OTLP gRPC export retries only what is retryable and always ends",
 "An export over OTLP/gRPC sends the same request again after a retryable status, waiting exponentially growing or server-directed delays, and reports success exactly when some attempt succeeded; any other status, or exhausting the retry budget, reports failure without a further attempt. After shutdown no request is sent and export reports failure. Shutdown waits for a request under way up to its timeout, always returns, and closes the connection exactly once. Requests go to the configured endpoint with the configured security, certificates, headers, compression and timeout (argument before the signal's setting before the general one), and metrics split over several requests keep every data point exactly once and in place.",
 ["fault_sequences", "schedules", "histories"],
 "every sequence of status codes and retry hints, every interleaving of exports and shutdown",
 "Tests script a few response sequences; the retry machine is over all sequences and shutdown points.",
 ["exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py"],
 [("OTLPExporterMixin._export / shutdown", "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py")],
 ["requests received by the service stub, delays slept, export results"])

prop("E02", "OTLP HTTP export retries only what is retryable and always ends",
 "An export over OTLP/HTTP posts the same body again after a retryable response (request timeout or server error), waiting exponentially growing delays, and reports success exactly when some attempt got a success response; any other response, or exhausting the retry budget, reports failure without a further attempt. The body decompresses to the encoded telemetry under each configured compression and carries the matching headers. After shutdown nothing is sent and failure is reported. Requests go to the configured endpoint, with the configured certificates, headers and timeout (argument before the signal's setting before the general one).",
 ["fault_sequences", "histories", "configurations"],
 "every sequence of response statuses, each compression, each signal, shutdown at any point between exports",
 "Tests script a few response sequences for each signal.",
 ["exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/"],
 [("OTLPSpanExporter, OTLPLogExporter, OTLPMetricExporter .export", "exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/")],
 ["HTTP requests sent, delays slept, export results"])

prop("E03", "OTLP encoding loses, invents and regroups nothing",
 "The OTLP request encoded from a batch contains every span, log record or metric data point of the batch exactly once, in order within its group, under a resource and an instrumentation scope equal to its own, with one group for each distinct resource and, within it, each distinct scope. Every field (ids, parent, kind, times, status, attributes with their types, events, links, dropped counts, flags, severity, body, temporality, monotonicity, buckets, exemplars) has the value the SDK object has. An attribute value that cannot be encoded is left out without affecting the rest.",
 ["inputs"],
 "every batch of telemetry with shared, equal and distinct resources and scopes and every permitted value",
 "Tests encode one fixed batch per signal; grouping and field mapping are over all batches.",
 ["exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/"],
 [("encode_spans, encode_logs, encode_metrics", "exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/")],
 ["protobuf request messages"])

prop("E04", "A Prometheus scrape shows exactly the current cumulative state",
 "Each scrape performs one collection and exposes for every sum, gauge and explicit-bucket histogram stream and attribute set one series with the collected value, sums that only grow as counters, other sums and gauges as gauges, and histograms with cumulative buckets ending in an infinite bucket equal to the count. Names, units and label names are always valid for Prometheus and each label carries its own attribute's value (values of attributes whose label names coincide are joined). As long as differing instruments and attribute sets differ in their Prometheus form, no series is shown twice in one scrape or carried over from an earlier one, also when scrapes run concurrently.",
 ["histories", "inputs", "schedules"],
 "every set of instruments, attribute sets, names and units, every sequence and interleaving of recordings and scrapes",
 "Tests render single metrics once; repeated and concurrent scrapes with mixed attribute sets are not covered.",
 ["exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py", "exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py"],
 [("_CustomCollector.collect/_translate_to_prometheus", "exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py"), ("sanitize_full_name, sanitize_attribute, map_unit", "exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py")],
 ["metric families yielded to the Prometheus registry"])

prop("E05", "Zipkin export carries every span faithfully in each format",
 "A Zipkin export posts one document holding every span of the batch once and in order, with its ids, parent id, name, kind, start and duration in microseconds, attributes as tags and events as annotations, in each supported encoding. Tag values are cut to the configured maximum length and sequences are cut to whole elements so they remain valid; unset optional parts are left out. Only an accepted response reports success, and after shutdown nothing is posted and failure is reported.",
 ["inputs", "fault_sequences", "configurations"],
 "every batch of spans, every encoding and maximum tag length, every response and point of shutdown",
 "Tests encode one fixed batch per encoding.",
 ["exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/", "exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/"],
 [("Encoder and JsonV1Encoder, JsonV2Encoder, ProtobufEncoder", "exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py")],
 ["bodies posted, export results"])

prop("E06", "Metric exporters get the temporality and aggregation asked for",
 "For each kind of instrument, what a metric exporter sends has the temporality its preferences ask for: that of the exporter's preferred_temporality argument where it names the kind, otherwise, for the OTLP exporters, that of the environment's preference (cumulative, delta or low memory, in any letter case; anything else is cumulative), otherwise cumulative. Its aggregation is that of a matching view, else of the preferred_aggregation argument, else, for histograms of OTLP exporters, of the environment's default histogram aggregation, else the kind's default. Under delta each collection carries exactly what was measured since the previous one, under cumulative everything since the start, for synchronous and observed instruments alike, so that the increments add up to the total; a dropped instrument sends nothing.",
 ["configurations", "histories"],
 "every combination of preferences, environment settings and views, every history of measurements and collections, over both OTLP transports, the console exporter and the in-memory reader",
 "Tests compare the preference dictionaries of a constructed exporter; what is then exported after a history is not tested.",
 ["exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py", SDK+"metrics/_internal/export/__init__.py", SDK+"metrics/_internal/aggregation.py"],
 [("OTLPMetricExporterMixin._common_configuration", "exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py"), ("MetricReader.__init__", SDK+"metrics/_internal/export/__init__.py")],
 ["data points in the requests posted, JSON printed, or data returned"])

prop("L03", "Events become log records faithfully",
 "An event emitted through an event logger of the SDK becomes exactly one log record of that logger's scope and of the provider's resource: its valid attributes with the event's own name under event.name whatever the caller passed there, its body as it is, its severity number (INFO when unset), its timestamp (now when unset), its trace identifiers and flags, an explicit flags value of zero included, or those of the current span where it has none. Emitting changes neither the event nor the caller's objects and later changes of these do not reach the record. Nothing is emitted, and nothing raises, while the SDK is disabled, or no provider or a no-op one is set.",
 ["inputs", "configurations"],
 "every event with any subset of its fields set, any attributes, any current span, any kind of logger provider and moment at which the global one is set",
 "Tests emit one event with every field set and one with none.",
 [SDK+"_events/__init__.py", "opentelemetry-api/src/opentelemetry/_events/__init__.py", SDK+"_logs/_internal/__init__.py"],
 [("EventLogger.emit", SDK+"_events/__init__.py"), ("Event", "opentelemetry-api/src/opentelemetry/_events/__init__.py")],
 ["log records received by a processor"])

prop("E07", "Console exporters write each item's fields exactly",
 "A console exporter writes one JSON document per span, log record or batch of metrics, each ending its line, in the order given, and all of them are flushed when export returns successfully. A document holds exactly the item's fields: identifiers in hexadecimal at full width, times in UTC to the microsecond (null when unset), names, kind, parent, status with the description of an error, attributes, events and links with their own, the resource, counts, sums, buckets, bounds and exemplars, numbers and text unchanged. A field that may be unset is null or empty as documented, and no valid item makes the export raise: not a log record without a timestamp, nor one whose body JSON does not know (bytes appear in base64, any other object as its text).",
 ["inputs", "histories"],
 "every item with any subset of optional fields, text with quotes, control characters and all of Unicode, any attribute type, any body, any order of batches",
 "Tests compare the rendering of two or three fixed items.",
 [SDK+"trace/__init__.py", SDK+"trace/export/__init__.py", SDK+"_logs/_internal/__init__.py", SDK+"_logs/_internal/export/__init__.py", SDK+"metrics/_internal/point.py", SDK+"metrics/_internal/export/__init__.py"],
 [("ReadableSpan.to_json", SDK+"trace/__init__.py"), ("LogRecord.to_json", SDK+"_logs/_internal/__init__.py"), ("MetricsData.to_json", SDK+"metrics/_internal/point.py"), ("ns_to_iso_str", SDK+"util/__init__.py")],
 ["documents in the stream after export", "export results"])

prop("S01", "The OpenTracing shim behaves like the tracer behind it",
 "Spans started through the OpenTracing shim are spans of the wrapped tracer with the parent OpenTracing would choose: an explicit child-of or follows-from reference first, otherwise the active span unless ignored. Activating a scope makes its span current for both APIs and closing it restores the previous one, finishing the span exactly when asked to; baggage, tags and logs set through the shim appear as baggage, attributes and events. Injecting and extracting through the shim carries the same context as the global propagator.",
 ["histories", "inputs"],
 "every sequence of span starts with references, scope activations and closings, tags, logs, baggage and propagation",
 "Tests check single calls; nesting and reference combinations are not enumerated.",
 ["shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"],
 [("TracerShim, SpanShim, ScopeShim, ScopeManagerShim", "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py")],
 ["exported spans, current span through both APIs, carriers"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
