From 84f15e1694cf03c688e9f3f421536ce46a6f4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 01/66] fix: do not modify the caller's links when a span is
 created

Span replaced the attributes of the given Link objects by bounded ones in
place, so a link given to several spans lost attributes and dropped counts
of spans already started.
---
 .../src/opentelemetry/sdk/trace/__init__.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 3ac4580..7262b1a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -829,13 +829,17 @@ class Span(trace_api.Span, ReadableSpan):
         valid_links = []
         for link in links:
             if link and _is_valid_link(link.context, link.attributes):
-                # pylint: disable=protected-access
-                link._attributes = BoundedAttributes(
-                    self._limits.max_link_attributes,
-                    link.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                # do not modify the caller's link, it may be used again
+                valid_links.append(
+                    trace_api.Link(
+                        context=link.context,
+                        attributes=BoundedAttributes(
+                            self._limits.max_link_attributes,
+                            link.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                    )
                 )
-                valid_links.append(link)
 
         return BoundedList.from_seq(self._limits.max_links, valid_links)
 
-- 
2.43.0


From b6995dd106fb8079dc034b84245d6d95fcb85ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 02/66] fix: keep a hashable copy of measurement attributes

---
 .../sdk/metrics/_internal/measurement.py            | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement.py
index 56619a8..de21e1b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement.py
@@ -43,3 +43,16 @@ class Measurement:
     instrument: Instrument
     context: Context
     attributes: Attributes = None
+
+    def __post_init__(self) -> None:
+        # Keep an immutable copy, the caller may modify its attributes later.
+        # Attribute sets identify metric streams, so values must be hashable.
+        if self.attributes is not None:
+            object.__setattr__(
+                self,
+                "attributes",
+                {
+                    key: tuple(value) if isinstance(value, list) else value
+                    for key, value in self.attributes.items()
+                },
+            )
-- 
2.43.0


From 72d9c62fb9286df91edaf43b970fc033f5e9cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 03/66] fix: data points of an aggregation created during a
 collection must not end before they start

---
 .../metrics/_internal/_view_instrument_match.py    |  1 +
 .../sdk/metrics/_internal/aggregation.py           | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index be81d70..d6450e5 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -141,6 +141,7 @@ class _ViewInstrumentMatch:
         data_points: List[DataPointT] = []
         with self._lock:
             for aggregation in self._attributes_aggregation.values():
+                aggregation._limit_start_time(collection_start_nanos)
                 data_point = aggregation.collect(
                     collection_aggregation_temporality, collection_start_nanos
                 )
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 8443d95..bb65213 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -100,6 +100,7 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
         self._attributes = attributes
         self._reservoir = reservoir_builder()
         self._previous_point = None
+        self._start_time_unix_nano = None
 
     @abstractmethod
     def aggregate(
@@ -120,6 +121,19 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
     ) -> Optional[_DataPointVarT]:
         pass
 
+    def _limit_start_time(self, collection_start_nano: int) -> None:
+        """Ensures that points of the collection do not end before they start.
+
+        This aggregation may have been created after the collection started.
+        """
+        with self._lock:
+            if (
+                self._start_time_unix_nano is not None
+                and self._start_time_unix_nano > collection_start_nano
+            ):
+                self._start_time_unix_nano = collection_start_nano
+                self._previous_collection_start_nano = collection_start_nano
+
     def _collect_exemplars(self) -> Sequence[Exemplar]:
         """Returns the collected exemplars.
 
-- 
2.43.0


From 1c83884f49996d60e63d655f59ff62f501b408b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 04/66] fix: histogram boundaries advised by one instrument
 must not affect others

---
 .../sdk/metrics/_internal/aggregation.py           | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index bb65213..7d48eed 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1401,10 +1401,14 @@ class ExplicitBucketHistogramAggregation(Aggregation):
                 AggregationTemporality.CUMULATIVE
             )
 
-        if self._boundaries is None:
-            self._boundaries = (
-                instrument._advisory.explicit_bucket_boundaries
-                or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
+        # This object may be used by several instruments, so boundaries advised
+        # by one of them must not be kept. Only histograms have an advisory.
+        boundaries = self._boundaries
+        if boundaries is None and isinstance(instrument, Histogram):
+            boundaries = instrument._advisory.explicit_bucket_boundaries or None
+        if boundaries is None:
+            boundaries = (
+                _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
             )
 
         return _ExplicitBucketHistogramAggregation(
@@ -1412,7 +1416,7 @@ class ExplicitBucketHistogramAggregation(Aggregation):
             instrument_aggregation_temporality,
             start_time_unix_nano,
             reservoir_factory(_ExplicitBucketHistogramAggregation),
-            self._boundaries,
+            boundaries,
             self._record_min_max,
         )
 
-- 
2.43.0


From 547e6e28f0a02d6c3515449d14403d20145e73b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 05/66] fix: a collection that times out must not affect the
 values of later ones

---
 .../metrics/_internal/measurement_consumer.py | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index c651033..2771b12 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -113,6 +113,8 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
 
             default_timeout_ns = 10000 * 1e6
 
+            collected_measurements = []
+
             for async_instrument in self._async_instruments:
                 remaining_time = deadline_ns - time_ns()
 
@@ -127,18 +129,22 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
                         "Timed out while executing callback"
                     )
 
-                for measurement in measurements:
-                    should_sample_exemplar = (
-                        self._sdk_config.exemplar_filter.should_sample(
-                            measurement.value,
-                            measurement.time_unix_nano,
-                            measurement.attributes,
-                            measurement.context,
-                        )
-                    )
-                    metric_reader_storage.consume_measurement(
-                        measurement, should_sample_exemplar
+                # A collection that times out must not leave measurements behind
+                # in the storage, the next collection observes them again.
+                collected_measurements.extend(measurements)
+
+            for measurement in collected_measurements:
+                should_sample_exemplar = (
+                    self._sdk_config.exemplar_filter.should_sample(
+                        measurement.value,
+                        measurement.time_unix_nano,
+                        measurement.attributes,
+                        measurement.context,
                     )
+                )
+                metric_reader_storage.consume_measurement(
+                    measurement, should_sample_exemplar
+                )
 
             result = self._reader_storages[metric_reader].collect()
 
-- 
2.43.0


From d9a5b5db102b47b8b6b4710e5a8ce9e90a190ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 06/66] fix: merge exponential histogram buckets into a side
 that was empty so far

---
 .../sdk/metrics/_internal/aggregation.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 7d48eed..b50e6ac 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1159,16 +1159,19 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             if current_bucket == 0:
                 continue
 
-            # Not considering the case where len(previous_buckets) == 0. This
-            # would not happen because self._previous_point is only assigned to
-            # an ExponentialHistogramDataPoint object if self._count != 0.
-
             current_index = current_buckets.index_base + current_bucket_index
             if current_index > current_buckets.index_end:
                 current_index -= len(current_buckets.counts)
 
             index = current_index >> current_change
 
+            if len(previous_buckets) == 0:
+                # Nothing was counted before on this side, its indexes do not
+                # mean anything yet.
+                previous_buckets.index_start = index
+                previous_buckets.index_end = index
+                previous_buckets.index_base = index
+
             if index < previous_buckets.index_start:
                 span = previous_buckets.index_end - index
 
-- 
2.43.0


From 2088f993649d1bfa18a1b1a829b9075e64ce437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 07/66] fix: sample exemplars together with the measurement,
 and those of zeros too

---
 .../sdk/metrics/_internal/aggregation.py             | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index b50e6ac..07bc8c1 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -207,7 +207,7 @@ class _SumAggregation(_Aggregation[Sum]):
 
             self._value = self._value + measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -432,7 +432,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
         with self._lock:
             self._value = measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -448,7 +448,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
             value = self._value
             self._value = None
 
-        exemplars = self._collect_exemplars()
+            exemplars = self._collect_exemplars()
 
         return NumberDataPoint(
             attributes=self._attributes,
@@ -538,7 +538,7 @@ class _ExplicitBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
             self._value[bisect_left(self._boundaries, measurement_value)] += 1
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -748,6 +748,8 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                 if self._count == self._zero_count:
                     self._scale = 0
 
+                self._sample_exemplar(measurement, should_sample_exemplar)
+
                 return
 
             if measurement_value > 0:
@@ -833,7 +835,7 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             # in _ExplicitBucketHistogramAggregation.aggregate
             value.increment_bucket(bucket_index)
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
-- 
2.43.0


From d3b1471aa821bc2be28d8264ce3ffce9a78ed299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 08/66] fix: an exemplar recorded without a span must not keep
 the ids of the one it replaces

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 22d1ee9..c683570 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -114,6 +114,9 @@ class ExemplarBucket:
             span_context = span.get_span_context()
             self.__span_id = span_context.span_id
             self.__trace_id = span_context.trace_id
+        else:
+            self.__span_id = None
+            self.__trace_id = None
 
         self.__offered = True
 
-- 
2.43.0


From 19c522924455596d05a9ed6e6ecb4a19885bea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 09/66] fix: fill the last slot of the fixed size exemplar
 reservoir before sampling

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index c683570..87ceaae 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -276,7 +276,7 @@ class SimpleFixedSizeExemplarReservoir(FixedSizeExemplarReservoirABC):
         context: Context,
     ) -> int:
         self._measurements_seen += 1
-        if self._measurements_seen < self._size:
+        if self._measurements_seen <= self._size:
             return self._measurements_seen - 1
 
         index = randrange(0, self._measurements_seen)
-- 
2.43.0


From d66b8639cc539a02e6aa767e574a34d1015c37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 10/66] fix: fixed size exemplar reservoirs must accept the
 parameters of any aggregation

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 87ceaae..305fc18 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -166,7 +166,8 @@ class FixedSizeExemplarReservoirABC(ExemplarReservoir):
     """Abstract class for a reservoir with fixed size."""
 
     def __init__(self, size: int, **kwargs) -> None:
-        super().__init__(**kwargs)
+        # kwargs are parameters of the aggregation the reservoir has no use for
+        super().__init__()
         self._size: int = size
         self._reservoir_storage: Mapping[int, ExemplarBucket] = defaultdict(
             ExemplarBucket
-- 
2.43.0


From 3b6e24ac59a1e2631a93ed63a2e81ee769a19fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 11/66] fix: creating the same instrument from several threads,
 or again after it was refused, must not fail

---
 .../sdk/metrics/_internal/__init__.py         | 203 ++++++++----------
 1 file changed, 93 insertions(+), 110 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index faa0959..3e9db8e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -16,12 +16,13 @@ import weakref
 from atexit import register, unregister
 from logging import getLogger
 from os import environ
-from threading import Lock
+from threading import Lock, RLock
 from time import time_ns
-from typing import Optional, Sequence
+from typing import Callable, Optional, Sequence
 
 # This kind of import is needed to avoid Sphinx errors.
 import opentelemetry.sdk.metrics
+from opentelemetry.metrics import Asynchronous, Instrument
 from opentelemetry.metrics import Counter as APICounter
 from opentelemetry.metrics import Histogram as APIHistogram
 from opentelemetry.metrics import Meter as APIMeter
@@ -87,7 +88,29 @@ class Meter(APIMeter):
         self._instrumentation_scope = instrumentation_scope
         self._measurement_consumer = measurement_consumer
         self._instrument_id_instrument = {}
-        self._instrument_id_instrument_lock = Lock()
+        self._instrument_id_instrument_lock = RLock()
+
+    def _get_or_create_instrument(
+        self, instrument_id: str, create: Callable[[], Instrument]
+    ) -> Instrument:
+        """Creates the instrument unless that happened before.
+
+        An instrument is present once its creation succeeded, which may be
+        later than its registration or, for invalid arguments, never.
+        """
+        with self._instrument_id_instrument_lock:
+            if instrument_id in self._instrument_id_instrument:
+                return self._instrument_id_instrument[instrument_id]
+            instrument = create()
+            self._instrument_id_instrument[instrument_id] = instrument
+
+        # Without the lock: a callback invoked by a collection, which excludes
+        # this registration, may create instruments.
+        if isinstance(instrument, Asynchronous):
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return instrument
 
     def create_counter(self, name, unit="", description="") -> APICounter:
         status = self._register_instrument(name, _Counter, unit, description)
@@ -103,22 +126,17 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _Counter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
+        return self._get_or_create_instrument(
+            status.instrument_id,
+            lambda: _Counter(
+                name,
+                self._instrumentation_scope,
+                self._measurement_consumer,
+                unit,
+                description,
+            ),
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
-
     def create_up_down_counter(
         self, name, unit="", description=""
     ) -> APIUpDownCounter:
@@ -137,22 +155,17 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _UpDownCounter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
+        return self._get_or_create_instrument(
+            status.instrument_id,
+            lambda: _UpDownCounter(
+                name,
+                self._instrumentation_scope,
+                self._measurement_consumer,
+                unit,
+                description,
+            ),
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
-
     def create_observable_counter(
         self,
         name,
@@ -175,25 +188,18 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _ObservableCounter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            callbacks,
-            unit,
-            description,
+        return self._get_or_create_instrument(
+            status.instrument_id,
+            lambda: _ObservableCounter(
+                name,
+                self._instrumentation_scope,
+                self._measurement_consumer,
+                callbacks,
+                unit,
+                description,
+            ),
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
-
     def create_histogram(
         self,
         name: str,
@@ -242,21 +248,17 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _Histogram(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
-            explicit_bucket_boundaries_advisory,
+        return self._get_or_create_instrument(
+            status.instrument_id,
+            lambda: _Histogram(
+                name,
+                self._instrumentation_scope,
+                self._measurement_consumer,
+                unit,
+                description,
+                explicit_bucket_boundaries_advisory,
+            ),
         )
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
 
     def create_gauge(self, name, unit="", description="") -> APIGauge:
         status = self._register_instrument(name, _Gauge, unit, description)
@@ -272,22 +274,17 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _Gauge(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
+        return self._get_or_create_instrument(
+            status.instrument_id,
+            lambda: _Gauge(
+                name,
+                self._instrumentation_scope,
+                self._measurement_consumer,
+                unit,
+                description,
+            ),
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
-
     def create_observable_gauge(
         self, name, callbacks=None, unit="", description=""
     ) -> APIObservableGauge:
@@ -306,25 +303,18 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _ObservableGauge(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            callbacks,
-            unit,
-            description,
+        return self._get_or_create_instrument(
+            status.instrument_id,
+            lambda: _ObservableGauge(
+                name,
+                self._instrumentation_scope,
+                self._measurement_consumer,
+                callbacks,
+                unit,
+                description,
+            ),
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
-
     def create_observable_up_down_counter(
         self, name, callbacks=None, unit="", description=""
     ) -> APIObservableUpDownCounter:
@@ -343,25 +333,18 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _ObservableUpDownCounter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            callbacks,
-            unit,
-            description,
+        return self._get_or_create_instrument(
+            status.instrument_id,
+            lambda: _ObservableUpDownCounter(
+                name,
+                self._instrumentation_scope,
+                self._measurement_consumer,
+                callbacks,
+                unit,
+                description,
+            ),
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
-
 
 def _get_exemplar_filter(exemplar_filter: str) -> ExemplarFilter:
     if exemplar_filter == "trace_based":
-- 
2.43.0


From 8d1f6a45e39ce3d04e37b57938cd3c00e0f4d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 12/66] fix: instruments whose unit or description contains a
 comma must not be mixed up

---
 .../src/opentelemetry/metrics/_internal/__init__.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 2319d8d..1e19819 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -252,8 +252,9 @@ class Meter(ABC):
         the registered instrument advisory.
         """
 
-        instrument_id = ",".join(
-            [name.strip().lower(), type_.__name__, unit, description]
+        # units and descriptions may contain any separator
+        instrument_id = repr(
+            (name.strip().lower(), type_.__name__, unit, description)
         )
 
         already_registered = False
-- 
2.43.0


From afcdf7e944dfb8f1b2eef6e7b99bfba0a0f8d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 13/66] fix: views must match instrument names
 case-insensitively

---
 .../src/opentelemetry/sdk/metrics/_internal/view.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
index b3fa029..e267856 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
@@ -170,7 +170,8 @@ class View:
                 return False
 
         if self._instrument_name is not None:
-            if not fnmatch(instrument.name, self._instrument_name):
+            # instrument names are case-insensitive and kept in lower case
+            if not fnmatch(instrument.name, self._instrument_name.lower()):
                 return False
 
         if self._instrument_unit is not None:
-- 
2.43.0


From 88cbb7e6b019bfb7c4138386ec26ee0529e6ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 14/66] fix: an instrument name with surrounding blanks is
 invalid even if the stripped name exists

---
 .../src/opentelemetry/metrics/_internal/__init__.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 1e19819..0656b05 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -254,7 +254,7 @@ class Meter(ABC):
 
         # units and descriptions may contain any separator
         instrument_id = repr(
-            (name.strip().lower(), type_.__name__, unit, description)
+            (name.lower(), type_.__name__, unit, description)
         )
 
         already_registered = False
-- 
2.43.0


From d8eaeea669446012e13e4503bced8afd313f3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 15/66] fix: the periodic reader must not export after
 shutdown, nor flush past an export under way

---
 .../sdk/metrics/_internal/export/__init__.py  | 56 +++++++++++++++----
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 52c6833..35dcf8c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -17,11 +17,12 @@ import math
 import os
 import weakref
 from abc import ABC, abstractmethod
+from contextlib import nullcontext
 from enum import Enum
 from logging import getLogger
 from os import environ, linesep
 from sys import stdout
-from threading import Event, Lock, RLock, Thread
+from threading import TIMEOUT_MAX, Event, Lock, RLock, Thread
 from time import time_ns
 from typing import IO, Callable, Iterable, Optional
 
@@ -212,6 +213,10 @@ class MetricReader(ABC):
     .. automethod:: _receive_metrics
     """
 
+    # Held from the collection of metrics until they were received, by readers
+    # for which no other thread may get in between.
+    _collect_lock = nullcontext()
+
     def __init__(
         self,
         preferred_temporality: dict[type, AggregationTemporality]
@@ -337,13 +342,14 @@ class MetricReader(ABC):
             )
             return
 
-        metrics = self._collect(self, timeout_millis=timeout_millis)
+        with self._collect_lock:
+            metrics = self._collect(self, timeout_millis=timeout_millis)
 
-        if metrics is not None:
-            self._receive_metrics(
-                metrics,
-                timeout_millis=timeout_millis,
-            )
+            if metrics is not None:
+                self._receive_metrics(
+                    metrics,
+                    timeout_millis=timeout_millis,
+                )
 
     @final
     def _set_collect_callback(
@@ -459,6 +465,9 @@ class PeriodicExportingMetricReader(MetricReader):
         # execution of MetricExporter.export()
         # https://github.com/open-telemetry/opentelemetry-specification/blob/main/specification/metrics/sdk.md#exportbatch
         self._export_lock = Lock()
+        # A flush must not return while another thread has yet to export what it collected
+        self._collect_lock = RLock()
+        self._exporter_shutdown = False
 
         self._exporter = exporter
         if export_interval_millis is None:
@@ -547,9 +556,12 @@ class PeriodicExportingMetricReader(MetricReader):
         # pylint: disable=broad-exception-caught,invalid-name
         try:
             with self._export_lock:
-                self._exporter.export(
-                    metrics_data, timeout_millis=timeout_millis
-                )
+                if self._exporter_shutdown:
+                    _logger.warning("Exporter already shutdown, ignoring batch")
+                else:
+                    self._exporter.export(
+                        metrics_data, timeout_millis=timeout_millis
+                    )
         except Exception:
             _logger.exception("Exception while exporting metrics")
         detach(token)
@@ -568,9 +580,31 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
+
+        # No export starts after this, and one in progress can finish in time
+        acquired = self._export_lock.acquire(
+            timeout=min(
+                max((deadline_ns - time_ns()) / 10**9, 0), TIMEOUT_MAX
+            )
+        )
+        self._exporter_shutdown = True
+        if acquired:
+            self._export_lock.release()
         self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
-        super().force_flush(timeout_millis=timeout_millis)
+        deadline_ns = time_ns() + timeout_millis * 10**6
+        if not self._collect_lock.acquire(
+            timeout=min(max(timeout_millis / 10**3, 0), TIMEOUT_MAX)
+        ):
+            raise MetricsTimeoutError(
+                "Timed out waiting for the metrics collected by another thread"
+            )
+        try:
+            super().force_flush(
+                timeout_millis=(deadline_ns - time_ns()) / 10**6
+            )
+        finally:
+            self._collect_lock.release()
         self._exporter.force_flush(timeout_millis=timeout_millis)
         return True
-- 
2.43.0


From 5fc60ac0005baf339f430b189d2c6fd4dfd534d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 16/66] fix: the last collection of the periodic reader has the
 export timeout, not the interval

---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 35dcf8c..93fd1c1 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -539,7 +539,7 @@ class PeriodicExportingMetricReader(MetricReader):
                 )
         # one last collection below before shutting down completely
         try:
-            self.collect(timeout_millis=self._export_interval_millis)
+            self.collect(timeout_millis=self._export_timeout_millis)
         except MetricsTimeoutError:
             _logger.warning(
                 "Metric collection timed out.",
-- 
2.43.0


From 529e8f4a528ec3563aa13ef19720785eb4ea6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 17/66] fix: a forked child must not inherit locks and flush
 requests of threads it does not have

---
 .../sdk/_logs/_internal/export/__init__.py    |  2 ++
 .../sdk/metrics/_internal/export/__init__.py  |  8 ++++++
 .../metrics/_internal/measurement_consumer.py | 28 ++++++++++++++++++-
 .../sdk/trace/export/__init__.py              |  2 ++
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 434dc74..7d07f6a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -221,6 +221,8 @@ class BatchLogRecordProcessor(LogRecordProcessor):
 
     def _at_fork_reinit(self):
         self._condition = threading.Condition(threading.Lock())
+        # a request pending at the fork belongs to a thread of the parent
+        self._flush_request = None
         self._queue.clear()
         self._worker_thread = threading.Thread(
             name="OtelBatchLogRecordProcessor",
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 93fd1c1..13bd689 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -519,6 +519,14 @@ class PeriodicExportingMetricReader(MetricReader):
             )
 
     def _at_fork_reinit(self):
+        # A lock that another thread held when the process forked is never
+        # released in the child, where that thread does not exist.
+        self._export_lock = Lock()
+        self._collect_lock = RLock()
+        shutdown_event = Event()
+        if self._shutdown_event.is_set():
+            shutdown_event.set()
+        self._shutdown_event = shutdown_event
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index 2771b12..8a900cf 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -14,8 +14,10 @@
 
 # pylint: disable=unused-import
 
+import os
+import weakref
 from abc import ABC, abstractmethod
-from threading import Lock
+from threading import Lock, RLock
 from time import time_ns
 from typing import Iterable, List, Mapping, Optional
 
@@ -76,6 +78,30 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
         self._async_instruments: List[
             "opentelemetry.sdk.metrics._internal.instrument._Asynchronous"
         ] = []
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
+
+            def after_in_child() -> None:
+                at_fork_reinit = weak_at_fork()
+                if at_fork_reinit is not None:
+                    at_fork_reinit()
+
+            os.register_at_fork(after_in_child=after_in_child)
+
+    def _at_fork_reinit(self) -> None:
+        # A lock that another thread held when the process forked is never
+        # released in the child, where that thread does not exist.
+        # pylint: disable=protected-access
+        self._lock = Lock()
+        for reader_storage in self._reader_storages.values():
+            reader_storage._lock = RLock()
+            for (
+                matches
+            ) in reader_storage._instrument_view_instrument_matches.values():
+                for match in matches:
+                    match._lock = Lock()
+                    for aggregation in match._attributes_aggregation.values():
+                        aggregation._lock = Lock()
 
     def consume_measurement(self, measurement: Measurement) -> None:
         should_sample_exemplar = (
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 47d1769..31eab27 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -230,6 +230,8 @@ class BatchSpanProcessor(SpanProcessor):
 
     def _at_fork_reinit(self):
         self.condition = threading.Condition(threading.Lock())
+        # a request pending at the fork belongs to a thread of the parent
+        self._flush_request = None
         self.queue.clear()
 
         # worker_thread is local to a process, only the thread that issued fork continues
-- 
2.43.0


From 9ee8ae3851b2834299d8f531bdf0293a0f6c9fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 18/66] fix: restore the context after an export even if the
 exporter raised a BaseException

---
 .../opentelemetry/sdk/_logs/_internal/export/__init__.py    | 6 ++++--
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py  | 3 ++-
 .../src/opentelemetry/sdk/trace/export/__init__.py          | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 7d07f6a..2d48aa0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -130,7 +130,8 @@ class SimpleLogRecordProcessor(LogRecordProcessor):
             self._exporter.export((log_data,))
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self):
         self._shutdown = True
@@ -310,7 +311,8 @@ class BatchLogRecordProcessor(LogRecordProcessor):
             self._exporter.export(self._log_records[:idx])  # type: ignore
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
         for index in range(idx):
             self._log_records[index] = None
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 13bd689..cd05fef 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -572,7 +572,8 @@ class PeriodicExportingMetricReader(MetricReader):
                     )
         except Exception:
             _logger.exception("Exception while exporting metrics")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
         deadline_ns = time_ns() + timeout_millis * 10**6
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 31eab27..7da2d2a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -114,7 +114,8 @@ class SimpleSpanProcessor(SpanProcessor):
         # pylint: disable=broad-exception-caught
         except Exception:
             logger.exception("Exception while exporting Span.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self) -> None:
         self.span_exporter.shutdown()
@@ -362,7 +363,8 @@ class BatchSpanProcessor(SpanProcessor):
             self.span_exporter.export(self.spans_list[:idx])  # type: ignore
         except Exception:  # pylint: disable=broad-exception-caught
             logger.exception("Exception while exporting Span batch.")
-        detach(token)
+        finally:
+            detach(token)
 
         # clean up list
         for index in range(idx):
-- 
2.43.0


From 31f01cf6d1e1a674a6c281ef80336650aa4e7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 19/66] fix: refuse every modification of a Context, not only
 item assignment

---
 .../src/opentelemetry/context/context.py              | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opentelemetry-api/src/opentelemetry/context/context.py b/opentelemetry-api/src/opentelemetry/context/context.py
index c1ef9cf..6803ec0 100644
--- a/opentelemetry-api/src/opentelemetry/context/context.py
+++ b/opentelemetry-api/src/opentelemetry/context/context.py
@@ -23,6 +23,17 @@ class Context(typing.Dict[str, object]):
     def __setitem__(self, key: str, value: object) -> None:
         raise ValueError
 
+    def _immutable(self, *args: object, **kwargs: object) -> typing.NoReturn:
+        raise ValueError
+
+    __delitem__ = _immutable
+    __ior__ = _immutable
+    clear = _immutable
+    pop = _immutable
+    popitem = _immutable
+    setdefault = _immutable
+    update = _immutable
+
 
 class _RuntimeContext(ABC):
     """The RuntimeContext interface provides a wrapper for the different
-- 
2.43.0


From eddcb901c01e6b76022c80f6a17503a428bc40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 20/66] fix: neither inject an invalid span context as
 traceparent nor accept a trailing newline

---
 .../src/opentelemetry/trace/propagation/tracecontext.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index af16a08..e0ed992 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -29,7 +29,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
     _TRACESTATE_HEADER_NAME = "tracestate"
     _TRACEPARENT_HEADER_FORMAT = (
         "^[ \t]*([0-9a-f]{2})-([0-9a-f]{32})-([0-9a-f]{16})-([0-9a-f]{2})"
-        + "(-.*)?[ \t]*$"
+        + r"(-.*)?[ \t]*\Z"
     )
     _TRACEPARENT_HEADER_FORMAT_RE = re.compile(_TRACEPARENT_HEADER_FORMAT)
 
@@ -98,7 +98,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
         """
         span = trace.get_current_span(context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
         traceparent_string = f"00-{format_trace_id(span_context.trace_id)}-{format_span_id(span_context.span_id)}-{span_context.trace_flags:02x}"
         setter.set(carrier, self._TRACEPARENT_HEADER_NAME, traceparent_string)
-- 
2.43.0


From 0fcd8d755af13f046527ef0539efcd40dcba4a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 21/66] fix: updating a new key of a full TraceState must not
 drop its entries

---
 opentelemetry-api/src/opentelemetry/trace/span.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opentelemetry-api/src/opentelemetry/trace/span.py b/opentelemetry-api/src/opentelemetry/trace/span.py
index 6e54dfc..6191e39 100644
--- a/opentelemetry-api/src/opentelemetry/trace/span.py
+++ b/opentelemetry-api/src/opentelemetry/trace/span.py
@@ -331,6 +331,10 @@ class TraceState(typing.Mapping[str, str]):
             return self
         prev_state = self._dict.copy()
         prev_state.pop(key, None)
+        # There can be a maximum of 32 pairs
+        if len(prev_state) >= _TRACECONTEXT_MAXIMUM_TRACESTATE_KEYS:
+            _logger.warning("There can't be more 32 key/value pairs.")
+            return self
         new_state = [(key, value), *prev_state.items()]
         return TraceState(new_state)
 
-- 
2.43.0


From f68c9e86cf922022d8ae447d5747abd8c7219ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 22/66] fix: keep encoded whitespace around baggage names and
 values

---
 .../src/opentelemetry/baggage/propagation/__init__.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 49fb378..2923ff4 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -93,8 +93,8 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
                 _logger.warning("Invalid baggage entry: `%s`", entry)
                 continue
 
-            name = unquote_plus(name).strip()
-            value = unquote_plus(value).strip()
+            name = unquote_plus(name.strip())
+            value = unquote_plus(value.strip())
 
             context = set_baggage(
                 name,
-- 
2.43.0


From ba7de87cf4d6ab97e8ca1401ae73bc43ca3af1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 23/66] fix: neither extract nor inject invalid span contexts
 with B3

---
 .../src/opentelemetry/propagators/b3/__init__.py   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 1bbc361..d181288 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -43,8 +43,8 @@ class B3MultiFormat(TextMapPropagator):
     SAMPLED_KEY = "x-b3-sampled"
     FLAGS_KEY = "x-b3-flags"
     _SAMPLE_PROPAGATE_VALUES = {"1", "True", "true", "d"}
-    _trace_id_regex = re_compile(r"[\da-fA-F]{16}|[\da-fA-F]{32}")
-    _span_id_regex = re_compile(r"[\da-fA-F]{16}")
+    _trace_id_regex = re_compile(r"[0-9a-fA-F]{16}|[0-9a-fA-F]{32}")
+    _span_id_regex = re_compile(r"[0-9a-fA-F]{16}")
 
     def extract(
         self,
@@ -105,6 +105,12 @@ class B3MultiFormat(TextMapPropagator):
 
         trace_id = int(trace_id, 16)
         span_id = int(span_id, 16)
+        if (
+            trace_id == trace.INVALID_TRACE_ID
+            or span_id == trace.INVALID_SPAN_ID
+        ):
+            return context
+
         options = 0
         # The b3 spec provides no defined behavior for both sample and
         # flag values set. Since the setting of at least one implies
@@ -136,7 +142,7 @@ class B3MultiFormat(TextMapPropagator):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
@@ -175,7 +181,7 @@ class B3SingleFormat(B3MultiFormat):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
-- 
2.43.0


From 64bb8679a4c70b347013aafd2f857392279d6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 24/66] fix: accept only hexadecimal ids in range and keep
 whole baggage keys and values with Jaeger

---
 .../propagators/jaeger/__init__.py            | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 6b6eb8f..bfcf153 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import re
 import typing
 import urllib.parse
 
@@ -27,6 +28,8 @@ from opentelemetry.propagators.textmap import (
 )
 from opentelemetry.trace import format_span_id, format_trace_id
 
+_HEX_REGEX = re.compile("[0-9a-fA-F]+")
+
 
 class JaegerPropagator(TextMapPropagator):
     """Propagator for the Jaeger format.
@@ -53,21 +56,18 @@ class JaegerPropagator(TextMapPropagator):
         context = self._extract_baggage(getter, carrier, context)
 
         trace_id, span_id, flags = _parse_trace_id_header(header)
-        if (
-            trace_id == trace.INVALID_TRACE_ID
-            or span_id == trace.INVALID_SPAN_ID
-        ):
+        span_context = trace.SpanContext(
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
+        )
+        if not span_context.is_valid:
             return context
 
-        span = trace.NonRecordingSpan(
-            trace.SpanContext(
-                trace_id=trace_id,
-                span_id=span_id,
-                is_remote=True,
-                trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
-            )
+        return trace.set_span_in_context(
+            trace.NonRecordingSpan(span_context), context
         )
-        return trace.set_span_in_context(span, context)
 
     def inject(
         self,
@@ -77,7 +77,7 @@ class JaegerPropagator(TextMapPropagator):
     ) -> None:
         span = trace.get_current_span(context=context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         # Non-recording spans do not have a parent
@@ -120,9 +120,11 @@ class JaegerPropagator(TextMapPropagator):
         ]
         for key in baggage_keys:
             value = _extract_first_element(getter.get(carrier, key))
+            if value is None:
+                continue
             context = baggage.set_baggage(
-                key.replace(self.BAGGAGE_PREFIX, ""),
-                urllib.parse.unquote(value).strip(),
+                key[len(self.BAGGAGE_PREFIX) :],
+                urllib.parse.unquote(value.strip()),
                 context=context,
             )
         return context
@@ -166,7 +168,6 @@ def _parse_trace_id_header(
 def _int_from_hex_str(
     identifier: str, default: typing.Optional[int]
 ) -> typing.Optional[int]:
-    try:
-        return int(identifier, 16)
-    except ValueError:
+    if _HEX_REGEX.fullmatch(identifier) is None:
         return default
+    return int(identifier, 16)
-- 
2.43.0


From ae737091ffdc972292deb979cb37d17eb0553adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 25/66] fix: OTEL_PROPAGATORS=none disables propagation, and no
 propagators extract an empty context

---
 opentelemetry-api/src/opentelemetry/propagate/__init__.py    | 4 ++++
 opentelemetry-api/src/opentelemetry/propagators/composite.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/propagate/__init__.py b/opentelemetry-api/src/opentelemetry/propagate/__init__.py
index afe406f..9087800 100644
--- a/opentelemetry-api/src/opentelemetry/propagate/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/propagate/__init__.py
@@ -133,6 +133,10 @@ environ_propagators = environ.get(
 for propagator in environ_propagators.split(","):
     propagator = propagator.strip()
 
+    if propagator.lower() == "none":
+        propagators = []
+        break
+
     try:
         propagators.append(  # type: ignore
             next(  # type: ignore
diff --git a/opentelemetry-api/src/opentelemetry/propagators/composite.py b/opentelemetry-api/src/opentelemetry/propagators/composite.py
index 77330d9..10f6123 100644
--- a/opentelemetry-api/src/opentelemetry/propagators/composite.py
+++ b/opentelemetry-api/src/opentelemetry/propagators/composite.py
@@ -50,7 +50,7 @@ class CompositePropagator(textmap.TextMapPropagator):
         """
         for propagator in self._propagators:
             context = propagator.extract(carrier, context, getter=getter)
-        return context  # type: ignore
+        return Context() if context is None else context
 
     def inject(
         self,
-- 
2.43.0


From 0eb5f08836f577d126e8091027d08ee1e6d2884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 26/66] fix: meters obtained before the provider is set keep
 their attributes

---
 .../metrics/_internal/__init__.py             | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 0656b05..585fff8 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -151,6 +151,19 @@ class NoOpMeterProvider(MeterProvider):
         return NoOpMeter(name, version=version, schema_url=schema_url)
 
 
+def _get_real_meter(
+    meter_provider: MeterProvider,
+    name: str,
+    version: Optional[str],
+    schema_url: Optional[str],
+    attributes: Optional[Attributes],
+) -> "Meter":
+    # not every provider has to know about attributes
+    if attributes is None:
+        return meter_provider.get_meter(name, version, schema_url)
+    return meter_provider.get_meter(name, version, schema_url, attributes)
+
+
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
         self._lock = Lock()
@@ -166,11 +179,20 @@ class _ProxyMeterProvider(MeterProvider):
     ) -> "Meter":
         with self._lock:
             if self._real_meter_provider is not None:
-                return self._real_meter_provider.get_meter(
-                    name, version, schema_url
+                return _get_real_meter(
+                    self._real_meter_provider,
+                    name,
+                    version,
+                    schema_url,
+                    attributes,
                 )
 
-            meter = _ProxyMeter(name, version=version, schema_url=schema_url)
+            meter = _ProxyMeter(
+                name,
+                version=version,
+                schema_url=schema_url,
+                attributes=attributes,
+            )
             self._meters.append(meter)
             return meter
 
@@ -506,8 +528,10 @@ class _ProxyMeter(Meter):
         name: str,
         version: Optional[str] = None,
         schema_url: Optional[str] = None,
+        attributes: Optional[Attributes] = None,
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
+        self._attributes = attributes
         self._lock = Lock()
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
@@ -518,8 +542,12 @@ class _ProxyMeter(Meter):
         Creates a real backing meter for this instance and notifies all created
         instruments so they can create real backing instruments.
         """
-        real_meter = meter_provider.get_meter(
-            self._name, self._version, self._schema_url
+        real_meter = _get_real_meter(
+            meter_provider,
+            self._name,
+            self._version,
+            self._schema_url,
+            self._attributes,
         )
 
         with self._lock:
-- 
2.43.0


From 13f8278b990a29bf2be0d89ae1bf682a5f08de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 27/66] fix: an instrument that cannot be created must not
 leave the others without a provider

---
 .../src/opentelemetry/metrics/_internal/__init__.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 585fff8..f5fbe45 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -555,7 +555,13 @@ class _ProxyMeter(Meter):
             # notify all proxy instruments of the new meter so they can create
             # real instruments to back themselves
             for instrument in self._instruments:
-                instrument.on_meter_set(real_meter)
+                try:
+                    instrument.on_meter_set(real_meter)
+                except Exception:  # pylint: disable=broad-exception-caught
+                    _logger.exception(
+                        "Failed to create the real instrument of %s",
+                        instrument,
+                    )
 
     def create_counter(
         self,
-- 
2.43.0


From 16393b8ceefc772e92d750ad9f20dd3bb3212e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 28/66] fix: a processor that fails to shut down must not keep
 the others from being shut down

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py  | 10 +++++++++-
 .../src/opentelemetry/sdk/trace/__init__.py            | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 302ca1e..54bef61 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -326,8 +326,15 @@ class SynchronousMultiLogRecordProcessor(LogRecordProcessor):
 
     def shutdown(self) -> None:
         """Shutdown the log processors one by one"""
+        error = None
         for lp in self._log_record_processors:
-            lp.shutdown()
+            try:
+                lp.shutdown()
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                # the others still have to be shut down
+                error = error or exc
+        if error is not None:
+            raise error
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
         """Force flush the log processors one by one
@@ -391,6 +398,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         for lp in self._log_record_processors:
             future = self._executor.submit(func(lp), *args, **kwargs)
             futures.append(future)
+        concurrent.futures.wait(futures)
         for future in futures:
             future.result()
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 7262b1a..fd3c80b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -176,8 +176,15 @@ class SynchronousMultiSpanProcessor(SpanProcessor):
 
     def shutdown(self) -> None:
         """Sequentially shuts down all underlying span processors."""
+        error = None
         for sp in self._span_processors:
-            sp.shutdown()
+            try:
+                sp.shutdown()
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                # the others still have to be shut down
+                error = error or exc
+        if error is not None:
+            raise error
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
         """Sequentially calls force_flush on all underlying
@@ -242,6 +249,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         for sp in self._span_processors:
             future = self._executor.submit(func(sp), *args, **kwargs)
             futures.append(future)
+        concurrent.futures.wait(futures)
         for future in futures:
             future.result()
 
-- 
2.43.0


From f9e091129119bab1e9bab22bd91ca263aac056a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 29/66] fix: concurrent multi processors work while the
 interpreter exits

---
 .../sdk/_logs/_internal/__init__.py              | 16 ++++++++++++++--
 .../src/opentelemetry/sdk/trace/__init__.py      | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 54bef61..cb5db9b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -388,6 +388,18 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         with self._lock:
             self._log_record_processors += (log_record_processor,)
 
+    def _submit(self, func: Callable[..., Any], *args: Any, **kwargs: Any):
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # An exiting interpreter starts no new work in other threads
+            future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                future.set_exception(exc)
+            return future
+
     def _submit_and_wait(
         self,
         func: Callable[[LogRecordProcessor], Callable[..., None]],
@@ -396,7 +408,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
     ):
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(func(lp), *args, **kwargs)
+            future = self._submit(func(lp), *args, **kwargs)
             futures.append(future)
         concurrent.futures.wait(futures)
         for future in futures:
@@ -421,7 +433,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         """
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(lp.force_flush, timeout_millis)
+            future = self._submit(lp.force_flush, timeout_millis)
             futures.append(future)
 
         done_futures, not_done_futures = concurrent.futures.wait(
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index fd3c80b..8474ca8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -239,6 +239,18 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         with self._lock:
             self._span_processors += (span_processor,)
 
+    def _submit(self, func: Callable[..., Any], *args: Any, **kwargs: Any):
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # An exiting interpreter starts no new work in other threads
+            future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                future.set_exception(exc)
+            return future
+
     def _submit_and_await(
         self,
         func: Callable[[SpanProcessor], Callable[..., None]],
@@ -247,7 +259,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
     ):
         futures = []
         for sp in self._span_processors:
-            future = self._executor.submit(func(sp), *args, **kwargs)
+            future = self._submit(func(sp), *args, **kwargs)
             futures.append(future)
         concurrent.futures.wait(futures)
         for future in futures:
@@ -282,7 +294,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         """
         futures = []
         for sp in self._span_processors:  # type: SpanProcessor
-            future = self._executor.submit(sp.force_flush, timeout_millis)
+            future = self._submit(sp.force_flush, timeout_millis)
             futures.append(future)
 
         timeout_sec = timeout_millis / 1e3
-- 
2.43.0


From aff68fc2adaf95215202f6a0c8976450c2476033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 30/66] fix: a tracer or logger provider shuts its processors
 down once however often it is called

---
 .../sdk/_logs/_internal/__init__.py              | 16 ++++++++++++----
 .../src/opentelemetry/sdk/trace/__init__.py      | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index cb5db9b..f260d9c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -52,6 +52,7 @@ from opentelemetry.trace import (
     get_current_span,
 )
 from opentelemetry.trace.span import TraceFlags
+from opentelemetry.util._once import Once
 from opentelemetry.util.types import AnyValue, Attributes
 
 _logger = logging.getLogger(__name__)
@@ -639,6 +640,7 @@ class LoggerProvider(APILoggerProvider):
         disabled = environ.get(OTEL_SDK_DISABLED, "")
         self._disabled = disabled.lower().strip() == "true"
         self._at_exit_handler = None
+        self._shutdown_once = Once()
         if shutdown_on_exit:
             self._at_exit_handler = atexit.register(self.shutdown)
         self._logger_cache = {}
@@ -713,10 +715,16 @@ class LoggerProvider(APILoggerProvider):
 
     def shutdown(self):
         """Shuts down the log processors."""
-        self._multi_log_record_processor.shutdown()
-        if self._at_exit_handler is not None:
-            atexit.unregister(self._at_exit_handler)
-            self._at_exit_handler = None
+        if not self._shutdown_once.do_once(lambda: None):
+            _logger.warning("shutdown can only be called once")
+            return
+
+        try:
+            self._multi_log_record_processor.shutdown()
+        finally:
+            if self._at_exit_handler is not None:
+                atexit.unregister(self._at_exit_handler)
+                self._at_exit_handler = None
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
         """Force flush the log processors.
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 8474ca8..e294766 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -74,6 +74,7 @@ from opentelemetry.semconv.attributes.exception_attributes import (
 from opentelemetry.trace import NoOpTracer, SpanContext
 from opentelemetry.trace.status import Status, StatusCode
 from opentelemetry.util import types
+from opentelemetry.util._once import Once
 from opentelemetry.util._decorator import _agnosticcontextmanager
 
 logger = logging.getLogger(__name__)
@@ -1237,6 +1238,7 @@ class TracerProvider(trace_api.TracerProvider):
         disabled = environ.get(OTEL_SDK_DISABLED, "")
         self._disabled = disabled.lower().strip() == "true"
         self._atexit_handler = None
+        self._shutdown_once = Once()
 
         if shutdown_on_exit:
             self._atexit_handler = atexit.register(self.shutdown)
@@ -1303,10 +1305,16 @@ class TracerProvider(trace_api.TracerProvider):
 
     def shutdown(self) -> None:
         """Shut down the span processors added to the tracer provider."""
-        self._active_span_processor.shutdown()
-        if self._atexit_handler is not None:
-            atexit.unregister(self._atexit_handler)
-            self._atexit_handler = None
+        if not self._shutdown_once.do_once(lambda: None):
+            logger.warning("shutdown can only be called once")
+            return
+
+        try:
+            self._active_span_processor.shutdown()
+        finally:
+            if self._atexit_handler is not None:
+                atexit.unregister(self._atexit_handler)
+                self._atexit_handler = None
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
         """Requests the active span processor to process all spans that have not
-- 
2.43.0


From 5acdd4fa4ab0251067ce421aebb9991920cab05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 31/66] fix: shutting down a meter provider reaches every
 reader even if time runs out

---
 .../src/opentelemetry/sdk/metrics/_internal/__init__.py   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 3e9db8e..19c1b82 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -499,13 +499,9 @@ class MeterProvider(APIMeterProvider):
         for metric_reader in self._sdk_config.metric_readers:
             current_ts = time_ns()
             try:
-                if current_ts >= deadline_ns:
-                    # pylint: disable=broad-exception-raised
-                    raise Exception(
-                        "Didn't get to execute, deadline already exceeded"
-                    )
+                # a reader is shut down even if no time is left to wait for it
                 metric_reader.shutdown(
-                    timeout_millis=(deadline_ns - current_ts) / 10**6
+                    timeout_millis=max(deadline_ns - current_ts, 0) / 10**6
                 )
 
             # pylint: disable=broad-exception-caught
-- 
2.43.0


From 56eabf788a735ba9a0323baebd1671b7bebe9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 32/66] fix: EventLoggerProvider.force_flush returns the result

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index ae16302..1180c7d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -86,4 +86,4 @@ class EventLoggerProvider(APIEventLoggerProvider):
         self._logger_provider.shutdown()
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
-        self._logger_provider.force_flush(timeout_millis)
+        return self._logger_provider.force_flush(timeout_millis)
-- 
2.43.0


From d2639b9749c897f5b257839cb2bf353046f230f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 33/66] fix: a slow resource detector holds up detection no
 longer than the timeout

---
 .../src/opentelemetry/sdk/resources/__init__.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 752b906..f04c2a6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -511,7 +511,11 @@ def get_aggregated_resources(
     """
     detectors_merged_resource = initial_resource or Resource.create()
 
-    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as executor:
+    # One worker for each detector, so that none waits for another to finish
+    executor = concurrent.futures.ThreadPoolExecutor(
+        max_workers=max(1, len(detectors))
+    )
+    try:
         futures = [executor.submit(detector.detect) for detector in detectors]
         for detector_ind, future in enumerate(futures):
             detector = detectors[detector_ind]
@@ -537,5 +541,8 @@ def get_aggregated_resources(
                 detectors_merged_resource = detectors_merged_resource.merge(
                     detected_resource
                 )
+    finally:
+        # Do not wait for detectors that exceeded the timeout
+        executor.shutdown(wait=False)
 
     return detectors_merged_resource
-- 
2.43.0


From 1544abdb625af821f88a9f4e311de3a21bca2cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 34/66] fix: default service name is kept when schema URLs
 conflict

---
 opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index f04c2a6..cf2d3c3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -233,7 +233,7 @@ class Resource:
             if process_executable_name:
                 default_service_name += ":" + process_executable_name
             resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
+                Resource({SERVICE_NAME: default_service_name})
             )
         return resource
 
-- 
2.43.0


From ff72621574356dce5c04dba9fec7276071650570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 35/66] fix: count dropped log attributes also when none is
 left

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index f260d9c..b643611 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -251,7 +251,7 @@ class LogRecord(APILogRecord):
 
     @property
     def dropped_attributes(self) -> int:
-        if self.attributes:
+        if isinstance(self.attributes, BoundedAttributes):
             return self.attributes.dropped
         return 0
 
-- 
2.43.0


From ac60358c70e6449c30a44bf064537d7153698afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 36/66] fix: sampler name with surrounding spaces gets its
 argument as a number

---
 .../src/opentelemetry/sdk/_configuration/__init__.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
index c1852ed..a7753df 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
@@ -320,6 +320,7 @@ def _import_sampler_factory(sampler_name: str) -> Callable[[str], Sampler]:
 def _import_sampler(sampler_name: str) -> Sampler | None:
     if not sampler_name:
         return None
+    sampler_name = sampler_name.strip()
     try:
         sampler_factory = _import_sampler_factory(sampler_name)
         arg = None
-- 
2.43.0


From e04e60573d0ba1dce10756b800b71f115fb8bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 37/66] fix: a sampler probability out of range in the
 environment is ignored

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
index fb6990a..3877ebc 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
@@ -436,8 +436,12 @@ def _get_from_env_or_default() -> Sampler:
     if trace_sampler in ("traceidratio", "parentbased_traceidratio"):
         try:
             rate = float(os.getenv(OTEL_TRACES_SAMPLER_ARG))
+            if not 0.0 <= rate <= 1.0:
+                raise ValueError("Probability must be in range [0.0, 1.0].")
         except (ValueError, TypeError):
-            _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")
+            _logger.warning(
+                "Could not convert TRACES_SAMPLER_ARG to a probability."
+            )
             rate = 1.0
         return _KNOWN_SAMPLERS[trace_sampler](rate)
 
-- 
2.43.0


From 6839a65e1755ff061fe6d6b5764f9ce3bfd57cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 38/66] fix: reject a metric export interval that is not a
 number

---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index cd05fef..5b88486 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -512,7 +512,7 @@ class PeriodicExportingMetricReader(MetricReader):
                 os.register_at_fork(
                     after_in_child=lambda: weak_at_fork()()  # pylint: disable=unnecessary-lambda, protected-access
                 )
-        elif self._export_interval_millis <= 0:
+        elif self._export_interval_millis != math.inf:
             raise ValueError(
                 f"interval value {self._export_interval_millis} is invalid \
                 and needs to be larger than zero."
-- 
2.43.0


From de8d9ded50e30257fd8ecfb57919d21b2c072116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 39/66] fix: LoggingHandler handles errors instead of raising
 into the application

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index b643611..b6fff6b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -575,9 +575,14 @@ class LoggingHandler(logging.Handler):
 
         The record is translated to OTel format, and then sent across the pipeline.
         """
-        logger = get_logger(record.name, logger_provider=self._logger_provider)
-        if not isinstance(logger, NoOpLogger):
-            logger.emit(self._translate(record))
+        try:
+            logger = get_logger(
+                record.name, logger_provider=self._logger_provider
+            )
+            if not isinstance(logger, NoOpLogger):
+                logger.emit(self._translate(record))
+        except Exception:  # pylint: disable=broad-exception-caught
+            self.handleError(record)
 
     def flush(self) -> None:
         """
-- 
2.43.0


From 2d924b07e88c79dabcc752570e9561993f81cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:21 +0000
Subject: [PATCH 40/66] fix: gRPC exporter shutdown leaves an export's lock
 alone and takes effect once

A shutdown that ran out of time released the lock held by the export
under way, whose own release then raised.  Concurrent shutdowns closed
the channel twice, and an export waiting for the lock called the closed
channel and raised.
---
 .../exporter/otlp/proto/grpc/exporter.py      | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 4be75c5..75174e0 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -259,6 +259,7 @@ class OTLPExporterMixin(
         self._client = self._stub(self._channel)
 
         self._export_lock = threading.Lock()
+        self._shutdown_lock = threading.Lock()
         self._shutdown = False
 
     @abstractmethod
@@ -294,6 +295,9 @@ class OTLPExporterMixin(
                 return self._result.FAILURE
 
             with self._export_lock:
+                # shut down while waiting for the lock
+                if self._shutdown:
+                    return self._result.FAILURE
                 try:
                     self._client.Export(
                         request=self._translate_data(data),
@@ -357,10 +361,18 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring call")
             return
         # wait for the last export if any
-        self._export_lock.acquire(timeout=timeout_millis / 1e3)
-        self._shutdown = True
-        self._channel.close()
-        self._export_lock.release()
+        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)
+        try:
+            with self._shutdown_lock:
+                if self._shutdown:
+                    logger.warning("Exporter already shutdown, ignoring call")
+                    return
+                self._shutdown = True
+            self._channel.close()
+        finally:
+            # an export still under way keeps its lock
+            if acquired:
+                self._export_lock.release()
 
     @property
     @abstractmethod
-- 
2.43.0


From b404f1ac6567a3686030e17a8221daba6166056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 41/66] fix: malformed or negative retry info from an OTLP
 server does not make the export raise

---
 .../exporter/otlp/proto/grpc/exporter.py          | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 75174e0..08feb0b 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -35,6 +35,7 @@ from typing import Sequence as TypingSequence
 from urllib.parse import urlparse
 
 from deprecated import deprecated
+from google.protobuf.message import DecodeError
 from google.rpc.error_details_pb2 import RetryInfo
 
 from grpc import (
@@ -322,11 +323,15 @@ class OTLPExporterMixin(
                         )
                         if retry_info_bin is not None:
                             retry_info = RetryInfo()
-                            retry_info.ParseFromString(retry_info_bin)
-                            delay = (
-                                retry_info.retry_delay.seconds
-                                + retry_info.retry_delay.nanos / 1.0e9
-                            )
+                            try:
+                                retry_info.ParseFromString(retry_info_bin)
+                                delay = max(
+                                    0,
+                                    retry_info.retry_delay.seconds
+                                    + retry_info.retry_delay.nanos / 1.0e9,
+                                )
+                            except DecodeError:
+                                logger.warning("Ignoring malformed retry info")
 
                         logger.warning(
                             (
-- 
2.43.0


From 9e47732ff1f93e4054c81664d3560b546a5c2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 42/66] fix: OTLP/HTTP span and log exporters stop retrying
 once shut down

---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py        | 4 ++--
 .../exporter/otlp/proto/http/trace_exporter/__init__.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 21b8773..16b0e93 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -161,7 +161,7 @@ class OTLPLogExporter(LogExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return LogExportResult.FAILURE
 
             resp = self._export(serialized_data)
@@ -193,8 +193,8 @@ class OTLPLogExporter(LogExporter):
         if self._shutdown:
             _logger.warning("Exporter already shutdown, ignoring call")
             return
-        self._session.close()
         self._shutdown = True
+        self._session.close()
 
 
 def _compression_from_env() -> Compression:
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 7bcf4b4..33fe42d 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -153,7 +153,7 @@ class OTLPSpanExporter(SpanExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return SpanExportResult.FAILURE
 
             resp = self._export(serialized_data)
@@ -192,8 +192,8 @@ class OTLPSpanExporter(SpanExporter):
         if self._shutdown:
             _logger.warning("Exporter already shutdown, ignoring call")
             return
-        self._session.close()
         self._shutdown = True
+        self._session.close()
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
         """Nothing is buffered in this exporter, so this method does nothing."""
-- 
2.43.0


From eb9fa3faa2dd81ee0405881f98ead8aca29648ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 43/66] fix: OTLP/HTTP metric exporter sends nothing once shut
 down

---
 .../otlp/proto/http/metric_exporter/__init__.py  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 00f429e..3dcaf32 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -161,6 +161,8 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
                 {"Content-Encoding": self._compression.value}
             )
 
+        self._shutdown = False
+
         self._common_configuration(
             preferred_temporality, preferred_aggregation
         )
@@ -197,11 +199,17 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         timeout_millis: float = 10_000,
         **kwargs,
     ) -> MetricExportResult:
+        # After the call to shutdown subsequent calls to export are
+        # not allowed and should return a failure result.
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring batch")
+            return MetricExportResult.FAILURE
+
         serialized_data = encode_metrics(metrics_data)
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return MetricExportResult.FAILURE
 
             resp = self._export(serialized_data.SerializeToString())
@@ -226,7 +234,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         return MetricExportResult.FAILURE
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        pass
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._shutdown = True
+        self._session.close()
 
     @property
     def _exporting(self) -> str:
-- 
2.43.0


From f3ac983b77ce5fd2faa31b192f5dbd0d969bd82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 44/66] fix: OTLP encoding of a link keeps its trace state

---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 388d229..dbedbce 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -14,7 +14,7 @@
 
 import logging
 from collections import defaultdict
-from typing import List, Optional, Sequence
+from typing import List, Mapping, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -159,6 +159,7 @@ def _encode_links(links: Sequence[Link]) -> Sequence[PB2SPan.Link]:
             encoded_link = PB2SPan.Link(
                 trace_id=_encode_trace_id(link.context.trace_id),
                 span_id=_encode_span_id(link.context.span_id),
+                trace_state=_encode_trace_state(link.context.trace_state),
                 attributes=_encode_attributes(link.attributes),
                 dropped_attributes_count=link.dropped_attributes,
                 flags=_span_flags(link.context),
@@ -179,7 +180,7 @@ def _encode_status(status: Status) -> Optional[PB2Status]:
 
 def _encode_trace_state(trace_state: TraceState) -> Optional[str]:
     pb2_trace_state = None
-    if trace_state is not None:
+    if isinstance(trace_state, Mapping):
         pb2_trace_state = ",".join(
             [f"{key}={value}" for key, value in (trace_state.items())]
         )
-- 
2.43.0


From 7c427d8b4c214fc045fc428909780ef85ef2e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 45/66] fix: OTLP encoding accepts log records without ids,
 flags or severity number

---
 .../otlp/proto/common/_internal/_log_encoder/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 9cd4484..1e96d31 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -40,26 +40,27 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
-        if log_data.log_record.span_id == 0
+        if not log_data.log_record.span_id
         else _encode_span_id(log_data.log_record.span_id)
     )
     trace_id = (
         None
-        if log_data.log_record.trace_id == 0
+        if not log_data.log_record.trace_id
         else _encode_trace_id(log_data.log_record.trace_id)
     )
     body = log_data.log_record.body
+    severity_number = log_data.log_record.severity_number
     return PB2LogRecord(
         time_unix_nano=log_data.log_record.timestamp,
         observed_time_unix_nano=log_data.log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
-        flags=int(log_data.log_record.trace_flags),
+        flags=int(log_data.log_record.trace_flags or 0),
         body=_encode_value(body, allow_null=True),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-        severity_number=log_data.log_record.severity_number.value,
+        severity_number=severity_number.value if severity_number else None,
     )
 
 
-- 
2.43.0


From cfb3b29e242f591a36d0af6e8de98e9482c1607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 46/66] fix: a log record whose body OTLP cannot represent no
 longer loses the batch

---
 .../common/_internal/_log_encoder/__init__.py | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 1e96d31..f033088 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -11,8 +11,9 @@
 # WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 # See the License for the specific language governing permissions and
 # limitations under the License.
+import logging
 from collections import defaultdict
-from typing import List, Sequence
+from typing import Any, List, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -25,6 +26,7 @@ from opentelemetry.exporter.otlp.proto.common._internal import (
 from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import (
     ExportLogsServiceRequest,
 )
+from opentelemetry.proto.common.v1.common_pb2 import AnyValue as PB2AnyValue
 from opentelemetry.proto.logs.v1.logs_pb2 import LogRecord as PB2LogRecord
 from opentelemetry.proto.logs.v1.logs_pb2 import (
     ResourceLogs,
@@ -32,11 +34,27 @@ from opentelemetry.proto.logs.v1.logs_pb2 import (
 )
 from opentelemetry.sdk._logs import LogData
 
+_logger = logging.getLogger(__name__)
+
 
 def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
     return ExportLogsServiceRequest(resource_logs=_encode_resource_logs(batch))
 
 
+def _encode_body(body: Any) -> Optional[PB2AnyValue]:
+    # pylint: disable=broad-exception-caught
+    try:
+        return _encode_value(body, allow_null=True)
+    except Exception as error:
+        _logger.exception(
+            "Failed to encode log record body, sending its text: %s", error
+        )
+        try:
+            return _encode_value(str(body))
+        except Exception:
+            return None
+
+
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
@@ -48,7 +66,6 @@ def _encode_log(log_data: LogData) -> PB2LogRecord:
         if not log_data.log_record.trace_id
         else _encode_trace_id(log_data.log_record.trace_id)
     )
-    body = log_data.log_record.body
     severity_number = log_data.log_record.severity_number
     return PB2LogRecord(
         time_unix_nano=log_data.log_record.timestamp,
@@ -56,7 +73,7 @@ def _encode_log(log_data: LogData) -> PB2LogRecord:
         span_id=span_id,
         trace_id=trace_id,
         flags=int(log_data.log_record.trace_flags or 0),
-        body=_encode_value(body, allow_null=True),
+        body=_encode_body(log_data.log_record.body),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-- 
2.43.0


From fbb3d3e954b2edbf8ac8da7e4c93d9fe79470b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 47/66] fix: a Prometheus scrape shows what it collected
 itself, once

---
 .../exporter/prometheus/__init__.py           | 47 ++++++++++---------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 475cfb1..e926dcc 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -62,12 +62,12 @@ API
 ---
 """
 
-from collections import deque
 from itertools import chain
 from json import dumps
 from logging import getLogger
 from os import environ
-from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
+from threading import local
+from typing import Dict, Iterable, Sequence, Tuple, Union
 
 from prometheus_client import start_http_server
 from prometheus_client.core import (
@@ -169,13 +169,15 @@ class _CustomCollector:
 
     def __init__(self, disable_target_info: bool = False):
         self._callback = None
-        self._metrics_datas: Deque[MetricsData] = deque()
+        # What each thread collected last: a scrape must neither deliver what
+        # a flush or another scrape collected nor lose its own metrics to them
+        self._collected = local()
         self._disable_target_info = disable_target_info
         self._target_info = None
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data"""
-        self._metrics_datas.append(metrics_data)
+        self._collected.metrics_data = metrics_data
 
     def collect(self) -> Iterable[PrometheusMetric]:
         """Collect fetches the metrics from OpenTelemetry
@@ -184,31 +186,34 @@ class _CustomCollector:
         for example when the HTTP endpoint is invoked by Prometheus.
         """
         if self._callback is not None:
+            self._collected.metrics_data = None
             self._callback()
 
+        metrics_data = getattr(self._collected, "metrics_data", None)
+        self._collected.metrics_data = None
+        if metrics_data is None:
+            return
+
         metric_family_id_metric_family = {}
 
-        if len(self._metrics_datas):
-            if not self._disable_target_info:
-                if self._target_info is None:
-                    attributes: Attributes = {}
-                    for res in self._metrics_datas[0].resource_metrics:
-                        attributes = {**attributes, **res.resource.attributes}
+        if not self._disable_target_info:
+            if self._target_info is None:
+                attributes: Attributes = {}
+                for res in metrics_data.resource_metrics:
+                    attributes = {**attributes, **res.resource.attributes}
 
-                    self._target_info = self._create_info_metric(
-                        _TARGET_INFO_NAME, _TARGET_INFO_DESCRIPTION, attributes
-                    )
-                metric_family_id_metric_family[_TARGET_INFO_NAME] = (
-                    self._target_info
+                self._target_info = self._create_info_metric(
+                    _TARGET_INFO_NAME, _TARGET_INFO_DESCRIPTION, attributes
                 )
-
-        while self._metrics_datas:
-            self._translate_to_prometheus(
-                self._metrics_datas.popleft(), metric_family_id_metric_family
+            metric_family_id_metric_family[_TARGET_INFO_NAME] = (
+                self._target_info
             )
 
-            if metric_family_id_metric_family:
-                yield from metric_family_id_metric_family.values()
+        self._translate_to_prometheus(
+            metrics_data, metric_family_id_metric_family
+        )
+
+        yield from metric_family_id_metric_family.values()
 
     # pylint: disable=too-many-locals,too-many-branches
     def _translate_to_prometheus(
-- 
2.43.0


From 461d987f8d195f028a9867495d1f122ee60a05c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 48/66] fix: attributes whose Prometheus label names collide
 are joined instead of lost

---
 .../exporter/prometheus/__init__.py           | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index e926dcc..4ca101c 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -240,12 +240,9 @@ class _CustomCollector:
             metric_unit = map_unit(metric.unit)
 
             for number_data_point in metric.data.data_points:
-                label_keys = []
-                label_values = []
-
-                for key, value in sorted(number_data_point.attributes.items()):
-                    label_keys.append(sanitize_attribute(key))
-                    label_values.append(self._check_value(value))
+                labels = self._create_labels(number_data_point.attributes)
+                label_keys = list(labels)
+                label_values = list(labels.values())
 
                 per_metric_family_ids.append(
                     "|".join(
@@ -375,15 +372,23 @@ class _CustomCollector:
             return dumps(value, default=str)
         return str(value)
 
+    def _create_labels(self, attributes: Attributes) -> Dict[str, str]:
+        """Create labels for attributes. The values of attributes whose sanitized
+        names collide are joined in the order of the original names, see
+        https://github.com/open-telemetry/opentelemetry-specification/blob/v1.33.0/specification/compatibility/prometheus_and_openmetrics.md#metric-attributes
+        """
+        labels = {}
+        for key, value in sorted(attributes.items()):
+            label, text = sanitize_attribute(key), self._check_value(value)
+            labels[label] = f"{labels[label]};{text}" if label in labels else text
+        return labels
+
     def _create_info_metric(
         self, name: str, description: str, attributes: Dict[str, str]
     ) -> InfoMetricFamily:
         """Create an Info Metric Family with list of attributes"""
         # sanitize the attribute names according to Prometheus rule
-        attributes = {
-            sanitize_attribute(key): self._check_value(value)
-            for key, value in attributes.items()
-        }
+        attributes = self._create_labels(attributes)
         info = InfoMetricFamily(name, description, labels=attributes)
         info.add_metric(labels=list(attributes.keys()), value=attributes)
         return info
-- 
2.43.0


From 09a32561f2e4fd0c7a70e52567f94c63f2cedb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 49/66] fix: an attribute with an empty name gets a valid
 Prometheus label name

---
 .../src/opentelemetry/exporter/prometheus/_mapping.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py
index 077d2fb..0b402fb 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py
@@ -101,7 +101,7 @@ def sanitize_attribute(key: str) -> str:
     # Leading number special case
     if key and key[0].isdigit():
         key = "_" + key[1:]
-    return _SANITIZE_ATTRIBUTE_KEY_RE.sub("_", key)
+    return _SANITIZE_ATTRIBUTE_KEY_RE.sub("_", key) or "_"
 
 
 def map_unit(unit: str) -> str:
-- 
2.43.0


From a22af494d9c0b0af80f106442b8b3817542fe4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 50/66] fix: Zipkin v1 JSON encoding works without a maximum
 tag value length

---
 .../src/opentelemetry/exporter/zipkin/json/v1/__init__.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
index c44a2dd..5014c21 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
@@ -27,7 +27,11 @@ class V1Encoder(Encoder):
     ) -> List[Dict]:
         binary_annotations = []
         for tag_key, tag_value in self._extract_tags_from_span(span).items():
-            if isinstance(tag_value, str) and self.max_tag_value_length > 0:
+            if (
+                isinstance(tag_value, str)
+                and self.max_tag_value_length is not None
+                and self.max_tag_value_length > 0
+            ):
                 tag_value = tag_value[: self.max_tag_value_length]
             binary_annotations.append(
                 {
-- 
2.43.0


From 329352fc3497532905f12891d4c8a1f97d43f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:31 +0000
Subject: [PATCH 51/66] fix: Zipkin encoding omits the tags of an
 instrumentation scope version that is not set

---
 .../exporter/zipkin/encoder/__init__.py           | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
index bb90daa..6b1c910 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
@@ -199,14 +199,13 @@ class Encoder(abc.ABC):
         if span.resource:
             tags.update(self._extract_tags_from_dict(span.resource.attributes))
         if span.instrumentation_scope is not None:
-            tags.update(
-                {
-                    NAME_KEY: span.instrumentation_scope.name,
-                    VERSION_KEY: span.instrumentation_scope.version,
-                    _SCOPE_NAME_KEY: span.instrumentation_scope.name,
-                    _SCOPE_VERSION_KEY: span.instrumentation_scope.version,
-                }
-            )
+            scope = span.instrumentation_scope
+            tags[NAME_KEY] = scope.name
+            if scope.version is not None:
+                tags[VERSION_KEY] = scope.version
+            tags[_SCOPE_NAME_KEY] = scope.name
+            if scope.version is not None:
+                tags[_SCOPE_VERSION_KEY] = scope.version
         if span.status.status_code is not StatusCode.UNSET:
             tags.update({"otel.status_code": span.status.status_code.name})
             if span.status.status_code is StatusCode.ERROR:
-- 
2.43.0


From ff29f2ee4904ebfed5bd927ac0d4727bea855e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:31 +0000
Subject: [PATCH 52/66] fix: Zipkin sequence tags keep to the maximum length at
 an element boundary when escaped

---
 .../src/opentelemetry/exporter/zipkin/encoder/__init__.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
index 6b1c910..c04ea25 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
@@ -180,8 +180,8 @@ class Encoder(abc.ABC):
                 if tag_value_element is None:
                     running_string_length += 4  # null with no quotes
                 else:
-                    # + 2 accounts for string quotation marks
-                    running_string_length += len(tag_value_element) + 2
+                    # quotation marks and escapes included
+                    running_string_length += len(json.dumps(tag_value_element))
 
                 if tag_value_elements:
                     # accounts for ',' item separator
-- 
2.43.0


From 4f57638c7eb8fb838c39c7b4eb1301325dc0a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:07 +0000
Subject: [PATCH 53/66] fix: the OpenTracing shim's active scope follows spans
 made current through the OpenTelemetry API

---
 .../shim/opentracing_shim/__init__.py             | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8f4935e..69df069 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -497,12 +497,15 @@ class ScopeManagerShim(ScopeManager):
         if span.get_span_context() == INVALID_SPAN_CONTEXT:
             return None
 
-        try:
-            return get_value(_SHIM_KEY)
-        except KeyError:
-            span_context = SpanContextShim(span.get_span_context())
-            wrapped_span = SpanShim(self._tracer, span_context, span)
-            return ScopeShim(self, span=wrapped_span)
+        # The innermost scope of the shim is the active one only if no other
+        # span was made current through the OpenTelemetry API since.
+        scope = get_value(_SHIM_KEY)
+        if scope is not None and scope.span.unwrap() is span:
+            return scope
+
+        span_context = SpanContextShim(span.get_span_context())
+        wrapped_span = SpanShim(self._tracer, span_context, span)
+        return ScopeShim(self, span=wrapped_span)
 
     @property
     def tracer(self) -> "TracerShim":
-- 
2.43.0


From e9084f04a2381dde0b05732ff4adb818af83ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:07 +0000
Subject: [PATCH 54/66] fix: OpenTracing start_active_span honors
 ignore_active_span

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py   | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 69df069..25519dd 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -597,14 +597,6 @@ class TracerShim(Tracer):
             :class:`ScopeManagerShim`.
         """
 
-        current_span = get_current_span()
-
-        if (
-            child_of is None
-            and current_span.get_span_context() is not INVALID_SPAN_CONTEXT
-        ):
-            child_of = SpanShim(None, None, current_span)
-
         span = self.start_span(
             operation_name=operation_name,
             child_of=child_of,
-- 
2.43.0


From 967efb45e66b4b653e4e3e5883826c72a75a976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:07 +0000
Subject: [PATCH 55/66] fix: the OpenTracing shim ignores references to None

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 25519dd..e67e0c4 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -654,6 +654,9 @@ class TracerShim(Tracer):
         valid_links = []
         if references:
             for ref in references:
+                # OpenTracing requires a reference to None to be ignored.
+                if ref.referenced_context is None:
+                    continue
                 if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
                     valid_links.append(Link(ref.referenced_context.unwrap()))
 
-- 
2.43.0


From 6ed488428cd1c7d5787a20bdda6f1dc8e62da559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 56/66] fix: in the OpenTracing shim references take precedence
 over the active span

---
 .../shim/opentracing_shim/__init__.py         | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index e67e0c4..fe8ca69 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -641,16 +641,6 @@ class TracerShim(Tracer):
             An already-started :class:`SpanShim` instance.
         """
 
-        # Use active span as parent when no explicit parent is specified.
-        if not ignore_active_span and not child_of:
-            child_of = self.active_span
-
-        # Use the specified parent or the active span if possible. Otherwise,
-        # use a `None` parent, which triggers the creation of a new trace.
-        parent = child_of.unwrap() if child_of else None
-        if isinstance(parent, OtelSpanContext):
-            parent = NonRecordingSpan(parent)
-
         valid_links = []
         if references:
             for ref in references:
@@ -660,6 +650,16 @@ class TracerShim(Tracer):
                 if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
                     valid_links.append(Link(ref.referenced_context.unwrap()))
 
+        # Use active span as parent when no explicit parent is specified.
+        if not ignore_active_span and not child_of and not valid_links:
+            child_of = self.active_span
+
+        # Use the specified parent or the active span if possible. Otherwise,
+        # use a `None` parent, which triggers the creation of a new trace.
+        parent = child_of.unwrap() if child_of else None
+        if isinstance(parent, OtelSpanContext):
+            parent = NonRecordingSpan(parent)
+
         if valid_links and parent is None:
             parent = NonRecordingSpan(valid_links[0].context)
 
-- 
2.43.0


From 3680ba5b2a9418dc29147fc935df6837e4ce808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 57/66] fix: activating an OpenTracing shim span keeps its
 baggage

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index fe8ca69..899478f 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -474,7 +474,9 @@ class ScopeManagerShim(ScopeManager):
         """
 
         span_cm = use_span(span.unwrap(), end_on_exit=finish_on_close)
-        return ScopeShim.from_context_manager(self, span_cm=span_cm)
+        # pylint: disable=unnecessary-dunder-call
+        span_cm.__enter__()
+        return ScopeShim(self, span, span_cm)
 
     @property
     def active(self) -> "ScopeShim":
-- 
2.43.0


From e3595aef6a8c229537b98307b4a6389804033da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 58/66] fix: spans of the OpenTracing shim inherit the baggage
 of their parents

---
 .../shim/opentracing_shim/__init__.py         | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 899478f..8b657aa 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -101,6 +101,7 @@ from opentracing import (
     UnsupportedFormatException,
 )
 
+from opentelemetry.baggage import get_all as get_all_baggage
 from opentelemetry.baggage import get_baggage, set_baggage
 from opentelemetry.context import (
     Context,
@@ -131,6 +132,14 @@ logger = logging.getLogger(__name__)
 _SHIM_KEY = create_key("scope_shim")
 
 
+def _add_baggage(source: Context, target: Context | None) -> Context:
+    """Returns ``target`` with the baggage items of ``source`` added."""
+
+    for key, value in get_all_baggage(source).items():
+        target = set_baggage(key, value, context=target)
+    return target
+
+
 def create_tracer(otel_tracer_provider: TracerProvider) -> "TracerShim":
     """Creates a :class:`TracerShim` object from the provided OpenTelemetry
     :class:`opentelemetry.trace.TracerProvider`.
@@ -683,6 +692,23 @@ class TracerShim(Tracer):
         )
 
         context = SpanContextShim(span.get_span_context())
+
+        # Baggage propagates from the parents to the new span.
+        parents = [
+            ref.referenced_context
+            for ref in references or ()
+            if ref.referenced_context is not None
+        ]
+        if child_of:
+            parents.append(
+                child_of.context if isinstance(child_of, Span) else child_of
+            )
+        for parent_context in parents:
+            # pylint: disable=protected-access
+            context._baggage = _add_baggage(
+                parent_context.baggage, context._baggage
+            )
+
         return SpanShim(self, context, span)
 
     def inject(self, span_context, format: object, carrier: object):
-- 
2.43.0


From ef95892af51b4c1278700cfc2db76ad4240941c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 59/66] fix: the OpenTracing shim injects and extracts baggage

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8b657aa..c7de8ca 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -740,6 +740,10 @@ class TracerShim(Tracer):
             span = NonRecordingSpan(span)
 
         ctx = set_span_in_context(span)
+        if span_context:
+            if isinstance(span_context, Span):
+                span_context = span_context.context
+            ctx = _add_baggage(span_context.baggage, ctx)
         propagator.inject(carrier, context=ctx)
 
     def extract(self, format: object, carrier: object):
@@ -775,4 +779,7 @@ class TracerShim(Tracer):
         else:
             otel_context = INVALID_SPAN_CONTEXT
 
-        return SpanContextShim(otel_context)
+        span_context = SpanContextShim(otel_context)
+        # pylint: disable=protected-access
+        span_context._baggage = _add_baggage(ctx, span_context._baggage)
+        return span_context
-- 
2.43.0


From 27fa0730ec0c8f360ad2976a1453352aabaa608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:50 +0000
Subject: [PATCH 60/66] fix: grpc exporters accept the documented compression
 settings none and deflate

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 08feb0b..22886f7 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -84,7 +84,9 @@ ExportResultT = TypeVar("ExportResultT")
 
 _ENVIRON_TO_COMPRESSION = {
     None: None,
+    "none": Compression.NoCompression,
     "gzip": Compression.Gzip,
+    "deflate": Compression.Deflate,
 }
 
 
-- 
2.43.0


From 3f1d50e8253172b2bc89a3209482450556854182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:50 +0000
Subject: [PATCH 61/66] fix: grpc export fails instead of raising when a
 shutdown closes its channel

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 22886f7..0c6a2be 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -310,6 +310,12 @@ class OTLPExporterMixin(
 
                     return self._result.SUCCESS
 
+                except ValueError:
+                    # a shutdown that could not wait closed the channel
+                    if not self._shutdown:
+                        raise
+                    return self._result.FAILURE
+
                 except RpcError as error:
                     if error.code() in [
                         StatusCode.CANCELLED,
-- 
2.43.0


From 8004e26d75895dfd29f288e3d9def7cdcb6f68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:59 +0000
Subject: [PATCH 62/66] fix: grpc exporters use the signal's certificates when
 an https endpoint overrides the insecure setting

---
 .../exporter/otlp/proto/grpc/_log_exporter/__init__.py       | 5 +----
 .../exporter/otlp/proto/grpc/metric_exporter/__init__.py     | 5 +----
 .../exporter/otlp/proto/grpc/trace_exporter/__init__.py      | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py
index 8f62989..0bc1743 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py
@@ -66,10 +66,7 @@ class OTLPLogExporter(
             if insecure is not None:
                 insecure = insecure.lower() == "true"
 
-        if (
-            not insecure
-            and environ.get(OTEL_EXPORTER_OTLP_LOGS_CERTIFICATE) is not None
-        ):
+        if environ.get(OTEL_EXPORTER_OTLP_LOGS_CERTIFICATE) is not None:
             credentials = _get_credentials(
                 credentials,
                 OTEL_EXPORTER_OTLP_LOGS_CERTIFICATE,
diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py
index 8580dbb..94380bd 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py
@@ -111,10 +111,7 @@ class OTLPMetricExporter(
             if insecure is not None:
                 insecure = insecure.lower() == "true"
 
-        if (
-            not insecure
-            and environ.get(OTEL_EXPORTER_OTLP_METRICS_CERTIFICATE) is not None
-        ):
+        if environ.get(OTEL_EXPORTER_OTLP_METRICS_CERTIFICATE) is not None:
             credentials = _get_credentials(
                 credentials,
                 OTEL_EXPORTER_OTLP_METRICS_CERTIFICATE,
diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py
index c78c1b8..19499a9 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py
@@ -99,10 +99,7 @@ class OTLPSpanExporter(
             if insecure is not None:
                 insecure = insecure.lower() == "true"
 
-        if (
-            not insecure
-            and environ.get(OTEL_EXPORTER_OTLP_TRACES_CERTIFICATE) is not None
-        ):
+        if environ.get(OTEL_EXPORTER_OTLP_TRACES_CERTIFICATE) is not None:
             credentials = _get_credentials(
                 credentials,
                 OTEL_EXPORTER_OTLP_TRACES_CERTIFICATE,
-- 
2.43.0


From b66355090a664a549d514d4f32ae12b2cad14350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:48 +0000
Subject: [PATCH 63/66] fix: a log record without a timestamp can be written as
 JSON

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index b6fff6b..382b705 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -231,7 +231,9 @@ class LogRecord(APILogRecord):
                     dict(self.attributes) if bool(self.attributes) else None
                 ),
                 "dropped_attributes": self.dropped_attributes,
-                "timestamp": ns_to_iso_str(self.timestamp),
+                "timestamp": ns_to_iso_str(self.timestamp)
+                if self.timestamp is not None
+                else None,
                 "observed_timestamp": ns_to_iso_str(self.observed_timestamp),
                 "trace_id": (
                     f"0x{format_trace_id(self.trace_id)}"
-- 
2.43.0


From c57a066d52f9c5686f0829378dcc58fd951cf0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 64/66] fix: a log record whose body JSON does not know can be
 written as JSON

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 382b705..86c40d7 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 
 import abc
 import atexit
+import base64
 import concurrent.futures
 import json
 import logging
@@ -164,6 +165,13 @@ _UnsetLogLimits = LogLimits(
 )
 
 
+def _json_default(value: Any) -> str:
+    """Represents a part of a body that JSON has no representation for."""
+    if isinstance(value, (bytes, bytearray)):
+        return base64.b64encode(value).decode("ascii")
+    return str(value)
+
+
 class LogRecord(APILogRecord):
     """A LogRecord instance represents an event being logged.
 
@@ -249,6 +257,7 @@ class LogRecord(APILogRecord):
                 "resource": json.loads(self.resource.to_json()),
             },
             indent=indent,
+            default=_json_default,
         )
 
     @property
-- 
2.43.0


From 438e75e74b5803131db951f584379e9b5218d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 65/66] fix: a span's JSON shows a time of zero

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index e294766..c63f91d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -510,11 +510,11 @@ class ReadableSpan:
             parent_id = f"0x{trace_api.format_span_id(self.parent.span_id)}"
 
         start_time = None
-        if self._start_time:
+        if self._start_time is not None:
             start_time = util.ns_to_iso_str(self._start_time)
 
         end_time = None
-        if self._end_time:
+        if self._end_time is not None:
             end_time = util.ns_to_iso_str(self._end_time)
 
         status = {
-- 
2.43.0


From 028de4fd11bc265d88ef8f8438fef102e91e6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:25 +0000
Subject: [PATCH 66/66] fix: an event's explicit trace flags of zero are kept

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index 1180c7d..1acb1a4 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -55,7 +55,9 @@ class EventLogger(APIEventLogger):
             observed_timestamp=None,
             trace_id=event.trace_id or span_context.trace_id,
             span_id=event.span_id or span_context.span_id,
-            trace_flags=event.trace_flags or span_context.trace_flags,
+            trace_flags=event.trace_flags
+            if event.trace_flags is not None
+            else span_context.trace_flags,
             severity_text=None,
             severity_number=event.severity_number or SeverityNumber.INFO,
             body=event.body,
-- 
2.43.0

