#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the JSON lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Counters add up exactly and never go down",
  "Whatever threads do to the clones of a counter, and in whatever order, a value read is the sum of the amounts accepted so far by increment, add, add_u64 and time, each counted exactly once, and later reads are never smaller than earlier ones. An amount that is negative or NaN is refused with InvalidInput and changes nothing. Every other amount, however large and whole or fractional, is accepted and never makes the value smaller.",
  ["schedules", "inputs", "histories"], "every history of increment/add/add_u64/read over clones, every interleaving of those calls by several threads, every f64 amount including 0, fractions, values beyond 2^64, infinities and NaN",
  "The tests add 1, 3.45, 2.0 and 2 from one thread; they reach neither an interleaving nor the split between the integer and the fractional cell for large, negative or non-finite amounts.",
  ["src/metrics/counter.rs", "src/atomic.rs"],
  [("fetch_add on the integer cell and a compare-exchange loop on the fractional cell", "src/atomic.rs AtomicU64::add, AtomicF64::update"), ("the amount is validated before it is added", "src/metrics/counter.rs Counter::add"), ("whole amounts go to one cell, fractional ones to the other", "src/metrics/counter.rs Value::add")],
  ["Counter::value", "Counter::add result", "Display of Counter", "gathered counters"],
  [("Value.u64 / Value.f64", "whole and fractional part of the total", "src/metrics/counter.rs")])

p("C02", "Gauges apply every set, add and subtract exactly once",
  "A gauge starts at its configured initial value (0 by default), and every value read from any clone is the result of applying the set, add, subtract, increment and decrement calls in some single order that respects which calls finished before others began. No update is lost, duplicated or torn under any interleaving, and set replaces the value completely.",
  ["schedules", "histories", "inputs"], "every history of updates and reads over clones, every interleaving of those calls by several threads",
  "The tests set one value from one thread. Lost updates between a read and a write only show under particular interleavings.",
  ["src/metrics/gauge.rs", "src/atomic.rs"],
  [("compare-exchange loop", "src/atomic.rs AtomicF64::update"), ("atomic store", "src/atomic.rs AtomicF64::set")],
  ["Gauge::value", "Display of Gauge", "gathered gauges"], [("value", "current value", "src/metrics/gauge.rs Inner")])

p("C03", "Timers and in-progress tracking record each run exactly once",
  "While a closure passed to a gauge's in-progress tracking runs, the gauge is exactly one higher because of it, and as soon as the closure ends, by returning or by panicking, that contribution is gone, for any nesting and any number of threads. Timing a closure returns the closure's own result and records its elapsed time in seconds exactly once: added to a counter, stored in a gauge, or observed by a histogram or a summary; a duration converts to its exact number of seconds, up to rounding. Setting a gauge to the current time stores the current Unix time in seconds.",
  ["histories", "schedules", "fault_sequences"], "every nesting and overlap of tracked and timed closures, every elapsed time, closures that return and closures that panic",
  "One doc-test tracks one closure that returns; nothing exercises nesting, panics or the recorded durations.",
  ["src/metrics/gauge.rs", "src/metrics/counter.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/timestamp.rs"],
  [("increment before and decrement after the closure", "src/metrics/gauge.rs Gauge::track_inprogress"), ("elapsed time converted to seconds and recorded", "time methods of the four metrics; src/timestamp.rs duration_to_seconds")],
  ["Gauge::value during and after closures", "Counter::value", "Histogram::sum/count/buckets", "Summary::sum/count/quantiles"])

p("C04", "Each observation lands in exactly the right histogram bucket",
  "A histogram has one bucket per distinct requested upper bound, in ascending order, plus the +Inf bucket, and each observed value is counted in exactly one of them: the one with the smallest upper bound that is not below the value. Cumulative counts never decrease along the buckets, the +Inf one equals the total count, and the sum is the total of the observed values. Linear buckets have the bounds start + i*width and exponential ones start + factor^i, and observing NaN panics and changes nothing.",
  ["inputs", "histories", "configurations"], "every list of bounds (unsorted, repeated, negative, infinite, very close together), every sequence of observed values including values equal to a bound and infinities",
  "Two tests use five fixed linear bounds and a handful of values; repeated bounds, unsorted bounds, infinities and the value-equals-bound boundary for every position are not sampled.",
  ["src/metrics/histogram.rs", "src/bucket.rs"],
  [("bounds validated, sorted and made distinct when the histogram is built", "src/metrics/histogram.rs HistogramBuilder::finish"), ("binary search for the bucket", "src/metrics/histogram.rs Histogram::observe"), ("running total over the buckets", "src/bucket.rs CumulativeBuckets")],
  ["Histogram::buckets", "Histogram::cumulative_buckets", "Histogram::count", "Histogram::sum", "Display of Histogram"],
  [("buckets", "non-cumulative count per bound", "src/metrics/histogram.rs Inner")])

p("C05", "Concurrent observations are neither lost nor counted twice",
  "For any interleaving of threads observing into clones of one histogram or summary, once all calls have returned the counts, buckets, samples and sums account for every observation exactly once. A reader running at the same time sees, in each count, bucket and sum, every observation whose call returned before the read began and none that started after it ended, and what one reader sees of any count never goes backwards.",
  ["schedules"], "every interleaving of observe calls and reads by several threads on a shared histogram or summary",
  "The tests observe from a single thread only.",
  ["src/metrics/histogram.rs", "src/metrics/summary.rs", "src/bucket.rs", "src/atomic.rs"],
  [("atomic increments of bucket and count", "src/bucket.rs Bucket::increment, src/metrics/summary.rs Summary::observe"), ("compare-exchange loop on the sum", "src/atomic.rs AtomicF64::update"), ("mutex around the samples", "src/metrics/summary.rs with_current_samples")],
  ["Histogram::count/sum/buckets/cumulative_buckets", "Summary::count/sum/quantiles"])

p("C06", "Summary quantiles cover exactly the samples in the time window",
  "The quantiles of a summary are computed from exactly those observations whose age is at most the configured window at the moment of the query, whatever the pattern of observations, queries and idle periods, whatever other threads are doing, and even if the system's wall clock is stepped backwards or forwards. The total count and sum cover every observation ever made and are unaffected by samples leaving the window. When no sample is in the window, no quantile is reported.",
  ["histories", "schedules", "fault_sequences"], "every history of observations, queries, time advances (including ages exactly at the window) and wall-clock steps; every interleaving of observers and queriers with the passing of time",
  "The test makes five observations within a few microseconds in a ten-second window: nothing ever leaves the window.",
  ["src/metrics/summary.rs"],
  [("samples older than the window are dropped from the front of the queue before every use", "src/metrics/summary.rs with_current_samples"), ("time is read and the sample appended under one lock", "src/metrics/summary.rs with_current_samples, observe")],
  ["Summary::quantiles", "Summary::count", "Summary::sum", "AggregatedSummary::quantiles"],
  [("samples", "time-ordered queue of (time, value)", "src/metrics/summary.rs Inner")])

p("C07", "Quantile values are the right order statistics, and never panic",
  "For every configured quantile q in [0,1], including 0 and 1, and n non-NaN samples in the window, the value reported is the sample at zero-based position min(n-1, floor(q*n)) of those samples in ascending order; the quantiles are listed in ascending order. Aggregating summaries with the same name and labels gives the union of their quantiles, each once, computed over all their samples together, and the sums of their counts and sums. Computing quantiles never panics.",
  ["inputs", "configurations", "histories"], "every list of quantiles in [0,1], every multiset of samples including repeats, infinities and NaN, every grouping of summaries",
  "One test checks three quantiles of five samples; 0, 1, repeats, NaN, few samples and aggregated summaries are not reached (quantile 1 used to panic).",
  ["src/metrics/summary.rs", "src/aggregated_metrics.rs", "src/quantile.rs"],
  [("sort, then index by floor(q*n) limited to the last sample", "src/metrics/summary.rs Summary::quantiles, src/aggregated_metrics.rs AggregatedSummary::quantiles")],
  ["Summary::quantiles", "AggregatedSummary::quantiles/count/sum", "Display"])

p("C08", "Every live collector is gathered exactly once, and only while it lives",
  "Each gather calls every collector registered before it with that gatherer exactly once, across any number of registry handles and threads, and includes all the metrics it returned; a collector that answers that it has no more metrics is dropped and never called again, without affecting any other collector. A built metric takes part in every gather for as long as any handle to it, including one inside an earlier gather result, is alive, and in none afterwards. Registries only feed their own gatherer, registering with a gatherer that is gone is harmless, and the default registry feeds the default gatherer.",
  ["histories", "schedules", "configurations"], "every history of creating, cloning and dropping metrics, registries, gatherers and results, of custom collectors that end at any gather, and of gathers",
  "The tests register a few metrics and gather once; no metric is ever dropped, no collector ever ends and there is one gatherer per test.",
  ["src/registry.rs", "src/collect.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("channel from registries to the gatherer, drained at every gather", "src/registry.rs Registry::register, Gatherer::gather"), ("ended collectors are swapped out without skipping the next", "src/registry.rs Gatherer::gather"), ("collectors hold weak references", "CounterCollector etc. in src/metrics/*.rs")],
  ["Gatherer::gather"], [("collectors", "active collectors", "src/registry.rs Gatherer")])

p("C09", "Metrics with the same name, kind and labels become one summed series",
  "In a gather result each full metric name appears as one family per kind, and each label set as one series in it: the value of a series is the sum over all gathered counters or gauges having that full name, kind and label set, its counts and sums likewise for histograms and summaries. Metrics that differ in full name, kind or label set are never merged. The result does not depend on the order in which the metrics were created, labelled or registered, nor on how the full name is split into namespace, subsystem and name.",
  ["histories", "inputs", "configurations"], "every multiset of registered metrics over names, namespace/subsystem splits, kinds and label sets, in every registration order",
  "One test merges two counters, two gauges and two histograms; orders, label changes, name splits, many series and near-equal label sets are not varied.",
  ["src/registry.rs", "src/metric.rs", "src/aggregated_metrics.rs", "src/label.rs"],
  [("stable sort by name, kind and labels, then merging of neighbours", "src/registry.rs Gatherer::gather"), ("family and series identity", "src/metric.rs MetricFamily::same_family/push, src/aggregated_metrics.rs try_merge")],
  ["Gatherer::gather", "MetricFamilies::to_text"])

p("C10", "Aggregated histograms stay correct when bucket layouts differ",
  "When histograms with the same name and labels are aggregated, the result has one cumulative bucket per distinct upper bound of any of them, in ascending order and ending with +Inf, and its count at a bound is the total number of observations in those buckets of all the histograms whose upper bound is at most that bound. So cumulative counts never decrease, an observation is never counted at a bound below it, and the +Inf bucket equals the total count of all the histograms.",
  ["inputs", "configurations", "histories"], "every group of histograms with equal, overlapping or disjoint bounds (including negative, infinite, extremely close and extremely large bounds) and every set of observations",
  "One test merges two histograms with one finite bound each; infinite, close and interleaved bounds and three or more histograms are not reached.",
  ["src/bucket.rs", "src/aggregated_metrics.rs"],
  [("k-way merge over sorted buckets", "src/bucket.rs AggregatedCumulativeBuckets")],
  ["AggregatedHistogram::cumulative_buckets/count/sum", "MetricFamilies::to_text"])

p("C11", "The exposition text is well-formed and loses nothing",
  "The text of a gather result, of a family and of a single metric follows the Prometheus text format: per family an optional HELP line, one TYPE line and then its sample lines, each with a name, labels, a number and the timestamp if one is set. Parsing it as Prometheus does, with only backslash, double quote and line feed escaped in label values (backslash and line feed in help), gives back exactly the names, kinds, help, label names and values, numbers and timestamps of the result, for any Unicode help and label values and any numbers. No two sample lines of a family have the same name and labels.",
  ["inputs", "configurations"], "every help and label value over Unicode including quotes, backslashes, line feeds, control characters and non-ASCII, every value including NaN and infinities, all four kinds",
  "The tests compare a few texts with label value bar and no help; no value needing an escape is ever rendered.",
  ["src/metric.rs", "src/label.rs", "src/aggregated_metrics.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("escaping while writing", "src/label.rs Display for Label, src/metric.rs Display for MetricFamily"), ("special numbers", "src/metric.rs MetricValue")],
  ["MetricFamilies::to_text", "Display of MetricFamily, Counter, Gauge, Histogram, Summary, Label, Labels"])

p("C12", "A metric's labels behave as one shared map, for every schedule",
  "The labels of a metric form a map from label name to value shared by all its clones: insert adds or replaces the value for its name, remove and clear delete, lookups and iteration show each name once, in name order. Under concurrent mutation no completed insert or remove is lost, and every iteration shows one state the map was in at some moment, never a mixture. Inserting a malformed or reserved name (le for histograms, quantile for summaries) fails with InvalidInput and changes nothing.",
  ["histories", "schedules", "inputs"], "every history of insert, remove, clear and reads through any clone, every interleaving of those calls by several threads",
  "Two tests insert one label from one thread; replacement, removal, sharing and concurrency are not touched.",
  ["src/label.rs"],
  [("copy-on-write with an atomic retry loop", "src/label.rs LabelsMut::insert/remove/clear"), ("iterators hold a snapshot", "src/label.rs Labels::iter")],
  ["Labels::len/is_empty/get/iter", "Display", "gathered series"], [("labels", "immutable sorted vector behind an atomic pointer", "src/label.rs Labels")])

p("C13", "Malformed names, labels, bounds and quantiles are always refused",
  "Building a metric succeeds exactly when its name, and its namespace and subsystem if given, match [a-zA-Z_:][a-zA-Z0-9_:]*, every label name matches [a-zA-Z_][a-zA-Z0-9_]* without a leading double underscore and is not reserved (le for histograms, quantile for summaries), no bucket bound is NaN and every quantile is in [0,1]; otherwise it fails with InvalidInput. A failed build registers nothing. The full name of a built metric is namespace, subsystem and name joined by underscores.",
  ["inputs", "configurations"], "every string over Unicode as any name part or label name, every f64 as a bound or quantile, for all four kinds and for labels added later",
  "A doc-test tries three label names; no metric name, bound or quantile is ever refused in a test.",
  ["src/metric.rs", "src/label.rs", "src/bucket.rs", "src/quantile.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("name checks", "src/metric.rs MetricName::validate_name, src/label.rs Label::validate_name"), ("bound and quantile checks", "src/bucket.rs Bucket::new, src/quantile.rs Quantile::new"), ("registration comes after every check", "finish methods of the builders")],
  ["builder finish results", "Label::new", "LabelsMut::insert", "Quantile::new", "Gatherer::gather after a failure"])

p("C14", "Builders apply every setting, and the last one for a key wins",
  "A metric built through any builder has exactly the name parts, help, labels, initial value, bounds, quantiles and window set on it, where setting a label name again replaces its value and other repeated settings replace the earlier one. A metric built through a common MetricBuilder also carries the namespace, subsystem and labels set there so far, overridden by what is set on its own builder, and is registered once with each of the registries in force there (set_registry replaces them, registry adds one). One builder can build any number of independent metrics, and later changes to a builder never affect metrics already built.",
  ["configurations", "histories"], "every sequence of settings on a common builder and on the four kinds of builder, and of builds from them",
  "Tests use a common builder with one registry and no namespace, subsystem or labels; overriding and several registries are not covered.",
  ["src/metrics/builder.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("settings are copied into the specific builder", "src/metrics/builder.rs"), ("label replacement", "label methods of the builders"), ("registration with each registry", "finish methods of the builders")],
  ["metric_name/help/labels/value of the built metric", "Gatherer::gather of each registry's gatherer"])

p("C15", "Timestamps read back as set, and series carry the latest one",
  "A metric's timestamp is absent until set and after clear, and otherwise reads back as the last value set through any clone; setting it to a time gives that time in whole milliseconds since the Unix epoch (truncated toward zero, negative before the epoch), and setting it to now gives the current time. An aggregated series has the latest timestamp among the metrics merged into it, or none if none has one. Every sample line of a series with a timestamp ends with it, and no line of a series without one does.",
  ["histories", "inputs"], "every history of set, set_time, set_now and clear over clones, every time before and after the epoch, every mixture of present and absent timestamps in a series",
  "No test touches timestamps at all.",
  ["src/timestamp.rs", "src/aggregated_metrics.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("sentinel for absent", "src/timestamp.rs Timestamp::get/set/clear"), ("maximum over the merged metrics", "src/aggregated_metrics.rs")],
  ["Timestamp::get", "Aggregated*::timestamp", "MetricFamilies::to_text"])

p("C16", "A gather is complete and safe while other threads keep working",
  "A gather running while other threads update, register, drop and relabel metrics includes every metric and collector whose registration returned before it began, and for each reports a value that covers every update that returned before the gather began and none that started after it ended. Concurrent activity never makes it panic, hang, skip or repeat a collector, and values gathered by successive gathers of a counter never go backwards.",
  ["schedules"], "every interleaving of one gatherer with threads that register, update, relabel and drop metrics",
  "All tests gather from the thread that did everything else (relabelling during a gather used to make its sort panic).",
  ["src/registry.rs", "src/aggregated_metrics.rs", "src/label.rs", "src/atomic.rs"],
  [("channel drained at the start of a gather", "src/registry.rs Gatherer::gather"), ("values read once per gather", "src/aggregated_metrics.rs new"), ("sort keys taken once per metric", "src/registry.rs Gatherer::gather")],
  ["Gatherer::gather from one thread while others work"])

p("C17", "Process metrics report what the operating system reports",
  "On Linux every gather of the process collector reports the process's own soft limit on open files, number of open file descriptors, number of threads, CPU seconds used in user and system mode together, virtual memory in bytes and resident memory in bytes, under the standard process_ names, as they are at the time of that gather. The CPU counter never goes down, the start time is the same in every gather, and the collector never ends.",
  ["histories"], "every history of changes to the process (threads started and ended, descriptors opened and closed, limits changed, memory mapped, CPU time used) between gathers",
  "One doc-test gathers and ignores the result.",
  ["src/metrics/process.rs"],
  [("procfs is read at every collect", "src/metrics/process.rs ProcessMetricsCollector::collect")],
  ["Gatherer::gather with a ProcessMetricsCollector"])

p("C18", "Label references stay valid while labels are replaced",
  "A label obtained from a metric's label set through the safe API (by iterating or by looking it up by name) reads as the same name and value for as long as it can be used, whatever is inserted, removed or cleared in the meantime through other handles. Replaced label sets are released once nobody can see them any more.",
  ["histories", "schedules"], "every history and interleaving of iterations, look-ups, label replacements and drops of iterators",
  "No test holds a label across a change of the label set.",
  ["src/label.rs"],
  [("the iterator owns a reference to the snapshot it walks", "src/label.rs Iter"), ("copy-on-write replacement", "src/label.rs LabelsMut")],
  ["Labels::iter", "Labels::get"])

p("C19", "Names, labels and quantiles compare consistently",
  "Two metric names are equal exactly when their full names are, two labels exactly when both name and value are, and two quantiles exactly when their numbers are. For each of them the ordering is total, says 'equal' exactly for equal values, agrees with partial comparison, and orders quantiles by their numbers; equal names and equal labels have equal hashes. So they can be used as keys of sets and maps, and a metric name prints as its full name.",
  ["inputs", "configurations"], "every collection of names (however split into namespace, subsystem and name), labels and quantiles, made in any way",
  "No test compares or hashes any of them.",
  ["src/metric.rs", "src/label.rs", "src/quantile.rs"],
  [("equality, ordering and hash of names", "src/metric.rs MetricName"), ("equality, ordering and hash of labels", "src/label.rs Label"), ("ordering of quantiles", "src/quantile.rs Quantile")],
  ["==, cmp, partial_cmp and Hash of MetricName, Label and Quantile", "Display of MetricName"])

p("C20", "Every call returns, and panics only where it is documented to",
  "Every operation on metrics, labels, timestamps, builders, registries and gatherers returns, whatever its arguments, whatever was done before, whatever other threads are doing and however far they have got, also inside a timed or tracked closure and inside a collector's own collect: nothing deadlocks, waits for a call that has not been made, or loops for ever. Nothing panics, except that observing NaN in a histogram does, that a timestamp outside the range of milliseconds may, and that a panic of the user's own closure or collector reaches the caller.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every operation with arguments at the ends of their ranges, after any history, under every interleaving of several threads",
  "Tests call each function with ordinary arguments from one thread and never after a panic.",
  ["src/registry.rs", "src/atomic.rs", "src/label.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/timestamp.rs"],
  [("compare-exchange loops that end", "src/atomic.rs, src/label.rs"), ("unbounded channel, so that registering never waits", "src/registry.rs"), ("no lock is held while user code runs, save a gatherer's own", "src/metrics/*.rs, src/registry.rs")],
  ["every public operation"])

p("C21", "A panic in user code harms nothing else",
  "After a panic of a timed or tracked closure, of a histogram that is given NaN, or of a collector while it is gathered, everything goes on as if that call had not been made or had ended: every metric keeps its value and its place, in-progress counts go back, and every collector of the gatherer, also the one that panicked, takes part in the next gather. The panic itself reaches the caller of the call in which it happened.",
  ["fault_sequences", "histories", "schedules"], "every sequence of updates, readings and gathers with panics anywhere between, nested closures that panic, collectors that panic at any gather and in any place among the others",
  "No test panics.",
  ["src/metrics/gauge.rs", "src/metrics/counter.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/registry.rs"],
  [("collectors stay in their list while they are called", "src/registry.rs Gatherer::gather"), ("the in-progress count is restored also on unwinding", "src/metrics/gauge.rs track_inprogress"), ("NaN is refused before anything is changed", "src/metrics/histogram.rs observe")],
  ["every reading of a metric and every gather after a panic"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
