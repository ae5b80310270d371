From a9ac31f1e0e4a213cb2cde1c834e65d813b7ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 01/13] fix: quantile 1.0 indexed past the last sample and
 panicked

---
 src/aggregated_metrics.rs | 2 +-
 src/metrics/summary.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..b49f06f 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,7 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..46b3804 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,7 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From 6772cbdbb37c3ba9261e467620c1cbd8f7a3415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 02/13] fix: a line feed in a label value or help was escaped
 as a backslash and \n

---
 src/label.rs  | 2 +-
 src/metric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..2b9d668 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -100,7 +100,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
diff --git a/src/metric.rs b/src/metric.rs
index de10628..ca21bf5 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -332,7 +332,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
-- 
2.43.0


From 05fa212814779af6f8ec1b4755f853601639d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 03/13] fix: bucket and quantile lines escaped label values as
 Rust strings

---
 src/aggregated_metrics.rs | 4 ++--
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index b49f06f..a7aae44 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -216,7 +216,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
@@ -347,7 +347,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..10933de 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -131,7 +131,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 46b3804..dce8c55 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -169,7 +169,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From cc9cffb8595651bd8fc6735ba9e0d8c0a1d498ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 04/13] fix: a bucket bound given twice was exposed as two
 samples of one series

---
 src/metrics/histogram.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 10933de..cd8949f 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -282,6 +282,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
-- 
2.43.0


From 04d158fe36a9ef25b87aa2bc7b6204da0df372fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 05/13] fix: merging histograms counted -Inf and very close
 bounds at the wrong bound

---
 src/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..6508594 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -133,7 +133,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
 
         for buckets in &mut self.iters {
             let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            if upper_bound == min {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From b6b8c0c996e57618bf8549cb74e466598d00845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 06/13] fix: adding 2^64 or more to a counter wrapped its value
 around

---
 src/metrics/counter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..b6a7cb5 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -1,3 +1,4 @@
+use std;
 use std::fmt;
 use std::iter;
 use std::sync::{Arc, Weak};
@@ -265,7 +266,7 @@ impl Value {
     fn add(&self, count: f64) {
         let floor = count.floor() as u64;
         let ceil = count.ceil() as u64;
-        if floor == ceil {
+        if floor == ceil && count < std::u64::MAX as f64 {
             self.u64.add(floor);
         } else {
             self.f64.add(count);
-- 
2.43.0


From 926712517a080bd2630e0ac73279544415d15ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 07/13] fix: wall-clock steps and racing observers kept expired
 samples in a summary's window

---
 src/metrics/summary.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index dce8c55..a648ba0 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 use std::fmt;
 use std::iter;
 use std::sync::{Arc, Mutex, Weak};
-use std::time::{Duration, Instant, SystemTime};
+use std::time::{Duration, Instant};
 
 use atomic::{AtomicF64, AtomicU64};
 use default_registry;
@@ -130,13 +130,13 @@ impl Summary {
 
     pub(crate) fn with_current_samples<F, T>(&self, f: F) -> T
     where
-        F: FnOnce(SystemTime, &mut VecDeque<(SystemTime, f64)>) -> T,
+        F: FnOnce(Instant, &mut VecDeque<(Instant, f64)>) -> T,
     {
-        let now = SystemTime::now();
         if let Ok(mut samples) = self.0.samples.lock() {
+            let now = Instant::now();
             while samples
                 .front()
-                .and_then(|s| now.duration_since(s.0).ok())
+                .map(|s| now.duration_since(s.0))
                 .and_then(|d| if d > self.0.window { Some(()) } else { None })
                 .is_some()
             {
@@ -144,7 +144,7 @@ impl Summary {
             }
             f(now, &mut samples)
         } else {
-            f(now, &mut VecDeque::new())
+            f(Instant::now(), &mut VecDeque::new())
         }
     }
 }
@@ -332,7 +332,7 @@ struct Inner {
     timestamp: Timestamp,
     window: Duration,
     quantiles: Vec<Quantile>,
-    samples: Mutex<VecDeque<(SystemTime, f64)>>,
+    samples: Mutex<VecDeque<(Instant, f64)>>,
     count: AtomicU64,
     sum: AtomicF64,
 }
-- 
2.43.0


From fcd44f51a791e45c732ad61afed5cd473b53a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 08/13] fix: gather panicked while sorting if labels were
 changed concurrently

---
 src/registry.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..60941ca 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,4 +1,3 @@
-use std::cmp;
 use std::fmt;
 use std::sync::mpsc;
 use std::sync::Mutex;
@@ -104,13 +103,10 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
-            let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
-            if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
-            } else {
-                result
-            }
+        metrics.sort_by_cached_key(|m| {
+            // Labels may be changed by other threads at any time, so they are read only once.
+            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
+            (m.name().clone(), m.kind(), labels)
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-- 
2.43.0


From 6a247b8550d0e7dffee1473784ad58063b578071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 09/13] fix: one metric name split differently was exposed as
 two families

---
 src/metric.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index ca21bf5..2b625d7 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -1,6 +1,8 @@
 //! Metric.
 use std;
+use std::cmp;
 use std::fmt;
+use std::hash::{Hash, Hasher};
 
 pub use aggregated_metrics::{
     AggregatedCounter, AggregatedGauge, AggregatedHistogram, AggregatedSummary,
@@ -84,7 +86,9 @@ impl From<Summary> for Metric {
 ///
 /// - [Metric name and labels](https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels)
 /// - [Metric names](https://prometheus.io/docs/instrumenting/writing_clientlibs/#metric-names)
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+///
+/// Names are compared by the whole sequence, regardless of how it is divided into the three parts.
+#[derive(Debug, Clone)]
 pub struct MetricName {
     namespace: Option<String>,
     subsystem: Option<String>,
@@ -125,6 +129,12 @@ impl MetricName {
             name: name.to_string(),
         })
     }
+    fn full_name(&self) -> impl Iterator<Item = u8> + '_ {
+        let prefixes = self.namespace.iter().chain(self.subsystem.iter());
+        prefixes
+            .flat_map(|s| s.bytes().chain(Some(b'_')))
+            .chain(self.name.bytes())
+    }
     fn validate_name(name: &str) -> Result<()> {
         // REGEX: [a-zA-Z_:][a-zA-Z0-9_:]*
         track_assert!(!name.is_empty(), ErrorKind::InvalidInput);
@@ -141,6 +151,27 @@ impl MetricName {
         Ok(())
     }
 }
+impl PartialEq for MetricName {
+    fn eq(&self, other: &Self) -> bool {
+        self.full_name().eq(other.full_name())
+    }
+}
+impl Eq for MetricName {}
+impl PartialOrd for MetricName {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for MetricName {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        self.full_name().cmp(other.full_name())
+    }
+}
+impl Hash for MetricName {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.full_name().for_each(|b| b.hash(state));
+    }
+}
 impl fmt::Display for MetricName {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if let Some(ref s) = self.namespace {
-- 
2.43.0


From 29a56a975ad378f940b644ce24283e79eacf93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 10/13] fix: a panicking closure was tracked as in progress
 forever

---
 src/metrics/gauge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metrics/gauge.rs b/src/metrics/gauge.rs
index 291f5cf..69fa209 100644
--- a/src/metrics/gauge.rs
+++ b/src/metrics/gauge.rs
@@ -116,10 +116,16 @@ impl Gauge {
     where
         F: FnOnce() -> T,
     {
+        struct InProgress<'a>(&'a Gauge);
+        impl<'a> Drop for InProgress<'a> {
+            fn drop(&mut self) {
+                self.0.decrement();
+            }
+        }
+
         self.increment();
-        let result = f();
-        self.decrement();
-        result
+        let _guard = InProgress(self);
+        f()
     }
 
     /// Measures the exeuction time of `f` and sets this gauge to its duration in seconds.
-- 
2.43.0


From a6f66bed7fce869e91ef823baea93f9d19d982ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 11/13] fix: process_open_fds was the size of the descriptor
 table, or missing

---
 src/metrics/process.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 9ae6d87..8ef4213 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -2,6 +2,8 @@
 use libc;
 #[cfg(target_os = "linux")]
 use procinfo;
+#[cfg(target_os = "linux")]
+use std::fs;
 use std::time::SystemTime;
 #[cfg(target_os = "linux")]
 use std::time::UNIX_EPOCH;
@@ -68,8 +70,9 @@ impl Collect for ProcessMetricsCollector {
                 metrics.push(gauge("max_fds", fds as f64));
             }
         }
-        if let Ok(status) = procinfo::pid::status_self() {
-            metrics.push(gauge("open_fds", f64::from(status.fd_allocated)));
+        if let Ok(fds) = fs::read_dir("/proc/self/fd") {
+            // Excludes the descriptor through which the directory is being read.
+            metrics.push(gauge("open_fds", fds.count().saturating_sub(1) as f64));
         }
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
-- 
2.43.0


From 8983181b1896234aa3311451427416660f47e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 12/13] fix: a label insert or remove could be lost when a
 concurrent writer reused an address

AtomicImmut::update drops its reference to the old value before it compares addresses, so two updates
by another thread in between can put a newer value at the same address and get overwritten.
---
 src/label.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 2b9d668..cf99f3e 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -8,6 +8,7 @@ use atomic_immut::AtomicImmut;
 use std;
 use std::fmt;
 use std::ops::Deref;
+use std::sync::Mutex;
 
 use {ErrorKind, Result};
 
@@ -111,7 +112,7 @@ impl fmt::Display for Label {
 
 /// A map of labels (i.e., key-value pairs).
 #[derive(Debug)]
-pub struct Labels(AtomicImmut<Vec<Label>>);
+pub struct Labels(AtomicImmut<Vec<Label>>, Mutex<()>);
 impl Labels {
     /// Returns the number of labels contained in this map.
     pub fn len(&self) -> usize {
@@ -136,7 +137,17 @@ impl Labels {
     }
 
     pub(crate) fn new(labels: Vec<Label>) -> Self {
-        Labels(AtomicImmut::new(labels))
+        Labels(AtomicImmut::new(labels), Mutex::new(()))
+    }
+
+    // `AtomicImmut::update` recognizes the old value by its address, which may have been reused for
+    // a newer value in the meantime (and this value would be lost). So, there must be only one writer.
+    fn update<F>(&self, f: F)
+    where
+        F: Fn(&Vec<Label>) -> Vec<Label>,
+    {
+        let _lock = self.1.lock();
+        self.0.update(f);
     }
 }
 impl fmt::Display for Labels {
@@ -168,7 +179,7 @@ impl<'a> LabelsMut<'a> {
             ErrorKind::InvalidInput
         );
         let label = track!(Label::new(name, value))?;
-        self.inner.0.update(move |labels| {
+        self.inner.update(move |labels| {
             let mut labels = labels.clone();
             labels.retain(|l| l.name != label.name);
             labels.push(label.clone());
@@ -181,13 +192,12 @@ impl<'a> LabelsMut<'a> {
     /// Removes the label which has the name `name` if it exists.
     pub fn remove(&mut self, name: &str) {
         self.inner
-            .0
             .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
     }
 
     /// Clears the all labels.
     pub fn clear(&mut self) {
-        self.inner.0.store(Vec::new());
+        self.inner.update(|_| Vec::new());
     }
 
     pub(crate) fn new(labels: &'a Labels, reserved: Option<&'static str>) -> Self {
-- 
2.43.0


From 76649c3d514d42405f391acdb787dc35682d2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 13/13] fix: whole amounts totalling 2^64 or more wrapped a
 counter around

---
 src/atomic.rs          | 12 ++++++++++++
 src/metrics/counter.rs |  8 +++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/atomic.rs b/src/atomic.rs
index d6a08f3..e8954fe 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -23,6 +23,18 @@ impl AtomicU64 {
         self.0.fetch_add(v, Relaxed);
     }
 
+    /// Adds `v` and returns `true`, unless the result would overflow (nothing is changed then).
+    pub fn checked_add(&self, v: u64) -> bool {
+        let mut old = self.0.load(Relaxed);
+        while let Some(new) = old.checked_add(v) {
+            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
+                Ok(_) => return true,
+                Err(v) => old = v, // try again
+            }
+        }
+        false
+    }
+
     pub fn update<F>(&self, f: F)
     where
         F: Fn(u64) -> u64,
diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index b6a7cb5..d1409ed 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -259,7 +259,7 @@ impl Value {
 
     #[inline]
     fn increment(&self) {
-        self.u64.inc();
+        self.add_u64(1);
     }
 
     #[inline]
@@ -267,7 +267,7 @@ impl Value {
         let floor = count.floor() as u64;
         let ceil = count.ceil() as u64;
         if floor == ceil && count < std::u64::MAX as f64 {
-            self.u64.add(floor);
+            self.add_u64(floor);
         } else {
             self.f64.add(count);
         }
@@ -275,7 +275,9 @@ impl Value {
 
     #[inline]
     fn add_u64(&self, count: u64) {
-        self.u64.add(count);
+        if !self.u64.checked_add(count) {
+            self.f64.add(count as f64);
+        }
     }
 }
 
-- 
2.43.0

