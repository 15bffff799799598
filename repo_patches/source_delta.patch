From 7d2f149dc7c1f3f5b69002e4a385581920e2cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 1/9] fix: reject 2^max_value_power in
 AtomicHistogram::increment instead of panicking

The histogram crate treats 2^max_value_power as in range although the last
bucket ends at 2^max_value_power - 1, so incrementing exactly that value
panicked with an out of bounds index.
---
 metriken/src/histogram.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 24bfd9e..babd79e 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -41,6 +41,13 @@ impl AtomicHistogram {
 
     /// Increments the bucket for a corresponding value.
     pub fn increment(&self, value: u64) -> Result<(), Error> {
+        // The largest representable value is `2^max_value_power - 1`. The
+        // underlying histogram does not reject `2^max_value_power` itself and
+        // would index past its last bucket.
+        if self.config.max_value_power() < 64 && value >> self.config.max_value_power() != 0 {
+            return Err(Error::OutOfRange);
+        }
+
         self.get_or_init().increment(value)
     }
 
-- 
2.43.0


From d5c79b677862df7e5ab41304be6f20fed7391122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 2/9] fix: publish a RwLockHistogram only together with its
 first update

update_from initialised the buckets to zero and filled them in afterwards, so
a load between the two steps returned an all-zero histogram that no update
had supplied.
---
 metriken/src/histogram.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index babd79e..08d448a 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -117,10 +117,24 @@ impl RwLockHistogram {
             return Err(Error::IncompatibleParameters);
         }
 
-        let mut histogram = self.get_or_init().write();
-
-        let buckets = histogram.as_mut_slice();
-        buckets.copy_from_slice(data);
+        // The first update must not publish the histogram before its data is
+        // in place, or a concurrent load could see buckets that no update
+        // ever supplied.
+        let mut first = false;
+        let histogram = self.inner.get_or_init(|| {
+            first = true;
+
+            let mut histogram = ::histogram::Histogram::with_config(&self.config);
+            histogram.as_mut_slice().copy_from_slice(data);
+            histogram.into()
+        });
+
+        if !first {
+            let mut histogram = histogram.write();
+
+            let buckets = histogram.as_mut_slice();
+            buckets.copy_from_slice(data);
+        }
 
         Ok(())
     }
@@ -134,11 +148,6 @@ impl RwLockHistogram {
     pub fn load(&self) -> Option<Histogram> {
         self.inner.get().map(|h| h.read().clone())
     }
-
-    fn get_or_init(&self) -> &RwLock<::histogram::Histogram> {
-        self.inner
-            .get_or_init(|| ::histogram::Histogram::with_config(&self.config).into())
-    }
 }
 
 impl Metric for RwLockHistogram {
-- 
2.43.0


From 15ecc1f417629cb0b47c24c090cd669939ed5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:30 +0000
Subject: [PATCH 3/9] fix: use the formatter given to MetricBuilder::formatter

The builder stores it among the objects provided by reference, but
MetricEntry::formatted only requested it by value, so the formatter of a
dynamic metric was never used.
---
 metriken-core/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..bd8ebb1 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -129,6 +129,12 @@ impl MetricEntry {
         let formatter = self
             .request_value::<crate::wrapper::FormattingFn>()
             .map(|func| func.0)
+            // Dynamic metrics provide everything given to their builder by
+            // reference.
+            .or_else(|| {
+                self.request_ref::<crate::wrapper::FormattingFn>()
+                    .map(|func| func.0)
+            })
             .unwrap_or(crate::default_formatter);
 
         formatter(self, format)
-- 
2.43.0


From 391d57de25c3078e898bdabfa94744fd2dd96936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:30 +0000
Subject: [PATCH 4/9] fix: make MetricEntry::is recognise dynamic metrics

The registered address is that of the ProviderMetric, but all an owner can
get a reference to is the metric stored within, which was laid out behind the
provider map. The two addresses never matched.
---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..0cfab03 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -157,6 +157,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// The metric has to be at offset 0 so that [`MetricEntry::is`] works for the
+/// references to it that its owner can get.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From 3fec56caad82d69821e9be7a787efe11069174b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:19 +0000
Subject: [PATCH 5/9] fix: make MetricEntry::is compare the metric types as
 documented

type_id() on a dyn Metric is the id of the trait object type itself, so the
check never failed and a part of a metric that shares its address passed for
the metric.
---
 metriken-core/src/dynmetrics.rs |  4 ++++
 metriken-core/src/lib.rs        | 18 ++++++++++++++++--
 metriken-core/src/wrapper.rs    |  4 ++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 0cfab03..1268cb8 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -183,6 +183,10 @@ impl<M: Metric> Metric for ProviderMetric<M> {
         self.provider.provide(request);
         self.metric.provide(request);
     }
+
+    fn metric_type_id(&self, internal: crate::private::Internal) -> std::any::TypeId {
+        self.metric.metric_type_id(internal)
+    }
 }
 
 /// A dynamic metric that stores the metric inline.
diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index bd8ebb1..74fe553 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -6,7 +6,7 @@
 //!
 //! [`metriken`]: https://docs.rs/metriken
 
-use std::any::Any;
+use std::any::{Any, TypeId};
 use std::borrow::Cow;
 
 /// A helper macro for marking imports as being used.
@@ -75,6 +75,18 @@ pub trait Metric: Send + Sync + 'static {
         // Silence the unused variable warning.
         let _ = request;
     }
+
+    /// The type of the metric itself, ignoring any internal wrappers.
+    #[doc(hidden)]
+    fn metric_type_id(&self, _: private::Internal) -> TypeId {
+        TypeId::of::<Self>()
+    }
+}
+
+mod private {
+    /// Prevents `metric_type_id` from being called or overridden outside of
+    /// this crate.
+    pub struct Internal;
 }
 
 /// The value of a metric.
@@ -146,7 +158,9 @@ impl MetricEntry {
     /// false positives if `metric` is a ZST since multiple ZSTs may share
     /// the same address.
     pub fn is(&self, metric: &dyn Metric) -> bool {
-        if self.metric().type_id() != metric.type_id() {
+        let a = self.metric().metric_type_id(private::Internal);
+        let b = metric.metric_type_id(private::Internal);
+        if a != b {
             return false;
         }
 
diff --git a/metriken-core/src/wrapper.rs b/metriken-core/src/wrapper.rs
index b5e8ace..b2b9621 100644
--- a/metriken-core/src/wrapper.rs
+++ b/metriken-core/src/wrapper.rs
@@ -59,6 +59,10 @@ where
         <P as InjectedProvider>::provide(request);
         self.metric.provide(request)
     }
+
+    fn metric_type_id(&self, internal: crate::private::Internal) -> std::any::TypeId {
+        self.metric.metric_type_id(internal)
+    }
 }
 
 /// Metric provider type that wraps around a formatting function.
-- 
2.43.0


From 7cdccf73a335b828357cd9233cbb990a3ec65195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:13 +0000
Subject: [PATCH 6/9] fix: include dynamic metrics in MetricsIter::size_hint

The static part was counted twice instead, so the hint was wrong as soon as
the numbers of static and dynamic metrics differ.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From bee4394682c78401d34ac1f6be292e4b6104c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:19 +0000
Subject: [PATCH 7/9] fix: let MetricsIter::nth_back continue into the static
 metrics

Past the dynamic metrics it asked the already exhausted dynamic iterator
again and so never reached the static ones.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From e29e9b201bf3752aec35979a8a55cb455fdb0556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:23 +0000
Subject: [PATCH 8/9] fix: read a V2 snapshot in JSON back as V2

---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..5cebf30 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // Untagged: the first variant that fits is used. A V2 snapshot with named
+    // fields also fits V1 (which ignores the duration), but not vice versa.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From 01f4a62c8e070203d140bb07cf340878b6a628f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:49 +0000
Subject: [PATCH 9/9] fix: report a failing input in convert_file_handle as an
 error instead of panicking

---
 metriken-exposition/src/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..69b415d 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0

