From c5c57f37f79eb2b8f3b1d94590b957d2e1ca7387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 01/34] fix: counter_agg: a point at an already seen time is
 ignored, and must not count as a reset

---
 crates/counter-agg/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/counter-agg/src/lib.rs b/crates/counter-agg/src/lib.rs
index eafeca1..771ab77 100644
--- a/crates/counter-agg/src/lib.rs
+++ b/crates/counter-agg/src/lib.rs
@@ -360,7 +360,10 @@ impl CounterSummaryBuilder {
 
     /// expects time-ordered input
     pub fn add_point(&mut self, incoming: &TSPoint) -> Result<(), CounterError> {
-        self.0.reset(incoming);
+        // a point at the same time as the last one is going to be ignored, so it is no reset either
+        if incoming.ts != self.0.last.ts {
+            self.0.reset(incoming);
+        }
         self.0.add_point(incoming)
     }
 
-- 
2.43.0


From 5c64d61a6f627a90403b8cdb6aa4d94b66964b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 02/34] fix: keep the first of several points at the same time
 whatever the number of points (stable sort)

---
 extension/src/counter_agg.rs           | 2 +-
 extension/src/gauge_agg.rs             | 2 +-
 extension/src/time_weighted_average.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/src/counter_agg.rs b/extension/src/counter_agg.rs
index 45d0db6..b4d5c03 100644
--- a/extension/src/counter_agg.rs
+++ b/extension/src/counter_agg.rs
@@ -183,7 +183,7 @@ impl CounterSummaryTransState {
         if self.point_buffer.is_empty() {
             return;
         }
-        self.point_buffer.sort_unstable_by_key(|p| p.ts);
+        self.point_buffer.sort_by_key(|p| p.ts);
         let mut iter = self.point_buffer.iter();
         let mut summary = CounterSummaryBuilder::new(iter.next().unwrap(), self.bounds);
         for p in iter {
diff --git a/extension/src/gauge_agg.rs b/extension/src/gauge_agg.rs
index e65097d..5ba2538 100644
--- a/extension/src/gauge_agg.rs
+++ b/extension/src/gauge_agg.rs
@@ -136,7 +136,7 @@ impl GaugeSummaryTransState {
         if self.point_buffer.is_empty() {
             return;
         }
-        self.point_buffer.sort_unstable_by_key(|p| p.ts);
+        self.point_buffer.sort_by_key(|p| p.ts);
         let mut iter = self.point_buffer.iter();
         let mut summary = GaugeSummaryBuilder::new(iter.next().unwrap(), self.bounds);
         for p in iter {
diff --git a/extension/src/time_weighted_average.rs b/extension/src/time_weighted_average.rs
index 6320a96..67463c6 100644
--- a/extension/src/time_weighted_average.rs
+++ b/extension/src/time_weighted_average.rs
@@ -128,7 +128,7 @@ impl TimeWeightTransState {
         if self.point_buffer.is_empty() {
             return;
         }
-        self.point_buffer.sort_unstable_by_key(|p| p.ts);
+        self.point_buffer.sort_by_key(|p| p.ts);
         self.summary_buffer.push(
             TimeWeightSummaryInternal::new_from_sorted_iter(&self.point_buffer, self.method)
                 .unwrap(),
-- 
2.43.0


From 05fafc04f4344622e2bc27a29ffcd65d8368a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 03/34] fix: rollup of min_n/max_n (and _by) keeps every value
 while fewer than n were collected

---
 extension/src/nmost.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 018e886..fb4b10d 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -101,8 +101,8 @@ fn nmost_rollup_trans_function<T: Ord + Copy>(
         in_aggregate_context(fcinfo, || {
             if let Some(mut state) = state {
                 for val in sorted_vals {
-                    // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.belongs_in_heap(val) {
+                    // The values are sorted, so once we're full and find one that shouldn't be added, we're done
+                    if state.heap.len() >= state.capacity && !state.belongs_in_heap(val) {
                         return Some(state);
                     }
                     state.new_entry(*val);
@@ -266,8 +266,12 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
                     .iter()
                     .zip(datum_store.clone().into_anyelement_iter())
                 {
-                    // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.values.belongs_in_heap(&(*val, state.values.capacity)) {
+                    // The values are sorted, so once we're full and find one that shouldn't be added, we're done
+                    if state.data.len() >= state.values.capacity
+                        && !state
+                            .values
+                            .belongs_in_heap(&(*val, state.values.capacity))
+                    {
                         return Some(state);
                     }
                     state.new_entry(*val, element);
-- 
2.43.0


From 96e322ee0b48541ff2f29bd24b98fc55966ffeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 04/34] fix: min_n/max_n final functions must not empty the
 transition state (wrong results as window functions)

---
 extension/src/nmost/max_float.rs | 8 ++++----
 extension/src/nmost/max_int.rs   | 8 ++++----
 extension/src/nmost/max_time.rs  | 8 ++++----
 extension/src/nmost/min_float.rs | 8 ++++----
 extension/src/nmost/min_int.rs   | 8 ++++----
 extension/src/nmost/min_time.rs  | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 28263d7..a140359 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -26,9 +26,9 @@ pg_type! {
 }
 ron_inout_funcs!(MaxFloats<'input>);
 
-impl<'input> From<&mut MaxFloatTransType> for MaxFloats<'input> {
-    fn from(item: &mut MaxFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+impl<'input> From<&MaxFloatTransType> for MaxFloats<'input> {
+    fn from(item: &MaxFloatTransType) -> Self {
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxFloats {
                 capacity: item.capacity as u32,
@@ -110,7 +110,7 @@ pub fn max_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Inte
 #[pg_extern(immutable, parallel_safe)]
 pub fn max_n_float_final(state: Internal) -> Option<MaxFloats<'static>> {
     let state = unsafe { state.to_inner::<MaxFloatTransType>() };
-    state.map(|mut state| (&mut *state).into())
+    state.map(|state| (&*state).into())
 }
 
 #[pg_extern(name = "into_array", immutable, parallel_safe)]
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 0af682a..8e22c5c 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -25,9 +25,9 @@ pg_type! {
 }
 ron_inout_funcs!(MaxInts<'input>);
 
-impl<'input> From<&mut MaxIntTransType> for MaxInts<'input> {
-    fn from(item: &mut MaxIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+impl<'input> From<&MaxIntTransType> for MaxInts<'input> {
+    fn from(item: &MaxIntTransType) -> Self {
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxInts {
                 capacity: item.capacity as u32,
@@ -104,7 +104,7 @@ pub fn max_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Intern
 #[pg_extern(immutable, parallel_safe)]
 pub fn max_n_int_final(state: Internal) -> Option<MaxInts<'static>> {
     let state = unsafe { state.to_inner::<MaxIntTransType>() };
-    state.map(|mut state| (&mut *state).into())
+    state.map(|state| (&*state).into())
 }
 
 #[pg_extern(name = "into_array", immutable, parallel_safe)]
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 930adef..10354fc 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -25,9 +25,9 @@ pg_type! {
 }
 ron_inout_funcs!(MaxTimes<'input>);
 
-impl<'input> From<&mut MaxTimeTransType> for MaxTimes<'input> {
-    fn from(item: &mut MaxTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+impl<'input> From<&MaxTimeTransType> for MaxTimes<'input> {
+    fn from(item: &MaxTimeTransType) -> Self {
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxTimes {
                 capacity: item.capacity as u32,
@@ -105,7 +105,7 @@ pub fn max_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Inter
 #[pg_extern(immutable, parallel_safe)]
 pub fn max_n_time_final(state: Internal) -> Option<MaxTimes<'static>> {
     let state = unsafe { state.to_inner::<MaxTimeTransType>() };
-    state.map(|mut state| (&mut *state).into())
+    state.map(|state| (&*state).into())
 }
 
 #[pg_extern(name = "into_array", immutable, parallel_safe)]
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ba72207..ca9024d 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -25,9 +25,9 @@ pg_type! {
 }
 ron_inout_funcs!(MinFloats<'input>);
 
-impl<'input> From<&mut MinFloatTransType> for MinFloats<'input> {
-    fn from(item: &mut MinFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+impl<'input> From<&MinFloatTransType> for MinFloats<'input> {
+    fn from(item: &MinFloatTransType) -> Self {
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinFloats {
                 capacity: item.capacity as u32,
@@ -109,7 +109,7 @@ pub fn min_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Inte
 #[pg_extern(immutable, parallel_safe)]
 pub fn min_n_float_final(state: Internal) -> Option<MinFloats<'static>> {
     let state = unsafe { state.to_inner::<MinFloatTransType>() };
-    state.map(|mut state| (&mut *state).into())
+    state.map(|state| (&*state).into())
 }
 
 #[pg_extern(name = "into_array", immutable, parallel_safe)]
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index e832ce6..5a4634b 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -23,9 +23,9 @@ pg_type! {
 }
 ron_inout_funcs!(MinInts<'input>);
 
-impl<'input> From<&mut MinIntTransType> for MinInts<'input> {
-    fn from(item: &mut MinIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+impl<'input> From<&MinIntTransType> for MinInts<'input> {
+    fn from(item: &MinIntTransType) -> Self {
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinInts {
                 capacity: item.capacity as u32,
@@ -96,7 +96,7 @@ pub fn min_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Intern
 #[pg_extern(immutable, parallel_safe)]
 pub fn min_n_int_final(state: Internal) -> Option<MinInts<'static>> {
     let state = unsafe { state.to_inner::<MinIntTransType>() };
-    state.map(|mut state| (&mut *state).into())
+    state.map(|state| (&*state).into())
 }
 
 #[pg_extern(name = "into_array", immutable, parallel_safe)]
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index a121a81..8d9afd4 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -23,9 +23,9 @@ pg_type! {
 }
 ron_inout_funcs!(MinTimes<'input>);
 
-impl<'input> From<&mut MinTimeTransType> for MinTimes<'input> {
-    fn from(item: &mut MinTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+impl<'input> From<&MinTimeTransType> for MinTimes<'input> {
+    fn from(item: &MinTimeTransType) -> Self {
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinTimes {
                 capacity: item.capacity as u32,
@@ -96,7 +96,7 @@ pub fn min_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Inter
 #[pg_extern(immutable, parallel_safe)]
 pub fn min_n_time_final(state: Internal) -> Option<MinTimes<'static>> {
     let state = unsafe { state.to_inner::<MinTimeTransType>() };
-    state.map(|mut state| (&mut *state).into())
+    state.map(|state| (&*state).into())
 }
 
 #[pg_extern(name = "into_array", immutable, parallel_safe)]
-- 
2.43.0


From e5bff1c727c41b1a2d00cb529b3631d7fea46958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 05/34] fix: state_agg final function must not empty the
 transition state (wrong results as a window function)

---
 extension/src/state_aggregate.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 3f527a6..a2cdf88 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -609,11 +609,10 @@ impl state_agg {
             }
 
             let mut merged_durations: Vec<TimeInState> = Vec::new();
-            let mut last_record_state = None;
-            for record in s.records.drain(..) {
+            let mut last_record_state: Option<&MaterializedState> = None;
+            for record in s.records.iter() {
                 if last_record_state
-                    .clone()
-                    .map(|last| last != record.state)
+                    .map(|last| *last != record.state)
                     .unwrap_or(true)
                 {
                     if let Some(prev) = merged_durations.last_mut() {
@@ -624,7 +623,7 @@ impl state_agg {
                         end_time: 0,
                         state: record.state.entry(&mut states),
                     });
-                    last_record_state = Some(record.state);
+                    last_record_state = Some(&record.state);
                 }
             }
             if let Some(last_time_in_state) = merged_durations.last_mut() {
-- 
2.43.0


From b6291413667808104049c14500a43df306da0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 06/34] fix: heartbeat_agg trim_to when no live interval lies
 in the window, and keep the exact last heartbeat

Trimming into a gap panicked or left empty intervals behind (counted by num_live_ranges),
trimming without moving the end changed last_seen, and trimmed aggregates without any
interval could not be rolled up.
---
 extension/src/heartbeat_agg.rs | 84 +++++++++++++++-------------------
 1 file changed, 37 insertions(+), 47 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2bb8b50..a00b6d4 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -114,6 +114,15 @@ impl HeartbeatTransState {
     }
 
     fn combine_intervals(&mut self, new_intervals: Vec<(i64, i64)>) {
+        // Trimmed aggregates can be without any interval
+        if new_intervals.is_empty() {
+            return;
+        }
+        if self.liveness.is_empty() {
+            self.liveness = new_intervals;
+            return;
+        }
+
         // Optimized path for nonoverlapping, ordered inputs
         if self.last < new_intervals.first().unwrap().0 {
             let mut new_intervals = new_intervals.into_iter();
@@ -213,63 +222,43 @@ ron_inout_funcs!(HeartbeatAgg<'input>);
 
 impl HeartbeatAgg<'_> {
     fn trim_to(self, start: Option<i64>, end: Option<i64>) -> HeartbeatAgg<'static> {
-        if (start.is_some() && start.unwrap() < self.start_time)
-            || (end.is_some() && end.unwrap() > self.end_time)
-        {
+        let new_start = start.unwrap_or(self.start_time);
+        let new_end = end.unwrap_or(self.end_time);
+        if new_start < self.start_time || new_end > self.end_time || new_start > new_end {
             error!("Can not query beyond the original aggregate bounds");
         }
 
-        let mut starts: Vec<i64> = vec![];
-        let mut ends: Vec<i64> = vec![];
-        for i in 0..self.num_intervals as usize {
-            starts.push(self.interval_starts.slice()[i]);
-            ends.push(self.interval_ends.slice()[i]);
-        }
+        let old_starts = self.interval_starts.as_slice();
+        let old_ends = self.interval_ends.as_slice();
 
-        let low_idx = if let Some(start) = start {
-            let mut idx = 0;
-            while idx < self.num_intervals as usize && ends[idx] < start {
-                idx += 1;
-            }
-            if starts[idx] < start {
-                starts[idx] = start;
-            }
-            idx
-        } else {
-            0
-        };
+        // The part of each interval that's inside of the new bounds, which may be none of it
+        let (starts, ends): (Vec<i64>, Vec<i64>) = old_starts
+            .iter()
+            .zip(old_ends)
+            .map(|(s, e)| (max(*s, new_start), min(*e, new_end)))
+            .filter(|(s, e)| s < e)
+            .unzip();
 
-        let mut new_last = None;
-        let high_idx = if let Some(end) = end {
-            if self.num_intervals > 0 {
-                let mut idx = self.num_intervals as usize - 1;
-                while idx > low_idx && starts[idx] > end {
-                    idx -= 1;
-                }
-                new_last = Some(ends[idx] - self.interval_len);
-                if ends[idx] > end {
-                    if end < new_last.unwrap() {
-                        new_last = Some(end);
-                    }
-                    ends[idx] = end;
-                }
-                idx
-            } else {
-                self.num_intervals as usize - 1
-            }
+        let last_seen = if self.last_seen < new_end {
+            self.last_seen
         } else {
-            self.num_intervals as usize - 1
+            // Only the last heartbeat of each interval is known, if the new bounds cut an interval
+            // short assume that it's been seen up to there.
+            match old_starts.iter().rposition(|s| *s < new_end) {
+                Some(idx) => min(new_end, old_ends[idx] - self.interval_len),
+                None => i64::MIN,
+            }
         };
 
         unsafe {
             flatten!(HeartbeatAgg {
-                start_time: start.unwrap_or(self.start_time),
-                end_time: end.unwrap_or(self.end_time),
-                last_seen: new_last.unwrap_or(self.last_seen),
+                start_time: new_start,
+                end_time: new_end,
+                last_seen,
                 interval_len: self.interval_len,
-                num_intervals: (high_idx - low_idx + 1) as u64,
-                interval_starts: starts[low_idx..=high_idx].into(),
-                interval_ends: ends[low_idx..=high_idx].into(),
+                num_intervals: starts.len() as u64,
+                interval_starts: starts.into(),
+                interval_ends: ends.into(),
             })
         }
     }
@@ -287,7 +276,8 @@ impl HeartbeatAgg<'_> {
     fn interpolate_start(&mut self, pred: &Self) {
         // only allow interpolation of non-overlapping ranges
         assert!(pred.end_time <= self.start_time);
-        let pred_end = pred.last_seen + self.interval_len;
+        // pred's liveness can outlast us if we've been trimmed
+        let pred_end = min(pred.last_seen + self.interval_len, self.end_time);
 
         if pred_end <= self.start_time {
             return;
-- 
2.43.0


From 167024aaeb8253153ba6b44e31c7742bf7b85263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 07/34] fix: heartbeat_agg -> trim_to(start, duration) ignored
 an end at exactly 2000-01-01 00:00 UTC

---
 extension/src/heartbeat_agg.rs           | 2 +-
 extension/src/heartbeat_agg/accessors.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index a00b6d4..17a0588 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -579,7 +579,7 @@ pub fn arrow_heartbeat_agg_trim_to(
     agg: HeartbeatAgg<'static>,
     accessor: HeartbeatTrimToAccessor,
 ) -> HeartbeatAgg<'static> {
-    let end = if accessor.end == 0 {
+    let end = if accessor.end == accessors::NO_TRIM_END {
         None
     } else {
         Some(accessor.end)
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index dc30a51..26c064a 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -122,6 +122,9 @@ impl<'a> HeartbeatInterpolateAccessor<'a> {
     }
 }
 
+/// Marks a `trim_to` accessor without a duration, can't be confused with any finite end time.
+pub const NO_TRIM_END: i64 = i64::MAX;
+
 pg_type! {
     struct HeartbeatTrimToAccessor {
         start : i64,
@@ -141,7 +144,7 @@ fn heartbeat_agg_trim_to_accessor(
 ) -> HeartbeatTrimToAccessor {
     let end = duration
         .map(|intv| crate::datum_utils::ts_interval_sum_to_ms(&start, &intv))
-        .unwrap_or(0);
+        .unwrap_or(NO_TRIM_END);
     let start = i64::from(start);
 
     crate::build! {
-- 
2.43.0


From 64ff1a3f0a064f300c521e98d42ecd87c2face04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 08/34] fix: hyperloglog: combining with a partial state that
 still buffers values panicked

---
 crates/hyperloglogplusplus/src/sparse.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/hyperloglogplusplus/src/sparse.rs b/crates/hyperloglogplusplus/src/sparse.rs
index 5e50c7f..8b3a363 100644
--- a/crates/hyperloglogplusplus/src/sparse.rs
+++ b/crates/hyperloglogplusplus/src/sparse.rs
@@ -157,11 +157,8 @@ impl<'s> Storage<'s> {
     }
 
     pub fn immutable_to_dense(&self) -> dense::Storage<'static> {
-        if !self.to_merge.is_empty() {
-            panic!("tried to generate dense storage with unmerged state")
-        }
         let mut dense = dense::Storage::new(self.precision);
-        for encoded in self.iter() {
+        for encoded in self.iter().chain(self.to_merge.iter().copied()) {
             dense.add_encoded(encoded)
         }
         dense
@@ -179,11 +176,10 @@ impl<'s> Storage<'s> {
             other.precision
         );
 
-        assert!(other.to_merge.is_empty());
-
+        // values that `other` still buffers are as much part of it as its compressed ones
         let mut overflowing = false;
-        for encoded in other.iter() {
-            overflowing = self.add_encoded(encoded)
+        for encoded in other.iter().chain(other.to_merge.iter().copied()) {
+            overflowing |= self.add_encoded(encoded)
         }
         overflowing
     }
-- 
2.43.0


From b8a9ffdd8dc22a039e300ebad6058ae7f6db6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 09/34] fix: tdigest: combining partial states lost the values
 that were still buffered

---
 crates/t-digest/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0856b31..976a132 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -726,13 +726,11 @@ impl Builder {
 
     pub fn merge(&mut self, other: Self) {
         assert_eq!(self.digested.max_size(), other.digested.max_size());
+        let mut other = other;
+        // both may still hold values that are not part of their digests
+        self.digest();
+        other.digest();
         let digvec = vec![std::mem::take(&mut self.digested), other.digested];
-        if !self.buffer.is_empty() {
-            digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
-        }
-        if !other.buffer.is_empty() {
-            digvec[1].merge_unsorted(other.buffer);
-        }
         self.digested = TDigest::merge_digests(digvec);
     }
 }
-- 
2.43.0


From d320095d69b2ad1db51ef05a05bd3d31bbe57fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 10/34] fix: tdigest final function must not empty the
 transition state (wrong results as a window function)

---
 crates/t-digest/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 976a132..ff2538e 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -721,7 +721,8 @@ impl Builder {
 
     pub fn build(&mut self) -> TDigest {
         self.digest();
-        std::mem::take(&mut self.digested)
+        // the builder stays usable: in a window frame more values may follow
+        self.digested.clone()
     }
 
     pub fn merge(&mut self, other: Self) {
-- 
2.43.0


From 3b913757ad25694e5662d8370bdbeee5395ccf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 11/34] fix: tdigest approx_percentile_rank was NaN at the
 largest value (and at the smallest, for larger digests)

---
 crates/t-digest/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index ff2538e..097ebc4 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -547,6 +547,10 @@ impl TDigest {
 
         let weighted_midpoint = low_bound
             + (hi_bound - low_bound) * low_weight as f64 / (low_weight + hi_weight) as f64;
+        if v == weighted_midpoint {
+            // also the only case where there may be nothing between the midpoint and the lower bound
+            return accum_weight as f64 / self.count as f64;
+        }
         if v > weighted_midpoint {
             (accum_weight as f64
                 + (v - weighted_midpoint) / (hi_bound - weighted_midpoint) * hi_weight as f64 / 2.0)
-- 
2.43.0


From e825f9fedbe4080dbc3dbd98b20eb77a1ba0e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 12/34] fix: tdigest min_val/max_val moved by the rounding of
 centroid means

---
 crates/t-digest/src/lib.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 097ebc4..def3bfd 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -271,17 +271,20 @@ impl TDigest {
         self.merge_sorted(sorted_values)
     }
 
-    // Allow f64 overflow to create centroids with infinite mean, but make sure our min/max are updated
+    // Allow f64 overflow to create centroids with infinite mean, but make sure our min/max are updated.
+    // Any other mean is out of bounds by rounding only, and must not move them.
     fn update_bounds_on_overflow(
-        value: OrderedFloat<f64>,
+        value: &mut OrderedFloat<f64>,
         lower_bound: &mut OrderedFloat<f64>,
         upper_bound: &mut OrderedFloat<f64>,
     ) {
-        if value < *lower_bound {
-            *lower_bound = value;
-        }
-        if value > *upper_bound {
-            *upper_bound = value;
+        if value.is_infinite() {
+            *lower_bound = std::cmp::min(*lower_bound, *value);
+            *upper_bound = std::cmp::max(*upper_bound, *value);
+        } else if *value < *lower_bound {
+            *value = *lower_bound;
+        } else if *value > *upper_bound {
+            *value = *upper_bound;
         }
     }
 
@@ -355,7 +358,7 @@ impl TDigest {
                 );
                 sums_to_merge = 0.0;
                 weights_to_merge = 0;
-                TDigest::update_bounds_on_overflow(curr.mean, &mut result.min, &mut result.max);
+                TDigest::update_bounds_on_overflow(&mut curr.mean, &mut result.min, &mut result.max);
 
                 compressed.push(curr.clone());
                 q_limit_times_count =
@@ -367,7 +370,7 @@ impl TDigest {
 
         result.sum =
             OrderedFloat::from(result.sum.into_inner() + curr.add(sums_to_merge, weights_to_merge));
-        TDigest::update_bounds_on_overflow(curr.mean, &mut result.min, &mut result.max);
+        TDigest::update_bounds_on_overflow(&mut curr.mean, &mut result.min, &mut result.max);
         compressed.push(curr);
         compressed.shrink_to_fit();
         compressed.sort();
@@ -492,7 +495,7 @@ impl TDigest {
                 );
                 sums_to_merge = 0.0;
                 weights_to_merge = 0;
-                TDigest::update_bounds_on_overflow(curr.mean, &mut min, &mut max);
+                TDigest::update_bounds_on_overflow(&mut curr.mean, &mut min, &mut max);
                 compressed.push(curr.clone());
                 q_limit_times_count = Self::k_to_q(k_limit, max_size as f64) * (count as f64);
                 k_limit += 1.0;
@@ -502,7 +505,7 @@ impl TDigest {
 
         result.sum =
             OrderedFloat::from(result.sum.into_inner() + curr.add(sums_to_merge, weights_to_merge));
-        TDigest::update_bounds_on_overflow(curr.mean, &mut min, &mut max);
+        TDigest::update_bounds_on_overflow(&mut curr.mean, &mut min, &mut max);
         compressed.push(curr.clone());
         compressed.shrink_to_fit();
         compressed.sort();
-- 
2.43.0


From 17fe0192e2f9173d4447257e43b66ce901f5b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 13/34] fix: mcv_agg with n = 1 kept too few counters and lost
 the most common value

---
 extension/src/frequency.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index b99abc9..db75a9c 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -220,7 +220,11 @@ impl SpaceSavingTransState {
         }
 
         let prob_eq_n = zeta_eq_n(skew, nval as u64);
-        let prob_lt_n = zeta_le_n(skew, nval as u64 - 1);
+        let prob_lt_n = if nval == 1 {
+            0.0 // zeta_le_n(_, 0) is not, as gen_harmonic(0, _) is 1
+        } else {
+            zeta_le_n(skew, nval as u64 - 1)
+        };
 
         SpaceSavingTransState {
             entries: vec![],
-- 
2.43.0


From 225c48c85b81a06d0b826dd107d29235f7cdb8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 14/34] fix: topn with a negative n never returned (mcv_agg) or
 returned everything (freq_agg)

---
 extension/src/frequency.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index db75a9c..499fc9e 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1414,6 +1414,10 @@ fn validate_topn_for_mcv_agg(
     total_vals: u64,
     counts: impl Iterator<Item = u64>,
 ) {
+    if n < 0 {
+        pgrx::error!("requested N ({}) must not be negative", n)
+    }
+
     if topn == 0 {
         // Not a mcv aggregate
         return;
-- 
2.43.0


From c427a17da7b6740c4e6168fb4437e2ad5acccf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 15/34] fix: topn(agg, n, NULL::type) with the wrong type read
 the values as that type (server crash)

---
 extension/src/frequency.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 499fc9e..679b625 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1444,7 +1444,38 @@ fn validate_topn_for_mcv_agg(
     }
 }
 
-#[pg_extern(immutable, parallel_safe)]
+// The values are returned as the type of the last argument, so that has to match even if the argument is NULL
+fn validate_topn_type(
+    agg: &SpaceSavingAggregate<'_>,
+    arg: usize,
+    fcinfo: pg_sys::FunctionCallInfo,
+) {
+    if unsafe { pg_getarg_type(fcinfo, arg) }.to_u32() != agg.type_oid {
+        pgrx::error!("mischatched types")
+    }
+}
+
+#[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn topn_any(
+    agg: SpaceSavingAggregate<'_>,
+    n: i32,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'_, AnyElement> {
+    validate_topn_type(&agg, 2, fcinfo);
+    topn(agg, n, ty)
+}
+
+#[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn default_topn_any(
+    agg: SpaceSavingAggregate<'_>,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'_, AnyElement> {
+    validate_topn_type(&agg, 1, fcinfo);
+    default_topn(agg, ty)
+}
+
 pub fn topn(
     agg: SpaceSavingAggregate<'_>,
     n: i32,
@@ -1480,7 +1511,6 @@ pub fn topn(
     )
 }
 
-#[pg_extern(immutable, parallel_safe, name = "topn")]
 pub fn default_topn(
     agg: SpaceSavingAggregate<'_>,
     ty: Option<AnyElement>,
-- 
2.43.0


From 8ceafc10a15f03ca202f2659823f7b3f8f8f26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:34 +0000
Subject: [PATCH 16/34] fix: timevector filter() left the nulls of removed
 points on other points

---
 extension/src/time_vector/pipeline/filter.rs | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/filter.rs b/extension/src/time_vector/pipeline/filter.rs
index 2d8a794..fefdc05 100644
--- a/extension/src/time_vector/pipeline/filter.rs
+++ b/extension/src/time_vector/pipeline/filter.rs
@@ -52,8 +52,26 @@ pub fn filter_lambda_over_series(
     series: &mut Timevector_TSTZ_F64<'_>,
     mut func: impl FnMut(i64, f64) -> bool,
 ) {
-    series.points.as_owned().retain(|p| func(p.ts, p.val));
-    series.num_points = series.points.len() as _;
+    let old_points = std::mem::take(series.points.as_owned());
+    let mut points = Vec::with_capacity(old_points.len());
+    let mut null_val = vec![];
+    for (idx, point) in old_points.into_iter().enumerate() {
+        if !func(point.ts, point.val) {
+            continue;
+        }
+        // nulls stay with their points
+        let new_idx = points.len();
+        if new_idx % 8 == 0 {
+            null_val.push(0_u8);
+        }
+        if series.is_null_val(idx) {
+            null_val[new_idx / 8] |= 1 << (new_idx % 8);
+        }
+        points.push(point);
+    }
+    series.num_points = points.len() as _;
+    series.points = points.into();
+    series.null_val = null_val.into();
 }
 
 #[cfg(any(test, feature = "pg_test"))]
-- 
2.43.0


From e9ae1d36e308ac9f9e8825e7c3edb374d985c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:34 +0000
Subject: [PATCH 17/34] fix: timevector map() that moves points in time left
 the vector marked as sorted

---
 extension/src/time_vector/pipeline/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index 15e513e..cc20086 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -82,6 +82,10 @@ pub fn map_lambda_over_series(
             val: new_val.unwrap_or(point.val),
         }
     }
+    // moving the points in time can change their order
+    if !only_val && !series.points.as_slice().is_sorted_by_key(|p| p.ts) {
+        series.flags &= !FLAG_IS_SORTED;
+    }
 }
 
 #[pg_extern(
-- 
2.43.0


From 211521f24812197aaf2d48d94c7e546eef3e598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:34 +0000
Subject: [PATCH 18/34] fix: timevector delta() of an empty timevector panicked

---
 extension/src/time_vector/pipeline/delta.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 933b829..3cada6b 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -37,15 +37,18 @@ pub fn timevector_delta<'s>(series: &Timevector_TSTZ_F64<'s>) -> Timevector_TSTZ
     }
 
     let mut it = series.iter();
-    let mut prev = it.next().unwrap().val;
     let mut delta_points = Vec::new();
 
-    for pt in it {
-        delta_points.push(TSPoint {
-            ts: pt.ts,
-            val: pt.val - prev,
-        });
-        prev = pt.val;
+    // an empty timevector has no deltas
+    if let Some(first) = it.next() {
+        let mut prev = first.val;
+        for pt in it {
+            delta_points.push(TSPoint {
+                ts: pt.ts,
+                val: pt.val - prev,
+            });
+            prev = pt.val;
+        }
     }
 
     let nulls_len = delta_points.len().div_ceil(8);
-- 
2.43.0


From 1335bad859de505a7daa8daed1d6631956fcf102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:34 +0000
Subject: [PATCH 19/34] fix: fill_to with a zero or negative interval never
 returned

---
 extension/src/time_vector/pipeline/fill_to.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 1c0ff92..232970d 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -94,6 +94,11 @@ pub fn fill_to<'s>(
         _ => unreachable!(),
     };
 
+    if interval <= 0 {
+        // there would be no end to the points to fill in
+        error!("fill_to requires a positive interval")
+    }
+
     if !series.is_sorted() {
         panic!("Timevector must be sorted prior to passing to fill_to")
     }
-- 
2.43.0


From d048bae0f492d871cbbc4865f2ce46fd52ea1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:34 +0000
Subject: [PATCH 20/34] fix: sign() of zero was 1 in pipelines and lambdas

---
 extension/src/time_vector/pipeline/arithmetic.rs      | 3 ++-
 extension/src/time_vector/pipeline/lambda/executor.rs | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/arithmetic.rs b/extension/src/time_vector/pipeline/arithmetic.rs
index 104c758..e3d53a9 100644
--- a/extension/src/time_vector/pipeline/arithmetic.rs
+++ b/extension/src/time_vector/pipeline/arithmetic.rs
@@ -55,7 +55,8 @@ pub fn apply(
         Ln => |a, _| a.ln(),
         Log10 => |a, _| a.log10(),
         Round => |a, _| a.round(),
-        Sign => |a, _| a.signum(),
+        // `signum` is 1 (or -1) for zeros
+        Sign => |a, _| if a == 0.0 { 0.0 } else { a.signum() },
         Sqrt => |a, _| a.sqrt(),
         Trunc => |a, _| a.trunc(),
     };
diff --git a/extension/src/time_vector/pipeline/lambda/executor.rs b/extension/src/time_vector/pipeline/lambda/executor.rs
index 599b468..c516bed 100644
--- a/extension/src/time_vector/pipeline/lambda/executor.rs
+++ b/extension/src/time_vector/pipeline/lambda/executor.rs
@@ -123,7 +123,11 @@ where
             }
             Pi => std::f64::consts::PI.into(),
             Round => unary_function!(round()),
-            Sign => unary_function!(signum()),
+            Sign => {
+                let then = self.exec_expression(&args[0], value, time).float();
+                // `signum` is 1 (or -1) for zeros
+                if then == 0.0 { 0.0 } else { then.signum() }.into()
+            }
             Sqrt => unary_function!(sqrt()),
             Trunc => unary_function!(trunc()),
             Acos => unary_function!(acos()),
-- 
2.43.0


From dd33010a21a0c7b7a5ba6c0e8963b3e29d9b59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 21/34] fix: lttb overflowed when averaging the times of a
 large bucket

---
 extension/src/lttb.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index ed44dff..db04744 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -277,7 +277,7 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        let mut avg_x = 0i128; // the sum of a large bucket's times does not fit an i64
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -292,10 +292,10 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
-            avg_x += data[idx].ts;
+            avg_x += data[idx].ts as i128;
             avg_y += data[idx].val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
@@ -364,7 +364,7 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        let mut avg_x = 0i128; // the sum of a large bucket's times does not fit an i64
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -380,10 +380,10 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
             let point = data.get(idx).unwrap();
-            avg_x += point.ts;
+            avg_x += point.ts as i128;
             avg_y += point.val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
-- 
2.43.0


From 16df71122db9e51a78985671a231391802e3abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 22/34] fix: lttb of a timevector to one point underflowed

---
 extension/src/lttb.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index db04744..b92179b 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -351,6 +351,11 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         return data.in_current_context(); // can we avoid this copy???
     }
 
+    if threshold == 1 {
+        // both ends are always kept
+        error!("resolution must be greater than 1")
+    }
+
     let mut sampled = Vec::with_capacity(threshold);
 
     // Bucket size. Leave room for start and end data points.
-- 
2.43.0


From 1fbd983fedee0493518f8e41ebc6b6036d4f9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 23/34] fix: gp_lttb fails with overflow when the last point
 follows a gap

The endpoint budget counted two points for a trailing subarray of one.
---
 extension/src/lttb.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index b92179b..3cd1359 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -167,6 +167,10 @@ pub fn gap_preserving_lttb_final_inner(
                     start = i + 1;
                 }
             }
+            if start == count - 1 {
+                // the last subarray is a single point
+                endpoints_remaining -= 1;
+            }
 
             let mut points_remaining = state.resolution as i64;
             let mut downsampled = vec![];
-- 
2.43.0


From e5138a674be627407ff2616ce2a58739bc481456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 24/34] fix: lambda builtin functions accept arguments of any
 type

abs('2 hours'i) was accepted when the lambda was read, and failed only when it was evaluated.
---
 extension/src/time_vector/pipeline/lambda/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/src/time_vector/pipeline/lambda/parser.rs b/extension/src/time_vector/pipeline/lambda/parser.rs
index e16521f..dab59ae 100644
--- a/extension/src/time_vector/pipeline/lambda/parser.rs
+++ b/extension/src/time_vector/pipeline/lambda/parser.rs
@@ -127,6 +127,12 @@ fn parse_primary<'a>(
                     args.len(),
                 )
             }
+            if args.iter().any(|arg| arg.ty() != &Double) {
+                panic!(
+                    "function `{}` expects DOUBLE PRECISION arguments",
+                    func_name.as_str()
+                )
+            }
 
             FunctionCall(func_id, args)
         }
-- 
2.43.0


From 3aff709d27aa355c307039d892d3c2a9e717202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 25/34] fix: partial aggregation of min_n and max_n fails on
 workers that saw no rows

---
 extension/src/nmost/max_float.rs | 4 ++--
 extension/src/nmost/max_int.rs   | 4 ++--
 extension/src/nmost/max_time.rs  | 4 ++--
 extension/src/nmost/min_float.rs | 4 ++--
 extension/src/nmost/min_int.rs   | 4 ++--
 extension/src/nmost/min_time.rs  | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index a140359..21ae6de 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -95,13 +95,13 @@ pub fn max_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MaxFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxFloatTransType = crate::do_deserialize!(bytes, MaxFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 8e22c5c..8a72571 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -89,13 +89,13 @@ pub fn max_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MaxIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxIntTransType = crate::do_deserialize!(bytes, MaxIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 10354fc..1d53e0a 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -90,13 +90,13 @@ pub fn max_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MaxTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxTimeTransType = crate::do_deserialize!(bytes, MaxTimeTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ca9024d..22148a3 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -94,13 +94,13 @@ pub fn min_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MinFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinFloatTransType = crate::do_deserialize!(bytes, MinFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index 5a4634b..9963d1a 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -81,13 +81,13 @@ pub fn min_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MinIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinIntTransType = crate::do_deserialize!(bytes, MinIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index 8d9afd4..5dab358 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -81,13 +81,13 @@ pub fn min_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MinTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinTimeTransType = crate::do_deserialize!(bytes, MinTimeTransType);
     Internal::new(i).into()
-- 
2.43.0


From c1a90be7a5cf0f6e7ea1997ee808b99423a1e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 26/34] fix: read datums of text forms that need escaping

The text form of the frequency aggregates, min_n_by and max_n_by holds their
datums as quoted strings.  Reading one back asked the deserializer for a
borrowed string, which fails as soon as the string contains an escape (a
quote, a backslash, a control character), so such values could be dumped but
not restored.
---
 extension/src/datum_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index b92b4af..a37f432 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -341,8 +341,8 @@ impl<'a, 'de> Deserialize<'de> for DatumStore<'a> {
                 let mut reader = DatumFromSerializedTextReader::from_oid(oid);
 
                 let mut data = vec![];
-                while let Some(next) = seq.next_element::<&str>()? {
-                    data.push(reader.read_datum(next));
+                while let Some(next) = seq.next_element::<String>()? {
+                    data.push(reader.read_datum(&next));
                 }
 
                 Ok((oid, data).into())
-- 
2.43.0


From f6884e6f112703543544852845f6beb7c72564f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 27/34] fix: malformed timestamps in aggregate texts take the
 server down

---
 crates/tspoint/src/lib.rs      | 4 ++--
 extension/src/serialization.rs | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/tspoint/src/lib.rs b/crates/tspoint/src/lib.rs
index 7684495..8c8c5d9 100644
--- a/crates/tspoint/src/lib.rs
+++ b/crates/tspoint/src/lib.rs
@@ -35,7 +35,7 @@ impl Serialize for TSPoint {
     {
         if serializer.is_human_readable() {
             // FIXME ugly hack to use postgres functions in an non-postgres library
-            unsafe extern "C" {
+            unsafe extern "C-unwind" {
                 fn _ts_toolkit_encode_timestamptz(dt: i64, buf: &mut [u8; 128]);
             }
             let mut ts = [0; 128];
@@ -70,7 +70,7 @@ impl<'de> Deserialize<'de> for TSPoint {
         }
 
         // FIXME ugly hack to use postgres functions in an non-postgres library
-        unsafe extern "C" {
+        unsafe extern "C-unwind" {
             // this is only going to be used to communicate with a rust lib we compile with this one
             #[allow(improper_ctypes)]
             fn _ts_toolkit_decode_timestamptz(text: &str) -> i64;
diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 6a3bc08..5bfb5f0 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -16,7 +16,7 @@ mod types;
 
 // basically timestamptz_out
 #[unsafe(no_mangle)]
-pub extern "C" fn _ts_toolkit_encode_timestamptz(
+pub extern "C-unwind" fn _ts_toolkit_encode_timestamptz(
     dt: pg_sys::TimestampTz,
     buf: &mut [c_char; pg_sys::MAXDATELEN as _],
 ) {
@@ -54,7 +54,7 @@ pub extern "C" fn _ts_toolkit_encode_timestamptz(
 #[unsafe(no_mangle)]
 // this is only going to be used to communicate with a rust lib we compile with this one
 #[allow(improper_ctypes_definitions)]
-pub extern "C" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
+pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
     use std::{ffi::CString, mem::MaybeUninit, ptr};
     let str = CString::new(text).unwrap();
     unsafe {
@@ -89,8 +89,9 @@ pub extern "C" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
             )
         }
         #[cfg(not(feature = "pg15"))]
+        let mut extra = pgrx::pg_sys::DateTimeErrorExtra::default();
+        #[cfg(not(feature = "pg15"))]
         if dterr == 0 {
-            let mut extra = pgrx::pg_sys::DateTimeErrorExtra::default();
             dterr = pg_sys::DecodeDateTime(
                 field.as_mut_ptr(),
                 ftype.as_mut_ptr(),
@@ -115,7 +116,7 @@ pub extern "C" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
         if dterr != 0 {
             pg_sys::DateTimeParseError(
                 dterr,
-                core::ptr::null_mut(),
+                &mut extra as *mut pgrx::pg_sys::DateTimeErrorExtra,
                 str.as_ptr(),
                 c"timestamptz".as_ptr().cast::<c_char>(),
                 core::ptr::null_mut(),
-- 
2.43.0


From 88d8b651fcd55f06908bd3282cba48afa2e93297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 28/34] fix: days_in_month is a day short for months in which
 clocks are put forward

---
 extension/src/utilities.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extension/src/utilities.rs b/extension/src/utilities.rs
index 70e9fb2..b3f63cf 100644
--- a/extension/src/utilities.rs
+++ b/extension/src/utilities.rs
@@ -87,13 +87,14 @@ pub fn generate_periodic_normal_series(
     )
 }
 
-// Returns days in month
+// Returns days in month: the number of the month's last day on the local calendar (the time between its ends
+// is short of an hour, and so of a day, where clocks were put forward in it)
 extension_sql!(
     "
 CREATE FUNCTION days_in_month(date timestamptz) RETURNS int
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1) + interval '1 month' - date_trunc('month', $1))) AS INTEGER)
+SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1::timestamp) + interval '1 month' - interval '1 day')) AS INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name = "days_in_month",
-- 
2.43.0


From 5c4842e69d0b2b0cc169b84d377a1d2cf8769a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 29/34] fix: month_normalize divides by the length of another
 month for dates late in a month

---
 extension/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/utilities.rs b/extension/src/utilities.rs
index b3f63cf..4b5a092 100644
--- a/extension/src/utilities.rs
+++ b/extension/src/utilities.rs
@@ -106,7 +106,7 @@ extension_sql!(
 CREATE FUNCTION month_normalize(metric float8, reference_date timestamptz, days float8 DEFAULT 365.25/12) RETURNS float8
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT metric * days / CAST(EXTRACT('day' FROM (reference_date + interval '1 month' - reference_date)) as INTEGER)
+SELECT metric * days / CAST(EXTRACT('day' FROM (date_trunc('month', reference_date::timestamp) + interval '1 month' - interval '1 day')) as INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name="month_normalize",
-- 
2.43.0


From c3b2333b5602038b55ea83a51ed2831f31e176ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 30/34] fix: rolling stats_agg summaries never recover from an
 infinite or NaN value

A window over rolled up summaries stayed NaN after the summary with the
infinite value left it: remove_combined subtracted infinity from infinity.
Ask for recalculation, as remove does for values.
---
 crates/stats-agg/src/stats1d.rs | 4 ++++
 crates/stats-agg/src/stats2d.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index c91da00..75f0b12 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -249,6 +249,10 @@ where
         } else if combined.n < remove.n {
             panic!(); // given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // if we are trying to remove a nan/infinite input, it's time to recalculate.
+        if !remove.sx.is_finite() || !remove.sx2.is_finite() {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         if remove.sx / combined.sx > <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD) {
             return None;
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index fe6e1e1..ca725f5 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -361,6 +361,14 @@ impl<T: FloatLike> StatsSummary2D<T> {
         } else if combined.n < remove.n {
             panic!(); //  given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // if we are trying to remove a nan/infinite input, it's time to recalculate.
+        if !remove.sx.is_finite()
+            || !remove.sx2.is_finite()
+            || !remove.sy.is_finite()
+            || !remove.sy2.is_finite()
+        {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         let thresh = <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD);
         if remove.sx / combined.sx > thresh || remove.sy / combined.sy > thresh {
-- 
2.43.0


From fae4c5c701b8a40672e4e99633377a3796e9c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 31/34] fix: stats_agg over a moving window with an infinite
 value is NaN

The moving state sums with TwoFloats, whose error term becomes NaN when an
infinity is added, so that sum and average were NaN and not the infinity
the plain aggregate gives.
---
 crates/stats-agg/src/lib.rs     | 13 +++++++++++++
 crates/stats-agg/src/stats1d.rs |  4 ++--
 crates/stats-agg/src/stats2d.rs |  8 ++++----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/stats-agg/src/lib.rs b/crates/stats-agg/src/lib.rs
index ea069c3..415d332 100644
--- a/crates/stats-agg/src/lib.rs
+++ b/crates/stats-agg/src/lib.rs
@@ -15,6 +15,10 @@ pub trait FloatLike:
         <Self as From<f64>>::from(val)
     }
     fn from_u64(n: u64) -> Self;
+    /// Add a value to a sum, either of which may be infinite.
+    fn add_to_sum(self, val: Self) -> Self {
+        self + val
+    }
 }
 impl FloatLike for f64 {
     fn from_u64(n: u64) -> Self {
@@ -25,6 +29,15 @@ impl FloatLike for TwoFloat {
     fn from_u64(n: u64) -> Self {
         (n as f64).into()
     }
+    // The error term of a TwoFloat is NaN as soon as an infinity has been added, so that the sum of an
+    // infinity and a number would become NaN.
+    fn add_to_sum(self, val: Self) -> Self {
+        if num_traits::Float::is_finite(self) && num_traits::Float::is_finite(val) {
+            self + val
+        } else {
+            (f64::from(self) + f64::from(val)).into()
+        }
+    }
 }
 
 #[derive(Debug, PartialEq, Eq)]
diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index 75f0b12..b10dde9 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -71,7 +71,7 @@ where
     pub fn accum(&mut self, p: T) -> Result<(), StatsError> {
         let old = *self;
         self.n += 1;
-        self.sx += p;
+        self.sx = self.sx.add_to_sum(p);
         if old.n > 0 {
             let tmpx = p * self.n64() - self.sx;
             let scale = T::one() / (self.n64() * old.n64());
@@ -160,7 +160,7 @@ where
 
         let mut new = StatsSummary1D {
             n: self.n - 1,
-            sx: self.sx - p,
+            sx: self.sx.add_to_sum(-p),
             sx2: T::zero(), // initialize this for now.
             sx3: T::zero(), // initialize this for now.
             sx4: T::zero(), // initialize this for now.
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index ca725f5..05d1b7b 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -81,8 +81,8 @@ impl<T: FloatLike> StatsSummary2D<T> {
     pub fn accum(&mut self, p: XYPair<T>) -> Result<(), StatsError> {
         let old = *self;
         self.n += 1;
-        self.sx += p.x;
-        self.sy += p.y;
+        self.sx = self.sx.add_to_sum(p.x);
+        self.sy = self.sy.add_to_sum(p.y);
         if old.n > 0 {
             let tmpx = p.x * self.n64() - self.sx;
             let tmpy = p.y * self.n64() - self.sy;
@@ -216,8 +216,8 @@ impl<T: FloatLike> StatsSummary2D<T> {
 
         let mut new = StatsSummary2D {
             n: self.n - 1,
-            sx: self.sx - p.x,
-            sy: self.sy - p.y,
+            sx: self.sx.add_to_sum(-p.x),
+            sy: self.sy.add_to_sum(-p.y),
             sx2: T::zero(), // initialize these for now.
             sx3: T::zero(),
             sx4: T::zero(),
-- 
2.43.0


From 181e53e9129c2a093f7a1c2324c52f7cc112c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 32/34] fix: hyperloglog counts values that are equal under a
 nondeterministic collation separately

---
 extension/src/datum_utils.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index a37f432..23c2ee3 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -159,20 +159,26 @@ impl DatumHashBuilder {
             size_of::<pg_sys::FunctionCallInfoBaseData>() + size_of::<pg_sys::NullableDatum>() * 2;
         let info = unsafe { pg_sys::palloc0(size) } as pg_sys::FunctionCallInfo;
 
+        let collation = match collation {
+            Some(collation) => collation,
+            None => unsafe { (*tentry).typcollation },
+        };
+
         unsafe {
             (*info).flinfo = flinfo as *const pg_sys::FmgrInfo as *mut pg_sys::FmgrInfo;
             (*info).context = std::ptr::null_mut();
             (*info).resultinfo = std::ptr::null_mut();
-            (*info).fncollation = (*tentry).typcollation;
+            // values that are equal under a nondeterministic collation only
+            // have the same hash under that collation
+            (*info).fncollation = if collation == pg_sys::Oid::INVALID {
+                (*tentry).typcollation
+            } else {
+                collation
+            };
             (*info).isnull = false;
             (*info).nargs = 1;
         }
 
-        let collation = match collation {
-            Some(collation) => collation,
-            None => unsafe { (*tentry).typcollation },
-        };
-
         Self {
             info,
             type_id: unsafe { (*tentry).type_id },
-- 
2.43.0


From 8af9c721283c6f34381b323517cb4166bf7dfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 33/34] fix: text of values over types or collations whose
 names are escaped cannot be read back

---
 extension/src/serialization/collations.rs | 3 ++-
 extension/src/serialization/functions.rs  | 3 ++-
 extension/src/serialization/types.rs      | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/extension/src/serialization/collations.rs b/extension/src/serialization/collations.rs
index 88dbfc6..e03695f 100644
--- a/extension/src/serialization/collations.rs
+++ b/extension/src/serialization/collations.rs
@@ -170,7 +170,8 @@ impl<'de> Deserialize<'de> for PgCollationId {
     {
         use serde::de::Error;
 
-        let collation = <Option<(&str, &str)>>::deserialize(deserializer)?;
+        // not &str: names with characters that are escaped cannot be borrowed
+        let collation = <Option<(String, String)>>::deserialize(deserializer)?;
         let (namespace, name) = match collation {
             None => return Ok(Self(pg_sys::Oid::INVALID)),
             Some(qualified_name) => qualified_name,
diff --git a/extension/src/serialization/functions.rs b/extension/src/serialization/functions.rs
index 09641d7..5df407b 100644
--- a/extension/src/serialization/functions.rs
+++ b/extension/src/serialization/functions.rs
@@ -55,7 +55,8 @@ impl<'de> Deserialize<'de> for PgProcId {
             #[allow(improper_ctypes)]
             fn regprocedurein(fcinfo: pg_sys::FunctionCallInfo) -> Datum;
         }
-        let qualified_name = <&str>::deserialize(deserializer)?;
+        // not &str: names with characters that are escaped cannot be borrowed
+        let qualified_name = String::deserialize(deserializer)?;
         let qualified_name = CString::new(qualified_name).unwrap();
         let oid = unsafe {
             pg_sys::DirectFunctionCall1Coll(
diff --git a/extension/src/serialization/types.rs b/extension/src/serialization/types.rs
index 5736724..241a03d 100644
--- a/extension/src/serialization/types.rs
+++ b/extension/src/serialization/types.rs
@@ -262,7 +262,8 @@ impl<'de> Deserialize<'de> for PgTypId {
     {
         use serde::de::Error;
 
-        let (namespace, name) = <(&str, &str)>::deserialize(deserializer)?;
+        // not &str: names with characters that are escaped cannot be borrowed
+        let (namespace, name) = <(String, String)>::deserialize(deserializer)?;
         let (namespace, name) = (
             CString::new(namespace).unwrap(),
             CString::new(name).unwrap(),
-- 
2.43.0


From 2d3be0ea904955817aff63d0273c310b6555c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 34/34] fix: mcv_agg and max_n_by of non-ASCII text have no
 text form in other encodings than UTF8

---
 extension/src/datum_utils.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index 23c2ee3..6c3a414 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -14,7 +14,9 @@ use serde::{
 use pg_sys::{Datum, Oid};
 use pgrx::*;
 
-use crate::serialization::{PgCollationId, ShortTypeId};
+use crate::serialization::{
+    EncodedStr, PgCollationId, ShortTypeId, str_from_db_encoding, str_to_db_encoding,
+};
 
 pub(crate) unsafe fn deep_copy_datum(datum: Datum, typoid: Oid) -> Datum {
     let tentry = unsafe { pg_sys::lookup_type_cache(typoid, 0_i32) };
@@ -112,7 +114,10 @@ impl DatumFromSerializedTextReader {
 
     pub fn read_datum(&mut self, datum_str: &str) -> Datum {
         let cstr = std::ffi::CString::new(datum_str).unwrap(); // TODO: error handling
-        let cstr_ptr = cstr.as_ptr() as *mut std::os::raw::c_char;
+        let cstr_ptr = match str_to_db_encoding(datum_str) {
+            EncodedStr::Utf8(_) => cstr.as_ptr(),
+            EncodedStr::Other(encoded) => encoded.as_ptr(),
+        } as *mut std::os::raw::c_char;
         unsafe { pg_sys::InputFunctionCall(&mut self.flinfo, cstr_ptr, self.typ_io_param, -1) }
     }
 }
@@ -126,7 +131,7 @@ impl Serialize for TextSerializeableDatum {
     {
         let chars = unsafe { pg_sys::OutputFunctionCall(self.1, self.0) };
         let cstr = unsafe { std::ffi::CStr::from_ptr(chars) };
-        serializer.serialize_str(cstr.to_str().unwrap())
+        serializer.serialize_str(str_from_db_encoding(cstr))
     }
 }
 
-- 
2.43.0

