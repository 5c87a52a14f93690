From 19bc846ec562b71b4d3398dd620fd56d419eb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 01/47] fix: delay filter keeps events exactly at its tolerance
 and survives extreme timestamps

---
 src/filter/delay_filter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 2756070..673380a 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -47,6 +47,13 @@ impl DelayFilter {
             tolerance: config.tolerance,
         }
     }
+
+    /// Determine if a timestamp is at most `tolerance` seconds away from now
+    fn tolerates(&self, timestamp: i64) -> bool {
+        let now = time::now();
+        timestamp >= now.saturating_sub(self.tolerance)
+            && timestamp <= now.saturating_add(self.tolerance)
+    }
 }
 
 impl filter::Filter for DelayFilter {
@@ -57,7 +64,7 @@ impl filter::Filter for DelayFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Telemetry(telem) => {
-                if (telem.timestamp - time::now()).abs() < self.tolerance {
+                if self.tolerates(telem.timestamp) {
                     DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Telemetry(telem));
                 } else {
@@ -65,7 +72,7 @@ impl filter::Filter for DelayFilter {
                 }
             }
             metric::Event::Log(log) => {
-                if (log.time - time::now()).abs() < self.tolerance {
+                if self.tolerates(log.time) {
                     DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Log(log));
                 } else {
-- 
2.43.0


From 63c3c73f4a150e918c29863462a628e30084ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 02/47] fix: comparing and hashing tags does not depend on the
 order they were inserted in

---
 src/metric/mod.rs       | 25 ++++++++++++++++---------
 src/metric/telemetry.rs | 18 +++++++-----------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/metric/mod.rs b/src/metric/mod.rs
index b918448..8e29e36 100644
--- a/src/metric/mod.rs
+++ b/src/metric/mod.rs
@@ -27,18 +27,25 @@ pub fn cmp_tagmap(
     lhs: &Option<TagMap>,
     rhs: &Option<TagMap>,
 ) -> Option<cmp::Ordering> {
-    match (lhs, rhs) {
-        (&Some(ref l), &Some(ref r)) => {
-            if l.len() != r.len() {
-                l.len().partial_cmp(&r.len())
-            } else {
-                l.iter().partial_cmp(r)
-            }
-        }
-        _ => Some(cmp::Ordering::Equal),
+    let (l, r) = (sorted_tags(lhs), sorted_tags(rhs));
+    if l.len() != r.len() {
+        l.len().partial_cmp(&r.len())
+    } else {
+        l.partial_cmp(&r)
     }
 }
 
+/// The tags of a map in key order
+///
+/// The iteration order of a `TagMap` depends on the history of the map, not
+/// only on its content. Comparing and hashing have to be independent of it. No
+/// map and an empty map are the same thing here.
+fn sorted_tags(tags: &Option<TagMap>) -> Vec<(&String, &String)> {
+    let mut res: Vec<(&String, &String)> = tags.iter().flatten().collect();
+    res.sort();
+    res
+}
+
 #[allow(missing_docs)]
 pub enum TagIter<'a> {
     Single {
diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 94629a2..977320f 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -1,4 +1,4 @@
-use crate::metric::{cmp_tagmap, TagIter, TagMap};
+use crate::metric::{cmp_tagmap, sorted_tags, TagIter, TagMap};
 use crate::time;
 use quantiles::ckms::CKMS;
 #[cfg(test)]
@@ -844,11 +844,9 @@ impl Telemetry {
     pub fn hash(&self) -> u64 {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
-        if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
+        for (k, v) in sorted_tags(&self.tags) {
+            k.hash(&mut hasher);
+            v.hash(&mut hasher);
         }
         self.kind().hash(&mut hasher);
         hasher.finish()
@@ -863,11 +861,9 @@ impl Telemetry {
     pub fn name_tag_hash(&self) -> u64 {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
-        if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
+        for (k, v) in sorted_tags(&self.tags) {
+            k.hash(&mut hasher);
+            v.hash(&mut hasher);
         }
         hasher.finish()
     }
-- 
2.43.0


From 44a9eac03edf569a075d836bdb4c01df915a3e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 03/47] fix: filters send what they produced for a failing
 event at once, not with the next event

---
 src/filter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e6ae4ac..12a587e 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -104,6 +104,9 @@ pub trait Filter {
                                 "Failed to run filter with error: {:?}",
                                 msg_in_fe(&fe)
                             );
+                            for ev in events.drain(..) {
+                                util::send(&mut chans, ev)
+                            }
                             let event = event_in_fe(fe);
                             util::send(&mut chans, event);
                         }
-- 
2.43.0


From 2e203876a9d3f8d178458e2d1eb0d6b41281e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 04/47] fix: filters announce shutdown once, after every
 upstream has shut down

---
 src/filter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 12a587e..9641656 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -81,13 +81,13 @@ pub trait Filter {
             match recv.next() {
                 None => attempts += 1,
                 Some(metric::Event::Shutdown) => {
-                    util::send(&mut chans, metric::Event::Shutdown);
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
                         trace!(
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
                 }
-- 
2.43.0


From b7344813b26fa2c87dd060d4e75ec436f0e3e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 05/47] fix: flush boundary filter gives up what it holds at
 shutdown and passes raw events on

---
 src/filter/flush_boundary_filter.rs |  9 +++++++++
 src/filter/mod.rs                   | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 8e3b634..3088fdb 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -84,8 +84,17 @@ impl filter::Filter for FlushBoundaryFilter {
                         self.holds.insert(idx, hold)
                     }
                 }
+            } else {
+                // Without a timestamp there's no boundary to hold for.
+                res.push(event);
             }
         }
         Ok(())
     }
+
+    fn shutdown(&mut self, res: &mut Vec<metric::Event>) {
+        for mut hold in self.holds.drain(..) {
+            res.append(&mut hold.events);
+        }
+    }
 }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 9641656..23d8b40 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -61,6 +61,13 @@ pub trait Filter {
         res: &mut Vec<metric::Event>,
     ) -> Result<(), FilterError>;
 
+    /// Release everything the Filter still holds
+    ///
+    /// This is called once every upstream has shut down, before the shutdown
+    /// is announced downstream. Filters that hold events back must give them
+    /// up here.
+    fn shutdown(&mut self, _res: &mut Vec<metric::Event>) {}
+
     /// Run the Filter
     ///
     /// It is not expected that most Filters will re-implement this. If this is
@@ -87,6 +94,10 @@ pub trait Filter {
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        self.shutdown(&mut events);
+                        for ev in events.drain(..) {
+                            util::send(&mut chans, ev)
+                        }
                         util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
-- 
2.43.0


From ef99636c244d3867e70c349b902c5e0f6c228bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 06/47] fix: timestamps outside the calendar's range do not
 crash the stages that print them

---
 src/filter/json_encode_filter.rs |  7 ++-----
 src/sink/console.rs              |  6 ++----
 src/sink/elasticsearch.rs        | 10 +++-------
 src/time.rs                      | 17 +++++++++++++++++
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/filter/json_encode_filter.rs b/src/filter/json_encode_filter.rs
index 4fdf7ed..ebe05fd 100644
--- a/src/filter/json_encode_filter.rs
+++ b/src/filter/json_encode_filter.rs
@@ -10,9 +10,7 @@
 
 use crate::filter;
 use crate::metric;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use rand::random;
 use serde_json;
 use serde_json::map::Map;
@@ -72,8 +70,7 @@ impl filter::Filter for JSONEncodeFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Log(log) => {
-                let naive_time = NaiveDateTime::from_timestamp(log.time, 0);
-                let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+                let utc_time = time::to_datetime(log.time);
                 let metadata = json_to_object(json!({
                     "time": utc_time.to_rfc3339(),
                     "path": log.path.clone(),
diff --git a/src/sink/console.rs b/src/sink/console.rs
index 917427f..7db8826 100644
--- a/src/sink/console.rs
+++ b/src/sink/console.rs
@@ -4,9 +4,8 @@ use crate::buckets::Buckets;
 use crate::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time;
 use chrono::offset::Utc;
-use chrono::DateTime;
 
 /// The 'console' sink exists for development convenience. The sink will
 /// aggregate according to [buckets](../buckets/struct.Buckets.html) method and
@@ -202,7 +201,6 @@ impl Sink<ConsoleConfig> for Console {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::to_datetime(time);
     format!("{}", utc_time.format("%Y-%m-%dT%H:%M:%S%.3fZ"))
 }
diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a3d962a..eee9651 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,9 +3,7 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
@@ -358,15 +356,13 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::to_datetime(time);
     format!("{}", utc_time.format("%+"))
 }
 
 #[inline]
 fn idx(prefix: &Option<String>, time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::to_datetime(time);
     match *prefix {
         Some(ref p) => format!("{}-{}", p, utc_time.format("%Y-%m-%d")),
         None => format!("{}", utc_time.format("%Y-%m-%d")),
diff --git a/src/time.rs b/src/time.rs
index 19ec2a8..de04d21 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -4,7 +4,9 @@
 //! for cernan and update it ourselves periodically. See `update_time` in this
 //! module for more details.
 
+use chrono::naive::{NaiveDateTime, MAX_DATE, MIN_DATE};
 use chrono::offset::Utc;
+use chrono::DateTime;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{thread, time};
 
@@ -17,6 +19,21 @@ pub fn now() -> i64 {
     NOW.load(Ordering::Relaxed) as i64
 }
 
+/// Convert epoch seconds into a calendar time
+///
+/// Timestamps are supplied by clients and need not be sensible. Those outside
+/// the range the calendar can express are moved to the nearest end of it.
+pub fn to_datetime(secs: i64) -> DateTime<Utc> {
+    let naive_time = NaiveDateTime::from_timestamp_opt(secs, 0).unwrap_or_else(|| {
+        if secs < 0 {
+            MIN_DATE.and_hms(0, 0, 0)
+        } else {
+            MAX_DATE.and_hms(23, 59, 59)
+        }
+    });
+    DateTime::from_utc(naive_time, Utc)
+}
+
 /// Update cernan's view of time every 500ms. Time is in UTC.
 pub fn update_time() {
     let dur = time::Duration::from_millis(500);
-- 
2.43.0


From 20003a1d0292d361592e7cd67c8d408ebd01fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 07/47] fix: a sink counts each shutdown announcement once

---
 src/sink/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 1252e0d..3714833 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -184,6 +184,7 @@ where
                                 self.state.shutdown();
                                 return;
                             }
+                            break;
                         }
                     },
                     Valve::Closed => {
-- 
2.43.0


From 4ae0acfafe467b7e80a342aee2ace1f9ebf0dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 08/47] fix: a failing lua call does not leave values on lua's
 stack

---
 src/filter/programmable_filter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index cb1a120..a70fe9b 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -587,8 +587,12 @@ fn run_lua_func(
         .unwrap();
     let fail = metric::Event::Telemetry(filter_telem);
 
+    // A failed call leaves values behind on lua's stack, which is small. Whatever
+    // happens the stack must end up as it was.
+    let top = state.get_top();
     state.get_global(func_name);
     if !state.is_fn(-1) {
+        state.set_top(top);
         return Err(filter::FilterError::NoSuchFunction(func_name, fail));
     }
 
@@ -612,7 +616,9 @@ fn run_lua_func(
             error
         } else {
             "While handling a lua error, lua error message was not a string"
-        };
-        Err(filter::FilterError::LuaError(error.to_owned(), fail))
+        }
+        .to_owned();
+        state.set_top(top);
+        Err(filter::FilterError::LuaError(error, fail))
     }
 }
-- 
2.43.0


From 3a95edc82ba069e1bb3eb77834684adc5e24f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 09/47] fix: script functions called with a bad index or too
 few arguments do no harm

---
 src/filter/programmable_filter.rs | 91 +++++++++++++++++++------------
 1 file changed, 55 insertions(+), 36 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index a70fe9b..11cd657 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -3,7 +3,7 @@ use crate::metric;
 use libc::c_int;
 use mond;
 use mond::ffi::lua_State;
-use mond::{Function, State, ThreadStatus};
+use mond::{Function, Index, State, ThreadStatus};
 use std::path::PathBuf;
 
 struct Payload<'a> {
@@ -13,12 +13,31 @@ struct Payload<'a> {
     path: &'a str,
 }
 
-fn idx(n: i64, top: usize) -> usize {
-    if n < 0 {
-        (top - (n.abs() as usize))
-    } else {
+/// Look up the index a script passed as its second argument
+///
+/// Indexes count from 1 or, when negative, from the end. An index beyond either
+/// end is an error of the script.
+fn idx(state: &mut State, top: usize) -> usize {
+    let n = state.to_integer(2);
+    let top = top as i64;
+    if 0 < n && n <= top {
         (n - 1) as usize
+    } else if n < 0 && -top <= n {
+        (top + n) as usize
+    } else {
+        state.arg_error(2, "index out of range")
+    }
+}
+
+/// Look up a string a script passed as argument `n`, if it did
+fn arg(state: &mut State, n: Index) -> Option<String> {
+    if state.is_none_or_nil(n) {
+        return None;
     }
+    let val = state.to_str(n).map(|s| s.to_owned());
+    // to_str leaves a copy on the stack, where it would pass for an argument
+    state.pop(1);
+    val
 }
 
 impl<'a> Payload<'a> {
@@ -61,7 +80,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         state.push_string(&(*pyld).metrics[idx].name);
         1
     }
@@ -70,7 +89,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].value);
         1
     }
@@ -79,7 +98,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].path);
         1
     }
@@ -88,17 +107,17 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         (*pyld).metrics[idx].name = state.check_string(3).into();
         0
     }
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_metric(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
+        let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
         let val = state.to_number(3);
-        match state.to_str(2) {
+        match arg(&mut state, 2) {
             Some(name) => {
                 let m = metric::Telemetry::new()
                     .name(name)
@@ -125,11 +144,11 @@ impl<'a> Payload<'a> {
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_log(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
+        let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        match state.to_str(2) {
+        match arg(&mut state, 2) {
             Some(line) => {
-                let l = metric::LogLine::new((*pyld).path, line)
+                let l = metric::LogLine::new((*pyld).path, line.as_str())
                     .overlay_tags_from_map((*pyld).global_tags);
                 (*pyld).logs.push(Box::new(l));
             }
@@ -168,8 +187,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        let idx = idx(&mut state, (*pyld).logs.len());
+        match arg(&mut state, 3) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
                     Some(v) => {
@@ -192,8 +211,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        let idx = idx(&mut state, (*pyld).logs.len());
+        match arg(&mut state, 3) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
                     state.push_string(v);
@@ -214,8 +233,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        let idx = idx(&mut state, (*pyld).metrics.len());
+        match arg(&mut state, 3) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
                     Some(v) => {
@@ -238,9 +257,9 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        let idx = idx(&mut state, (*pyld).metrics.len());
+        match arg(&mut state, 3) {
+            Some(key) => match arg(&mut state, 4) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -266,9 +285,9 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        let idx = idx(&mut state, (*pyld).logs.len());
+        match arg(&mut state, 3) {
+            Some(key) => match arg(&mut state, 4) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -294,9 +313,9 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        let idx = idx(&mut state, (*pyld).logs.len());
+        match arg(&mut state, 3) {
+            Some(key) => match arg(&mut state, 4) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -322,8 +341,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        let idx = idx(&mut state, (*pyld).logs.len());
+        match arg(&mut state, 3) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
             }
@@ -339,8 +358,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        let idx = idx(&mut state, (*pyld).metrics.len());
+        match arg(&mut state, 3) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
                     state.push_string(&old_v);
@@ -361,8 +380,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        let idx = idx(&mut state, (*pyld).logs.len());
+        match arg(&mut state, 3) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
                     state.push_string(&old_v);
@@ -384,7 +403,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
         let prcnt = state.to_number(2);
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
                 state.push_number(v);
-- 
2.43.0


From 32f2db15e757b3ddfd5bf4e54d3d1b566aa1deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 10/47] fix: metric_query reads the quantile from its own
 argument, not from the index

---
 src/filter/programmable_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 11cd657..2dd9c89 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -402,7 +402,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let prcnt = state.to_number(2);
+        let prcnt = state.to_number(3);
         let idx = idx(&mut state, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
-- 
2.43.0


From 34e029b45dc268bda2af89c6939bc1f0fbbfc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 11/47] fix: a shutdown announcement that overflowed to disk is
 made visible downstream

---
 src/util.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index c12d585..8889696 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,6 +1,7 @@
 //! Utility module, a grab-bag of functionality
 use crate::constants;
 use crate::metric;
+use crate::time;
 use hopper;
 use mio;
 use seahash::SeaHasher;
@@ -31,6 +32,10 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
         return;
     }
 
+    let is_shutdown = match event {
+        metric::Event::Shutdown => true,
+        _ => false,
+    };
     let max: usize = chans.len().saturating_sub(1);
     if max != 0 {
         for chan in &mut chans[1..] {
@@ -65,6 +70,19 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
             }
         }
     }
+
+    if is_shutdown {
+        // Events that overflow a hopper's memory become visible to its receiver
+        // only on a subsequent send or flush. There's nothing to send after a
+        // shutdown, so wait for the receiver to make room.
+        for chan in chans.iter_mut() {
+            let mut attempts = 0;
+            while chan.flush().is_err() {
+                attempts += 1;
+                time::delay(attempts);
+            }
+        }
+    }
 }
 
 /// Determine the state of a buffering queue, whether open or closed.
-- 
2.43.0


From f8947a4c53889ddddc28c36fddd496496cd195bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 12/47] fix: script functions called without a payload raise an
 error instead of crashing

---
 src/filter/programmable_filter.rs | 51 ++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 2dd9c89..9c00b94 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -13,6 +13,15 @@ struct Payload<'a> {
     path: &'a str,
 }
 
+/// Look up the payload a script passed as its first argument
+fn payload<'a>(state: &mut State) -> *mut Payload<'a> {
+    if state.is_light_userdata(1) {
+        state.to_userdata(1) as *mut Payload
+    } else {
+        state.arg_error(1, "payload expected")
+    }
+}
+
 /// Look up the index a script passed as its second argument
 ///
 /// Indexes count from 1 or, when negative, from the end. An index beyond either
@@ -79,7 +88,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
         state.push_string(&(*pyld).metrics[idx].name);
         1
@@ -88,7 +97,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].value);
         1
@@ -97,7 +106,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].path);
         1
@@ -106,7 +115,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
         (*pyld).metrics[idx].name = state.check_string(3).into();
         0
@@ -115,7 +124,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_metric(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let val = state.to_number(3);
         match arg(&mut state, 2) {
             Some(name) => {
@@ -136,8 +145,8 @@ impl<'a> Payload<'a> {
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_clear_metrics(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload(&mut state);
         (*pyld).metrics.clear();
         0
     }
@@ -145,7 +154,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_log(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         match arg(&mut state, 2) {
             Some(line) => {
                 let l = metric::LogLine::new((*pyld).path, line.as_str())
@@ -161,8 +170,8 @@ impl<'a> Payload<'a> {
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_clear_logs(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload(&mut state);
         (*pyld).logs.clear();
         0
     }
@@ -170,7 +179,7 @@ impl<'a> Payload<'a> {
     // #[allow(non_snake_case)]
     // unsafe extern "C" fn lua_metric_value(L: *mut lua_State) -> c_int {
     //     let mut state = State::from_ptr(L);
-    //     let pyld = state.to_userdata(1) as *mut Payload;
+    //     let pyld = payload(&mut state);
     //     let idx = idx(state.to_integer(2), (*pyld).metrics.len());
     //     match (*pyld).metrics[idx].value() {
     //         Some(v) => {
@@ -186,7 +195,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         match arg(&mut state, 3) {
             Some(key) => {
@@ -210,7 +219,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         match arg(&mut state, 3) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
@@ -232,7 +241,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
         match arg(&mut state, 3) {
             Some(key) => {
@@ -256,7 +265,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
         match arg(&mut state, 3) {
             Some(key) => match arg(&mut state, 4) {
@@ -284,7 +293,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         match arg(&mut state, 3) {
             Some(key) => match arg(&mut state, 4) {
@@ -312,7 +321,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         match arg(&mut state, 3) {
             Some(key) => match arg(&mut state, 4) {
@@ -340,7 +349,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         match arg(&mut state, 3) {
             Some(key) => {
@@ -357,7 +366,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
         match arg(&mut state, 3) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
@@ -379,7 +388,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
         match arg(&mut state, 3) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
@@ -401,7 +410,7 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let prcnt = state.to_number(3);
         let idx = idx(&mut state, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
-- 
2.43.0


From 43bcd786cc27996e28e04a63a0629fd0133abb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 13/47] fix: length prefixes that arrive in parts, empty
 payloads and interrupted reads do not derail a stream

---
 src/source/nonblocking.rs | 53 +++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 6257d96..36c753e 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,6 +1,6 @@
 //! Handy interfaces for nonblocking streams.
 
-use byteorder::{BigEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
 use std::{io, mem};
@@ -75,6 +75,12 @@ pub struct BufferedPayload {
     /// off the underlying stream as a big-endian u32.
     payload_size: Option<usize>,
 
+    /// Bytes of the length prefix received so far.
+    length: [u8; 4],
+
+    /// Position in the length prefix receiving.
+    length_pos: usize,
+
     /// The maximum allowable payload size. If a payload_size comes in over the
     /// wire that is greater than this limit we close the connection.
     max_payload_size: usize,
@@ -94,6 +100,8 @@ impl BufferedPayload {
     pub fn new(stream: mio::net::TcpStream, max_payload_size: usize) -> Self {
         BufferedPayload {
             payload_size: None,
+            length: [0; 4],
+            length_pos: 0,
             max_payload_size: max_payload_size,
             payload_pos: 0,
             payload: Vec::new(),
@@ -128,11 +136,22 @@ impl BufferedPayload {
 
     /// Reads the payload's length from the wire, caching the result.
     ///
-    /// If a cached value already exists, this function noops.
+    /// If a cached value already exists, this function noops. Bytes of a length
+    /// that has only arrived in part are kept for the next call.
     fn read_length(&mut self) -> Result<(), PayloadErr> {
-        if self.payload_size.is_none() {
-            self.payload_size = Some(self.buffer.read_u32::<BigEndian>()? as usize);
-        };
+        if self.payload_size.is_some() {
+            return Ok(());
+        }
+        while self.length_pos < self.length.len() {
+            match self.buffer.read(&mut self.length[self.length_pos..]) {
+                Ok(0) => return Err(PayloadErr::EOF),
+                Ok(bytes_read) => self.length_pos += bytes_read,
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
+        self.payload_size = Some(BigEndian::read_u32(&self.length) as usize);
+        self.length_pos = 0;
         Ok(())
     }
 
@@ -149,30 +168,26 @@ impl BufferedPayload {
             self.payload.resize(payload_size, 0);
         }
 
-        loop {
+        while self.payload_pos < payload_size {
             match self
                 .buffer
                 .read(&mut self.payload[self.payload_pos..payload_size])
             {
                 Ok(0) => return Err(PayloadErr::EOF),
 
-                Ok(bytes_read) if (self.payload_pos + bytes_read) == payload_size => {
-                    // We successfully pulled a payload off the wire.
-                    // Reset bytes remaining for the next payload.
-                    self.payload_size = None;
-                    self.payload_pos = 0;
-                    return Ok(());
-                }
+                // We read some data, perhaps not yet enough.
+                Ok(bytes_read) => self.payload_pos += bytes_read,
 
-                Ok(bytes_read) => {
-                    // We read some data, but not yet enough.
-                    // Store the difference and try again later.
-                    self.payload_pos += bytes_read;
-                    continue;
-                }
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
 
                 Err(e) => return Err(e.into()),
             }
         }
+
+        // We successfully pulled a payload off the wire.
+        // Reset bytes remaining for the next payload.
+        self.payload_size = None;
+        self.payload_pos = 0;
+        Ok(())
     }
 }
-- 
2.43.0


From d450a8964849e352b8864ef245da76cf4fe7fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 14/47] fix: the native source bins samples by the bounds the
 client sent

---
 src/source/native.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/source/native.rs b/src/source/native.rs
index 6dcec1e..3a2126f 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -137,12 +137,11 @@ impl NativeStreamHandler {
         buf: &mut Vec<u8>,
     ) -> Result<(), protobuf::ProtobufError> {
         match protobuf::parse_from_bytes::<Payload>(buf) {
-            // TODO we have to handle bin_bounds. We'll use samples to get
-            // the values of each bounds' counter.
             Ok(mut pyld) => {
                 for mut point in pyld.take_points().into_iter() {
                     let name: String = point.take_name();
                     let smpls: Vec<f64> = point.take_samples();
+                    let bounds: Vec<f64> = point.take_bin_bounds();
                     let aggr_type: AggregationMethod = point.get_method();
                     let mut meta = point.take_metadata();
                     // FIXME #166
@@ -164,7 +163,16 @@ impl NativeStreamHandler {
                             metric.kind(metric::AggregationMethod::Summarize)
                         }
                         AggregationMethod::BIN => {
-                            metric.kind(metric::AggregationMethod::Histogram)
+                            let metric =
+                                metric.kind(metric::AggregationMethod::Histogram);
+                            // bounds out of order can't be honored
+                            if !bounds.is_empty()
+                                && bounds.windows(2).all(|w| w[0] <= w[1])
+                            {
+                                metric.bounds(bounds)
+                            } else {
+                                metric
+                            }
                         }
                     };
                     metric = metric.persist(point.get_persisted());
-- 
2.43.0


From 7cb30c234832d0c674956fa9a64c44cbaa0a8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 15/47] fix: a crashed connection handler is reclaimed and does
 not take its source down

---
 src/thread.rs | 53 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/thread.rs b/src/thread.rs
index f3ace3a..7da1264 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -104,16 +104,13 @@ impl ThreadPool {
         let joinable_arc = self.joinable.clone();
         let thread_event_readiness = self.thread_event_readiness.clone();
         let handler = spawn(move |poller| {
+            // Dropped when the thread is done, be it by returning or by panic.
+            let _finished = Finished {
+                id: id,
+                joinable: joinable_arc,
+                readiness: thread_event_readiness,
+            };
             f(poller);
-
-            let mut joinable = joinable_arc.lock().unwrap();
-            joinable.push(id);
-
-            if let Some(readiness) = thread_event_readiness {
-                readiness
-                    .set_readiness(mio::Ready::readable())
-                    .expect("Failed to flag readiness for ThreadPool event!");
-            }
         });
         self.threads.insert(id, handler);
         id
@@ -127,7 +124,7 @@ impl ThreadPool {
 
     /// Block on completion of all executing threads.
     pub fn join(mut self) -> Vec<usize> {
-        self.threads.drain().for_each(|(_, h)| h.join());
+        self.threads.drain().for_each(|(_, h)| reap(h));
         self.join_ready()
     }
 
@@ -137,7 +134,7 @@ impl ThreadPool {
         let mut joined = Vec::new();
         while let Some(id) = joinable.pop() {
             if let Some(handle) = self.threads.remove(&id) {
-                handle.join();
+                reap(handle);
             }
             joined.push(id);
         }
@@ -146,7 +143,39 @@ impl ThreadPool {
 
     /// Serially signal shutdown and block for completion of all threads.
     pub fn shutdown(mut self) -> Vec<usize> {
-        self.threads.drain().for_each(|(_, h)| h.shutdown());
+        self.threads.drain().for_each(|(_, h)| {
+            if let Err(e) = h.shutdown_event.set_readiness(mio::Ready::readable()) {
+                error!("Failed to notify child thread of shutdown: {:?}", e);
+            }
+            reap(h)
+        });
         self.join_ready()
     }
 }
+
+/// Announces a pool thread's completion when dropped.
+struct Finished {
+    id: usize,
+    joinable: sync::Arc<sync::Mutex<Vec<usize>>>,
+    readiness: option::Option<mio::SetReadiness>,
+}
+
+impl Drop for Finished {
+    fn drop(&mut self) {
+        if let Ok(mut joinable) = self.joinable.lock() {
+            joinable.push(self.id);
+        }
+        if let Some(ref readiness) = self.readiness {
+            if let Err(e) = readiness.set_readiness(mio::Ready::readable()) {
+                error!("Failed to flag readiness for ThreadPool event: {:?}", e);
+            }
+        }
+    }
+}
+
+/// Join a pool thread. A thread that panicked takes nobody else down.
+fn reap(handle: ThreadHandle) {
+    if handle.handle.join().is_err() {
+        error!("Child thread panicked!");
+    }
+}
-- 
2.43.0


From 94fd1abbc94c9880e27fd5672a3b809638a4bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 16/47] fix: an avro client that leaves before its answer is
 written does not crash the handler

---
 src/source/avro.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f84591a..2a0ca71 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -213,10 +213,21 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     .expect(
                                                         "Failed to write response id!",
                                                     );
-                                                write_all(&stream, resp.get_ref())
-                                                    .expect(
-                                                        "Failed to write response!",
+                                                if let Err(e) =
+                                                    write_all(&stream, resp.get_ref())
+                                                {
+                                                    error!(
+                                                        "Failed to write response: {:?}",
+                                                        e
                                                     );
+                                                    AVRO_PAYLOAD_IO_FAILURE_SUM
+                                                        .fetch_add(
+                                                            1,
+                                                            Ordering::Relaxed,
+                                                        );
+                                                    streaming = false;
+                                                    break;
+                                                }
                                                 trace!("Acked {:?}", id);
                                             }
                                         }
-- 
2.43.0


From 15a079374a6a5b9aac46b4dcb7b0980fc6006642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 17/47] fix: an avro payload that ends early is rejected
 instead of crashing the handler

---
 src/source/avro.rs | 48 +++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 2a0ca71..d701e28 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,7 +7,7 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
@@ -92,6 +92,9 @@ impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
 }
 
 impl Header {
+    /// Length of an encoded header in bytes.
+    const SIZE: usize = 24;
+
     /// Client expects an acknowledgement after publish to Hopper.
     const CONTROL_SYNC: u32 = 1;
 
@@ -111,30 +114,45 @@ enum Payload {
     },
 }
 
+/// Reads the key / value pairs which follow the header since version 2.
+fn read_metadata(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Option<Metadata>> {
+    let num_kv = cursor.read_u8()?;
+    if num_kv < 1 {
+        return Ok(None);
+    }
+    let mut m: Metadata = Metadata::default();
+    for _ in 0..num_kv {
+        let key_len = cursor.read_u8()?;
+        let mut key = vec![0; key_len as usize];
+        cursor.read_exact(&mut key)?;
+        let val_len = cursor.read_u16::<BigEndian>()?;
+        let mut val = vec![0; val_len as usize];
+        cursor.read_exact(&mut val)?;
+        m.insert(key, val);
+    }
+    Ok(Some(m))
+}
+
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
+        if vec.len() < Header::SIZE {
+            return Payload::Invalid("Payload ends within its header!".to_string());
+        }
         let mut cursor = Cursor::new(vec);
         let header: Header = (&mut cursor).into();
 
         let metadata = if header.version < 2 {
             None
         } else {
-            let num_kv = cursor.read_u8().unwrap();
-            if num_kv < 1 {
-                None
-            } else {
-                let mut m: Metadata = Metadata::default();
-                for _ in 0..num_kv {
-                    let key_len = cursor.read_u8().unwrap();
-                    let mut key = vec![0; key_len as usize];
-                    cursor.read_exact(&mut key).unwrap();
-                    let val_len = cursor.read_u16::<BigEndian>().unwrap();
-                    let mut val = vec![0; val_len as usize];
-                    cursor.read_exact(&mut val).unwrap();
-                    m.insert(key, val);
+            match read_metadata(&mut cursor) {
+                Ok(m) => m,
+                Err(e) => {
+                    return Payload::Invalid(format!(
+                        "Failed to read metadata - {:?}.",
+                        e
+                    ))
                 }
-                Some(m)
             }
         };
 
-- 
2.43.0


From b576417b4468b211990ee95d8e0feebc4f459aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 18/47] fix: a synchronous publish is not answered by the
 acknowledgement of another payload

---
 src/source/avro.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index d701e28..eb02ffb 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -190,7 +190,6 @@ impl TCPStreamHandler for AvroStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let connection_id = Uuid::new_v4();
         let mut streaming = true;
         let mut reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);
         while streaming {
@@ -211,7 +210,6 @@ impl TCPStreamHandler for AvroStreamHandler {
                                             let handle_res = self.handle_avro_payload(
                                                 chans.clone(),
                                                 payload,
-                                                connection_id,
                                             );
                                             if handle_res.is_err() {
                                                 AVRO_PAYLOAD_PARSE_FAILURE_SUM
@@ -332,7 +330,6 @@ impl AvroStreamHandler {
         &mut self,
         mut chans: util::Channel,
         payload: Vec<u8>,
-        connection_id: Uuid,
     ) -> Result<Option<u64>, PayloadErr> {
         match payload.into() {
             Payload::Valid {
@@ -340,10 +337,17 @@ impl AvroStreamHandler {
                 metadata,
                 avro_blob,
             } => {
+                // Every sync. publish waits under an id of its own. An
+                // acknowledgement of anything else, be it an earlier payload
+                // of the same connection, must not answer it.
                 let ackbag = metric::global_ack_bag();
-                if header.sync() {
-                    ackbag.prepare_wait(connection_id)
-                }
+                let connection_id = if header.sync() {
+                    let id = Uuid::new_v4();
+                    ackbag.prepare_wait(id);
+                    Some(id)
+                } else {
+                    None
+                };
 
                 util::send(
                     &mut chans,
@@ -352,13 +356,13 @@ impl AvroStreamHandler {
                         encoding: metric::Encoding::Avro,
                         bytes: avro_blob,
                         metadata: metadata,
-                        connection_id: Some(connection_id),
+                        connection_id: connection_id,
                     },
                 );
 
-                if header.sync() {
-                    ackbag.wait_for(connection_id);
-                    ackbag.remove(connection_id);
+                if let Some(id) = connection_id {
+                    ackbag.wait_for(id);
+                    ackbag.remove(id);
                     Ok(Some(header.id))
                 } else {
                     Ok(None)
-- 
2.43.0


From dfcfe7af69d61245eded6473b0f20aacc3a00eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:01 +0000
Subject: [PATCH 19/47] fix: graphite lines survive any segmentation, bad lines
 leave nothing behind and a departed client frees its handler

---
 src/source/graphite.rs | 73 +++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9ec883c..5d82cb8 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -6,7 +6,7 @@ use crate::util;
 use crate::util::send;
 use mio;
 use std::io::prelude::*;
-use std::io::BufReader;
+use std::io::{BufReader, ErrorKind};
 use std::str;
 use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -62,7 +62,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut res = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
@@ -76,33 +76,56 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                         match event.token() {
                             constants::SYSTEM => return,
                             _stream_token => {
-                                while let Ok(len) = line_reader.read_line(&mut line) {
-                                    if len > 0 {
-                                        if parse_graphite(
-                                            &line,
-                                            &mut res,
-                                            &basic_metric,
-                                        ) {
-                                            assert!(!res.is_empty());
-                                            GRAPHITE_GOOD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            GRAPHITE_TELEM
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            for m in res.drain(..) {
-                                                send(
-                                                    &mut chans,
-                                                    metric::Event::Telemetry(m),
+                                // Bytes of an incomplete line stay in `line`
+                                // until the rest of it has arrived.
+                                loop {
+                                    match line_reader.read_until(b'\n', &mut line) {
+                                        // Client went away.
+                                        Ok(0) => return,
+
+                                        Ok(_) => {
+                                            let parsed = match str::from_utf8(&line) {
+                                                Ok(l) => parse_graphite(
+                                                    l,
+                                                    &mut res,
+                                                    &basic_metric,
+                                                ),
+                                                Err(_) => false,
+                                            };
+                                            if parsed {
+                                                assert!(!res.is_empty());
+                                                GRAPHITE_GOOD_PACKET
+                                                    .fetch_add(1, Ordering::Relaxed);
+                                                GRAPHITE_TELEM
+                                                    .fetch_add(1, Ordering::Relaxed);
+                                                for m in res.drain(..) {
+                                                    send(
+                                                        &mut chans,
+                                                        metric::Event::Telemetry(m),
+                                                    );
+                                                }
+                                            } else {
+                                                GRAPHITE_BAD_PACKET
+                                                    .fetch_add(1, Ordering::Relaxed);
+                                                error!(
+                                                    "bad packet: {:?}",
+                                                    String::from_utf8_lossy(&line)
                                                 );
+                                                res.clear();
                                             }
                                             line.clear();
-                                        } else {
-                                            GRAPHITE_BAD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            error!("bad packet: {:?}", line);
-                                            line.clear();
                                         }
-                                    } else {
-                                        break;
+
+                                        Err(ref e)
+                                            if e.kind() == ErrorKind::WouldBlock =>
+                                        {
+                                            break;
+                                        }
+
+                                        Err(e) => {
+                                            error!("Failed to read from peer: {:?}", e);
+                                            return;
+                                        }
                                     }
                                 }
                             }
-- 
2.43.0


From d0d06b96d9e74ea83593548302caf5941dc21935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 20/47] fix: lines of a rejected statsd packet are not emitted
 with the next one

---
 src/source/statsd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index aa8030f..b5e1dba 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -112,6 +112,8 @@ impl Statsd {
                         } else {
                             STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                             error!("BAD PACKET: {:?}", val);
+                            // Lines parsed before the bad one go with it.
+                            metrics.clear();
                         }
                     }
                     Err(e) => {
-- 
2.43.0


From 643058268664eaa4c31bfa3ddad6994361a0711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 21/47] fix: statsd packets beyond 16,250 bytes are not cut
 short

---
 src/source/statsd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index b5e1dba..546d946 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -174,7 +174,8 @@ impl source::Source<StatsdConfig> for Statsd {
             }
         }
 
-        let mut buf = vec![0; 16_250];
+        // Large enough for any UDP datagram.
+        let mut buf = vec![0; 65_536];
         loop {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
-- 
2.43.0


From a85a075e92fa146bb86a2674365a5b9b6d52e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 22/47] fix: native sink sends what it buffered, and notices
 when it cannot

---
 src/sink/native.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2cd6203..a35a93a 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -8,9 +8,9 @@ use crate::time;
 use byteorder::{BigEndian, ByteOrder};
 use protobuf::repeated::RepeatedField;
 use protobuf::stream::CodedOutputStream;
-use protobuf::Message;
+use protobuf::{Message, ProtobufResult};
 use std::collections::HashMap;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -88,6 +88,25 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
     }
 }
 
+/// Write one length-prefixed payload, all the way to the peer.
+///
+/// Neither `CodedOutputStream` nor `BufWriter` report the errors of a write
+/// put off until they are dropped -- the former does not even attempt one -- so
+/// both must be flushed here.
+fn write_payload(stream: &mut TcpStream, pyld: &Payload) -> ProtobufResult<()> {
+    let mut bufwrite = BufWriter::new(stream);
+    let mut sz_buf = [0; 4];
+    BigEndian::write_u32(&mut sz_buf, pyld.compute_size());
+    {
+        let mut coded = CodedOutputStream::new(&mut bufwrite);
+        coded.write_raw_bytes(&sz_buf)?;
+        pyld.write_to_with_cached_sizes(&mut coded)?;
+        coded.flush()?;
+    }
+    bufwrite.flush()?;
+    Ok(())
+}
+
 impl Sink<NativeConfig> for Native {
     fn init(config: NativeConfig) -> Self {
         let stream = connect(&config.host, config.port);
@@ -143,7 +162,7 @@ impl Sink<NativeConfig> for Native {
                         meta.insert(k.to_string(), v.to_string());
                     }
                     telem.set_metadata(meta);
-                    telem.set_timestamp_ms(m.timestamp * 1000); // FIXME #166
+                    telem.set_timestamp_ms(m.timestamp.saturating_mul(1000)); // FIXME #166
                     telem.set_samples(m.samples());
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
@@ -163,7 +182,7 @@ impl Sink<NativeConfig> for Native {
                     ll.set_path(l.path);
                     ll.set_value(l.value);
                     ll.set_metadata(meta);
-                    ll.set_timestamp_ms(l.time * 1000); // FIXME #166
+                    ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
                     lines.push(ll);
                 }
@@ -178,14 +197,7 @@ impl Sink<NativeConfig> for Native {
         loop {
             let mut delivery_failure = false;
             if let Some(ref mut stream) = self.stream {
-                let mut bufwrite = BufWriter::new(stream);
-                let mut stream = CodedOutputStream::new(&mut bufwrite);
-                let mut sz_buf = [0; 4];
-                let pyld_len = pyld.compute_size();
-                BigEndian::write_u32(&mut sz_buf, pyld_len);
-                stream.write_raw_bytes(&sz_buf).unwrap();
-                let res = pyld.write_to_with_cached_sizes(&mut stream);
-                if res.is_ok() {
+                if write_payload(stream, &pyld).is_ok() {
                     self.buffer.clear();
                     return;
                 } else {
-- 
2.43.0


From 90fa098998c497df16c7960d55086e3799bef7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 23/47] fix: file source emits blank lines, keeps partial ones
 and survives rotations and directories

---
 src/source/file/file_server.rs  | 32 ++++++++-------
 src/source/file/file_watcher.rs | 69 ++++++++++++++++++++++++++-------
 2 files changed, 74 insertions(+), 27 deletions(-)

diff --git a/src/source/file/file_server.rs b/src/source/file/file_server.rs
index 52ddc13..843adce 100644
--- a/src/source/file/file_server.rs
+++ b/src/source/file/file_server.rs
@@ -6,6 +6,7 @@ use crate::util;
 use crate::util::send;
 use glob::glob;
 use mio;
+use std::collections::HashSet;
 use std::mem;
 use std::path::PathBuf;
 use std::str;
@@ -80,6 +81,10 @@ impl source::Source<FileServerConfig> for FileServer {
         let mut fp_map: util::HashMap<PathBuf, FileWatcher> = Default::default();
         let mut fp_map_alt: util::HashMap<PathBuf, FileWatcher> = Default::default();
 
+        // The paths which used to have a FileWatcher. Should they come to exist
+        // again all of what is in there is new.
+        let mut vanished: HashSet<PathBuf> = HashSet::new();
+
         let mut backoff_cap: usize = 1;
         let mut lines = Vec::new();
         // Alright friends, how does this work?
@@ -97,7 +102,10 @@ impl source::Source<FileServerConfig> for FileServer {
             {
                 if let Ok(path) = entry {
                     let entry = fp_map.entry(path.clone());
-                    if let Ok(fw) = FileWatcher::new(&path) {
+                    if let Ok(mut fw) = FileWatcher::new(&path) {
+                        if vanished.remove(&path) {
+                            fw.rewind();
+                        }
                         entry.or_insert(fw);
                     };
                 }
@@ -105,17 +113,13 @@ impl source::Source<FileServerConfig> for FileServer {
             // line polling
             for (path, mut watcher) in fp_map.drain() {
                 let mut bytes_read: usize = 0;
-                while let Ok(sz) = watcher.read_line(&mut buffer) {
-                    if sz > 0 {
-                        bytes_read += sz;
-                        lines.push(metric::LogLine::new(
-                            path.to_str().expect("not a valid path"),
-                            &buffer,
-                        ));
-                        buffer.clear();
-                    } else {
-                        break;
-                    }
+                while let Ok(Some(sz)) = watcher.next_line(&mut buffer) {
+                    bytes_read += sz;
+                    lines.push(metric::LogLine::new(
+                        path.to_str().expect("not a valid path"),
+                        &buffer,
+                    ));
+                    buffer.clear();
                     if bytes_read > self.max_read_bytes {
                         break;
                     }
@@ -131,7 +135,9 @@ impl source::Source<FileServerConfig> for FileServer {
                 // A FileWatcher is dead when the underlying file has
                 // disappeared. If the FileWatcher is dead we don't stick it in
                 // the fp_map_alt and deallocate it.
-                if !watcher.dead() {
+                if watcher.dead() {
+                    vanished.insert(path);
+                } else {
                     fp_map_alt.insert(path, watcher);
                 }
                 global_bytes_read = global_bytes_read.saturating_add(bytes_read);
diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a486c0a..a12cb29 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -3,8 +3,10 @@ use std::fs;
 use std::io;
 use std::io::BufRead;
 use std::io::Seek;
+use std::mem;
 use std::os::unix::fs::MetadataExt;
 use std::path::PathBuf;
+use std::str;
 
 /// The `FileWatcher` struct defines the polling based state machine which reads
 /// from a file path, transparently updating the underlying file descriptor when
@@ -19,6 +21,8 @@ pub struct FileWatcher {
     file_id: Option<(u64, u64)>,
     previous_size: u64,
     reopen: bool,
+    // The bytes read of a line whose newline has not been seen yet.
+    partial: Vec<u8>,
 }
 
 type Devno = u64;
@@ -49,13 +53,14 @@ impl FileWatcher {
                 let dev = metadata.dev();
                 let ino = metadata.ino();
                 let mut rdr = io::BufReader::new(f);
-                assert!(rdr.seek(io::SeekFrom::End(0)).is_ok());
+                rdr.seek(io::SeekFrom::End(0))?;
                 Ok(FileWatcher {
                     path: path.clone(),
                     reader: Some(rdr),
                     file_id: Some((dev, ino)),
                     previous_size: 0,
                     reopen: false,
+                    partial: Vec::new(),
                 })
             }
             Err(e) => match e.kind() {
@@ -67,6 +72,7 @@ impl FileWatcher {
                             file_id: None,
                             previous_size: 0,
                             reopen: false,
+                            partial: Vec::new(),
                         }
                     };
                     Ok(fw)
@@ -76,7 +82,13 @@ impl FileWatcher {
         }
     }
 
+    /// Read the file from its start, whatever has been read of it so far.
+    pub fn rewind(&mut self) {
+        self.reopen = true;
+    }
+
     fn open_at_start(&mut self) {
+        self.partial.clear();
         if let Ok(f) = fs::File::open(&self.path) {
             let metadata = f.metadata().unwrap(); // we _must_ be able to read the metadata
             let dev = metadata.dev();
@@ -110,12 +122,25 @@ impl FileWatcher {
         self.reader.is_none() && self.file_id.is_none()
     }
 
+    /// Read a single line from the underlying file
+    ///
+    /// As `next_line`, returning the length of the line. Lines without content
+    /// are not told from there being no line.
+    #[cfg(test)]
+    pub fn read_line(&mut self, buffer: &mut String) -> io::Result<usize> {
+        self.next_line(buffer).map(|_| buffer.len())
+    }
+
     /// Read a single line from the underlying file
     ///
     /// This function will attempt to read a new line from its file, blocking,
-    /// up to some maximum but unspecified amount of time. `read_line` will open
-    /// a new file handler at need, transparently to the caller.
-    pub fn read_line(&mut self, mut buffer: &mut String) -> io::Result<usize> {
+    /// up to some maximum but unspecified amount of time. It will open a new
+    /// file handler at need, transparently to the caller.
+    ///
+    /// The return is the number of bytes the line takes up in the file, newline
+    /// included, or None if there is no complete line to be read. What is there
+    /// of an incomplete line is kept for when the rest of it has been written.
+    pub fn next_line(&mut self, buffer: &mut String) -> io::Result<Option<usize>> {
         if self.reopen {
             self.open_at_start();
         }
@@ -145,6 +170,7 @@ impl FileWatcher {
             // absolute_write_idx - previous_size.
             let current_size = reader.get_ref().metadata().unwrap().size();
             if self.previous_size > current_size {
+                self.partial.clear();
                 assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());
                 report_full_telemetry(
                     "cernan.sources.file.truncation",
@@ -158,28 +184,43 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_line(&mut buffer) {
+            match reader.read_until(b'\n', &mut self.partial) {
                 Ok(0) => {
-                    if file_id(&self.path) != self.file_id {
+                    if file_id(&self.path) == self.file_id {
+                        return Ok(None);
+                    }
+                    // The path leads elsewhere. More may have been written to
+                    // our file before that happened but after we came to its
+                    // end, so have another look before giving it up.
+                    if reader.read_until(b'\n', &mut self.partial)? == 0 {
                         self.reopen = true;
+                        return Ok(None);
                     }
-                    Ok(0)
-                }
-                Ok(sz) => {
-                    assert_eq!(sz, buffer.len());
-                    buffer.pop();
-                    Ok(buffer.len())
                 }
+                Ok(_) => {}
                 Err(e) => {
                     if let io::ErrorKind::NotFound = e.kind() {
                         self.reopen = true;
                     }
-                    Err(e)
+                    return Err(e);
+                }
+            }
+            if self.partial.last() != Some(&b'\n') {
+                return Ok(None);
+            }
+            let mut line = mem::replace(&mut self.partial, Vec::new());
+            let sz = line.len();
+            line.pop();
+            match str::from_utf8(&line) {
+                Ok(line) => {
+                    buffer.push_str(line);
+                    Ok(Some(sz))
                 }
+                Err(e) => Err(io::Error::new(io::ErrorKind::InvalidData, e)),
             }
         } else {
             self.open_at_start();
-            Ok(0)
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From 0c246e28fe0c9943022d4825665caa7b51c705ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 24/47] fix: a connection that fails while being accepted does
 not end the HTTP server

---
 src/http.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 8e1c2de..b933adb 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -28,18 +28,20 @@ pub struct Server {
     thread: thread::ThreadHandle,
 }
 
+/// Serve requests until told to stop (Ok) or the listener fails (Err).
 fn http_server<H>(
     poller: &thread::Poll,
     tiny_http_server: &tiny_http::Server,
     handler: &H,
-) where
+) -> std::io::Result<()>
+where
     H: Handler,
 {
     loop {
         let mut events = thread::Events::with_capacity(1024);
         match poller.poll(&mut events, Some(std::time::Duration::from_millis(5))) {
             Ok(num_events) if num_events > 0 => {
-                break;
+                return Ok(());
             }
 
             Ok(_) => match tiny_http_server
@@ -51,9 +53,7 @@ fn http_server<H>(
                     }
                 }
 
-                Err(e) => {
-                    panic!(format!("Failed during recv_timeout {:?}", e));
-                }
+                Err(e) => return Err(e),
             },
 
             Err(e) => {
@@ -69,8 +69,26 @@ impl Server {
     pub fn new<H: Handler + 'static>(host_port: String, handler: H) -> Self {
         Server {
             thread: thread::spawn(move |poller| {
-                let tiny_http_server = tiny_http::Server::http(host_port).unwrap();
-                http_server(&poller, &tiny_http_server, &handler)
+                let mut tiny_http_server =
+                    tiny_http::Server::http(host_port.as_str()).unwrap();
+                // A failure to accept some connection ends a tiny_http server
+                // for good. Put another one in its place.
+                while let Err(e) = http_server(&poller, &tiny_http_server, &handler) {
+                    error!("HTTP server failed: {:?}", e);
+                    drop(tiny_http_server);
+                    tiny_http_server = loop {
+                        match tiny_http::Server::http(host_port.as_str()) {
+                            Ok(server) => break server,
+                            Err(e) => error!("HTTP server not restarted: {:?}", e),
+                        }
+                        let mut events = thread::Events::with_capacity(1024);
+                        let pause = std::time::Duration::from_millis(100);
+                        match poller.poll(&mut events, Some(pause)) {
+                            Ok(0) => {}
+                            _ => return,
+                        }
+                    };
+                }
             }),
         }
     }
-- 
2.43.0


From 86957202dcb4c3bfde656b4549a1cd32cb46df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 25/47] fix: prometheus sink takes any timestamp

---
 src/sink/prometheus.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 023b8d9..757e570 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -92,6 +92,16 @@ impl Default for PrometheusConfig {
     }
 }
 
+/// How far a Telemetry is from the present, in either direction, in seconds.
+fn age(telem: &Telemetry) -> u64 {
+    let now = time::now();
+    if telem.timestamp > now {
+        telem.timestamp.wrapping_sub(now) as u64
+    } else {
+        now.wrapping_sub(telem.timestamp) as u64
+    }
+}
+
 #[derive(Clone, Debug)]
 enum Accumulator {
     Perpetual(Telemetry),
@@ -135,7 +145,7 @@ impl Accumulator {
                 let mut purged = 0;
                 let mut i = 0;
                 while i != samples.len() {
-                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
+                    if age(&samples[i]) > (cap as u64) {
                         samples.remove(i);
                         purged += 1;
                     } else {
@@ -660,7 +670,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if age(&telem) <= age_threshold {
                 self.aggrs.lock().unwrap().insert(telem);
             }
         } else {
-- 
2.43.0


From fa1a0e09769bcc315460b0e2a7c95ab1e7763cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 26/47] fix: prometheus sink escapes label values

---
 src/sink/prometheus.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 757e570..738b9b0 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -460,7 +460,14 @@ where
 {
     s.write_all(k.as_bytes())?;
     s.write_all(b"=\"")?;
-    s.write_all(v.as_bytes())?;
+    for c in v.as_bytes() {
+        match *c {
+            b'\\' => s.write_all(b"\\\\")?,
+            b'"' => s.write_all(b"\\\"")?,
+            b'\n' => s.write_all(b"\\n")?,
+            c => s.write_all(&[c])?,
+        }
+    }
     s.write_all(b"\"")
 }
 
-- 
2.43.0


From 73029a804ac2670154adfd67ca9e6deec655305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 27/47] fix: prometheus sink answers every scrape

---
 src/sink/prometheus.rs | 61 +++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 738b9b0..93939d3 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -403,7 +403,10 @@ struct PrometheusHandler {
 impl Handler for PrometheusHandler {
     fn handle(&self, request: Request) {
         let mut buffer = Vec::with_capacity(2048);
-        if let Ok(ref aggr) = self.aggr.try_lock() {
+        {
+            // Should the sink have crashed with the lock in hand, what it
+            // aggregated until then is still good to report.
+            let aggr = self.aggr.lock().unwrap_or_else(|e| e.into_inner());
             PROMETHEUS_AGGR_REPORTABLE.store(aggr.count(), Ordering::Relaxed);
             let reportable = aggr.reportable();
             let now = Instant::now();
@@ -420,36 +423,34 @@ impl Handler for PrometheusHandler {
                 + (f64::from(elapsed.subsec_nanos()) / 100_000.0);
             PROMETHEUS_RESPONSE_DELAY_SUM.fetch_add(us as usize, Ordering::Relaxed);
         }
-        if !buffer.is_empty() {
-            let content_type = "text/plain; version=0.0.4";
-            let mut headers =
-                vec![Header::from_bytes(&b"Content-Type"[..], content_type).unwrap()];
-            if self.gzip {
-                let content_encoding = "gzip";
-                headers.push(
-                    Header::from_bytes(&b"Content-Encoding"[..], content_encoding)
-                        .unwrap(),
-                )
-            };
+        let content_type = "text/plain; version=0.0.4";
+        let mut headers =
+            vec![Header::from_bytes(&b"Content-Type"[..], content_type).unwrap()];
+        if self.gzip {
+            let content_encoding = "gzip";
+            headers.push(
+                Header::from_bytes(&b"Content-Encoding"[..], content_encoding)
+                    .unwrap(),
+            )
+        };
+
+        let response = Response::new(
+            StatusCode::from(200),
+            headers.to_vec(),
+            &buffer[..],
+            Some(buffer.len()),
+            None,
+        );
 
-            let response = Response::new(
-                StatusCode::from(200),
-                headers.to_vec(),
-                &buffer[..],
-                Some(buffer.len()),
-                None,
-            );
-
-            match request.respond(response) {
-                Ok(_) => {
-                    PROMETHEUS_REPORT_SUCCESS.fetch_add(1, Ordering::Relaxed);
-                }
-                Err(e) => {
-                    PROMETHEUS_REPORT_ERROR.fetch_add(1, Ordering::Relaxed);
-                    warn!("Failed to send prometheus response! {:?}", e);
-                }
-            };
-        }
+        match request.respond(response) {
+            Ok(_) => {
+                PROMETHEUS_REPORT_SUCCESS.fetch_add(1, Ordering::Relaxed);
+            }
+            Err(e) => {
+                PROMETHEUS_REPORT_ERROR.fetch_add(1, Ordering::Relaxed);
+                warn!("Failed to send prometheus response! {:?}", e);
+            }
+        };
     }
 }
 
-- 
2.43.0


From 01cf9f10c88469635f909096df80a0b596ca50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 28/47] fix: prometheus sink keeps series apart by tags, and
 counts and sums every sample of a summary

---
 src/sink/prometheus.rs | 65 ++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 93939d3..580d113 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -17,7 +17,7 @@ use crate::time;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use quantiles::histogram::Bound;
-use std::collections::hash_map::{Entry, HashMap, Values};
+use std::collections::hash_map::{Entry, HashMap};
 use std::collections::HashSet;
 use std::f64;
 use std::io;
@@ -27,6 +27,7 @@ use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Mutex;
 use std::time::Instant;
+use std::vec;
 
 /// Total reportable metrics
 pub static PROMETHEUS_AGGR_REPORTABLE: AtomicUsize = AtomicUsize::new(0);
@@ -170,12 +171,13 @@ impl Accumulator {
                 assert_eq!(telem.kind(), AggregationMethod::Summarize);
                 // u64::wrapping_add makes a new u64. We need this to be
                 // in-place. Oops!
-                if (u64::MAX - *count) <= 1 {
-                    *count = 1;
+                let cnt = telem.count() as u64;
+                if (u64::MAX - *count) <= cnt {
+                    *count = cnt;
                 } else {
-                    *count += 1;
+                    *count += cnt;
                 }
-                let val = telem.query(1.0).unwrap();
+                let val = telem.samples_sum().unwrap();
                 // There's no wrapping_add for f64. Since it's rude to crash
                 // cernan because we've been summing for too long we knock
                 // together our own wrap.
@@ -241,12 +243,24 @@ struct PrometheusAggr {
     capacity_in_seconds: usize,
 }
 
+/// The key of a Telemetry's series: its name and, if there are any, its tags.
+fn series(telem: &Telemetry) -> String {
+    let none = TagMap::default();
+    let mut tags: Vec<_> = telem.tags(&none).collect();
+    tags.sort();
+    let mut key = telem.name.clone();
+    for (k, v) in tags {
+        key.push_str(&format!("\u{0}{:?}={:?}", k, v));
+    }
+    key
+}
+
 impl PrometheusAggr {
     /// Return a reference to the stored Telemetry if it matches the passed
     /// Telemetry
     #[cfg(test)]
     fn find_match(&self, telem: &Telemetry) -> Option<Telemetry> {
-        if let Some(accum) = self.data.get(&telem.name) {
+        if let Some(accum) = self.data.get(&series(telem)) {
             match *accum {
                 Accumulator::Perpetual(ref t) => Some(t.clone()),
                 Accumulator::Windowed {
@@ -272,8 +286,11 @@ impl PrometheusAggr {
     /// This function returns all the stored Telemetry points that are available
     /// for shipping to Prometheus.
     fn reportable(&self) -> Iter {
+        // Prometheus expects the series of one name next to one another
+        let mut series: Vec<_> = self.data.iter().collect();
+        series.sort_by(|a, b| a.0.cmp(b.0));
         Iter {
-            samples: self.data.values(),
+            samples: series.into_iter(),
         }
     }
 
@@ -287,7 +304,7 @@ impl PrometheusAggr {
     /// end, this function returns False if a Telemetry is inserted that differs
     /// only in its aggregation method from a Telemetry stored previously.
     fn insert(&mut self, telem: Telemetry) -> bool {
-        let entry: Entry<String, Accumulator> = self.data.entry(telem.name.clone());
+        let entry: Entry<String, Accumulator> = self.data.entry(series(&telem));
         match entry {
             Entry::Occupied(mut oe) => {
                 let prev = oe.get_mut();
@@ -304,11 +321,12 @@ impl PrometheusAggr {
                     | AggregationMethod::Histogram => Accumulator::Perpetual(telem),
                     AggregationMethod::Summarize => {
                         let mut samples = Vec::new();
-                        let sum = telem.query(1.0).unwrap();
+                        let sum = telem.samples_sum().unwrap();
+                        let count = telem.count() as u64;
                         samples.push(telem);
                         Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
-                            count: 1,
+                            count,
                             sum,
                             samples,
                         }
@@ -343,7 +361,7 @@ impl PrometheusAggr {
 
 /// Iteration struct for the bucket. Created by `Buckets.iter()`.
 pub struct Iter<'a> {
-    samples: Values<'a, String, Accumulator>,
+    samples: vec::IntoIter<(&'a String, &'a Accumulator)>,
 }
 
 impl<'a> Iterator for Iter<'a> {
@@ -352,13 +370,16 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Telemetry> {
         loop {
             match self.samples.next() {
-                Some(&Accumulator::Perpetual(ref t)) => return Some(t.clone()),
-                Some(&Accumulator::Windowed {
-                    ref samples,
-                    count,
-                    sum,
-                    ..
-                }) => match samples.len() {
+                Some((_, &Accumulator::Perpetual(ref t))) => return Some(t.clone()),
+                Some((
+                    _,
+                    &Accumulator::Windowed {
+                        ref samples,
+                        count,
+                        sum,
+                        ..
+                    },
+                )) => match samples.len() {
                     0 => continue,
                     1 => {
                         return Some(
@@ -524,7 +545,7 @@ where
         match value.kind() {
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "counter", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -532,7 +553,7 @@ where
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "gauge", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -540,7 +561,7 @@ where
             }
             AggregationMethod::Histogram => {
                 if let Some(bin_iter) = value.bins() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "histogram", &mut w)?;
                     }
                     let mut running_sum = 0;
@@ -581,7 +602,7 @@ where
                 }
             }
             AggregationMethod::Summarize => {
-                if seen.insert(value.name.clone()) {
+                if seen.insert(sanitized_name.clone()) {
                     write_type(&sanitized_name, "summary", &mut w)?;
                 }
                 for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
-- 
2.43.0


From c696fb46a41f6cd398ed2f641ec796a86e3abb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:10 +0000
Subject: [PATCH 29/47] fix: wavefront sink survives NaN and extreme timestamps

---
 src/sink/wavefront.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 4e5e5c1..a537911 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -346,14 +346,18 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
-    match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
-        Ok(idx) => &cache[idx].1,
+    // NaN compares to nothing, not even itself
+    let idx = match cache
+        .binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap_or(cmp::Ordering::Less))
+    {
+        Ok(idx) => idx,
         Err(idx) => {
             let str_val = val.to_string();
             cache.insert(idx, (val, str_val));
-            get_from_cache(cache, val)
+            idx
         }
-    }
+    };
+    &cache[idx].1
 }
 
 fn connect(host: &str, port: u16) -> Option<TcpStream> {
@@ -422,7 +426,7 @@ impl Wavefront {
                 Pad::Telem(value) => {
                     if value.persist {
                         let new_val = value.clone();
-                        self.aggrs.add(new_val.timestamp(value.timestamp + 1));
+                        self.aggrs.add(new_val.timestamp(value.timestamp.saturating_add(1)));
                     }
 
                     match value.kind() {
@@ -642,7 +646,13 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            let now = time::now();
+            let age = if telem.timestamp > now {
+                telem.timestamp.wrapping_sub(now) as u64
+            } else {
+                now.wrapping_sub(telem.timestamp) as u64
+            };
+            if age <= age_threshold {
                 self.aggrs.add(telem);
             }
         } else {
-- 
2.43.0


From 4f1e12162031b0b6f2ff0b706b85bccf8d386c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 30/47] fix: wavefront sink fills every gap with zeros, and
 puts no zeros over points

---
 src/sink/wavefront.rs | 190 ++++++++++++++++--------------------------
 1 file changed, 71 insertions(+), 119 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index a537911..6498310 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -211,7 +211,6 @@ fn padding<'a>(
         orig: xs,
         last_seen,
         emit_q: Vec::new(),
-        last_hash: 0,
         flush_padded: HashSet::default(),
         pad_control,
     }
@@ -222,11 +221,17 @@ struct Padding<'a> {
     orig: buckets::Iter<'a>,
     last_seen: &'a HashMap<u64, i64>,
     emit_q: Vec<Pad<'a>>,
-    last_hash: u64,
     flush_padded: HashSet<u64>,
     pad_control: PadControl,
 }
 
+impl<'a> Padding<'a> {
+    /// Are two times, the earlier one first, more than one span apart?
+    fn is_gap(&self, from: i64, to: i64) -> bool {
+        to.saturating_sub(from) / self.span > 1
+    }
+}
+
 impl<'a> Iterator for Padding<'a> {
     type Item = Pad<'a>;
 
@@ -237,107 +242,51 @@ impl<'a> Iterator for Padding<'a> {
         // _and_ zero points that need to be emitted. We preferentially pull
         // points from the emission queue. In the event that there are not
         // enough, we go to the original iterator.
-        let next_x = match self.emit_q.pop() {
-            Some(x) => Some(x),
-            None => self.orig.next().map(|x| Pad::Telem(x)),
+        let x = match self.emit_q.pop() {
+            Some(x) => x,
+            None => Pad::Telem(self.orig.next()?),
         };
-        let next_y = match self.emit_q.pop() {
-            Some(x) => Some(x),
-            None => self.orig.next().map(|x| Pad::Telem(x)),
-        };
-        match (next_x, next_y) {
-            (Some(x), Some(y)) => {
-                // Telemetry hashes by considering name, timestamp and
-                // aggregation. If these three are different then the next point
-                // is not part of our current sequence and it requires no
-                // padding.
-                if x.hash() == y.hash() {
-                    if x.skip_pad(self.pad_control) {
-                        self.emit_q.push(y);
-                        return Some(x);
-                    }
-                    let flush_padded = self.flush_padded.contains(&x.hash());
-                    if !flush_padded {
-                        if let Some(ts) = self.last_seen.get(&x.hash()) {
-                            if x.timestamp() > *ts {
-                                self.flush_padded.insert(x.hash());
-                                if (x.timestamp() - ts) / self.span > 1 {
-                                    let sub_x = x
-                                        .clone()
-                                        .zero_at(x.timestamp().saturating_sub(1));
-                                    let post_x =
-                                        x.clone().zero_at(ts.saturating_add(1));
-                                    self.emit_q.push(y);
-                                    self.emit_q.push(x);
-                                    self.emit_q.push(sub_x);
-                                    return Some(post_x);
-                                }
-                            } else {
-                                self.emit_q.push(y);
-                                return Some(x);
-                            }
-                        }
-                    }
-                    match (x.timestamp() - y.timestamp()).abs() / self.span {
-                        0 | 1 => {
-                            // In this case the next point, y, is within the
-                            // span configured by the user. We stash it into
-                            // emit_q and will pull it on the next iterative
-                            // go-around.
-                            self.emit_q.push(y);
-                            Some(x)
-                        }
-                        _ => {
-                            // This case is tricky. Here we've found that the
-                            // span between our current point, x, and the next
-                            // point, y, is larger than the configured
-                            // limit. But! If the current point is zero we don't
-                            // want to make any more zero points to pad the gap.
-                            //
-                            // If the value of x is zero we stash the next
-                            // point. Else, we make our pad, stashing those
-                            // points plus y.
-                            let sub_y =
-                                y.clone().zero_at(y.timestamp().saturating_sub(1));
-                            let post_x =
-                                x.clone().zero_at(x.timestamp().saturating_add(1));
-                            self.emit_q.push(y);
-                            self.emit_q.push(sub_y);
-                            self.emit_q.push(post_x);
-                            Some(x)
-                        }
+        if x.skip_pad(self.pad_control) {
+            return Some(x);
+        }
+        // The gap may have opened in a previous flush.
+        if !self.flush_padded.contains(&x.hash()) {
+            if let Some(ts) = self.last_seen.get(&x.hash()) {
+                if x.timestamp() > *ts {
+                    self.flush_padded.insert(x.hash());
+                    if self.is_gap(*ts, x.timestamp()) {
+                        let sub_x =
+                            x.clone().zero_at(x.timestamp().saturating_sub(1));
+                        let post_x = x.clone().zero_at(ts.saturating_add(1));
+                        self.emit_q.push(x);
+                        self.emit_q.push(sub_x);
+                        return Some(post_x);
                     }
                 } else {
-                    self.emit_q.push(y);
-                    Some(x)
-                }
-            }
-            (Some(x), None) => {
-                self.last_hash = x.hash();
-                // end of sequence
-                if x.skip_pad(self.pad_control) {
                     return Some(x);
                 }
-                let flush_padded = self.flush_padded.contains(&x.hash());
-                if !flush_padded {
-                    if let Some(ts) = self.last_seen.get(&x.hash()) {
-                        if x.timestamp() > *ts {
-                            self.flush_padded.insert(x.hash());
-                            if (x.timestamp() - ts) / self.span > 1 {
-                                let sub_x =
-                                    x.clone().zero_at(x.timestamp().saturating_sub(1));
-                                let post_x = x.clone().zero_at(ts.saturating_add(1));
-                                self.emit_q.push(x);
-                                self.emit_q.push(sub_x);
-                                return Some(post_x);
-                            }
-                        }
-                    }
-                }
-                Some(x)
             }
-            (None, _) => None,
         }
+        let y = match self.orig.next() {
+            Some(y) => Pad::Telem(y),
+            None => return Some(x),
+        };
+        // Telemetry hashes by considering name, tags and aggregation. If these
+        // three are different then the next point is not part of our current
+        // sequence and it requires no padding. Neither does a point within the
+        // span configured by the user. If the span between our current point,
+        // x, and the next point, y, is larger we make our pad, stashing those
+        // points plus y.
+        if x.hash() == y.hash() && self.is_gap(x.timestamp(), y.timestamp()) {
+            let sub_y = y.clone().zero_at(y.timestamp().saturating_sub(1));
+            let post_x = x.clone().zero_at(x.timestamp().saturating_add(1));
+            self.emit_q.push(y);
+            self.emit_q.push(sub_y);
+            self.emit_q.push(post_x);
+        } else {
+            self.emit_q.push(y);
+        }
+        Some(x)
     }
 }
 
@@ -405,19 +354,15 @@ impl Wavefront {
             // When we update the last_seen map we have to be sure that if the new
             // telem has a point with a timestamp greater than the one we have
             // stored we replace the timestamp. Else, we ignore.
-            tmp_last_seen.insert(pad.hash(), pad.timestamp());
+            let seen = tmp_last_seen.entry(pad.hash()).or_insert(pad.timestamp());
+            *seen = cmp::max(*seen, pad.timestamp());
 
             match pad {
                 Pad::Zero(value, ts) => {
-                    let zero = value
-                        .clone()
-                        .thaw()
-                        .value(0.0)
-                        .harden()
-                        .unwrap()
-                        .timestamp(ts);
                     self.fmt_val(
-                        &zero,
+                        value,
+                        ts,
+                        true,
                         &mut time_cache,
                         &mut count_cache,
                         &mut value_cache,
@@ -445,6 +390,8 @@ impl Wavefront {
 
                     self.fmt_val(
                         value,
+                        value.timestamp,
+                        false,
                         &mut time_cache,
                         &mut count_cache,
                         &mut value_cache,
@@ -453,16 +400,21 @@ impl Wavefront {
             }
         }
         for (k, v) in tmp_last_seen {
-            last_seen.insert(k, v);
+            let seen = last_seen.entry(k).or_insert(v);
+            *seen = cmp::max(*seen, v);
         }
         self.aggrs = aggrs;
         self.aggrs.reset();
         self.last_seen = last_seen;
     }
 
+    /// Write the lines of a Telemetry at the given time, with every value
+    /// replaced by zero if so wanted.
     fn fmt_val(
         &mut self,
         value: &Telemetry,
+        timestamp: i64,
+        zero: bool,
         mut time_cache: &mut Vec<(i64, String)>,
         mut count_cache: &mut Vec<(usize, String)>,
         mut value_cache: &mut Vec<(f64, String)>,
@@ -474,6 +426,7 @@ impl Wavefront {
                     use quantiles::histogram::Bound;
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     for &(bound, count) in bins {
+                        let count = if zero { 0 } else { count };
                         self.stats.push_str(&value.name);
                         self.stats.push_str("_");
                         match bound {
@@ -490,7 +443,7 @@ impl Wavefront {
                         self.stats.push_str(" ");
                         self.stats.push_str(get_from_cache(
                             &mut time_cache,
-                            value.timestamp,
+                            timestamp,
                         ));
                         self.stats.push_str(" ");
                         self.stats.push_str(&tag_buf);
@@ -502,12 +455,13 @@ impl Wavefront {
             }
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
+                    let v = if zero { 0.0 } else { v };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     self.stats.push_str(&tag_buf);
@@ -518,12 +472,13 @@ impl Wavefront {
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
+                    let v = if zero { 0.0 } else { v };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     self.stats.push_str(&tag_buf);
@@ -536,42 +491,39 @@ impl Wavefront {
                 fmt_tags(value.tags(&self.tags), &mut tag_buf);
                 for tup in &self.percentiles {
                     let stat: &String = &tup.0;
-                    let quant: f64 = tup.1;
+                    let quant: f64 = if zero { 0.0 } else { value.query(tup.1).unwrap() };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(".");
                     self.stats.push_str(stat);
                     self.stats.push_str(" ");
-                    self.stats.push_str(get_from_cache(
-                        &mut value_cache,
-                        value.query(quant).unwrap(),
-                    ));
+                    self.stats.push_str(get_from_cache(&mut value_cache, quant));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     self.stats.push_str(&tag_buf);
                     self.stats.push_str("\n");
                 }
-                let count = value.count();
+                let count = if zero { 0 } else { value.count() };
                 self.stats.push_str(&value.name);
                 self.stats.push_str(".count");
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut count_cache, count));
                 self.stats.push_str(" ");
                 self.stats
-                    .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                    .push_str(get_from_cache(&mut time_cache, timestamp));
                 self.stats.push_str(" ");
                 self.stats.push_str(&tag_buf);
                 self.stats.push_str("\n");
 
-                let mean = value.mean();
+                let mean = if zero { 0.0 } else { value.mean() };
                 self.stats.push_str(&value.name);
                 self.stats.push_str(".mean");
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut value_cache, mean));
                 self.stats.push_str(" ");
                 self.stats
-                    .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                    .push_str(get_from_cache(&mut time_cache, timestamp));
                 self.stats.push_str(" ");
                 self.stats.push_str(&tag_buf);
                 self.stats.push_str("\n");
-- 
2.43.0


From 092b09d5e34c7c29cb484865e38c44b2595855c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 31/47] fix: wavefront sink opens its valve again when it holds
 many persisted points

---
 src/sink/wavefront.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 6498310..1d5b144 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -63,6 +63,8 @@ pub struct Wavefront {
     port: u16,
     bin_width: i64,
     aggrs: buckets::Buckets,
+    /// How many of the points in `aggrs` no flush can get rid of.
+    aggrs_kept: usize,
     delivery_attempts: u32,
     percentiles: Vec<(String, f64)>,
     stats: String,
@@ -405,6 +407,7 @@ impl Wavefront {
         }
         self.aggrs = aggrs;
         self.aggrs.reset();
+        self.aggrs_kept = self.aggrs.count();
         self.last_seen = last_seen;
     }
 
@@ -545,6 +548,7 @@ impl Sink<WavefrontConfig> for Wavefront {
             port: config.port,
             bin_width: config.bin_width,
             aggrs: buckets::Buckets::new(config.bin_width),
+            aggrs_kept: 0,
             delivery_attempts: 0,
             percentiles: config.percentiles,
             stats: String::with_capacity(0x2000),
@@ -615,7 +619,9 @@ impl Sink<WavefrontConfig> for Wavefront {
     fn valve_state(&self) -> Valve {
         let total_values = self.aggrs.count();
         WAVEFRONT_AGGR_STORED_VALUES.store(total_values, Ordering::Relaxed);
-        if total_values > 10_000 {
+        // Persisted points survive every flush: were they to close the valve it
+        // would never open again.
+        if total_values.saturating_sub(self.aggrs_kept) > 10_000 {
             WAVEFRONT_VALVE_CLOSED.fetch_add(1, Ordering::Relaxed);
             Valve::Closed
         } else {
-- 
2.43.0


From 4270568284bd468e38c9ec697b9880173160c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 32/47] fix: influxdb sink survives NaN, and makes no lines the
 protocol does not know

---
 src/sink/influxdb.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index b694b35..01d6071 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -101,6 +101,9 @@ where
 
 impl InfluxDB {
     /// Convert the slice into a payload that can be sent to InfluxDB
+    ///
+    /// The line protocol has no way to tell NaN or an infinity: a point whose
+    /// value is one of these makes no line.
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
         let mut time_cache: Vec<(u64, String)> = Vec::with_capacity(128);
@@ -110,7 +113,7 @@ impl InfluxDB {
         for telem in telems.iter() {
             match telem.kind() {
                 AggregationMethod::Sum => {
-                    if let Some(val) = telem.sum() {
+                    if let Some(val) = telem.sum().filter(|v| v.is_finite()) {
                         buffer.push_str(&telem.name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -127,7 +130,7 @@ impl InfluxDB {
                     }
                 }
                 AggregationMethod::Set => {
-                    if let Some(val) = telem.set() {
+                    if let Some(val) = telem.set().filter(|v| v.is_finite()) {
                         buffer.push_str(&telem.name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -172,7 +175,9 @@ impl InfluxDB {
                 }
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
-                        if let Some(val) = telem.query(*percentile) {
+                        if let Some(val) =
+                            telem.query(*percentile).filter(|v| v.is_finite())
+                        {
                             buffer
                                 .push_str(&format!("{}.{}", &telem.name, percentile));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
-- 
2.43.0


From b9fdda461928ade973045781dce3ce95aad5b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 33/47] fix: influxdb sink tells times before 1970

---
 src/sink/influxdb.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 01d6071..d71db7e 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -106,7 +106,7 @@ impl InfluxDB {
     /// value is one of these makes no line.
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
-        let mut time_cache: Vec<(u64, String)> = Vec::with_capacity(128);
+        let mut time_cache: Vec<(i64, String)> = Vec::with_capacity(128);
         let mut value_cache: Vec<(f64, String)> = Vec::with_capacity(128);
 
         let mut tag_buf = String::with_capacity(1_024);
@@ -123,7 +123,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -140,7 +140,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -166,7 +166,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
@@ -188,7 +188,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
-- 
2.43.0


From 2c4de4301c85f812dccbc678db8b262d40535892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 34/47] fix: influxdb sink escapes names and tags

---
 src/sink/influxdb.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index d71db7e..d7662ab 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -74,13 +74,34 @@ impl Default for InfluxDBConfig {
     }
 }
 
+/// Append the text, with a backslash before every character of `special`, each
+/// of which ends a part of a line.
+#[inline]
+fn push_escaped(text: &str, special: &[char], s: &mut String) {
+    for c in text.chars() {
+        if special.contains(&c) {
+            s.push('\\');
+        }
+        s.push(c);
+    }
+}
+
+#[inline]
+fn fmt_name(name: &str, s: &mut String) {
+    push_escaped(name, &[',', ' '], s);
+}
+
 #[inline]
 fn fmt_tags(tags: TagIter, s: &mut String) {
     for (k, v) in tags {
+        // the protocol has no tag without key or value
+        if k.is_empty() || v.is_empty() {
+            continue;
+        }
         s.push_str(",");
-        s.push_str(k);
+        push_escaped(k, &[',', '=', ' '], s);
         s.push_str("=");
-        s.push_str(v);
+        push_escaped(v, &[',', '=', ' '], s);
     }
 }
 
@@ -114,7 +135,7 @@ impl InfluxDB {
             match telem.kind() {
                 AggregationMethod::Sum => {
                     if let Some(val) = telem.sum().filter(|v| v.is_finite()) {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -131,7 +152,7 @@ impl InfluxDB {
                 }
                 AggregationMethod::Set => {
                     if let Some(val) = telem.set().filter(|v| v.is_finite()) {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -153,8 +174,10 @@ impl InfluxDB {
                                 Bound::Finite(x) => format!("le_{}", x),
                                 Bound::PosInf => "le_inf".to_string(),
                             };
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, bound_name));
+                            fmt_name(
+                                &format!("{}.{}", &telem.name, bound_name),
+                                buffer,
+                            );
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
@@ -178,8 +201,10 @@ impl InfluxDB {
                         if let Some(val) =
                             telem.query(*percentile).filter(|v| v.is_finite())
                         {
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, percentile));
+                            fmt_name(
+                                &format!("{}.{}", &telem.name, percentile),
+                                buffer,
+                            );
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
-- 
2.43.0


From 48e009624ca70b3207ada92390fafe22acb9c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 35/47] fix: elasticsearch sink survives answers that name
 unknown ids, or one twice

---
 src/sink/elasticsearch.rs | 51 +++++++++++++++------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index eee9651..936ec5f 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -8,7 +8,6 @@ use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
 use elastic::prelude::*;
-use std::cmp;
 use std::error::Error;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid;
@@ -121,6 +120,14 @@ pub struct Elasticsearch {
 }
 
 impl Elasticsearch {
+    /// The place in the buffer of the line with this id
+    ///
+    /// Servers may name ids that are not ours, or name one of ours twice.
+    fn position(&self, id: &str) -> Option<usize> {
+        let uuid = uuid::Uuid::parse_str(id).ok()?;
+        self.buffer.iter().position(|line| line.uuid == uuid)
+    }
+
     fn bulk_body(&self, buffer: &mut String) {
         assert!(!self.buffer.is_empty());
         use serde_json::{to_string, Value};
@@ -196,41 +203,23 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                     for item in bulk.iter() {
                         match item {
                             Ok(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
+                                if let Some(idx) = self.position(item.id()) {
+                                    self.buffer.remove(idx);
+                                    ELASTIC_RECORDS_TOTAL_DELIVERED
+                                        .fetch_add(1, Ordering::Relaxed);
                                 }
-                                self.buffer.remove(idx);
-                                ELASTIC_RECORDS_TOTAL_DELIVERED
-                                    .fetch_add(1, Ordering::Relaxed);
                             }
                             Err(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
+                                if let Some(idx) = self.position(item.id()) {
+                                    self.buffer[idx].attempts += 1;
+                                    if self.buffer[idx].attempts
+                                        > self.delivery_attempt_limit
+                                    {
+                                        self.buffer.remove(idx);
                                     }
+                                    ELASTIC_RECORDS_TOTAL_FAILED
+                                        .fetch_add(1, Ordering::Relaxed);
                                 }
-                                self.buffer[idx].attempts += 1;
-                                if self.buffer[idx].attempts
-                                    > self.delivery_attempt_limit
-                                {
-                                    self.buffer.remove(idx);
-                                }
-                                ELASTIC_RECORDS_TOTAL_FAILED
-                                    .fetch_add(1, Ordering::Relaxed);
                                 if let Some(source) = item.source() {
                                     debug!(
                                         "Failed to write item with error {}, source {}",
-- 
2.43.0


From d4a634457fe71dfc37644fa2d01abf5fb2e3b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 36/47] fix: elasticsearch sink counts failures beyond 255

---
 src/sink/elasticsearch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index 936ec5f..9e3a9b6 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -99,7 +99,7 @@ impl Default for ElasticsearchConfig {
 }
 
 struct Line {
-    attempts: u8,
+    attempts: u16,
     uuid: uuid::Uuid,
     line: LogLine,
 }
@@ -213,7 +213,7 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                                 if let Some(idx) = self.position(item.id()) {
                                     self.buffer[idx].attempts += 1;
                                     if self.buffer[idx].attempts
-                                        > self.delivery_attempt_limit
+                                        > u16::from(self.delivery_attempt_limit)
                                     {
                                         self.buffer.remove(idx);
                                     }
-- 
2.43.0


From 82b4c38e86dd0893e1b223403fda548ea014fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:11 +0000
Subject: [PATCH 37/47] fix: count set points of the wavefront sink

---
 src/sink/wavefront.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 1d5b144..406e9e0 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -380,9 +380,12 @@ impl Wavefront {
                         AggregationMethod::Histogram => {
                             WAVEFRONT_AGGR_HISTO.fetch_add(1, Ordering::Relaxed)
                         }
-                        AggregationMethod::Sum | AggregationMethod::Set => {
+                        AggregationMethod::Sum => {
                             WAVEFRONT_AGGR_SUM.fetch_add(1, Ordering::Relaxed)
                         }
+                        AggregationMethod::Set => {
+                            WAVEFRONT_AGGR_SET.fetch_add(1, Ordering::Relaxed)
+                        }
                         AggregationMethod::Summarize => {
                             WAVEFRONT_AGGR_SUMMARIZE.fetch_add(1, Ordering::Relaxed);
                             WAVEFRONT_AGGR_TOT_PERCENT
-- 
2.43.0


From 5dd500c7261b2841a32477a3516c89628ddcaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:20 +0000
Subject: [PATCH 38/47] fix: add up the points a prometheus sink purges

---
 src/sink/prometheus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 580d113..1d3380d 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -694,7 +694,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn flush(&mut self) {
         let total_purged = self.aggrs.lock().unwrap().purge();
-        PROMETHEUS_AGGR_WINDOWED_PURGED.store(total_purged, Ordering::Relaxed);
+        PROMETHEUS_AGGR_WINDOWED_PURGED.fetch_add(total_purged, Ordering::Relaxed);
     }
 
     fn deliver(&mut self, telem: Telemetry) {
-- 
2.43.0


From 27b007ba1d6046dfcad2ca2543722b984188e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 39/47] fix: count statsd datagrams that are not UTF-8 as bad
 packets

---
 src/source/statsd.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index 546d946..5c0f67c 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -117,6 +117,7 @@ impl Statsd {
                         }
                     }
                     Err(e) => {
+                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                         error!("Payload not valid UTF-8: {:?}", e);
                     }
                 },
-- 
2.43.0


From cbfc2e79f777b6ee8002d57b495419aa0621cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:35 +0000
Subject: [PATCH 40/47] fix: count the peers of the graphite source

---
 src/source/graphite.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 5d82cb8..9eb9d8a 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -66,6 +66,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         let mut res = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
+        GRAPHITE_NEW_PEER.fetch_add(1, Ordering::Relaxed);
 
         loop {
             let mut events = mio::Events::with_capacity(1024);
-- 
2.43.0


From ee9d9b79ff358546eee5e2c078a6650f583395e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 41/47] fix: refuse native sources that forward to stages that
 do not exist

---
 src/bin/cernan.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index fea9357..4567ec1 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -344,6 +344,7 @@ fn main() {
     //
     if let Some(ref configs) = args.native_server_config {
         for (config_path, config) in configs {
+            config_topology.insert(config_path.clone(), config.forwards.clone());
             adjacency_matrix.add_edges(
                 &config_path.clone(),
                 config.forwards.clone(),
-- 
2.43.0


From dd8194b96c0185785e3258588ad1e20df7cd3e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 42/47] fix: let stages without edges be filtered

---
 src/matrix.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 79b081b..f02c5ab 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -81,11 +81,15 @@ impl<M: Clone + Debug> Adjacency<M> {
     where
         for<'r> F: FnMut(&'r (&String, &Option<M>)) -> bool,
     {
-        self.edges[id]
-            .iter()
-            .filter(f)
-            .map(|(k, _v)| k.clone())
-            .collect()
+        match self.edges.get(id) {
+            Some(value) => value
+                .iter()
+                .filter(f)
+                .map(|(k, _v)| k.clone())
+                .collect(),
+
+            None => Vec::new(),
+        }
     }
 
     /// Iterates over edge relations in the matrix.
-- 
2.43.0


From d368541246e8329a7be54b96df1aab4bff73a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:36 +0000
Subject: [PATCH 43/47] fix: tell stages nothing forwards to of the shutdown

---
 src/bin/cernan.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 4567ec1..edcf7a2 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -780,6 +780,14 @@ fn main() {
         }
     }
 
+    // Sinks and filters that nothing forwards to have no upstream to tell them
+    // of a shutdown. We'll do that.
+    let mut unfed_sends: cernan::util::Channel = senders
+        .iter()
+        .filter(|&(id, _)| !config_topology.values().any(|fwds| fwds.contains(id)))
+        .map(|(_, snd)| snd.clone())
+        .collect();
+
     drop(flush_sends);
     drop(senders);
     cernan::source::FlushTimer::new(flush_channels, cernan::source::FlushTimerConfig)
@@ -802,6 +810,7 @@ fn main() {
         info!("Signaling shutdown to {:?}", id);
         source_worker.shutdown();
     }
+    cernan::util::send(&mut unfed_sends, metric::Event::Shutdown);
 
     join_all(sinks);
     join_all(filters);
-- 
2.43.0


From 4f260133e2173f09a0b2cd4da57dba1a7a84743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 44/47] fix: tell file sources on the same file apart

---
 src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 235a549..0e4bf9a 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -820,12 +820,12 @@ fn parse_config_file(buffer: &str) -> Args {
 
         args.files = sources.get("files").map(|src| {
             let mut files = Vec::new();
-            for tbl in src.as_table().unwrap().values() {
+            for (name, tbl) in src.as_table().unwrap() {
                 match tbl.get("path") {
                     Some(pth) => {
                         let mut fl = FileServerConfig::default();
                         fl.path = Some(Path::new(pth.as_str().unwrap()).to_path_buf());
-                        fl.config_path = Some(format!("sources.files.{}", pth));
+                        fl.config_path = Some(format!("sources.files.{}", name));
 
                         fl.forwards = tbl
                             .get("forwards")
-- 
2.43.0


From c8c56938ef6cd19f9fe5a51a74ca57dc7d02523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 45/47] fix: a Kafka header whose name is not text no longer
 panics the sink

---
 src/sink/kafka.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 453fbe8..e5f1599 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -157,7 +157,12 @@ impl KafkaMessageSender for FutureProducer<STFUContext> {
         let mut headers = OwnedHeaders::new();
         if let Some(m) = metadata {
             for (k, v) in m {
-                headers = headers.clone().add(str::from_utf8(&k).unwrap(), &v);
+                match str::from_utf8(&k) {
+                    Ok(name) if !name.contains('\0') => {
+                        headers = headers.clone().add(name, &v);
+                    }
+                    _ => warn!("Kafka cannot carry a header named {:?}", k),
+                }
             }
         };
         Box::new(KafkaPublishResult {
-- 
2.43.0


From 1c64a9c57eea7cc3a816124c7199ea09f97d6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 46/47] fix: flush intervals given as fractions of a second
 round to the nearest tick

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 0e4bf9a..a725f86 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -154,7 +154,7 @@ impl Default for Args {
 fn parse_flush_interval(table: &toml::Value, key: &str) -> Option<u64> {
     match table.get(key) {
         Some(value) => match value {
-            toml::Value::Float(f) => Some((f * flushes_per_second() as f64) as u64),
+            toml::Value::Float(f) => Some((f * flushes_per_second() as f64).round() as u64),
             toml::Value::Integer(i) => Some(*i as u64 * flushes_per_second()),
             _ => panic!(
                 "Expected number of seconds for flush_interval config parameter."
-- 
2.43.0


From 312c89d24304a5e3b7be06e1b734cc927b28b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:28 +0000
Subject: [PATCH 47/47] fix: a shutdown is not dropped when a queue is full

---
 src/util.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 8889696..d00ad72 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -46,6 +46,13 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
                 // `Error::Full`, meaning that all disk and memory buffer space
                 // is consumed. We drop the event on the floor in that case.
                 match res.1 {
+                    // A shutdown must not be dropped, else whatever is
+                    // downstream never ends. Wait for room.
+                    hopper::Error::Full if is_shutdown => {
+                        snd_event = res.0;
+                        let _ = chan.flush();
+                        time::delay(1);
+                    }
                     hopper::Error::Full => {
                         UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                         break;
@@ -60,6 +67,11 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
     }
     while let Err(res) = chans[0].send(event) {
         match res.1 {
+            hopper::Error::Full if is_shutdown => {
+                event = res.0;
+                let _ = chans[0].flush();
+                time::delay(1);
+            }
             hopper::Error::Full => {
                 UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                 break;
-- 
2.43.0

