From e2d5a758385088e6aac3cf0dd96a04eb40b388d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 01/25] Re-export crate internals for external runtime monitors
 under cfg(fixrs_verif)

---
 src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b4d4c4f..585b473 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,3 +35,19 @@ async fn main() {
     // let no_alloc_grp = no_order_grp.data_dictionary().get_msg_group("E", 78);
     // println!("{:#?}", no_alloc_grp);
 }
+
+// Re-exports of crate-internal items for the external runtime monitors. Compiled only with
+// `--cfg fixrs_verif`, never in a normal build.
+#[allow(unexpected_cfgs)]
+#[cfg(fixrs_verif)]
+pub mod verif {
+    pub use crate::application::{Application, DefaultApplication};
+    pub use crate::data_dictionary::{DataDictionary, FixType, GroupInfo};
+    pub use crate::io::acceptor::IoAcceptor;
+    pub use crate::message::{test_logon, FieldMap, Group, Message, StringField, SOH};
+    pub use crate::network::{ConnectionType, SessionMap, SocketAcceptor};
+    pub use crate::quickfix_errors::{ConfigErr, SessionRejectError, XmlError};
+    pub use crate::session::{
+        Properties, Session, SessionId, SessionIdBuilder, SessionSchedule, SessionScheduleBuilder,
+    };
+}
-- 
2.43.0


From 36664a4aed618b2107ab7bba33cf27312c72f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 02/25] fix: reject messages with fewer than three fields
 instead of panicking

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..778ca31 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,7 +483,8 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
+    if v.len() < 3
+        || v[0].tag() != BeginString::field()
         || v[1].tag() != BodyLength::field()
         || v[2].tag() != MsgType::field()
     {
-- 
2.43.0


From ed36fb87e225f3110eba1835f78c9e4bffa7644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 03/25] fix: refuse a NumInGroup larger than the rest of the
 message before allocating instances

---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 778ca31..45c4f6b 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -426,6 +426,10 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    if declared_count as usize > v.len() {
+        // every instance needs at least one field, do not allocate for a count that cannot be met
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From fd7e64fb237b4d2c0c60ee95ab2ef5d54ca971b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 04/25] fix: reject a tag that appears twice in a section or
 group instance instead of dropping the first value

---
 src/message.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 45c4f6b..e01ebef 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -104,6 +104,15 @@ impl FieldMap {
         self.fields.insert(field.tag(), field);
     }
 
+    // for parsing, where a second occurrence of a tag must not replace the first one
+    fn set_new_field(&mut self, field: StringField) -> SessResult<()> {
+        if self.fields.contains_key(&field.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
+        self.set_field(field);
+        Ok(())
+    }
+
     pub fn get_field<T: FromStr>(&self, tag: u32) -> Result<T, String> {
         if let Some(field) = self.fields.get(&tag) {
             return field.value.parse::<T>().map_err(|_| "could not parse".to_string());
@@ -422,6 +431,9 @@ fn parse_group(
     let rg_dd = rg.data_dictionary();
     let field_order = rg_dd.get_ordered_fields();
     let group_count_tag = fld.tag();
+    if fmap.fields.contains_key(&group_count_tag) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
     let declared_count = match fld.value().parse::<u32>() {
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
@@ -469,7 +481,7 @@ fn parse_group(
                 return Err(SessionRejectError::repeating_grp_out_of_order());
             }
             let group_instance = &mut group[actual_count as usize];
-            group_instance.set_field(next_field);
+            group_instance.set_new_field(next_field)?;
             previous_offset = offset;
         } else {
             // its not a group field, push back and come out
@@ -502,7 +514,7 @@ fn parse_header(
         } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
-            header.set_field(fld);
+            header.set_new_field(fld)?;
         }
     }
     Ok(())
@@ -526,7 +538,7 @@ fn parse_body(
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
-            msg.set_field(fld);
+            msg.body.set_new_field(fld)?;
         }
     }
     Ok(())
@@ -539,7 +551,7 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
-        trailer.set_field(fld);
+        trailer.set_new_field(fld)?;
     }
     Ok(())
 }
-- 
2.43.0


From cd2955c9de7feabc00d5332a2804f693e1d3f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 05/25] fix: check the position of nested groups within a group
 instance

---
 src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index e01ebef..eac7add 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -467,6 +467,11 @@ fn parse_group(
                 // delimiter not found but other tag is encountered
                 return Err(SessionRejectError::required_tag_missing_err());
             }
+            let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
+            if offset < previous_offset {
+                return Err(SessionRejectError::repeating_grp_out_of_order());
+            }
+            previous_offset = offset;
             let group_instance = &mut group[actual_count as usize];
             parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;
         } else if rg_dd.is_msg_field(msg_type, next_field.tag()) {
-- 
2.43.0


From 3ff5210c55eda9c2158a78bfc2cc3400c7fa7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 06/25] fix: keep the text of a parsed NumInGroup field

---
 src/message.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index eac7add..d0e2cfc 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -443,7 +443,10 @@ fn parse_group(
         return Err(SessionRejectError::incorrect_num_in_grp_count());
     }
     let delimiter = rg.delimiter();
-    let group = fmap.set_group(fld.tag(), declared_count, delimiter);
+    fmap.set_group(fld.tag(), declared_count, delimiter);
+    // keep the count as it was sent, e.g. with leading zeros
+    fmap.set_field(fld.clone());
+    let group = fmap.group.get_mut(&group_count_tag).unwrap();
     let mut actual_count: i32 = -1;
     let mut previous_offset: i32 = -1;
     while let Some(next_field) = v.pop_front() {
-- 
2.43.0


From d1563ffffffbb52657314918e821523e1ce80cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 07/25] fix: reject tags with a sign or leading zeros as
 invalid

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index d0e2cfc..29b3a56 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -347,7 +347,8 @@ impl Message {
             let (tag, value) = match field.split_once('=') {
                 Some((t, v)) => {
                     let parse_result = t.parse::<u32>();
-                    if parse_result.is_err() {
+                    // no sign and no leading zero, otherwise the tag would not be kept as sent
+                    if parse_result.is_err() || !t.starts_with(|c| ('1'..='9').contains(&c)) {
                         return Err(SessionRejectError::invalid_tag_err());
                     }
                     if v.is_empty() {
-- 
2.43.0


From 76d18fdb693ce216a8729fd18063612c617c2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 08/25] fix: serialise CheckSum as the last field of the
 trailer

---
 src/message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 29b3a56..d7c56b2 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -178,11 +178,15 @@ impl<'a> FieldMapIter<'a> {
         let mut temp_vec: Vec<&StringField> = field_map.fields.values().collect();
         if !field_map.field_order.is_empty() {
             temp_vec.sort_by_cached_key(|&field| {
+                if field.tag() == CheckSum::field() {
+                    // always the last field of a message
+                    return usize::MAX;
+                }
                 field_map
                     .field_order
                     .iter()
                     .position(|needle| *needle == field.tag())
-                    .map_or(usize::MAX, |pos| pos)
+                    .map_or(usize::MAX - 1, |pos| pos)
             })
         }
         for str_field in temp_vec {
@@ -267,6 +271,7 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
+            trailer: FieldMap::with_field_order(&[93, 89]),
             ..Default::default()
         }
     }
-- 
2.43.0


From 992de3824dabc92a0c0b992fe661711cd2030570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 09/25] fix: setting a group again replaces its instances
 instead of appending to them

---
 src/message.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index d7c56b2..411d8f5 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -123,8 +123,9 @@ impl FieldMap {
     pub fn set_group(&mut self, tag: Tag, value: u32, rep_grp_delimiter: Tag) -> &mut Group {
         let grp_field = StringField::new(tag, value.to_string().as_str());
         self.set_field(grp_field);
-        let group =
-            self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        // a group set again replaces the earlier one
+        self.group.insert(tag, Group::new(rep_grp_delimiter, tag, value));
+        let group = self.group.get_mut(&tag).unwrap();
         // create group instances and insert into group
         for i in 0..value {
             group.add_group(FieldMap::new());
-- 
2.43.0


From 982a3916f00d905120fc31c6a7cb3cc3ba2879fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 10/25] fix: serialise the delimiter first in group instances

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 411d8f5..ba8b280 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -128,7 +128,7 @@ impl FieldMap {
         let group = self.group.get_mut(&tag).unwrap();
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         group
     }
-- 
2.43.0


From 6cf92c64fe2b442c5b915a684130dcab00bb4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 11/25] fix: extract session identities from unterminated
 messages and only from whole fields

---
 src/message.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index ba8b280..cf12a99 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -410,10 +410,15 @@ fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
         _ => std::str::from_utf8(&[SOH as u8]).unwrap(),
     };
     let pat = format!("{}{}=", pat_prefix, tag);
-    if let Some(indx) = s.find(pat.as_str()) {
+    let found = match tag {
+        // BeginString is the first field or absent
+        "8" => s.starts_with(pat.as_str()).then_some(0),
+        _ => s.find(pat.as_str()),
+    };
+    if let Some(indx) = found {
         let field_start_pos = indx + pat_prefix.len();
         // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap();
+        let end_pos = s[field_start_pos..].find(SOH).unwrap_or(s.len() - field_start_pos);
         let start_pos = s[field_start_pos..].find('=').unwrap();
         return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
     }
-- 
2.43.0


From 9e05f82f5e06c9c7cc09cf5091b2d717d2b58b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 12/25] fix: serialise fields in the order they were set so
 that fields next to groups read back in place

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index cf12a99..3bffe12 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -1,4 +1,5 @@
 use getset::{CopyGetters, Getters, MutGetters};
+use indexmap::IndexMap;
 use std::cmp::Ordering;
 use std::collections::{HashMap, VecDeque};
 use std::fmt::{write, Display};
@@ -82,7 +83,7 @@ impl Display for StringField {
 
 #[derive(Debug, Default, Clone)]
 pub struct FieldMap {
-    fields: HashMap<Tag, StringField>,
+    fields: IndexMap<Tag, StringField>, // in the order set, which decides how a field reads next to groups
     group: HashMap<Tag, Group>,
     field_order: Vec<Tag>,
 }
-- 
2.43.0


From e6bd7b5fc9daea41d411c1846110c2773ba2ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 13/25] fix: create non-stop schedules and refuse a start or
 end day without the other

---
 src/session/session_schedule.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..8a08609 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -55,13 +55,18 @@ impl SessionSchedule {
         if is_non_stop && (start_day.is_some() || end_day.is_some()) {
             panic!("start or end day specified without start time or end time");
         }
+        if start_day.is_some() != end_day.is_some() {
+            panic!("start_day and end_day both are mandatory");
+        }
 
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
+        // times are not used by a non stop session
+        let midnight = NaiveTime::from_hms(0, 0, 0);
         SessionSchedule::new(
-            start_time.unwrap(),
+            start_time.unwrap_or(midnight),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or(midnight),
             end_day,
             time_zone,
             is_non_stop,
-- 
2.43.0


From e23a8b69faee98607d6d6aed2a15efc27df3f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 14/25] fix: evaluate session windows on the local wall clock,
 over midnight, over the week and next to clock changes

---
 src/session/session_schedule.rs | 65 +++++++++++++--------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 8a08609..a5118a1 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -78,48 +78,23 @@ impl SessionSchedule {
             return true;
         }
 
-        let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
-        // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
-        if self.start_day.is_none() && self.end_day.is_none() {
-            // daily session start and end
-            // now should be between today's session start and end datetimes
-            return today_start_datetime <= now_datetime && now_datetime <= today_end_datetime;
-        }
-
-        // if weekdays are given, calculate the weekly start and end datetime
-        let mut weekly_start_date = today_start_datetime.date();
-        let mut weekly_end_date = today_end_datetime.date();
-        let session_start_weekday = self.start_day.unwrap();
-        let session_end_weekday = self.end_day.unwrap();
-        // using only the date, start going back until you find the date which has
-        // same weekday as self.start_day
-        while weekly_start_date.weekday() != session_start_weekday {
-            // go back one date prior
-            weekly_start_date = weekly_start_date.pred();
-            if weekly_start_date.weekday() == session_end_weekday {
-                // means that today's date if already out of sesssion window
-                // because going back end day is encountered
-                return false;
-            }
-        }
-        // weekly start_date is on correct weekday for sesssion
-        // update the date with time of self.start_time
-        let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
-
-        while weekly_end_date.weekday() != session_end_weekday {
-            // go forward one day
-            weekly_end_date = weekly_end_date.succ();
-            if weekly_end_date.weekday() == session_start_weekday {
-                // means that today's date if already out of sesssion window
-                // because going forward start day is encountered
-                return false;
+        // compare wall clock readings, as a boundary may fall on a local time which does not exist
+        // or occurs twice on some day
+        let now_datetime =
+            self.time_zone.from_utc_datetime(&Utc::now().naive_utc()).naive_local();
+        let now_time = now_datetime.time();
+        match (self.start_day, self.end_day) {
+            (Some(start_day), Some(end_day)) => {
+                let day_num = |day: Weekday| day.num_days_from_monday();
+                is_within(
+                    (day_num(now_datetime.weekday()), now_time),
+                    (day_num(start_day), self.start_time),
+                    (day_num(end_day), self.end_time),
+                )
             }
+            // daily session start and end
+            _ => is_within(now_time, self.start_time, self.end_time),
         }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
-        weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
     }
 
     // this is for testing purposes
@@ -160,6 +135,16 @@ impl SessionSchedule {
     }
 }
 
+/// whether now is between start and end of a recurring interval, which wraps over the end of the
+/// period (day or week) when its end comes before its start
+fn is_within<T: PartialOrd>(now: T, start: T, end: T) -> bool {
+    if start <= end {
+        start <= now && now <= end
+    } else {
+        start <= now || now <= end
+    }
+}
+
 pub fn session_time(time_zone: chrono_tz::Tz) -> bool {
     // create a current datetime = Utc::now()
     // extract the time from above
-- 
2.43.0


From 6ca6dec37aca5a89d0284a0064eb973f61f44efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 15/25] fix: refuse a configuration whose default section is
 not first

---
 src/session/session_settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 642b4e5..d653cfa 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -108,10 +108,10 @@ impl Properties {
                 default_found = true;
                 default_session_id = Some(SessionId::default());
                 setting_map.insert(default_session_id.clone().unwrap(), default_section);
-            } else if line.starts_with('[') && line.ends_with(']') && default_found {
+            } else if line.starts_with('[') && line.ends_with(']') {
                 // some other section in config file
                 if !default_found {
-                    panic!("default section should be first section. not found");
+                    panic!("default section not found before other sections");
                 }
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
-- 
2.43.0


From 703a0f8a1eb63bc3f4e272f673f004bb12c78f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 16/25] fix: refuse a configuration which declares a session
 twice

---
 src/session/session_settings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index d653cfa..033d633 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -116,6 +116,9 @@ impl Properties {
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
                 let session_id = SessionId::from_map(&section, defaults);
+                if setting_map.contains_key(&session_id) {
+                    panic!("duplicate session section found for {}", session_id);
+                }
                 setting_map.insert(session_id, section);
             }
         }
-- 
2.43.0


From bcc2bacfd349e9120931685dc7ed0c596ec7c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 17/25] fix: report a reference to an undeclared component as
 an error instead of panicking

---
 src/data_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 7aa75a3..1ac9e6d 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -289,7 +289,7 @@ impl DataDictionary {
                     // required attrib for processing componend does not depend on outer node
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msg: {}, comp: {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     group_dd.add_xml_component(
                         msg_type,
                         comp_node,
@@ -353,7 +353,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
                     self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
@@ -417,7 +417,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
                 }
                 "group" => {
-- 
2.43.0


From 27423aac629765c952aeee6ee389325d540d38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 18/25] fix: ignore messages of unknown sessions instead of
 ending the receiver thread

---
 src/network.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..89f15ca 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -250,10 +250,16 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
             println!("received: {}", s);
             let session_id: SessionId = Message::get_reverse_session_id(&s);
 
-            let dd = sessions
+            let dd = match sessions
                 .get_session(&session_id)
                 .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+            {
+                Some(dd) => dd,
+                None => {
+                    println!("no session found for {}", session_id);
+                    continue;
+                }
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From ad151e1b8a3d739945b4a2e94768f1430b0397ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 19/25] fix: do not panic when sending to a session whose peer
 is not connected

---
 src/session/session_and_state.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..349c65b 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -99,9 +99,12 @@ impl Session {
     // }
     pub fn sync_send_to_target(session_id: &SessionId, sessions: &SessionMap, msg: Message) {
         // let synchronous_send = true;
-        let sess_ref = sessions.get_session(session_id).unwrap();
-        let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        let responder = sessions.get_session(session_id).and_then(|sess| sess.responder.clone());
+        let sent = responder.map_or(false, |responder| responder.send(msg.to_string()).is_ok());
+        if !sent {
+            // no such session, or its peer is not connected (any more)
+            println!("could not send to session {}", session_id);
+        }
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From 780cd2ed605b4b7bc96484b3e12546591eac64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 20/25] fix: end the socket tasks when the peer has gone
 instead of spinning or panicking

---
 src/io/acceptor.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..5b9f63f 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -70,10 +70,12 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
     tokio::spawn(async move {
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
-        loop {
-            read_message(&mut buf_reader, &mut buf).await;
+        // until the peer closes or resets its connection
+        while let Ok(true) = read_message(&mut buf_reader, &mut buf).await {
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
-            to_app.send(raw_msg).await.unwrap();
+            if to_app.send(raw_msg).await.is_err() {
+                break;
+            }
             buf.clear();
         }
     });
@@ -87,24 +89,35 @@ fn start_app_listner_task(
         // if there is message to be sent out to remote socket then read and send
         while let Ok(msg) = from_app.recv().await {
             println!("sending {}", &msg);
-            let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
+            if let Err(e) = write_half.write_all(msg.as_bytes()).await {
+                println!("Error in writing to socket: {:?}", e);
+                break;
+            }
             println!("sent {}", &msg);
         }
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// reads one message into buf, or returns false if the stream has ended before the message is complete
+async fn read_message<R: AsyncBufReadExt + Unpin>(
+    reader: &mut R, buf: &mut Vec<u8>,
+) -> std::io::Result<bool> {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = reader.read_until(SOH as u8, buf).await?;
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
         // last read data
         let byte_slice = &buf[slice_start..slice_end];
+        if !byte_slice.ends_with(&[SOH as u8]) {
+            // end of stream
+            return Ok(false);
+        }
         if byte_slice.starts_with(&[49, 48, 61]) {
             // b"10="
             // checksum tag found, break
             break;
         }
     }
+    Ok(true)
 }
-- 
2.43.0


From a74e4ff0f6f3d45b0eb819cf421292bf8458f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 21/25] fix: listen once per port instead of once per
 connection

---
 src/io/acceptor.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 5b9f63f..c3fbb7c 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -2,10 +2,14 @@ use crate::io::*;
 use crate::message::SOH;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::time::sleep;
+
+const RETRY_INTERVAL: Duration = Duration::from_millis(100);
 
 #[derive(Debug)]
 pub struct IoAcceptor {
@@ -37,17 +41,20 @@ impl IoAcceptor {
         let socket_to_app_send = self.socket_to_app_send.clone();
         let app_to_socket_send = self._app_to_socket_send.clone();
         tokio::spawn(async move {
-            loop {
-                let listener = match TcpListener::bind(bind_addr).await {
+            // one listener for all connections, connections waiting on it must not be dropped
+            let listener = loop {
+                match TcpListener::bind(bind_addr).await {
                     Ok(listener) => {
                         println!("listening on {}", bind_addr);
-                        listener
+                        break listener;
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
-                        continue;
+                        sleep(RETRY_INTERVAL).await;
                     }
                 };
+            };
+            loop {
                 let (stream, _) = match listener.accept().await {
                     Ok((stream, remote_addr)) => {
                         println!("accepted connection from {}", remote_addr);
@@ -55,6 +62,7 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in accepting connection: {:?}", e);
+                        sleep(RETRY_INTERVAL).await;
                         continue;
                     }
                 };
-- 
2.43.0


From 5709537a057a54697286e1c00ac10b20efae4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 22/25] fix: deliver every message sent to a session instead of
 dropping those a slow connection lags behind

---
 src/io/acceptor.rs               | 44 ++++++++++++++++++++------------
 src/io/mod.rs                    | 28 +++++++++++++++++---
 src/network.rs                   |  2 +-
 src/session/session_and_state.rs |  6 ++---
 4 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index c3fbb7c..7febcc7 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -1,12 +1,14 @@
 use crate::io::*;
 use crate::message::SOH;
 use std::net::SocketAddr;
-use std::sync::Arc;
 use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
-use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::sync::mpsc::{
+    unbounded_channel, Sender as TioSender, UnboundedReceiver as TioUnboundedReceiver,
+    UnboundedSender as TioUnboundedSender,
+};
 use tokio::time::sleep;
 
 const RETRY_INTERVAL: Duration = Duration::from_millis(100);
@@ -16,30 +18,26 @@ pub struct IoAcceptor {
     bind_addr: SocketAddr,
     socket_to_app_send: TioSender<String>, // for sending message to application
 
-    _app_to_socket_send: TioBroadcastSender<String>, // used by acceptor to recv data from app
-                                                     // app_to_socket_send: TioSender<String>,           // used by app code to send data to this
+    responder: Responder, // used by acceptor to recv data from app
 }
 
 impl IoAcceptor {
     pub fn create(
         bind_addr: SocketAddr, to_send: TioSender<String>,
-    ) -> (Self, TioBroadcastSender<String>) {
-        let self_bind_addr = bind_addr.clone();
-        // dropping the receiving end
-        let (tx, _) = broadcast::channel::<String>(32);
+    ) -> (Self, Responder) {
+        let responder = Responder::default();
         let acceptor = IoAcceptor {
             bind_addr: bind_addr,
             socket_to_app_send: to_send,
-            _app_to_socket_send: tx.clone(),
-            // app_to_socket_send: tx,
+            responder: responder.clone(),
         };
-        (acceptor, tx)
+        (acceptor, responder)
     }
 
     pub fn start(&self) {
         let bind_addr = self.bind_addr.clone();
         let socket_to_app_send = self.socket_to_app_send.clone();
-        let app_to_socket_send = self._app_to_socket_send.clone();
+        let responder = self.responder.clone();
         tokio::spawn(async move {
             // one listener for all connections, connections waiting on it must not be dropped
             let listener = loop {
@@ -67,14 +65,24 @@ impl IoAcceptor {
                     }
                 };
                 let (owned_read, owned_write) = stream.into_split();
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
-                start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                let (writer, from_app) = unbounded_channel::<String>();
+                responder.subscribe(writer.clone());
+                start_socket_listener_task(
+                    owned_read,
+                    socket_to_app_send.clone(),
+                    writer,
+                    responder.clone(),
+                );
+                start_app_listner_task(owned_write, from_app);
             }
         });
     }
 }
 
-fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String>) {
+fn start_socket_listener_task(
+    read_half: OwnedReadHalf, to_app: TioSender<String>, writer: TioUnboundedSender<String>,
+    responder: Responder,
+) {
     tokio::spawn(async move {
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
@@ -86,16 +94,18 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
             }
             buf.clear();
         }
+        // the connection is closed when all messages waiting for it are written
+        responder.unsubscribe(&writer);
     });
 }
 
 fn start_app_listner_task(
-    mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<String>,
+    mut write_half: OwnedWriteHalf, mut from_app: TioUnboundedReceiver<String>,
 ) {
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
-        while let Ok(msg) = from_app.recv().await {
+        while let Some(msg) = from_app.recv().await {
             println!("sending {}", &msg);
             if let Err(e) = write_half.write_all(msg.as_bytes()).await {
                 println!("Error in writing to socket: {:?}", e);
diff --git a/src/io/mod.rs b/src/io/mod.rs
index c5a3c56..bbc5ece 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -1,6 +1,28 @@
-pub(crate) use tokio::sync::{broadcast, mpsc};
+use std::sync::{Arc, Mutex};
+use tokio::sync::mpsc::UnboundedSender as TioUnboundedSender;
 
 pub(crate) mod acceptor;
 
-pub type TioBroadcastSender<T> = broadcast::Sender<T>;
-pub type TioBroadcastReceiver<T> = broadcast::Receiver<T>;
+/// Sends messages to every subscribed connection. A connection which is slow to write, keeps the
+/// messages waiting for it instead of losing them.
+#[derive(Debug, Clone, Default)]
+pub struct Responder {
+    writers: Arc<Mutex<Vec<TioUnboundedSender<String>>>>,
+}
+
+impl Responder {
+    pub fn subscribe(&self, writer: TioUnboundedSender<String>) {
+        self.writers.lock().unwrap().push(writer);
+    }
+
+    pub fn unsubscribe(&self, writer: &TioUnboundedSender<String>) {
+        self.writers.lock().unwrap().retain(|other| !other.same_channel(writer));
+    }
+
+    /// Returns false if there is no connection to send the message to.
+    pub fn send(&self, msg: String) -> bool {
+        let mut writers = self.writers.lock().unwrap();
+        writers.retain(|writer| writer.send(msg.clone()).is_ok());
+        !writers.is_empty()
+    }
+}
diff --git a/src/network.rs b/src/network.rs
index 89f15ca..1f5ea2e 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -166,7 +166,7 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
     }
 
     fn set_session_responder(
-        &mut self, session_id: &SessionId, msg_sender: TioBroadcastSender<String>,
+        &mut self, session_id: &SessionId, msg_sender: Responder,
     ) {
         self.session_map().entry(session_id).and_modify(|session| {
             session.set_responder(Some(msg_sender));
diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 349c65b..35d1cbb 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -1,6 +1,6 @@
 use crate::data_dictionary::DataDictionary;
 use crate::fields::MaxMessageSize;
-use crate::io::TioBroadcastSender;
+use crate::io::Responder;
 use crate::message::*;
 use crate::network::SessionMap;
 use crate::session::*;
@@ -35,7 +35,7 @@ pub struct Session {
     state: SessionState,
     // session_map: Option<Arc<Mutex<HashMap<se>>>>,
     #[getset(set = "pub")]
-    responder: Option<TioBroadcastSender<String>>,
+    responder: Option<Responder>,
     #[getset(get = "pub")]
     data_dictionary: Arc<DataDictionary>,
 }
@@ -100,7 +100,7 @@ impl Session {
     pub fn sync_send_to_target(session_id: &SessionId, sessions: &SessionMap, msg: Message) {
         // let synchronous_send = true;
         let responder = sessions.get_session(session_id).and_then(|sess| sess.responder.clone());
-        let sent = responder.map_or(false, |responder| responder.send(msg.to_string()).is_ok());
+        let sent = responder.map_or(false, |responder| responder.send(msg.to_string()));
         if !sent {
             // no such session, or its peer is not connected (any more)
             println!("could not send to session {}", session_id);
-- 
2.43.0


From 8fb70e08a5d42e192819f010010a3caa839ff5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 23/25] fix: send the messages of a session only to connections
 on which its counterparty is

---
 src/io/acceptor.rs | 33 +++++++++++++++++++--------------
 src/io/mod.rs      |  7 +++++--
 src/network.rs     | 10 ++++++----
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 7febcc7..cef9eab 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -1,6 +1,9 @@
 use crate::io::*;
-use crate::message::SOH;
+use crate::message::{Message, SOH};
+use crate::session::SessionId;
+use std::collections::HashMap;
 use std::net::SocketAddr;
+use std::sync::Arc;
 use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
@@ -18,26 +21,25 @@ pub struct IoAcceptor {
     bind_addr: SocketAddr,
     socket_to_app_send: TioSender<String>, // for sending message to application
 
-    responder: Responder, // used by acceptor to recv data from app
+    responders: HashMap<SessionId, Responder>, // by which acceptor receives data of each session
 }
 
 impl IoAcceptor {
     pub fn create(
-        bind_addr: SocketAddr, to_send: TioSender<String>,
-    ) -> (Self, Responder) {
-        let responder = Responder::default();
-        let acceptor = IoAcceptor {
+        bind_addr: SocketAddr, responders: HashMap<SessionId, Responder>,
+        to_send: TioSender<String>,
+    ) -> Self {
+        IoAcceptor {
             bind_addr: bind_addr,
             socket_to_app_send: to_send,
-            responder: responder.clone(),
-        };
-        (acceptor, responder)
+            responders,
+        }
     }
 
     pub fn start(&self) {
         let bind_addr = self.bind_addr.clone();
         let socket_to_app_send = self.socket_to_app_send.clone();
-        let responder = self.responder.clone();
+        let responders = Arc::new(self.responders.clone());
         tokio::spawn(async move {
             // one listener for all connections, connections waiting on it must not be dropped
             let listener = loop {
@@ -66,12 +68,11 @@ impl IoAcceptor {
                 };
                 let (owned_read, owned_write) = stream.into_split();
                 let (writer, from_app) = unbounded_channel::<String>();
-                responder.subscribe(writer.clone());
                 start_socket_listener_task(
                     owned_read,
                     socket_to_app_send.clone(),
                     writer,
-                    responder.clone(),
+                    Arc::clone(&responders),
                 );
                 start_app_listner_task(owned_write, from_app);
             }
@@ -81,7 +82,7 @@ impl IoAcceptor {
 
 fn start_socket_listener_task(
     read_half: OwnedReadHalf, to_app: TioSender<String>, writer: TioUnboundedSender<String>,
-    responder: Responder,
+    responders: Arc<HashMap<SessionId, Responder>>,
 ) {
     tokio::spawn(async move {
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
@@ -89,13 +90,17 @@ fn start_socket_listener_task(
         // until the peer closes or resets its connection
         while let Ok(true) = read_message(&mut buf_reader, &mut buf).await {
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
+            // the connection belongs to the sessions whose counterparty has sent on it
+            if let Some(responder) = responders.get(&Message::get_reverse_session_id(&raw_msg)) {
+                responder.subscribe(&writer);
+            }
             if to_app.send(raw_msg).await.is_err() {
                 break;
             }
             buf.clear();
         }
         // the connection is closed when all messages waiting for it are written
-        responder.unsubscribe(&writer);
+        responders.values().for_each(|responder| responder.unsubscribe(&writer));
     });
 }
 
diff --git a/src/io/mod.rs b/src/io/mod.rs
index bbc5ece..0b09bb0 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -11,8 +11,11 @@ pub struct Responder {
 }
 
 impl Responder {
-    pub fn subscribe(&self, writer: TioUnboundedSender<String>) {
-        self.writers.lock().unwrap().push(writer);
+    pub fn subscribe(&self, writer: &TioUnboundedSender<String>) {
+        let mut writers = self.writers.lock().unwrap();
+        if !writers.iter().any(|other| other.same_channel(writer)) {
+            writers.push(writer.clone());
+        }
     }
 
     pub fn unsubscribe(&self, writer: &TioUnboundedSender<String>) {
diff --git a/src/network.rs b/src/network.rs
index 1f5ea2e..19d193e 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -193,12 +193,14 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
         let (socket_to_app_tx, socket_to_app_rx) = tio_channel::<String>(64);
         start_receiver_task(socket_to_app_rx, Arc::clone(self.app()), self.session_map().clone());
         for (s_addr, s_desc) in socket_to_descriptor.iter() {
-            let (io_acceptor, app_to_socket_tx) =
-                IoAcceptor::create(*s_addr, socket_to_app_tx.clone());
-            // update app_to_socket_tx in all the session accepted by this socket_descriptor
+            // set a responder in each session accepted by this socket_descriptor
+            let mut responders = HashMap::new();
             for (accepted_sid, _) in s_desc.accepted_connections() {
-                self.set_session_responder(accepted_sid, app_to_socket_tx.clone());
+                let responder = Responder::default();
+                self.set_session_responder(accepted_sid, responder.clone());
+                responders.insert(accepted_sid.clone(), responder);
             }
+            let io_acceptor = IoAcceptor::create(*s_addr, responders, socket_to_app_tx.clone());
             io_acceptor.start();
             io_acceptors.insert(s_desc.clone(), io_acceptor);
         }
-- 
2.43.0


From 311b6b2845eb86cf6025669e6fd933acd6c12a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 24/25] fix: refuse a dictionary whose component contains
 itself

Expanding such a component recursed until the stack overflowed.
---
 src/data_dictionary.rs | 27 +++++++++++++++++++++++++++
 src/quickfix_errors.rs |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ac9e6d..29574bf 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -450,6 +450,10 @@ impl FromStr for DataDictionary {
 
         let component_node = lookup_node("components", &doc)?;
         let component_map: NodeMap = get_component_nodes_by_name(component_node)?;
+        let mut checked = HashSet::new();
+        for node in component_map.values() {
+            check_component_recursion(node, &component_map, &mut Vec::new(), &mut checked)?;
+        }
 
         let header_node = lookup_node(HEADER_ID, &doc)?;
         dd.add_xml_message(&HEADER_ID, &header_node, &component_map, &doc)?;
@@ -545,6 +549,29 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
     Ok(cmap)
 }
 
+// a component that contains itself, directly or through other components, cannot be expanded
+fn check_component_recursion(
+    component: &Node, components: &NodeMap, open: &mut Vec<String>, checked: &mut HashSet<String>,
+) -> DResult<()> {
+    let name = get_name_attr(component)?.to_string();
+    if open.contains(&name) {
+        return Err(XmlError::RecursiveComponent(name));
+    }
+    if checked.contains(&name) {
+        return Ok(());
+    }
+    open.push(name.clone());
+    for node in component.descendants().filter(|n| n != component && n.has_tag_name("component")) {
+        // undeclared components are reported where they are expanded
+        if let Some(inner) = node.attribute("name").and_then(|n| components.get(n)) {
+            check_component_recursion(inner, components, open, checked)?;
+        }
+    }
+    open.pop();
+    checked.insert(name);
+    Ok(())
+}
+
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
     for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
diff --git a/src/quickfix_errors.rs b/src/quickfix_errors.rs
index 7605c29..b814bb4 100644
--- a/src/quickfix_errors.rs
+++ b/src/quickfix_errors.rs
@@ -190,6 +190,8 @@ pub enum XmlError {
     AttributeNotFound(String),
     #[error("Unknown xml tag {}", .0)]
     UnknownXmlTag(String),
+    #[error("Component {} contains itself", .0)]
+    RecursiveComponent(String),
 }
 
 pub enum InvalidMessage {
-- 
2.43.0


From e831a7069734a0d5c76c7d40b475f3aad1c821b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 25/25] fix: checksum of messages whose bytes sum to more than
 32 bits

Only the sum modulo 256 matters; the intermediate sum overflowed.
---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3bffe12..307025e 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -305,7 +305,7 @@ impl Message {
         {
             if sfield.tag() != 10 {
                 for byt in sfield.to_string().as_bytes() {
-                    byte_sum = byte_sum + *byt as u32;
+                    byte_sum = byte_sum.wrapping_add(*byt as u32);
                 }
             }
         }
-- 
2.43.0

