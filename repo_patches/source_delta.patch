From 225c32a3b8350bcb5a3dddeff173b23615c23cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 01/87] fix: keep identity assertions whose tempid upserts
 through another value

---
 db/src/tx.rs                | 23 +++++++++++++++++------
 db/src/upsert_resolution.rs | 18 ++++++++++++++----
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8b0a65a..452fe95 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -174,13 +174,14 @@ where
 
     /// Given a collection of tempids and the [a v] pairs that they might upsert to, resolve exactly
     /// which [a v] pairs do upsert to entids, and map each tempid that upserts to the upserted
-    /// entid.  The keys of the resulting map are exactly those tempids that upserted.
+    /// entid.  The keys of the resulting map are exactly those tempids that upserted.  Also return,
+    /// for each of the given [a v] pairs in order, whether it is in the store.
     pub(crate) fn resolve_temp_id_avs<'b>(
         &self,
         temp_id_avs: &'b [(TempIdHandle, AVPair)],
-    ) -> Result<TempIdMap> {
+    ) -> Result<(TempIdMap, Vec<bool>)> {
         if temp_id_avs.is_empty() {
-            return Ok(TempIdMap::default());
+            return Ok((TempIdMap::default(), vec![]));
         }
 
         // Map [a v]->entid.
@@ -227,7 +228,12 @@ where
             ));
         }
 
-        Ok(tempids)
+        let in_store = temp_id_avs
+            .iter()
+            .map(|&(_, ref av_pair)| av_map.contains_key(&av_pair))
+            .collect();
+
+        Ok((tempids, in_store))
     }
 
     /// Pipeline stage 1: convert `Entity` instances into `Term` instances, ready for term
@@ -735,6 +741,9 @@ where
         // Now we can collect upsert populations.
         let (mut generation, inert_terms) = Generation::from(terms, &self.schema)?;
 
+        // Every tempid that has resolved via upsert so far.
+        let mut resolved_temp_ids: TempIdMap = TempIdMap::default();
+
         // And evolve them forward.
         while generation.can_evolve() {
             debug!("generation {:?}", generation);
@@ -743,11 +752,13 @@ where
             debug!("trying to resolve avs {:?}", tempid_avs);
 
             // Evolve further.
-            let temp_id_map: TempIdMap = self.resolve_temp_id_avs(&tempid_avs[..])?;
+            let (temp_id_map, in_store) = self.resolve_temp_id_avs(&tempid_avs[..])?;
 
             debug!("resolved avs for tempids {:?}", temp_id_map);
 
-            generation = generation.evolve_one_step(&temp_id_map);
+            resolved_temp_ids.extend(temp_id_map.iter().map(|(t, &e)| (t.clone(), e)));
+
+            generation = generation.evolve_one_step(&resolved_temp_ids, &in_store);
 
             // Errors.  BTree* since we want deterministic results.
             let mut conflicting_upserts: BTreeMap<TempId, BTreeSet<KnownEntid>> =
diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index f656425..81ea414 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -139,19 +139,29 @@ impl Generation {
     }
 
     /// Evolve this generation one step further by rewriting the existing :db/add entities using the
-    /// given temporary IDs.
+    /// temporary IDs resolved so far.
+    ///
+    /// `in_store` says, for each simple upsert in `temp_id_avs` order, whether its [a v] is in the
+    /// store.  A simple upsert that isn't might still have its tempid resolved by another upsert,
+    /// now or in an earlier generation; such an assertion remains to be made.
     ///
     /// TODO: Considering doing this in place; the function already consumes `self`.
-    pub(crate) fn evolve_one_step(self, temp_id_map: &TempIdMap) -> Generation {
+    pub(crate) fn evolve_one_step(self, temp_id_map: &TempIdMap, in_store: &[bool]) -> Generation {
         let mut next = Generation::default();
 
         // We'll iterate our own allocations to resolve more things, but terms that have already
         // resolved stay resolved.
         next.resolved = self.resolved;
 
-        for UpsertE(t, a, v) in self.upserts_e {
+        // Likewise, terms that have already upserted stay upserted.
+        next.upserted = self.upserted;
+
+        for (UpsertE(t, a, v), &in_store) in self.upserts_e.into_iter().zip(in_store.iter()) {
             match temp_id_map.get(&*t) {
-                Some(&n) => next.upserted.push(Term::AddOrRetract(OpType::Add, n, a, v)),
+                Some(&n) if in_store => {
+                    next.upserted.push(Term::AddOrRetract(OpType::Add, n, a, v))
+                }
+                Some(&n) => next.resolved.push(Term::AddOrRetract(OpType::Add, n, a, v)),
                 None => {
                     next.allocations
                         .push(Term::AddOrRetract(OpType::Add, Right(t), a, Left(v)))
-- 
2.43.0


From 16048ef197f1a5485dd165c31d9d7528967af43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 02/87] fix: retracting another value of a cardinality-one
 attribute is a no-op

---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8b7401e..9e6d728 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -696,7 +696,7 @@ fn insert_transaction(conn: &rusqlite::Connection, tx: Entid) -> Result<()> {
       SELECT DISTINCT e0, a0, v, ?, 0, value_type_tag0
       FROM temp.search_results
       WHERE rid IS NOT NULL AND
-            ((added0 IS 0) OR
+            ((added0 IS 0 AND v0 IS v) OR
              (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))"#;
 
     let mut stmt = conn.prepare_cached(s)?;
@@ -718,7 +718,7 @@ fn update_datoms(conn: &rusqlite::Connection, tx: Entid) -> Result<()> {
         WITH ids AS (SELECT rid
                      FROM temp.search_results
                      WHERE rid IS NOT NULL AND
-                           ((added0 IS 0) OR
+                           ((added0 IS 0 AND v0 IS v) OR
                             (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v)))
         DELETE FROM datoms WHERE rowid IN ids"#;
 
@@ -1110,7 +1110,7 @@ impl MentatStoring for rusqlite::Connection {
                 SELECT e0 as e, a0 as a, v, value_type_tag0 as value_type_tag, 0 as added
                 FROM temp.search_results
                 WHERE a0 in {} AND rid IS NOT NULL AND
-                ((added0 IS 0) OR
+                ((added0 IS 0 AND v0 IS v) OR
                     (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))
 
             ) ORDER BY e, a, v, value_type_tag, added"#,
-- 
2.43.0


From 312ddcfb78a61865e30cd4dcad3184cd13fff61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 03/87] fix: retract, not assert, facts given with a reversed
 attribute

---
 db/src/tx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 452fe95..662ebfa 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -475,7 +475,7 @@ where
                         let reversed_a = in_process.entity_a_into_term_a(reversed_a)?;
                         let reversed_v = in_process.entity_e_into_term_v(e)?;
                         terms.push(Term::AddOrRetract(
-                            OpType::Add,
+                            op,
                             reversed_e,
                             reversed_a,
                             reversed_v,
-- 
2.43.0


From ef6b87fd9559d3aa02faf560612189992e55102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 04/87] fix: refuse unallocated entities given through a
 reversed attribute

---
 db/src/tx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 662ebfa..6ca4452 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -397,7 +397,7 @@ where
                                     Some(tempid) => Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
                                     None => {
                                         if let TypedValue::Ref(entid) = v.into_typed_value(&self.schema, ValueType::Ref)? {
-                                            Ok(Either::Left(KnownEntid(entid)))
+                                            Ok(Either::Left(self.ensure_entid_exists(entid)?))
                                         } else {
                                             // The given value is expected to be :db.type/ref, so this shouldn't happen.
                                             bail!(DbErrorKind::NotYetImplemented(format!("Cannot use :attr/_reversed notation for attribute {} with value that is not :db.valueType :db.type/ref", forward_a)))
@@ -406,8 +406,10 @@ where
                                 }
                             },
 
-                            entmod::ValuePlace::Entid(entid) =>
-                                Ok(Either::Left(KnownEntid(self.entity_a_into_term_a(entid)?))),
+                            entmod::ValuePlace::Entid(entid) => {
+                                let entid = self.entity_a_into_term_a(entid)?;
+                                Ok(Either::Left(self.ensure_entid_exists(entid)?))
+                            },
 
                             entmod::ValuePlace::TempId(tempid) =>
                                 Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
-- 
2.43.0


From ba2e5b17cc2b8e7de52b62f722c9ffad0d5fa64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 05/87] fix: parsing out of range numbers and instants is an
 error, not a panic

---
 edn/src/lib.rs | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 2cbb21e..ca6a276 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -92,13 +92,14 @@ peg::parser!(pub grammar parse() for str {
     pub rule raw_bigint() -> BigInt = b:$( sign()? digit()+ ) "N"
         { b.parse::<BigInt>().unwrap() }
     pub rule raw_octalinteger() -> i64 = "0" i:$( octaldigit()+ )
-        { i64::from_str_radix(i, 8).unwrap() }
+        {? i64::from_str_radix(i, 8).map_err(|_| "octal integer out of range") }
     pub rule raw_hexinteger() -> i64 = "0x" i:$( hex()+ )
-        { i64::from_str_radix(i, 16).unwrap() }
+        {? i64::from_str_radix(i, 16).map_err(|_| "hexadecimal integer out of range") }
     pub rule raw_basedinteger() -> i64 = b:$( validbase() ) "r" i:$( alphanumeric()+ )
-        { i64::from_str_radix(i, b.parse::<u32>().unwrap()).unwrap() }
-    pub rule raw_integer() -> i64 = i:$( sign()? digit()+ ) !("." / (['e' | 'E']))
-        { i.parse::<i64>().unwrap() }
+        {? i64::from_str_radix(i, b.parse::<u32>().unwrap()).map_err(|_| "invalid or out of range integer") }
+    rule integer_digits() -> &'input str = i:$( sign()? digit()+ ) !("." / (['e' | 'E'])) { i }
+    pub rule raw_integer() -> i64 = i:integer_digits()
+        {? i.parse::<i64>().map_err(|_| "integer out of range") }
     pub rule raw_float() -> OrderedFloat<f64> = f:$(sign()? digit()+ ("." digit()+)? (['e' | 'E'] sign()? digit()+)?)
         { OrderedFloat(f.parse::<f64>().unwrap()) }
 
@@ -109,7 +110,8 @@ peg::parser!(pub grammar parse() for str {
     pub rule integer() -> SpannedValue = v:raw_integer() { SpannedValue::Integer(v) }
     pub rule float() -> SpannedValue = v:raw_float() { SpannedValue::Float(v) }
 
-    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / float() )
+    // An integer that's out of range is an error, not a float.
+    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / (!integer_digits() v:float() { v }) )
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
@@ -146,19 +148,27 @@ peg::parser!(pub grammar parse() for str {
         }
 
     rule inst_micros() -> DateTime<Utc> =
-        "#instmicros" whitespace()+ d:$( digit()+ ) {
-            let micros = d.parse::<i64>().unwrap();
-            let seconds: i64 = micros / 1_000_000;
-            let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
-            Utc.timestamp(seconds, nanos)
+        "#instmicros" whitespace()+ d:$( sign()? digit()+ ) {?
+            d.parse::<i64>()
+                .ok()
+                .and_then(|micros| {
+                    let seconds: i64 = micros.div_euclid(1_000_000);
+                    let nanos: u32 = (micros.rem_euclid(1_000_000) as u32) * 1000;
+                    Utc.timestamp_opt(seconds, nanos).single()
+                })
+                .ok_or("instant out of range")
         }
 
     rule inst_millis() -> DateTime<Utc> =
-        "#instmillis" whitespace()+ d:$( digit()+ ) {
-            let millis = d.parse::<i64>().unwrap();
-            let seconds: i64 = millis / 1000;
-            let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
-            Utc.timestamp(seconds, nanos)
+        "#instmillis" whitespace()+ d:$( sign()? digit()+ ) {?
+            d.parse::<i64>()
+                .ok()
+                .and_then(|millis| {
+                    let seconds: i64 = millis.div_euclid(1000);
+                    let nanos: u32 = (millis.rem_euclid(1000) as u32) * 1_000_000;
+                    Utc.timestamp_opt(seconds, nanos).single()
+                })
+                .ok_or("instant out of range")
         }
 
     rule inst() -> SpannedValue = t:(inst_millis() / inst_micros() / inst_string())
-- 
2.43.0


From 25210ce763ef1465cd30b5ba4233412fb6eaa58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 06/87] fix: convert instants before 1970 and milliseconds
 exactly

---
 edn/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index c1f4b07..311b316 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -653,7 +653,10 @@ pub trait FromMicros {
 
 impl FromMicros for DateTime<Utc> {
     fn from_micros(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000_000, ((ts % 1_000_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000_000),
+            (ts.rem_euclid(1_000_000) as u32) * 1_000,
+        )
     }
 }
 
@@ -675,7 +678,10 @@ pub trait FromMillis {
 
 impl FromMillis for DateTime<Utc> {
     fn from_millis(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000, ((ts % 1_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000),
+            (ts.rem_euclid(1_000) as u32) * 1_000_000,
+        )
     }
 }
 
-- 
2.43.0


From 8cf057b5f717fb2debee9adf937c21117e875b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 07/87] fix: parse \n, \t and \r in strings as the characters
 they stand for

---
 edn/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index ca6a276..4e78780 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -115,7 +115,14 @@ peg::parser!(pub grammar parse() for str {
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
-    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) { c }
+    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) {
+        match c {
+            "n" => "\n",
+            "t" => "\t",
+            "r" => "\r",
+            c => c,
+        }
+    }
     rule string_normal_chars() -> &'input str = c:$((!['\"' | '\\'][_])+) { c }
 
     // This is what we need to do in order to unescape. We can't just match the entire string slice:
-- 
2.43.0


From d22b5a698d6adcbd8fb1624f1a752cfc038c5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 08/87] fix: print EDN text, floats and far instants so that
 they parse back

---
 edn/src/pretty_print.rs | 10 ++--------
 edn/src/types.rs        | 33 ++++++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/edn/src/pretty_print.rs b/edn/src/pretty_print.rs
index 297bafc..5a4265c 100644
--- a/edn/src/pretty_print.rs
+++ b/edn/src/pretty_print.rs
@@ -8,15 +8,13 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use chrono::SecondsFormat;
-
 use itertools::Itertools;
 use pretty;
 
 use std::borrow::Cow;
 use std::io;
 
-use crate::types::Value;
+use crate::types::{escape_text, Value};
 
 impl Value {
     /// Return a pretty string representation of this `Value`.
@@ -94,15 +92,11 @@ impl Value {
             Value::NamespacedSymbol(ref v) => pp.text(v.namespace()).append("/").append(v.name()),
             Value::PlainSymbol(ref v) => pp.text(v.to_string()),
             Value::Keyword(ref v) => pp.text(v.to_string()),
-            Value::Text(ref v) => pp.text("\"").append(v.as_str()).append("\""),
+            Value::Text(ref v) => pp.text("\"").append(escape_text(v)).append("\""),
             Value::Uuid(ref u) => pp
                 .text("#uuid \"")
                 .append(u.to_hyphenated().to_string())
                 .append("\""),
-            Value::Instant(ref v) => pp
-                .text("#inst \"")
-                .append(v.to_rfc3339_opts(SecondsFormat::AutoSi, true))
-                .append("\""),
             _ => pp.text(self.to_string()),
         }
     }
diff --git a/edn/src/types.rs b/edn/src/types.rs
index 311b316..ac7878a 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -17,6 +17,7 @@ use std::fmt::{Display, Formatter};
 
 use chrono::{
     DateTime,
+    Datelike,
     SecondsFormat,
     TimeZone, // For Utc::timestamp. The compiler incorrectly complains that this is unused.
     Utc,
@@ -529,22 +530,32 @@ macro_rules! def_common_value_ord {
     };
 }
 
+/// Escape text so that it can be parsed again when printed between double quotes.
+pub(crate) fn escape_text(text: &str) -> String {
+    text.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
+/// Print an instant so that it can be parsed again.
+pub(crate) fn format_instant(instant: &DateTime<Utc>) -> String {
+    match instant.year() {
+        0..=9999 => format!(
+            "#inst \"{}\"",
+            instant.to_rfc3339_opts(SecondsFormat::AutoSi, true)
+        ),
+        // RFC 3339 has no syntax for other years.
+        _ => format!("#instmicros {}", instant.to_micros()),
+    }
+}
+
 /// Converts a Value or SpannedValue to string, given a formatter.
-// TODO: Make sure float syntax is correct, handle NaN and escaping.
-// See https://github.com/mozilla/mentat/issues/232
 macro_rules! def_common_value_display {
     ( $t:tt, $value:expr, $f:expr ) => {
         match *$value {
             $t::Nil => write!($f, "nil"),
             $t::Boolean(v) => write!($f, "{}", v),
             $t::Integer(v) => write!($f, "{}", v),
-            $t::Instant(v) => write!(
-                $f,
-                "#inst \"{}\"",
-                v.to_rfc3339_opts(SecondsFormat::AutoSi, true)
-            ),
+            $t::Instant(v) => write!($f, "{}", format_instant(&v)),
             $t::BigInteger(ref v) => write!($f, "{}N", v),
-            // TODO: make sure float syntax is correct.
             $t::Float(ref v) => {
                 if *v == OrderedFloat(f64::INFINITY) {
                     write!($f, "#f +Infinity")
@@ -553,11 +564,11 @@ macro_rules! def_common_value_display {
                 } else if *v == OrderedFloat(f64::NAN) {
                     write!($f, "#f NaN")
                 } else {
-                    write!($f, "{}", v)
+                    // `Debug`, unlike `Display`, always distinguishes floats from integers.
+                    write!($f, "{:?}", v.into_inner())
                 }
             }
-            // TODO: EDN escaping.
-            $t::Text(ref v) => write!($f, "\"{}\"", v),
+            $t::Text(ref v) => write!($f, "\"{}\"", escape_text(v)),
             $t::Uuid(ref u) => write!($f, "#uuid \"{}\"", u.to_hyphenated().to_string()),
             $t::PlainSymbol(ref v) => v.fmt($f),
             $t::NamespacedSymbol(ref v) => v.fmt($f),
-- 
2.43.0


From 3c5cc6733c9a351dc52e4d2c838a951f776d1e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 09/87] fix: read back the nil UUID

---
 db/src/db.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 9e6d728..56c4a59 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -422,15 +422,14 @@ impl TypedSQLValue for TypedValue {
             (5, rusqlite::types::Value::Real(x)) => Ok(TypedValue::Double(x.into())),
             (10, rusqlite::types::Value::Text(x)) => Ok(x.into()),
             (11, rusqlite::types::Value::Blob(x)) => {
-                let u = Uuid::from_bytes(x.as_slice().try_into().unwrap());
-                if u.is_nil() {
+                match x.as_slice().try_into() {
+                    Ok(bytes) => Ok(TypedValue::Uuid(Uuid::from_bytes(bytes))),
                     // Rather than exposing Uuid's ParseError…
-                    bail!(DbErrorKind::BadSQLValuePair(
+                    Err(_) => bail!(DbErrorKind::BadSQLValuePair(
                         rusqlite::types::Value::Blob(x),
                         value_type_tag
-                    ));
+                    )),
                 }
-                Ok(TypedValue::Uuid(u))
             }
             (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
-- 
2.43.0


From bd53af37cfe6d39ad3d5512ad278aa54c8bcb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 10/87] fix: read back keywords without a namespace

---
 db/src/db.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 56c4a59..07dc095 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -401,6 +401,16 @@ pub trait TypedSQLValue {
     fn to_edn_value_pair(&self) -> (Value, ValueType);
 }
 
+/// Given a stored keyword like `:foo` or `:foo/bar`, return the corresponding `Keyword`.
+fn to_keyword(s: &str) -> Result<edn::Keyword> {
+    match s.strip_prefix(':') {
+        Some(name) if !name.is_empty() && !name.contains(&[':', '/'][..]) => {
+            Ok(edn::Keyword::plain(name))
+        }
+        _ => to_namespaced_keyword(s),
+    }
+}
+
 impl TypedSQLValue for TypedValue {
     /// Given a SQLite `value` and a `value_type_tag`, return the corresponding `TypedValue`.
     fn from_sql_value_pair(
@@ -431,7 +441,7 @@ impl TypedSQLValue for TypedValue {
                     )),
                 }
             }
-            (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
+            (13, rusqlite::types::Value::Text(x)) => to_keyword(&x).map(|k| k.into()),
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
         }
     }
-- 
2.43.0


From 113b7d38108f462bf5a1fa0696aee19b750dff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 11/87] fix: keep uniqueness when an unrelated schema property
 is altered

---
 db/src/schema.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/src/schema.rs b/db/src/schema.rs
index fdbed5a..e64fce5 100644
--- a/db/src/schema.rs
+++ b/db/src/schema.rs
@@ -226,9 +226,6 @@ impl AttributeBuilder {
                 attribute.unique = *unique;
                 mutations.push(AttributeAlteration::Unique);
             }
-        } else if attribute.unique != None {
-            attribute.unique = None;
-            mutations.push(AttributeAlteration::Unique);
         }
 
         if let Some(index) = self.index {
-- 
2.43.0


From 963211ab84167a88fe344570ea70287bda15dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 12/87] fix: follow idents that move between entities in one
 transaction

---
 db/src/metadata.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/db/src/metadata.rs b/db/src/metadata.rs
index ac43939..a170e56 100644
--- a/db/src/metadata.rs
+++ b/db/src/metadata.rs
@@ -412,24 +412,28 @@ where
 
     let mut idents_altered: BTreeMap<Entid, IdentAlteration> = BTreeMap::new();
 
-    // Asserted, altered, or retracted :db/idents update the relevant entids.
-    for (entid, ident) in ident_set.asserted {
-        schema.entid_map.insert(entid, ident.clone());
-        schema.ident_map.insert(ident.clone(), entid);
-        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
+    // Asserted, altered, or retracted :db/idents update the relevant entids.  An ident can move
+    // between entids in one transaction, so remove every old ident before inserting new ones.
+    for (entid, ident) in &ident_set.retracted {
+        schema.entid_map.remove(entid);
+        schema.ident_map.remove(ident);
+        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    }
+
+    for (old_ident, _new_ident) in ident_set.altered.values() {
+        schema.ident_map.remove(old_ident); // Remove old.
     }
 
-    for (entid, (old_ident, new_ident)) in ident_set.altered {
+    for (entid, (_old_ident, new_ident)) in ident_set.altered {
         schema.entid_map.insert(entid, new_ident.clone()); // Overwrite existing.
-        schema.ident_map.remove(&old_ident); // Remove old.
         schema.ident_map.insert(new_ident.clone(), entid); // Insert new.
         idents_altered.insert(entid, IdentAlteration::Ident(new_ident.clone()));
     }
 
-    for (entid, ident) in &ident_set.retracted {
-        schema.entid_map.remove(entid);
-        schema.ident_map.remove(ident);
-        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    for (entid, ident) in ident_set.asserted {
+        schema.entid_map.insert(entid, ident.clone());
+        schema.ident_map.insert(ident.clone(), entid);
+        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
     }
 
     // Component attributes need to change if either:
-- 
2.43.0


From 17c83e5acdcce2e8937dde4e4a2200460d5d7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 13/87] fix: refuse alterations that leave an attribute invalid

---
 db/src/db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 07dc095..fb625ff 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -39,7 +39,7 @@ use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc}
 use db_traits::errors::{DbErrorKind, Result};
 
 use crate::metadata;
-use crate::schema::SchemaBuilding;
+use crate::schema::{AttributeValidation, SchemaBuilding};
 use crate::tx::transact;
 use crate::types::{AVMap, AVPair, Partition, PartitionMap, DB};
 
@@ -1307,6 +1307,9 @@ SELECT EXISTS
                 }
             }
         }
+
+        // An invalid attribute would make the store impossible to open again.
+        attribute.validate(|| entid.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From 66f3a96c4a0dc2ba75b44fbbdef6997b4c2d6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 14/87] fix: deliver observer notifications pending when
 observers change

---
 db/src/tx_observer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index ebc42af..c2eb1f1 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,7 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::sync::{Arc, Weak};
+use std::sync::Arc;
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
 
@@ -66,7 +66,8 @@ pub trait Command {
 
 pub struct TxCommand {
     reports: IndexMap<Entid, AttributeSet>,
-    observers: Weak<IndexMap<String, Arc<TxObserver>>>,
+    // The observers registered when the transaction committed.
+    observers: Arc<IndexMap<String, Arc<TxObserver>>>,
 }
 
 impl TxCommand {
@@ -76,19 +77,17 @@ impl TxCommand {
     ) -> Self {
         TxCommand {
             reports,
-            observers: Arc::downgrade(observers),
+            observers: observers.clone(),
         }
     }
 }
 
 impl Command for TxCommand {
     fn execute(&mut self) {
-        if let Some(observers) = self.observers.upgrade() {
-            for (key, observer) in observers.iter() {
-                let applicable_reports = observer.applicable_reports(&self.reports);
-                if !applicable_reports.is_empty() {
-                    observer.notify(&key, applicable_reports);
-                }
+        for (key, observer) in self.observers.iter() {
+            let applicable_reports = observer.applicable_reports(&self.reports);
+            if !applicable_reports.is_empty() {
+                observer.notify(&key, applicable_reports);
             }
         }
     }
-- 
2.43.0


From 62d35b14750c5e12b9d4e05af7e5797d86feabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 15/87] fix: undo all effects of a failing step of a
 transaction in progress

---
 db/src/tx.rs           |  5 +++--
 db/src/tx_observer.rs  |  5 +++++
 transaction/src/lib.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 6ca4452..fab3cc5 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -942,8 +942,6 @@ where
             }
         }
 
-        self.watcher.done(&self.tx_id, self.schema)?;
-
         if tx_might_update_metadata {
             // Extract changes to metadata from the store.
             let metadata_assertions = match action {
@@ -974,6 +972,9 @@ where
             }
         }
 
+        // Only tell the watcher once nothing else can fail.
+        self.watcher.done(&self.tx_id, self.schema)?;
+
         Ok(TxReport {
             tx_id: self.tx_id,
             tx_instant,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index c2eb1f1..7ba6251 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -169,6 +169,11 @@ impl InProgressObserverTransactWatcher {
             txes: Default::default(),
         }
     }
+
+    /// Forget what was collected from a transaction that failed.
+    pub fn abandon(&mut self) {
+        self.collected_attributes.clear();
+    }
 }
 
 impl TransactWatcher for InProgressObserverTransactWatcher {
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index f30ca7b..a5658b7 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -161,7 +161,40 @@ impl<'a, 'c> InProgress<'a, 'c> {
             .and_then(|(terms, _tempid_set)| self.transact_entities(terms))
     }
 
+    /// Run one step so that a failing one leaves no trace in the store or the watchers: the caller
+    /// might carry on with this `InProgress`.
+    fn atomically<F>(&mut self, step: F) -> Result<TxReport>
+    where
+        F: FnOnce(&mut Self) -> Result<TxReport>,
+    {
+        const STEP: &str = "mentat_transact_step";
+        self.savepoint(STEP)?;
+        match step(self) {
+            Ok(report) => {
+                self.release_savepoint(STEP)?;
+                Ok(report)
+            }
+            Err(e) => {
+                self.tx_observer_watcher.abandon();
+                self.rollback_savepoint(STEP)?;
+                self.release_savepoint(STEP)?;
+                Err(e)
+            }
+        }
+    }
+
     pub fn transact_terms<I>(&mut self, terms: I, tempid_set: InternSet<TempId>) -> Result<TxReport>
+    where
+        I: IntoIterator<Item = TermWithTempIds>,
+    {
+        self.atomically(|ip| ip.transact_terms_step(terms, tempid_set))
+    }
+
+    fn transact_terms_step<I>(
+        &mut self,
+        terms: I,
+        tempid_set: InternSet<TempId>,
+    ) -> Result<TxReport>
     where
         I: IntoIterator<Item = TermWithTempIds>,
     {
@@ -186,6 +219,13 @@ impl<'a, 'c> InProgress<'a, 'c> {
     }
 
     pub fn transact_entities<I, V: TransactableValue>(&mut self, entities: I) -> Result<TxReport>
+    where
+        I: IntoIterator<Item = edn::entities::Entity<V>>,
+    {
+        self.atomically(|ip| ip.transact_entities_step(entities))
+    }
+
+    fn transact_entities_step<I, V: TransactableValue>(&mut self, entities: I) -> Result<TxReport>
     where
         I: IntoIterator<Item = edn::entities::Entity<V>>,
     {
-- 
2.43.0


From e9fbcca2f6426d46e83627a1397ec747c41e53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 16/87] fix: never reuse entids that were only allocated as
 values

---
 db/src/db.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index fb625ff..6aeef67 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -552,7 +552,36 @@ pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
             Partition::new(row.get(1)?, row.get(2)?, row.get(3)?, row.get(4)?),
         ))
     })?
-    .collect()
+    .collect::<Result<PartitionMap>>()
+    .and_then(|partition_map| skip_referenced_entids(conn, partition_map))
+}
+
+/// A tempid used only as a value is allocated an entid that no datom has as its entity.  Entids are
+/// allocated consecutively, so such entids follow the greatest entity without gaps.
+fn skip_referenced_entids(
+    conn: &rusqlite::Connection,
+    mut partition_map: PartitionMap,
+) -> Result<PartitionMap> {
+    if let Some(partition) = partition_map.get_mut(":db.part/user") {
+        let mut stmt = conn.prepare(
+            "SELECT DISTINCT v FROM timelined_transactions
+             WHERE timeline = ? AND value_type_tag = 0 AND v >= ? AND v < ?
+             ORDER BY v",
+        )?;
+        let mut rows = stmt.query(&[
+            &crate::TIMELINE_MAIN,
+            &partition.next_entid(),
+            &partition.end,
+        ])?;
+        while let Some(row) = rows.next()? {
+            let next = partition.next_entid();
+            if row.get::<_, Entid>(0)? != next {
+                break;
+            }
+            partition.set_next_entid(next + 1);
+        }
+    }
+    Ok(partition_map)
 }
 
 /// Read the ident map materialized view from the given SQL store.
-- 
2.43.0


From db16a7a5941e0ee402859fdfc55e8246d7f244fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 17/87] fix: truncate transacted instants to the stored
 precision

---
 db/src/db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 6aeef67..e3f4f98 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -456,7 +456,10 @@ impl TypedSQLValue for TypedValue {
     fn from_edn_value(value: &Value) -> Option<TypedValue> {
         match value {
             Value::Boolean(x) => Some(TypedValue::Boolean(*x)),
-            Value::Instant(x) => Some(TypedValue::Instant(*x)),
+            // The store keeps microseconds; so must everything that reports this value.
+            Value::Instant(x) => Some(TypedValue::Instant(DateTime::<Utc>::from_micros(
+                x.to_micros(),
+            ))),
             Value::Integer(x) => Some(TypedValue::Long(*x)),
             Value::Uuid(x) => Some(TypedValue::Uuid(*x)),
             Value::Float(ref x) => Some(TypedValue::Double(*x)),
-- 
2.43.0


From 1e4a695752349a23929184aa0595a56d21d7eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 18/87] fix: let :db/noHistory take effect

---
 db/src/entids.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/entids.rs b/db/src/entids.rs
index 6308926..3c07974 100644
--- a/db/src/entids.rs
+++ b/db/src/entids.rs
@@ -72,6 +72,7 @@ pub fn might_update_metadata(attribute: Entid) -> bool {
         DB_FULLTEXT |
         DB_INDEX |
         DB_IS_COMPONENT |
+        DB_NO_HISTORY |
         DB_UNIQUE |
         DB_VALUE_TYPE
     )
@@ -86,6 +87,7 @@ pub fn is_a_schema_attribute(attribute: Entid) -> bool {
             | DB_FULLTEXT
             | DB_INDEX
             | DB_IS_COMPONENT
+            | DB_NO_HISTORY
             | DB_UNIQUE
             | DB_VALUE_TYPE
     )
@@ -100,23 +102,25 @@ lazy_static! {
 
     /// Attributes that are "schema related".  These might change the "schema" materialized view.
     pub static ref SCHEMA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
 
     /// Attributes that are "metadata" related.  These might change one of the materialized views.
     pub static ref METADATA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_IDENT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
-- 
2.43.0


From 4c220290ff976761c8bf20f045278c086578afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 19/87] fix: allow cardinality many to become one when no
 entity has several values

---
 db/src/db.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index e3f4f98..5a1cac5 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1325,8 +1325,9 @@ SELECT EXISTS
                     // TODO: improve the failure message.  Perhaps try to mimic what Datomic says in
                     // this case?
                     if !attribute.multival {
-                        let mut rows = cardinality_stmt.query(&[&entid as &dyn ToSql])?;
-                        if rows.next()?.is_some() {
+                        let conflicts: bool = cardinality_stmt
+                            .query_row(&[&entid as &dyn ToSql], |row| row.get(0))?;
+                        if conflicts {
                             bail!(DbErrorKind::SchemaAlterationFailed(format!(
                                 "Cannot alter schema attribute {} to be :db.cardinality/one",
                                 entid
-- 
2.43.0


From 8473ac4b10d77de4117659715f7a8c98df94b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 20/87] fix: allocate one entid for tempids identified with
 each other

---
 db/src/tx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index fab3cc5..99d998d 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -801,10 +801,13 @@ where
 
         debug!("unresolved tempids {:?}", unresolved_temp_ids);
 
+        // Tempids that were identified with each other share an entid.
+        let entid_count = unresolved_temp_ids.values().max().map_or(0, |i| i + 1);
+
         // TODO: track partitions for temporary IDs.
         let entids = self
             .partition_map
-            .allocate_entids(":db.part/user", unresolved_temp_ids.len());
+            .allocate_entids(":db.part/user", entid_count);
 
         let temp_id_allocations = unresolved_temp_ids
             .into_iter()
-- 
2.43.0


From 5ac83b639f76e989bc856bea5643d6a1837b8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 21/87] fix: keep rows distinct when an attribute is found by
 value

---
 db/src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 5a1cac5..b4d4c5b 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -191,7 +191,11 @@ lazy_static! {
         // transactor in all cases, but the index may speed up some of SQLite's query planning.  For now,
         // it serves to validate the transactor implementation.  Note that tag is needed here to
         // differentiate, e.g., keywords and strings.
-        r#"CREATE UNIQUE INDEX idx_datoms_unique_value ON datoms (a, value_type_tag, v) WHERE unique_value IS NOT 0"#,
+        //
+        // The flag itself, constant in the index, is part of the key because SQLite doesn't consider
+        // that a unique index is partial when it decides that `SELECT DISTINCT` needn't do anything:
+        // without it `[:find ?a :where [_ ?a true]]` returns repeated rows.
+        r#"CREATE UNIQUE INDEX idx_datoms_unique_value ON datoms (a, value_type_tag, v, unique_value) WHERE unique_value IS NOT 0"#,
 
         r#"CREATE TABLE timelined_transactions (e INTEGER NOT NULL, a SMALLINT NOT NULL, v BLOB NOT NULL, tx INTEGER NOT NULL, added TINYINT NOT NULL DEFAULT 1, value_type_tag SMALLINT NOT NULL, timeline TINYINT NOT NULL DEFAULT 0)"#,
         r#"CREATE INDEX idx_timelined_transactions_timeline ON timelined_transactions (timeline)"#,
-- 
2.43.0


From db7fb1023cb77ed389c70911a57d0821ec36cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 22/87] fix: ground negative integers

---
 query-algebrizer/src/clauses/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 9448229..219eb4b 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -138,11 +138,11 @@ impl ConjoiningClauses {
                         // This can only be a ref.
                         Ok(Val(TypedValue::Ref(x)))
                     }
-                    (_, false, true) => {
+                    (_, false, true) | (false, true, true) => {
                         // This can only be a long.
                         Ok(Val(TypedValue::Long(x)))
                     }
-                    (false, true, _) => {
+                    (false, true, false) => {
                         // This isn't a valid ref, but that's the type to which this must conform!
                         Ok(Impossible(EmptyBecause::TypeMismatch {
                             var: var.clone(),
-- 
2.43.0


From 97640dc3cfd769660c55f966196a9318622d9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 23/87] fix: compare the types of values, not only their
 representation, in joins

---
 query-algebrizer/src/clauses/mod.rs        | 113 ++++++++++++++++-----
 query-algebrizer/src/clauses/not.rs        |   5 +
 query-algebrizer/src/clauses/or.rs         |  63 +++++++++---
 query-algebrizer/src/clauses/pattern.rs    |  16 ++-
 query-algebrizer/src/clauses/tx_log_api.rs |   4 +
 query-algebrizer/src/lib.rs                |   1 +
 query-algebrizer/src/types.rs              |  25 +++--
 7 files changed, 181 insertions(+), 46 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 09bfe66..1af3a73 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -18,7 +18,7 @@ use std::fmt::{Debug, Formatter};
 
 use core_traits::{Attribute, Entid, KnownEntid, TypedValue, ValueType, ValueTypeSet};
 
-use mentat_core::{Cloned, HasSchema, Schema};
+use mentat_core::{Cloned, HasSchema, SQLValueType, Schema};
 
 use mentat_core::counter::RcCounter;
 
@@ -27,9 +27,10 @@ use edn::query::{Element, FindSpec, Keyword, PatternNonValuePlace, Pull, Variabl
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
 use crate::types::{
-    Column, ColumnConstraint, ColumnIntersection, ComputedTable, DatomsColumn, DatomsTable,
-    EmptyBecause, EvolvedNonValuePlace, EvolvedPattern, EvolvedValuePlace, FulltextColumn,
-    PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias, TableAlias,
+    Column, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation, ColumnIntersection,
+    ComputedTable, DatomsColumn, DatomsTable, EmptyBecause, EvolvedNonValuePlace, EvolvedPattern,
+    EvolvedValuePlace, FulltextColumn, PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias,
+    TableAlias,
 };
 
 mod convert; // Converting args to values.
@@ -174,6 +175,12 @@ pub struct ConjoiningClauses {
     /// If a var isn't unit in `known_types`, it should be present here.
     pub extracted_types: BTreeMap<Variable, QualifiedAlias>,
 
+    /// Those of our bound columns whose values can be of different types in different rows, each
+    /// with the column that holds the type tag. A value column belongs here unless the attribute
+    /// is known. Values of different types can have the same representation in the store, so these
+    /// can't be compared with anything without also comparing types: see `expand_type_tags`.
+    untyped_columns: BTreeMap<QualifiedAlias, QualifiedAlias>,
+
     /// Map of variables to the set of type requirements we have for them.
     required_types: BTreeMap<Variable, ValueTypeSet>,
 }
@@ -227,6 +234,7 @@ impl Default for ConjoiningClauses {
             value_bindings: BTreeMap::new(),
             known_types: BTreeMap::new(),
             extracted_types: BTreeMap::new(),
+            untyped_columns: BTreeMap::new(),
         }
     }
 }
@@ -359,8 +367,7 @@ impl ConjoiningClauses {
         // Are we also trying to figure out the type of the value when the query runs?
         // If so, constrain that!
         if let Some(qa) = self.extracted_types.get(&var) {
-            self.wheres
-                .add_intersection(ColumnConstraint::has_unit_type(qa.0.clone(), vt));
+            self.wheres.add(type_constraint(qa, ValueTypeSet::of_one(vt), false));
         }
 
         // Finally, store the binding for future use.
@@ -1066,11 +1073,7 @@ impl ConjoiningClauses {
                 .extracted_types
                 .get(&var)
                 .ok_or_else(|| AlgebrizerError::UnboundVariable(var.name()))?;
-            self.wheres.add_intersection(ColumnConstraint::HasTypes {
-                value: qa.0.clone(),
-                value_types: types,
-                check_value: true,
-            });
+            self.wheres.add(type_constraint(qa, types, true));
         }
 
         if let Some(reason) = empty_because {
@@ -1080,6 +1083,11 @@ impl ConjoiningClauses {
         Ok(())
     }
 
+    /// Record that the values in the column can be of different types.
+    pub(crate) fn mark_column_untyped(&mut self, column: QualifiedAlias, tag: QualifiedAlias) {
+        self.untyped_columns.insert(column, tag);
+    }
+
     /// When a CC has accumulated all patterns, generate value_type_tag entries in `wheres`
     /// to refine value types for which two things are true:
     ///
@@ -1087,20 +1095,50 @@ impl ConjoiningClauses {
     ///   ValueType::Boolean shares a representation with Integer and Ref.
     /// - There is no attribute constraint present in the CC.
     ///
-    /// It's possible at this point for the space of acceptable type tags to not intersect: e.g.,
-    /// for the query
-    ///
-    /// ```edn
-    /// [:find ?x :where
-    ///  [?x ?y true]
-    ///  [?z ?y ?x]]
-    /// ```
-    ///
-    /// where `?y` must simultaneously be a ref-typed attribute and a boolean-typed attribute. This
-    /// function deduces that and calls `self.mark_known_empty`. #293.
-    #[allow(dead_code)]
+    /// If we know the type of a variable, every column that's bound to it must hold values of that
+    /// type. If we don't, every column must hold a value of the same type as the others.
     pub(crate) fn expand_type_tags(&mut self) {
-        // TODO.
+        let untyped = &self.untyped_columns;
+        for (var, cols) in self.column_bindings.iter() {
+            // We'll learn the value and the type of an input variable later.
+            if self.input_variables.contains(var) {
+                continue;
+            }
+
+            let mut tags = cols.iter().filter_map(|col| untyped.get(col));
+            match self.known_type(var) {
+                // We don't look at the type of a value that's also an entity, an attribute or a
+                // transaction.
+                Some(ValueType::Ref) if cols.iter().any(|col| col.is_entity_column()) => {}
+
+                Some(value_type) => {
+                    for tag in tags {
+                        // Binding a value or requiring a type might have constrained this already.
+                        let types = ValueTypeSet::of_one(value_type);
+                        if self.wheres.0.contains(&type_constraint(tag, types, false))
+                            || self.required_types.contains_key(var)
+                                && self.extracted_types.get(var) == Some(tag)
+                        {
+                            continue;
+                        }
+                        self.wheres.add_intersection(ColumnConstraint::Equals(
+                            tag.clone(),
+                            QueryValue::Entid(i64::from(value_type.value_type_tag())),
+                        ));
+                    }
+                }
+                None => {
+                    if let Some(primary) = tags.next() {
+                        for secondary in tags {
+                            self.wheres.add_intersection(ColumnConstraint::Equals(
+                                primary.clone(),
+                                QueryValue::Column(secondary.clone()),
+                            ));
+                        }
+                    }
+                }
+            }
+        }
     }
 }
 
@@ -1211,6 +1249,33 @@ impl ConjoiningClauses {
     }
 }
 
+/// Constrain the type tag in `tag` to be that of one of `types`.
+fn type_constraint(
+    tag: &QualifiedAlias,
+    types: ValueTypeSet,
+    check_value: bool,
+) -> ColumnConstraintOrAlternation {
+    match tag.1 {
+        // The columns of a computed table are named after variables.
+        Column::Variable(_) => {
+            let alternates = types.into_iter().map(|t| {
+                let mut alternate = ColumnIntersection::default();
+                alternate.add_intersection(ColumnConstraint::Equals(
+                    tag.clone(),
+                    QueryValue::Entid(i64::from(t.value_type_tag())),
+                ));
+                alternate
+            });
+            ColumnConstraintOrAlternation::Alternation(ColumnAlternation(alternates.collect()))
+        }
+        _ => ColumnConstraintOrAlternation::Constraint(ColumnConstraint::HasTypes {
+            value: tag.0.clone(),
+            value_types: types,
+            check_value,
+        }),
+    }
+}
+
 pub(crate) trait PushComputed {
     fn push_computed(&mut self, item: ComputedTable) -> DatomsTable;
 }
diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 8b08f19..3718300 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -33,6 +33,9 @@ impl ConjoiningClauses {
                 template.value_bindings.insert(v.clone(), val);
             } else if self.column_bindings.contains_key(&v) {
                 let col = self.column_bindings.get(&v).unwrap()[0].clone();
+                if let Some(tag) = self.untyped_columns.get(&col) {
+                    template.mark_column_untyped(col.clone(), tag.clone());
+                }
                 template.column_bindings.insert(v.clone(), vec![col]);
             } else {
                 bail!(AlgebrizerError::UnboundVariable(v.name()));
@@ -60,6 +63,8 @@ impl ConjoiningClauses {
             return Ok(());
         }
 
+        template.expand_type_tags();
+
         // If we don't impose any constraints on the output, we might as well
         // not exist.
         if template.wheres.is_empty() {
diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1376fa6..0390c2f 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -11,7 +11,7 @@
 use std::collections::btree_map::Entry;
 use std::collections::{BTreeMap, BTreeSet};
 
-use core_traits::ValueTypeSet;
+use core_traits::{ValueType, ValueTypeSet};
 
 use edn::query::{
     OrJoin, OrWhereClause, Pattern, PatternNonValuePlace, PatternValuePlace, UnifyVars, Variable,
@@ -112,6 +112,8 @@ impl ConjoiningClauses {
     /// - Each pattern uses the same variables. (That's checked by validation.)
     /// - Each pattern has the same shape, so we can extract bindings from the same columns
     ///   regardless of which clause matched.
+    /// - If patterns bind a variable in the value place, they bind it to the same type, so we can
+    ///   compare it with other columns without looking at its type tag.
     ///
     /// Like this:
     ///
@@ -177,6 +179,9 @@ impl ConjoiningClauses {
         // Keep track of the table we need every pattern to use.
         let mut expected_table: Option<DatomsTable> = None;
 
+        // Keep track of the type of the values the patterns bind, if they bind any.
+        let mut expected_type: Option<ValueType> = None;
+
         // Technically we might have several reasons, but we take the last -- that is, that's the
         // reason we don't have at least one pattern!
         // We'll return this as our reason if no pattern can return results.
@@ -198,7 +203,22 @@ impl ConjoiningClauses {
                 let table = match self.make_evolved_attribute(&known, p.attribute.clone()) {
                     Place((aaa, value_type)) => {
                         match self.make_evolved_value(&known, value_type, p.value.clone()) {
-                            Place(v) => self.table_for_places(known.schema, &aaa, &v),
+                            Place(v) => {
+                                // A pattern that can only bind values of another type than the
+                                // variable is known to have doesn't match either.
+                                let mismatch = match (&p.value, value_type) {
+                                    (&PatternValuePlace::Variable(ref var), Some(t)) => {
+                                        self.can_constrain_var_to_type(var, t)
+                                    }
+                                    _ => None,
+                                };
+                                match mismatch {
+                                    Some(e) => Err(e),
+                                    None => self
+                                        .table_for_places(known.schema, &aaa, &v)
+                                        .map(|table| (table, value_type)),
+                                }
+                            }
                             Empty(e) => Err(e),
                         }
                     }
@@ -212,14 +232,18 @@ impl ConjoiningClauses {
                         // Do not accumulate this pattern at all. Add lightness!
                         continue;
                     }
-                    Ok(table) => {
+                    Ok((table, value_type)) => {
                         // Check the shape of the pattern against a previous pattern.
                         let same_shape = if let Some(template) = patterns.get(0) {
                             template.source == p.source &&     // or-arms all use the same source anyway.
                                 _simply_matches_place(&template.entity, &p.entity) &&
                                 _simply_matches_place(&template.attribute, &p.attribute) &&
                                 _simply_matches_value_place(&template.value, &p.value) &&
-                                _simply_matches_place(&template.tx, &p.tx)
+                                _simply_matches_place(&template.tx, &p.tx) &&
+                                match p.value {
+                                    PatternValuePlace::Variable(_) => expected_type == value_type,
+                                    _ => true,
+                                }
                         } else {
                             // No previous pattern.
                             true
@@ -234,6 +258,7 @@ impl ConjoiningClauses {
                             }
                             if expected_table.is_none() {
                                 expected_table = Some(table);
+                                expected_type = value_type;
                                 patterns.push(p);
                                 continue;
                             }
@@ -432,6 +457,8 @@ impl ConjoiningClauses {
             // Because we just made an empty template, and created a new alias from the destination CC,
             // we know that we can blindly merge: collisions aren't possible.
             if let Some(first) = receptacles.peek() {
+                self.untyped_columns
+                    .append(&mut first.untyped_columns.clone());
                 for (v, cols) in &first.column_bindings {
                     match self.column_bindings.entry(v.clone()) {
                         Entry::Vacant(e) => {
@@ -577,12 +604,16 @@ impl ConjoiningClauses {
                     receptacle.apply_clause(known, clause)?;
                 }
             }
-            if receptacle.is_known_empty() {
-                empty_because = receptacle.empty_because;
-            } else {
+            if !receptacle.is_known_empty() {
                 receptacle.expand_column_bindings();
                 receptacle.prune_extracted_types();
                 receptacle.process_required_types()?;
+                receptacle.expand_type_tags();
+            }
+            // Requiring types can also find that the arm can't match.
+            if receptacle.is_known_empty() {
+                empty_because = receptacle.empty_because;
+            } else {
                 acc.push(receptacle);
             }
         }
@@ -639,10 +670,12 @@ impl ConjoiningClauses {
         let projection: BTreeSet<Variable> = projected.into_iter().collect();
         let mut type_needed: BTreeSet<Variable> = BTreeSet::default();
 
-        // For any variable which has an imprecise type anywhere in the UNION, add it to the
-        // set that needs type extraction. All UNION arms must project the same columns.
+        // For any variable which has an imprecise type anywhere in the UNION, or different types
+        // in different arms, add it to the set that needs type extraction. All UNION arms must
+        // project the same columns.
         for var in projection.iter() {
-            if acc.iter().any(|cc| cc.known_type(var).is_none()) {
+            let first_type = acc[0].known_type(var);
+            if first_type.is_none() || acc.iter().any(|cc| cc.known_type(var) != first_type) {
                 type_needed.insert(var.clone());
             }
         }
@@ -690,10 +723,12 @@ impl ConjoiningClauses {
             );
         }
         for var in type_associations.into_iter() {
-            self.extracted_types.insert(
-                var.clone(),
-                QualifiedAlias::new(alias.clone(), VariableColumn::VariableTypeTag(var)),
-            );
+            let value =
+                QualifiedAlias::new(alias.clone(), VariableColumn::Variable(var.clone()));
+            let tag =
+                QualifiedAlias::new(alias.clone(), VariableColumn::VariableTypeTag(var.clone()));
+            self.mark_column_untyped(value, tag.clone());
+            self.extracted_types.insert(var, tag);
         }
         self.from.push(SourceAlias(table, alias));
         Ok(())
diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 154acde..105497b 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -22,7 +22,7 @@ use crate::clauses::ConjoiningClauses;
 
 use crate::types::{
     ColumnConstraint, DatomsColumn, EmptyBecause, EvolvedNonValuePlace, EvolvedPattern,
-    EvolvedValuePlace, PlaceOrEmpty, SourceAlias,
+    EvolvedValuePlace, PlaceOrEmpty, QualifiedAlias, SourceAlias,
 };
 
 use crate::Known;
@@ -146,13 +146,25 @@ impl ConjoiningClauses {
                     if self.is_known_empty() {
                         return;
                     }
+                } else {
+                    let value = QualifiedAlias::new(col.clone(), DatomsColumn::Value);
+                    let tag = QualifiedAlias::new(col.clone(), DatomsColumn::ValueTypeTag);
+                    self.mark_column_untyped(value, tag);
                 }
 
                 self.bind_column_to_var(schema, col.clone(), DatomsColumn::Value, v.clone());
             }
             EvolvedValuePlace::Entid(i) => match value_type {
-                Some(ValueType::Ref) | None => {
+                Some(ValueType::Ref) => {
+                    self.constrain_column_to_entity(col.clone(), DatomsColumn::Value, i);
+                }
+                None => {
                     self.constrain_column_to_entity(col.clone(), DatomsColumn::Value, i);
+                    self.wheres
+                        .add_intersection(ColumnConstraint::has_unit_type(
+                            col.clone(),
+                            ValueType::Ref,
+                        ));
                 }
                 Some(value_type) => {
                     self.mark_known_empty(EmptyBecause::ValueTypeMismatch(
diff --git a/query-algebrizer/src/clauses/tx_log_api.rs b/query-algebrizer/src/clauses/tx_log_api.rs
index 65632b0..11b7f98 100644
--- a/query-algebrizer/src/clauses/tx_log_api.rs
+++ b/query-algebrizer/src/clauses/tx_log_api.rs
@@ -272,6 +272,10 @@ impl ConjoiningClauses {
         }
 
         if let VariableOrPlaceholder::Variable(ref var) = b_v {
+            self.mark_column_untyped(
+                QualifiedAlias::new(transactions.clone(), TransactionsColumn::Value),
+                QualifiedAlias::new(transactions.clone(), TransactionsColumn::ValueTypeTag),
+            );
             self.bind_column_to_var(
                 known.schema,
                 transactions.clone(),
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 36cdbe7..db07a83 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -323,6 +323,7 @@ pub fn algebrize_with_inputs(
     cc.expand_column_bindings();
     cc.prune_extracted_types();
     cc.process_required_types()?;
+    cc.expand_type_tags();
 
     let (order, extra_vars) = validate_and_simplify_order(&cc, parsed.order)?;
 
diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index bde772a..6119cd5 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -62,7 +62,7 @@ pub trait ColumnName {
 }
 
 /// One of the named columns of our tables.
-#[derive(PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
 pub enum DatomsColumn {
     Entity,
     Attribute,
@@ -72,14 +72,14 @@ pub enum DatomsColumn {
 }
 
 /// One of the named columns of our fulltext values table.
-#[derive(PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
 pub enum FulltextColumn {
     Rowid,
     Text,
 }
 
 /// One of the named columns of our transactions table.
-#[derive(PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
 pub enum TransactionsColumn {
     Entity,
     Attribute,
@@ -89,13 +89,13 @@ pub enum TransactionsColumn {
     ValueTypeTag,
 }
 
-#[derive(PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
 pub enum VariableColumn {
     Variable(Variable),
     VariableTypeTag(Variable),
 }
 
-#[derive(PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
 pub enum Column {
     Fixed(DatomsColumn),
     Fulltext(FulltextColumn),
@@ -256,7 +256,7 @@ impl Debug for SourceAlias {
 }
 
 /// A particular column of a particular aliased table. E.g., "datoms123", Attribute.
-#[derive(PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
 pub struct QualifiedAlias(pub TableAlias, pub Column);
 
 impl Debug for QualifiedAlias {
@@ -270,6 +270,19 @@ impl QualifiedAlias {
         QualifiedAlias(table, column.into())
     }
 
+    /// True for the columns that can only hold entities.
+    pub fn is_entity_column(&self) -> bool {
+        match self.1 {
+            Column::Fixed(DatomsColumn::Entity)
+            | Column::Fixed(DatomsColumn::Attribute)
+            | Column::Fixed(DatomsColumn::Tx)
+            | Column::Transactions(TransactionsColumn::Entity)
+            | Column::Transactions(TransactionsColumn::Attribute)
+            | Column::Transactions(TransactionsColumn::Tx) => true,
+            _ => false,
+        }
+    }
+
     pub fn for_associated_type_tag(&self) -> Option<QualifiedAlias> {
         match self.1 {
             Column::Fixed(ref c) => c.associated_type_tag_column().map(Column::Fixed),
-- 
2.43.0


From a1a1fd2c62b61f5630c5da97181514b31ef60402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 24/87] fix: keep the variables of or-join and not-join private

An implicit or around an or-join or not-join unified every variable
mentioned inside it, and an or-join leaked the types of its own variables
into the enclosing clauses.
---
 edn/src/query.rs                    | 11 +++++++++--
 query-algebrizer/src/clauses/mod.rs |  3 +--
 query-algebrizer/src/clauses/or.rs  |  5 ++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/edn/src/query.rs b/edn/src/query.rs
index 7cc6bcd..08d93d4 100644
--- a/edn/src/query.rs
+++ b/edn/src/query.rs
@@ -1080,10 +1080,17 @@ impl ContainsVariables for WhereClause {
     fn accumulate_mentioned_variables(&self, acc: &mut BTreeSet<Variable>) {
         use self::WhereClause::*;
         match self {
-            OrJoin(ref o) => o.accumulate_mentioned_variables(acc),
+            OrJoin(ref o) => match o.unify_vars {
+                // The variables an explicit `or-join` or `not-join` doesn't list are private to it.
+                UnifyVars::Explicit(ref vars) => acc.extend(vars.iter().cloned()),
+                UnifyVars::Implicit => o.accumulate_mentioned_variables(acc),
+            },
             Pred(ref p) => p.accumulate_mentioned_variables(acc),
             Pattern(ref p) => p.accumulate_mentioned_variables(acc),
-            NotJoin(ref n) => n.accumulate_mentioned_variables(acc),
+            NotJoin(ref n) => match n.unify_vars {
+                UnifyVars::Explicit(ref vars) => acc.extend(vars.iter().cloned()),
+                UnifyVars::Implicit => n.accumulate_mentioned_variables(acc),
+            },
             WhereFn(ref f) => f.accumulate_mentioned_variables(acc),
             TypeAnnotation(ref a) => a.accumulate_mentioned_variables(acc),
             RuleExpr => (),
diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 1af3a73..92fa5c8 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -8,7 +8,6 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::cmp;
 
 use std::collections::{BTreeMap, BTreeSet, VecDeque};
 
@@ -89,7 +88,7 @@ impl<K: Clone + Ord, V: Clone> Intersection<K> for BTreeMap<K, V> {
             self.clear();
         }
 
-        let expected_remaining = cmp::max(0, self.len() - ks.len());
+        let expected_remaining = self.len().saturating_sub(ks.len());
         let mut to_remove = Vec::with_capacity(expected_remaining);
         for k in self.keys() {
             if !ks.contains(k) {
diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 0390c2f..b413c11 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -18,7 +18,7 @@ use edn::query::{
     WhereClause,
 };
 
-use crate::clauses::{ConjoiningClauses, PushComputed};
+use crate::clauses::{ConjoiningClauses, Intersection, PushComputed};
 
 use query_algebrizer_traits::errors::Result;
 
@@ -701,6 +701,9 @@ impl ConjoiningClauses {
             for cc in clauses {
                 union_types(&mut additional_types, &cc.known_types);
             }
+            // Variables that aren't unified are private to their arm: the enclosing CC might use the
+            // same name for something else.
+            additional_types.keep_intersected_keys(&projection);
             self.broaden_types(additional_types);
         }
 
-- 
2.43.0


From 43689c82e95ec5638f9759164e6a715a38a774c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 25/87] fix: don't let a not clause's computed tables hide the
 enclosing query's

---
 query-algebrizer/src/clauses/mod.rs | 9 ++++++++-
 query-algebrizer/src/clauses/not.rs | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 92fa5c8..f88d158 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -141,6 +141,10 @@ pub struct ConjoiningClauses {
     /// an identifier in a `DatomsTable::Computed(c)` table reference.
     pub computed_tables: Vec<ComputedTable>,
 
+    /// The number to give to the alias of the first computed table. A correlated subquery starts
+    /// after the computed tables of the CC that encloses it, so that it can't hide them.
+    computed_alias_base: usize,
+
     /// A list of fragments that can be joined by `AND`.
     pub wheres: ColumnIntersection,
 
@@ -226,6 +230,7 @@ impl Default for ConjoiningClauses {
             alias_counter: RcCounter::new(),
             from: vec![],
             computed_tables: vec![],
+            computed_alias_base: 0,
             wheres: ColumnIntersection::default(),
             required_types: BTreeMap::new(),
             input_variables: BTreeSet::new(),
@@ -893,7 +898,9 @@ impl ConjoiningClauses {
 
     pub(crate) fn next_alias_for_table(&mut self, table: DatomsTable) -> TableAlias {
         match table {
-            DatomsTable::Computed(u) => format!("{}{:02}", table.name(), u),
+            DatomsTable::Computed(u) => {
+                format!("{}{:02}", table.name(), self.computed_alias_base + u)
+            }
             _ => format!("{}{:02}", table.name(), self.alias_counter.next()),
         }
     }
diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 3718300..6d6977d 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -26,6 +26,7 @@ impl ConjoiningClauses {
         };
 
         let mut template = self.use_as_template(&unified);
+        template.computed_alias_base = self.computed_alias_base + self.computed_tables.len();
 
         for v in unified.iter() {
             if self.value_bindings.contains_key(&v) {
-- 
2.43.0


From f5f63ab55b0e6565570953527ab01354d758a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 26/87] fix: stop applying clauses once nothing can match

---
 query-algebrizer/src/clauses/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index f88d158..6448dd5 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -1221,6 +1221,11 @@ impl ConjoiningClauses {
                         self.apply_evolved_patterns(known, patterns)?;
                         patterns = VecDeque::with_capacity(remaining);
                     }
+                    // Once nothing can match, patterns no longer bind the variables that other
+                    // clauses need.
+                    if self.is_known_empty() {
+                        return Ok(());
+                    }
                     self.apply_clause(known, clause)?;
                 }
             }
-- 
2.43.0


From a84013886e01d780307c06989dd1c138346fce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 27/87] fix: don't use type tags of the enclosing query in the
 arms of an or

---
 query-algebrizer/src/clauses/or.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index b413c11..826178e 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -589,7 +589,9 @@ impl ConjoiningClauses {
             UnifyVars::Explicit(vs) => vs,
         };
 
-        let template = self.use_as_template(&projected);
+        let mut template = self.use_as_template(&projected);
+        // The arms of a UNION can't see the columns of the enclosing CC, those for type tags included.
+        template.extracted_types.clear();
 
         let mut acc = Vec::with_capacity(join_clauses.len());
         let mut empty_because: Option<EmptyBecause> = None;
-- 
2.43.0


From 39adf8faa54299eb0db559377cb6588e082afbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 28/87] fix: aggregate constants and empty sets like other
 values

The average of a constant was an integer, the extreme of a constant was
returned for no rows, and the sum of no rows failed.
---
 query-projector-traits/aggregates.rs | 53 +++++++++-------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index e0b5831..7a0889e 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -150,20 +150,12 @@ impl SimpleAggregate {
         format!("({} {})", self.op.to_sql(), self.var.name())
     }
 
-    pub fn use_static_value(&self) -> bool {
-        use self::SimpleAggregationOp::*;
-        match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
-        }
-    }
-
     /// Return `true` if this aggregate can be `NULL` over 0 rows.
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 }
@@ -194,35 +186,22 @@ pub fn projected_column_for_simple_aggregate(
 ) -> Result<(ProjectedColumn, ValueType)> {
     let known_types = cc.known_type_set(&simple.var);
     let return_type = simple.op.is_applicable_to_types(known_types)?;
-    let projected_column_or_expression = if let Some(value) = cc.bound_value(&simple.var) {
-        // Oh, we already know the value!
-        if simple.use_static_value() {
-            // We can statically compute the aggregate result for some operators -- not count or
-            // sum, but avg/max/min are OK.
-            ColumnOrExpression::Value(value)
-        } else {
-            let expression = Expression::Unary {
-                sql_op: simple.op.to_sql(),
-                arg: ColumnOrExpression::Value(value),
-            };
-            if simple.is_nullable() {
-                ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-            } else {
-                ColumnOrExpression::Expression(Box::new(expression), return_type)
-            }
-        }
+    let arg = if let Some(value) = cc.bound_value(&simple.var) {
+        // Oh, we already know the value! There might be no rows to aggregate, though, and the mean
+        // of a long is a double, so it's not the result.
+        ColumnOrExpression::Value(value)
     } else {
         // The common case: the values are bound during execution.
-        let name = VariableColumn::Variable(simple.var.clone()).column_name();
-        let expression = Expression::Unary {
-            sql_op: simple.op.to_sql(),
-            arg: ColumnOrExpression::ExistingColumn(name),
-        };
-        if simple.is_nullable() {
-            ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-        } else {
-            ColumnOrExpression::Expression(Box::new(expression), return_type)
-        }
+        ColumnOrExpression::ExistingColumn(VariableColumn::Variable(simple.var.clone()).column_name())
+    };
+    let expression = Box::new(Expression::Unary {
+        sql_op: simple.op.to_sql(),
+        arg,
+    });
+    let projected_column_or_expression = if simple.is_nullable() {
+        ColumnOrExpression::NullableAggregate(expression, return_type)
+    } else {
+        ColumnOrExpression::Expression(expression, return_type)
     };
     Ok((
         ProjectedColumn(projected_column_or_expression, simple.column_name()),
-- 
2.43.0


From 273b4b8e673781330daf73232be54b200ed43c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 29/87] fix: give no groups when no rows match, and ignore the
 order of nothing

A grouped aggregate whose group is a constant gave a row with a missing value
when nothing matched, and :order was refused in queries known to be empty.
---
 query-algebrizer/src/lib.rs    | 2 ++
 query-projector/src/project.rs | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index db07a83..31cc048 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -217,6 +217,8 @@ fn validate_and_simplify_order(
 ) -> Result<(Option<Vec<OrderBy>>, BTreeSet<Variable>)> {
     match order {
         None => Ok((None, BTreeSet::default())),
+        // There's nothing to order, and variables might have been left without bindings.
+        Some(_) if cc.is_known_empty() => Ok((None, BTreeSet::default())),
         Some(order) => {
             let mut order_bys: Vec<OrderBy> = Vec::with_capacity(order.len() * 2); // Space for tags.
             let mut vars: BTreeSet<Variable> = BTreeSet::default();
diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index 4b036a0..5506c78 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -441,6 +441,11 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
 
     for (var, group) in vars.chain(corresponds) {
         if query.cc.is_value_bound(&var) {
+            // Without any grouping there would be a row even if nothing matches.
+            if group && inner_variables.contains(&var) {
+                let name = VariableColumn::Variable(var.clone()).column_name();
+                group_by.push(GroupBy::ProjectedColumn(name));
+            }
             continue;
         }
 
-- 
2.43.0


From 5a3214621f882371b25b4505c4a981c03d9c6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 30/87] fix: order by a variable of numeric type that is not
 projected

---
 query-algebrizer/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 31cc048..66e2f82 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -26,7 +26,7 @@ mod validate;
 
 use core_traits::{Entid, TypedValue, ValueType};
 
-use mentat_core::{parse_query, CachedAttributes, Schema};
+use mentat_core::{parse_query, CachedAttributes, SQLValueTypeSet, Schema};
 
 use mentat_core::counter::RcCounter;
 
@@ -235,7 +235,8 @@ fn validate_and_simplify_order(
                 }
 
                 // Otherwise, determine if we also need to order by type…
-                if cc.known_type(&var).is_none() {
+                // Types that share a tag don't need that, and their tag might not be projected.
+                if !cc.known_type_set(&var).has_unique_type_tag() {
                     order_bys.push(OrderBy(
                         direction.clone(),
                         VariableColumn::VariableTypeTag(var.clone()),
-- 
2.43.0


From 8e5f2310ee9f1f134f32b190d1ffe7e66deb18cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:10 +0000
Subject: [PATCH 31/87] fix: report inputs that are not given even if a clause
 binds them

---
 query-algebrizer/src/clauses/inputs.rs |  5 +++++
 transaction/src/query.rs               | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/query-algebrizer/src/clauses/inputs.rs b/query-algebrizer/src/clauses/inputs.rs
index c6b9d27..215a909 100644
--- a/query-algebrizer/src/clauses/inputs.rs
+++ b/query-algebrizer/src/clauses/inputs.rs
@@ -37,6 +37,11 @@ impl Default for QueryInputs {
 }
 
 impl QueryInputs {
+    /// Whether a value (not only a type) is given for `var`.
+    pub fn has_value(&self, var: &Variable) -> bool {
+        self.values.contains_key(var)
+    }
+
     pub fn with_value_sequence(vals: Vec<(Variable, TypedValue)>) -> QueryInputs {
         let values: BTreeMap<Variable, TypedValue> = vals.into_iter().collect();
         QueryInputs::with_values(values)
diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 9f017c5..aad3845 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -11,6 +11,7 @@
 use rusqlite;
 use rusqlite::types::ToSql;
 
+use std::collections::BTreeSet;
 use std::rc::Rc;
 
 use core_traits::{Binding, Entid, KnownEntid, TypedValue};
@@ -145,15 +146,20 @@ fn algebrize_query<T>(known: Known, query: FindQuery, inputs: T) -> Result<Algeb
 where
     T: Into<Option<QueryInputs>>,
 {
-    let algebrized = algebrize_with_inputs(known, query, 0, inputs.into().unwrap_or_default())?;
-    let unbound = algebrized.unbound_variables();
+    let inputs = inputs.into().unwrap_or_default();
     // Because we are running once, we can check that all of our `:in` variables are bound at this point.
     // If they aren't, the user has made an error -- perhaps writing the wrong variable in `:in`, or
-    // not binding in the `QueryInput`.
+    // not binding in the `QueryInput`. Look before algebrizing: clauses such as `ground` bind
+    // variables, too.
+    let unbound: BTreeSet<String> = query
+        .in_vars
+        .iter()
+        .filter(|v| !inputs.has_value(v))
+        .map(|v| v.to_string())
+        .collect();
+    let algebrized = algebrize_with_inputs(known, query, 0, inputs)?;
     if !unbound.is_empty() {
-        bail!(MentatError::UnboundVariables(
-            unbound.into_iter().map(|v| v.to_string()).collect()
-        ));
+        bail!(MentatError::UnboundVariables(unbound));
     }
     Ok(algebrized)
 }
-- 
2.43.0


From 29a4ac727892d84e386707588a735391907ead44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 32/87] fix: an or whose patterns cannot match is empty, not a
 panic

---
 query-algebrizer/src/clauses/or.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 826178e..68e5998 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -379,18 +379,26 @@ impl ConjoiningClauses {
 
         assert!(patterns.len() >= 2);
 
+        let mut empty_because = None;
         let patterns: Vec<EvolvedPattern> = patterns
             .into_iter()
             .filter_map(|pattern| {
                 match self.make_evolved_pattern(known, pattern) {
-                    PlaceOrEmpty::Empty(_e) => {
-                        // Never mind.
+                    PlaceOrEmpty::Empty(e) => {
+                        // Never mind, unless no arm is left.
+                        empty_because = Some(e);
                         None
                     }
                     PlaceOrEmpty::Place(p) => Some(p),
                 }
             })
             .collect();
+        if patterns.is_empty() {
+            if let Some(because) = empty_because {
+                self.mark_known_empty(because);
+            }
+            return Ok(());
+        }
 
         // Begin by building a base CC that we'll use to produce constraints from each pattern.
         // Populate this base CC with whatever variables are already known from the CC to which
-- 
2.43.0


From 6f7909ee4254f591c33a0fbc9fc4e2c3aabe93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 33/87] fix: let keyword inputs name attributes and entities

---
 query-algebrizer/src/clauses/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 6448dd5..9b79ee8 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -1168,7 +1168,11 @@ impl ConjoiningClauses {
 
     fn mark_as_ref(&mut self, pos: &PatternNonValuePlace) {
         if let PatternNonValuePlace::Variable(ref var) = pos {
-            self.constrain_var_to_type(var.clone(), ValueType::Ref)
+            // A keyword given as input names an entity here; it's resolved with the pattern.
+            match self.bound_value(var) {
+                Some(TypedValue::Keyword(_)) => (),
+                _ => self.constrain_var_to_type(var.clone(), ValueType::Ref),
+            }
         }
     }
 
-- 
2.43.0


From cb30b8e7389d87d23f4202acc3fdea1a54e5bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 34/87] fix: tell transaction watchers what changed, not what
 was mentioned

---
 db/src/db.rs | 36 ++++++++++++++++++++++++++++++++++++
 db/src/tx.rs |  8 ++++++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index b4d4c5b..85df00e 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -682,6 +682,10 @@ pub trait MentatStoring {
     /// Extract metadata-related [e a typed_value added] datoms resolved in the last
     /// materialized transaction.
     fn resolved_metadata_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>>;
+
+    /// Extract every [e a typed_value added] datom resolved in the last materialized transaction:
+    /// the facts that were really added and removed, including those replaced.
+    fn resolved_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>>;
 }
 
 /// Take search rows and complete `temp.search_results`.
@@ -1169,6 +1173,38 @@ impl MentatStoring for rusqlite::Connection {
             .collect();
         m
     }
+
+    fn resolved_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>> {
+        let sql_stmt = format!(
+            r#"
+            SELECT e, a,
+                   CASE WHEN flags & {} IS NOT 0
+                        THEN (SELECT text FROM fulltext_values WHERE rowid = resolved.v)
+                        ELSE resolved.v END,
+                   value_type_tag, added FROM
+            (
+                SELECT e0 as e, a0 as a, v0 as v, value_type_tag0 as value_type_tag, 1 as added, flags0 as flags
+                FROM temp.search_results
+                WHERE added0 IS 1 AND ((rid IS NULL) OR ((rid IS NOT NULL) AND (v0 IS NOT v)))
+
+                UNION
+
+                SELECT e0 as e, a0 as a, v, value_type_tag0 as value_type_tag, 0 as added, flags0 as flags
+                FROM temp.search_results
+                WHERE rid IS NOT NULL AND
+                ((added0 IS 0 AND v0 IS v) OR
+                    (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))
+
+            ) AS resolved ORDER BY e, a, value_type_tag, added"#,
+            AttributeBitFlags::IndexFulltext as u8
+        );
+
+        let mut stmt = self.prepare_cached(&sql_stmt)?;
+        let m: Result<Vec<_>> = stmt
+            .query_and_then(rusqlite::params![], row_to_transaction_assertion)?
+            .collect();
+        m
+    }
 }
 
 /// Extract metadata-related [e a typed_value added] datoms committed in the given transaction.
diff --git a/db/src/tx.rs b/db/src/tx.rs
index 99d998d..8c602a3 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -907,8 +907,6 @@ where
                         .map(|v| (true, v))
                         .chain(ars.retract.into_iter().map(|v| (false, v)))
                     {
-                        let op = if added { OpType::Add } else { OpType::Retract };
-                        self.watcher.datom(op, e, a, &v);
                         queue.push((e, a, attribute, v, added));
                     }
                 }
@@ -943,6 +941,12 @@ where
                     self.store.commit_mentat_transaction(self.tx_id)?;
                 }
             }
+
+            // Watchers hear of the facts that changed, not of those that were merely mentioned.
+            for (e, a, v, added) in self.store.resolved_assertions()? {
+                let op = if added { OpType::Add } else { OpType::Retract };
+                self.watcher.datom(op, e, a, &v);
+            }
         }
 
         if tx_might_update_metadata {
-- 
2.43.0


From 35ae28deefa3015aa37f86f01465c3b3bbc25391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 35/87] fix: look up cached attributes of either cardinality,
 for one value or all

---
 transaction/src/query.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index aad3845..dab3df9 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -223,6 +223,11 @@ where
     if known.is_attribute_cached_forward(attrid) {
         Ok(known
             .get_value_for_entid(known.schema, attrid, entid)
+            .or_else(|| {
+                known
+                    .get_values_for_entid(known.schema, attrid, entid)
+                    .and_then(|vs| vs.first())
+            })
             .cloned())
     } else {
         fetch_values(sqlite, known, entid, attrid, true)
@@ -249,6 +254,11 @@ where
         Ok(known
             .get_values_for_entid(known.schema, attrid, entid)
             .cloned()
+            .or_else(|| {
+                known
+                    .get_value_for_entid(known.schema, attrid, entid)
+                    .map(|v| vec![v.clone()])
+            })
             .unwrap_or_else(Vec::new))
     } else {
         fetch_values(sqlite, known, entid, attrid, false)
-- 
2.43.0


From 027f91fe2c9485de45eea5d7b0e64d5408eb1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 36/87] fix: answer patterns from the cache only in the
 directions it covers, with all values

---
 query-algebrizer/src/clauses/pattern.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 105497b..c9ac3fd 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -383,6 +383,9 @@ impl ConjoiningClauses {
                                             return false;
                                         }
                                         ValueType::Keyword => {
+                                            if !cached_reverse {
+                                                return false;
+                                            }
                                             let tv: TypedValue = TypedValue::Keyword(kw.clone());
                                             return self.reverse_lookup(known, var, attr, &tv);
                                         }
@@ -410,8 +413,20 @@ impl ConjoiningClauses {
                             match pattern.value {
                                 EvolvedValuePlace::Variable(ref var) => {
                                     if cached_forward {
-                                        match known.get_value_for_entid(known.schema, attr, entity)
-                                        {
+                                        let item = if attribute.multival {
+                                            match known.get_values_for_entid(
+                                                known.schema,
+                                                attr,
+                                                entity,
+                                            ) {
+                                                // TODO: handle multiple values.
+                                                Some(items) if items.len() > 1 => return false,
+                                                items => items.and_then(|items| items.first()),
+                                            }
+                                        } else {
+                                            known.get_value_for_entid(known.schema, attr, entity)
+                                        };
+                                        match item {
                                             None => {
                                                 self.mark_known_empty(
                                                     EmptyBecause::CachedAttributeHasNoValues {
-- 
2.43.0


From c80b63ad1ee9cadd2c6e0486acb0f44e3d5e333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 37/87] fix: keep cache overlays complete, and commit them
 while others look on

---
 db/src/cache.rs | 226 ++++++++++++++++++------------------------------
 1 file changed, 82 insertions(+), 144 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 008ff0a..8580a60 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -104,50 +104,6 @@ trait Absorb {
     fn absorb(&mut self, other: Self);
 }
 
-impl<K, V> Absorb for CacheMap<K, Option<V>>
-where
-    K: Ord,
-{
-    fn absorb(&mut self, other: Self) {
-        for (e, v) in other.into_iter() {
-            match v {
-                None => {
-                    // It was deleted. Remove it from our map.
-                    self.remove(&e);
-                }
-                s @ Some(_) => {
-                    self.insert(e, s);
-                }
-            }
-        }
-    }
-}
-
-trait ExtendByAbsorbing {
-    /// Just like `extend`, but rather than replacing our value with the other, the other is
-    /// absorbed into ours.
-    fn extend_by_absorbing(&mut self, other: Self);
-}
-
-impl<K, V> ExtendByAbsorbing for BTreeMap<K, V>
-where
-    K: Ord,
-    V: Absorb,
-{
-    fn extend_by_absorbing(&mut self, other: Self) {
-        for (k, v) in other.into_iter() {
-            match self.entry(k) {
-                Occupied(mut entry) => {
-                    entry.get_mut().absorb(v);
-                }
-                Vacant(entry) => {
-                    entry.insert(v);
-                }
-            }
-        }
-    }
-}
-
 // Can't currently put doc tests on traits, so here it is.
 #[test]
 fn test_vec_remove_item() {
@@ -251,17 +207,9 @@ trait CardinalityManyCache: RemoveFromCache + ClearCache {
 
 #[derive(Clone, Debug, Default)]
 struct SingleValAttributeCache {
-    attr: Entid,
     e_v: CacheMap<Entid, Option<TypedValue>>,
 }
 
-impl Absorb for SingleValAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        self.e_v.absorb(other.e_v);
-    }
-}
-
 impl AttributeCache for SingleValAttributeCache {
     fn binding_for_e(&self, e: Entid) -> Option<Binding> {
         self.get(e).map(|v| v.clone().into())
@@ -315,24 +263,9 @@ impl CardinalityOneCache for SingleValAttributeCache {
 
 #[derive(Clone, Debug, Default)]
 struct MultiValAttributeCache {
-    attr: Entid,
     e_vs: CacheMap<Entid, Vec<TypedValue>>,
 }
 
-impl Absorb for MultiValAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        for (e, vs) in other.e_vs.into_iter() {
-            if vs.is_empty() {
-                self.e_vs.remove(&e);
-            } else {
-                // We always override with a whole vector, so let's just overwrite.
-                self.e_vs.insert(e, vs);
-            }
-        }
-    }
-}
-
 impl AttributeCache for MultiValAttributeCache {
     fn binding_for_e(&self, e: Entid) -> Option<Binding> {
         self.e_vs.get(&e).map(|vs| {
@@ -387,17 +320,9 @@ impl CardinalityManyCache for MultiValAttributeCache {
 
 #[derive(Clone, Debug, Default)]
 struct UniqueReverseAttributeCache {
-    attr: Entid,
     v_e: CacheMap<TypedValue, Option<Entid>>,
 }
 
-impl Absorb for UniqueReverseAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        self.v_e.absorb(other.v_e);
-    }
-}
-
 impl ClearCache for UniqueReverseAttributeCache {
     fn clear(&mut self) {
         self.v_e.clear();
@@ -437,32 +362,13 @@ impl UniqueReverseAttributeCache {
     fn get_e(&self, v: &TypedValue) -> Option<Entid> {
         self.v_e.get(v).and_then(|o| *o)
     }
-
-    fn lookup(&self, v: &TypedValue) -> Option<Option<Entid>> {
-        self.v_e.get(v).cloned()
-    }
 }
 
 #[derive(Clone, Debug, Default)]
 struct NonUniqueReverseAttributeCache {
-    attr: Entid,
     v_es: CacheMap<TypedValue, BTreeSet<Entid>>,
 }
 
-impl Absorb for NonUniqueReverseAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        for (v, es) in other.v_es.into_iter() {
-            if es.is_empty() {
-                self.v_es.remove(&v);
-            } else {
-                // We always override with a whole vector, so let's just overwrite.
-                self.v_es.insert(v, es);
-            }
-        }
-    }
-}
-
 impl ClearCache for NonUniqueReverseAttributeCache {
     fn clear(&mut self) {
         self.v_es.clear();
@@ -1010,9 +916,7 @@ impl AttributeCaches {
         value: &TypedValue,
     ) -> Option<Option<Entid>> {
         if self.is_attribute_cached_reverse(attribute) {
-            self.unique_reverse
-                .get(&attribute)
-                .and_then(|c| c.lookup(value))
+            self.unique_reverse.get(&attribute).map(|c| c.get_e(value))
         } else {
             None
         }
@@ -1024,11 +928,29 @@ impl AttributeCaches {
         attribute: Entid,
         entid: Entid,
     ) -> Option<Option<&TypedValue>> {
-        if let Some(&Some(ref tv)) = self
-            .value_pairs(schema, attribute)
-            .and_then(|c| c.get(&entid))
-        {
-            Some(Some(tv))
+        // If we have the attribute at all, we have all of it.
+        self.value_pairs(schema, attribute)
+            .map(|c| c.get(&entid).and_then(|tv| tv.as_ref()))
+    }
+
+    fn get_values_for_entid_if_present(
+        &self,
+        schema: &Schema,
+        attribute: Entid,
+        entid: Entid,
+    ) -> Option<Option<&Vec<TypedValue>>> {
+        self.values_pairs(schema, attribute).map(|c| c.get(&entid))
+    }
+
+    fn get_entids_for_value_if_present(
+        &self,
+        attribute: Entid,
+        value: &TypedValue,
+    ) -> Option<Option<&BTreeSet<Entid>>> {
+        if self.is_attribute_cached_reverse(attribute) {
+            self.non_unique_reverse
+                .get(&attribute)
+                .map(|c| c.get_es(value))
         } else {
             None
         }
@@ -1060,9 +982,34 @@ impl AttributeCaches {
             .prepare(&sql)
             .context(DbErrorKind::CacheUpdateFailed)?;
         let replacing = true;
+        self.start_afresh(schema, attribute);
         self.repopulate_from_aevt(schema, &mut stmt, args, replacing)
     }
 
+    /// Make the caches of the attribute that it should have, empty, and no others.
+    fn start_afresh(&mut self, schema: &Schema, attribute: Entid) {
+        self.single_vals.remove(&attribute);
+        self.multi_vals.remove(&attribute);
+        self.unique_reverse.remove(&attribute);
+        self.non_unique_reverse.remove(&attribute);
+        if let Some(attr) = schema.attribute_for_entid(attribute) {
+            if self.is_attribute_cached_forward(attribute) {
+                if attr.multival {
+                    self.fmc(attribute, None);
+                } else {
+                    self.fsc(attribute, None);
+                }
+            }
+            if self.is_attribute_cached_reverse(attribute) {
+                if attr.unique.is_some() {
+                    self.ruc(attribute, None);
+                } else {
+                    self.rnuc(attribute, None);
+                }
+            }
+        }
+    }
+
     fn repopulate_from_aevt<'a, 's, 'c, 'v>(
         &'a mut self,
         schema: &'s Schema,
@@ -1424,19 +1371,17 @@ impl AttributeCaches {
 
 impl Absorb for AttributeCaches {
     // Replace or insert attribute-cache pairs from `other` into `self`.
-    // Fold in any in-place deletions.
+    // Each is the complete cache of its attribute.
     fn absorb(&mut self, other: Self) {
         self.forward_cached_attributes
             .extend(other.forward_cached_attributes);
         self.reverse_cached_attributes
             .extend(other.reverse_cached_attributes);
 
-        self.single_vals.extend_by_absorbing(other.single_vals);
-        self.multi_vals.extend_by_absorbing(other.multi_vals);
-        self.unique_reverse
-            .extend_by_absorbing(other.unique_reverse);
-        self.non_unique_reverse
-            .extend_by_absorbing(other.non_unique_reverse);
+        self.single_vals.extend(other.single_vals);
+        self.multi_vals.extend(other.multi_vals);
+        self.unique_reverse.extend(other.unique_reverse);
+        self.non_unique_reverse.extend(other.non_unique_reverse);
     }
 }
 
@@ -1755,12 +1700,14 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the values were deleted, there will be an empty
-            // array in `overlay` -- `Some(vec![])` -- and we won't fall through.
-            // We can safely use `or_else`.
-            self.overlay
-                .get_values_for_entid(schema, attribute, entid)
-                .or_else(|| self.inner.get_values_for_entid(schema, attribute, entid))
+            // Whatever is in `overlay` replaces all of what is in `inner`.
+            match self
+                .overlay
+                .get_values_for_entid_if_present(schema, attribute, entid)
+            {
+                Some(present) => present,
+                None => self.inner.get_values_for_entid(schema, attribute, entid),
+            }
         }
     }
 
@@ -1773,9 +1720,7 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
+            // Whatever is in `overlay` replaces all of what is in `inner`.
             match self
                 .overlay
                 .get_value_for_entid_if_present(schema, attribute, entid)
@@ -1833,9 +1778,13 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            self.overlay
-                .get_entids_for_value(attribute, value)
-                .or_else(|| self.inner.get_entids_for_value(attribute, value))
+            match self
+                .overlay
+                .get_entids_for_value_if_present(attribute, value)
+            {
+                Some(present) => present,
+                None => self.inner.get_entids_for_value(attribute, value),
+            }
         }
     }
 
@@ -1843,9 +1792,7 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
+            // Whatever is in `overlay` replaces all of what is in `inner`.
             match self
                 .overlay
                 .get_entid_for_value_if_present(attribute, value)
@@ -1895,30 +1842,21 @@ impl InProgressSQLiteAttributeCache {
             return;
         }
 
-        // If we have exclusive write access to the destination cache, update it in place.
-        // Because the `Conn` also contains an `Arc`, this will ordinarily never be the case.
-        // In order to hit this code block, we need to eliminate our reference… do so by dropping
-        // our copy of the `Arc`.
+        // If we have exclusive write access to the destination cache, update it in place; if
+        // somebody else is looking at it, update a copy and put that in its place.
+        // Because we also hold an `Arc`, eliminate our reference first.
         ::std::mem::drop(self.inner);
-        if let Some(dest) = Arc::get_mut(&mut destination.inner) {
-            // Yeah, we unregister in both directions. The only way
-            // `unregistered_forward` won't be the same as `unregistered_reverse` is if
-            // our `overlay` added one direction back in.
-            for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
-                dest.unregister_attribute(*unregistered);
-            }
+        let dest = Arc::make_mut(&mut destination.inner);
 
-            // Now replace each attribute's entry with `overlay`.
-            dest.absorb(self.overlay);
-            return;
+        // Yeah, we unregister in both directions. The only way
+        // `unregistered_forward` won't be the same as `unregistered_reverse` is if
+        // our `overlay` added one direction back in.
+        for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
+            dest.unregister_attribute(*unregistered);
         }
 
-        // If we don't, populate `self.overlay` with whatever we didn't overwrite,
-        // and then shim it into `destination.`
-        // We haven't implemented this because it does not currently occur.
-        // TODO: do this! Then do this:
-        // destination.inner = Arc::new(self.overlay);
-        unimplemented!();
+        // Now replace each attribute's entry with `overlay`.
+        dest.absorb(self.overlay);
     }
 }
 
-- 
2.43.0


From d36708ccbeb0b07fdab66b905b0301f62bdb04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 38/87] fix: keep cached attributes in line with schema
 alterations

---
 db/src/cache.rs        | 28 ++++++++++++++++++++++++++++
 transaction/src/lib.rs |  4 ++++
 2 files changed, 32 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 8580a60..7090f0a 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1454,6 +1454,11 @@ impl SQLiteAttributeCache {
     {
         let a = attribute.into();
 
+        // The attribute must exist!
+        let _ = schema
+            .attribute_for_entid(a)
+            .ok_or_else(|| DbErrorKind::UnknownAttribute(a))?;
+
         // TODO: reverse-index unique by default?
 
         let caches = self.make_mut();
@@ -1671,6 +1676,29 @@ impl InProgressSQLiteAttributeCache {
         self.unregistered_reverse.insert(a);
     }
 
+    /// Bring the caches of attributes that were altered or removed in line with the new schema.
+    pub fn schema_changed(
+        &mut self,
+        old: &Schema,
+        new: &Schema,
+        sqlite: &rusqlite::Connection,
+    ) -> Result<()> {
+        let cached: BTreeSet<Entid> = self
+            .overlay
+            .forward_cached_attributes
+            .union(&self.overlay.reverse_cached_attributes)
+            .cloned()
+            .collect();
+        for a in cached {
+            match (old.attribute_for_entid(a), new.attribute_for_entid(a)) {
+                (_, None) => self.unregister(a),
+                (Some(before), Some(after)) if before == after => (),
+                _ => self.overlay.repopulate(new, sqlite, a)?,
+            }
+        }
+        Ok(())
+    }
+
     pub fn unregister_all(&mut self) {
         self.overlay.unregister_all_attributes();
         self.unregistered_forward
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index a5658b7..d11b428 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -213,6 +213,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         )?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
@@ -251,6 +253,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         )?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
-- 
2.43.0


From b7f38b4317e2f69f1a6e8b959a5ea9d32509a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 39/87] fix: run the query when a table must have rows, though
 its results are constant

---
 query-algebrizer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 66e2f82..b35cb82 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -183,7 +183,7 @@ impl AlgebraicQuery {
     /// Return true if every variable in the find spec is fully bound to a single value,
     /// and evaluating the query doesn't require running SQL.
     pub fn is_fully_unit_bound(&self) -> bool {
-        self.cc.wheres.is_empty() && self.is_fully_bound()
+        self.cc.from.is_empty() && self.cc.wheres.is_empty() && self.is_fully_bound()
     }
 
     /// Return a set of the input variables mentioned in the `:in` clause that have not yet been
-- 
2.43.0


From b23b458ac1e8ae3619c9797e4c5aa828404db9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 40/87] fix: a not whose clauses always hold never holds

---
 query-algebrizer/src/clauses/not.rs | 9 +++++----
 query-algebrizer/src/types.rs       | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 6d6977d..a766257 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -14,7 +14,7 @@ use crate::clauses::ConjoiningClauses;
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
-use crate::types::{ColumnConstraint, ComputedTable};
+use crate::types::{ColumnConstraint, ComputedTable, EmptyBecause};
 
 use crate::Known;
 
@@ -66,9 +66,10 @@ impl ConjoiningClauses {
 
         template.expand_type_tags();
 
-        // If we don't impose any constraints on the output, we might as well
-        // not exist.
-        if template.wheres.is_empty() {
+        // If there is nothing to look up and nothing to check, then the clauses always hold
+        // (e.g., because we found their match in the cache), and so their negation never does.
+        if template.from.is_empty() && template.wheres.is_empty() {
+            self.mark_known_empty(EmptyBecause::NegationAlwaysHolds);
             return Ok(());
         }
 
diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index 6119cd5..24adb99 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -631,6 +631,7 @@ pub enum EmptyBecause {
     InvalidAttributeEntid(Entid),
     InvalidBinding(Column, TypedValue),
     ValueTypeMismatch(ValueType, TypedValue),
+    NegationAlwaysHolds,
     AttributeLookupFailed, // Catch-all, because the table lookup code is lazy. TODO
 }
 
@@ -690,6 +691,7 @@ impl Debug for EmptyBecause {
                 "Type mismatch: {:?} doesn't match attribute type {:?}",
                 typed_value, value_type
             ),
+            NegationAlwaysHolds => write!(f, "Negated clauses always hold"),
             AttributeLookupFailed => write!(f, "Attribute lookup failed"),
         }
     }
-- 
2.43.0


From 0a71fc7114a35ef6e40cfda4af53890eb80c7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 41/87] fix: read words that start with nil, true or false as
 symbols

---
 edn/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 4e78780..13102fa 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -72,15 +72,18 @@ pub type ParseError = peg::error::ParseError<peg::str::LineCol>;
 
 peg::parser!(pub grammar parse() for str {
 
-    pub rule nil() -> SpannedValue = "nil" { SpannedValue::Nil }
+    // `nil`, `true` and `false` are only that when they're not the start of a symbol.
+    rule word_end() = !symbol_char_subsequent() !((namespace_divider() symbol_char_subsequent()+)* namespace_separator() plain_symbol_name())
+
+    pub rule nil() -> SpannedValue = "nil" word_end() { SpannedValue::Nil }
     pub rule nan() -> SpannedValue = "#f" whitespace()+ "NaN" { SpannedValue::Float(OrderedFloat(NAN)) }
 
     pub rule infinity() -> SpannedValue = "#f" whitespace()+ s:$(sign()) "Infinity"
         { SpannedValue::Float(OrderedFloat(if s == "+" { INFINITY } else { NEG_INFINITY })) }
 
     pub rule boolean() -> SpannedValue
-        = "true"  { SpannedValue::Boolean(true) }
-        / "false" { SpannedValue::Boolean(false) }
+        = "true" word_end() { SpannedValue::Boolean(true) }
+        / "false" word_end() { SpannedValue::Boolean(false) }
 
     rule digit() = ['0'..='9']
     rule alphanumeric() = ['0'..='9' | 'a'..='z' | 'A'..='Z']
-- 
2.43.0


From d54d6b8d9aba61d9ce6dca98d890cb2298a295d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 42/87] fix: a wildcard in a pull doesn't hide what else is
 asked for

---
 query-pull/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/query-pull/src/lib.rs b/query-pull/src/lib.rs
index 138d2a5..717cc1e 100644
--- a/query-pull/src/lib.rs
+++ b/query-pull/src/lib.rs
@@ -162,10 +162,11 @@ impl Puller {
                 PullAttributeSpec::Wildcard => {
                     let attribute_ids = schema.attribute_map.keys();
                     for id in attribute_ids {
-                        names.insert(*id, lookup_name(id)?);
-                        attrs.insert(*id);
+                        // Attributes that are also named keep the alias they were given.
+                        if attrs.insert(*id) {
+                            names.insert(*id, lookup_name(id)?);
+                        }
                     }
-                    break;
                 }
                 PullAttributeSpec::Attribute(NamedPullAttribute {
                     ref attribute,
-- 
2.43.0


From a99a764fe9ee9ebc628b4735f3ab6d42f1890f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 43/87] fix: keep the order of rows in collections of pulls

---
 query-projector/src/pull.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/query-projector/src/pull.rs b/query-projector/src/pull.rs
index 0094ae6..5539630 100644
--- a/query-projector/src/pull.rs
+++ b/query-projector/src/pull.rs
@@ -8,7 +8,9 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
+
+use indexmap::IndexSet;
 
 use core_traits::{Binding, Entid, StructuredMap, TypedValue};
 
@@ -50,7 +52,7 @@ pub(crate) struct PullConsumer<'schema> {
     indices: PullIndices,
     schema: &'schema Schema,
     puller: Puller,
-    entities: BTreeSet<Entid>,
+    entities: IndexSet<Entid>, // In the order in which we first encounter them.
     results: BTreeMap<Entid, ValueRc<StructuredMap>>,
 }
 
@@ -114,6 +116,12 @@ impl<'schema> PullConsumer<'schema> {
 
     // TODO: do we need to include empty maps for entities that didn't match any pull?
     pub(crate) fn into_coll_results(self) -> Vec<Binding> {
-        self.results.values().cloned().map(Binding::Map).collect()
+        let results = &self.results;
+        self.entities
+            .iter()
+            .filter_map(|e| results.get(e))
+            .cloned()
+            .map(Binding::Map)
+            .collect()
     }
 }
-- 
2.43.0


From 16a644c25d17c9030682d600b00323544fd99499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 44/87] fix: accept plain keywords as values in patterns

---
 edn/src/query.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edn/src/query.rs b/edn/src/query.rs
index 08d93d4..f1eb175 100644
--- a/edn/src/query.rs
+++ b/edn/src/query.rs
@@ -380,7 +380,7 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
             crate::SpannedValue::PlainSymbol(ref x) => {
                 Variable::from_symbol(x).map(PatternValuePlace::Variable)
             }
-            crate::SpannedValue::Keyword(ref x) if x.is_namespaced() => Some(x.clone().into()),
+            crate::SpannedValue::Keyword(ref x) => Some(x.clone().into()),
             crate::SpannedValue::Boolean(x) => {
                 Some(PatternValuePlace::Constant(NonIntegerConstant::Boolean(x)))
             }
@@ -405,7 +405,6 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
             // These don't appear in queries.
             crate::SpannedValue::Nil => None,
             crate::SpannedValue::NamespacedSymbol(_) => None,
-            crate::SpannedValue::Keyword(_) => None, // … yet.
             crate::SpannedValue::Map(_) => None,
             crate::SpannedValue::List(_) => None,
             crate::SpannedValue::Set(_) => None,
-- 
2.43.0


From 9a68fd6bcf5c16cb02aea063f6c56de76ba835e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 45/87] fix: refuse big integers in queries rather than crash
 on them

---
 edn/src/query.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edn/src/query.rs b/edn/src/query.rs
index f1eb175..b3c72f2 100644
--- a/edn/src/query.rs
+++ b/edn/src/query.rs
@@ -227,7 +227,7 @@ impl FromValue<FnArg> for FnArg {
             Uuid(x) => Some(FnArg::Constant(NonIntegerConstant::Uuid(x))),
             Boolean(x) => Some(FnArg::Constant(NonIntegerConstant::Boolean(x))),
             Float(x) => Some(FnArg::Constant(NonIntegerConstant::Float(x))),
-            BigInteger(ref x) => Some(FnArg::Constant(NonIntegerConstant::BigInteger(x.clone()))),
+            BigInteger(_) => None, // Nothing in a query can take one yet: #280.
             Text(ref x) =>
             // TODO: intern strings. #398.
             {
@@ -387,9 +387,6 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
             crate::SpannedValue::Float(x) => {
                 Some(PatternValuePlace::Constant(NonIntegerConstant::Float(x)))
             }
-            crate::SpannedValue::BigInteger(ref x) => Some(PatternValuePlace::Constant(
-                NonIntegerConstant::BigInteger(x.clone()),
-            )),
             crate::SpannedValue::Instant(x) => {
                 Some(PatternValuePlace::Constant(NonIntegerConstant::Instant(x)))
             }
@@ -404,6 +401,7 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
 
             // These don't appear in queries.
             crate::SpannedValue::Nil => None,
+            crate::SpannedValue::BigInteger(_) => None, // … yet: #280.
             crate::SpannedValue::NamespacedSymbol(_) => None,
             crate::SpannedValue::Map(_) => None,
             crate::SpannedValue::List(_) => None,
-- 
2.43.0


From 14b86525a3f91b8d1ac40f8449d3d976dd6e9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 46/87] fix: a name that is only an underscore isn't backward

---
 edn/src/namespaceable_name.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edn/src/namespaceable_name.rs b/edn/src/namespaceable_name.rs
index 3c8e52a..2de0cf1 100644
--- a/edn/src/namespaceable_name.rs
+++ b/edn/src/namespaceable_name.rs
@@ -107,7 +107,8 @@ impl NamespaceableName {
 
     #[inline]
     pub fn is_backward(&self) -> bool {
-        self.name().starts_with('_')
+        let name = self.name();
+        name.starts_with('_') && name.len() > 1
     }
 
     #[inline]
@@ -118,7 +119,7 @@ impl NamespaceableName {
     pub fn to_reversed(&self) -> NamespaceableName {
         let name = self.name();
 
-        if name.starts_with('_') {
+        if self.is_backward() {
             Self::new(self.namespace(), &name[1..])
         } else {
             Self::new(self.namespace(), &format!("_{}", name))
-- 
2.43.0


From 4542038bac38fc3acb0f1df9762813b914b91e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 47/87] fix: an integer that is out of range is no symbol
 either

---
 edn/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 13102fa..6b9613c 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -239,7 +239,7 @@ peg::parser!(pub grammar parse() for str {
 
     // Note: It's important that float comes before integer or the parser assumes that floats are integers and fails to parse.
     pub rule value() -> ValueAndSpan =
-        __ start:position!() v:(nil() / nan() / infinity() / boolean() / number() / inst() / uuid() / text() / keyword() / symbol() / list() / vector() / map() / set()) end:position!() __ {
+        __ start:position!() v:(nil() / nan() / infinity() / boolean() / number() / inst() / uuid() / text() / keyword() / (!integer_digits() v:symbol() { v }) / list() / vector() / map() / set()) end:position!() __ {
             ValueAndSpan {
                 inner: v,
                 span: Span::new(start, end)
-- 
2.43.0


From 98075e9ca40f0c62cd8e22353c8c6e6f77b7103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 48/87] fix: pass doubles that SQLite doesn't read exactly as
 arguments

---
 sql/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sql/src/lib.rs b/sql/src/lib.rs
index 65dd6bc..ce022fd 100644
--- a/sql/src/lib.rs
+++ b/sql/src/lib.rs
@@ -124,6 +124,19 @@ impl SQLiteQueryBuilder {
     }
 }
 
+/// SQLite can be off by a little when it reads a float with many digits or a large exponent, and
+/// it has no literals for infinities.
+fn is_exact_float_literal(literal: &str) -> bool {
+    let mut parts = literal.split('e');
+    let digits = parts.next().map_or(0, |mantissa| {
+        mantissa.chars().filter(char::is_ascii_digit).count() as i32
+    });
+    match parts.next().map(|exponent| exponent.parse::<i32>()) {
+        Some(Ok(exponent)) => digits <= 15 && (exponent - digits + 1).abs() <= 22,
+        _ => false,
+    }
+}
+
 impl QueryBuilder for SQLiteQueryBuilder {
     fn push_sql(&mut self, sql: &str) {
         self.sql.push_str(sql);
@@ -148,7 +161,12 @@ impl QueryBuilder for SQLiteQueryBuilder {
                 // We format with 'e' -- scientific notation -- so that SQLite treats them as
                 // floats and not integers. This is most noticeable for fulltext scores, which
                 // will currently (2017-06) always be 0, and need to round-trip as doubles.
-                self.push_sql(format!("{:e}", v).as_str());
+                let literal = format!("{:e}", v);
+                if is_exact_float_literal(&literal) {
+                    self.push_sql(&literal);
+                } else {
+                    self.push_static_arg(Rc::new(rusqlite::types::Value::Real(*v)));
+                }
             }
             Instant(dt) => {
                 self.push_sql(format!("{}", dt.to_micros()).as_str()); // TODO: argument instead?
-- 
2.43.0


From 3fd7541cdd606599345cd78f58b77a1832af1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 49/87] fix: report errors while rows are read rather than
 crash on them

---
 query-projector/src/projectors/pull_two_stage.rs | 8 ++++----
 query-projector/src/projectors/simple.rs         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index f286232..4f5bf07 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -69,7 +69,7 @@ impl Projector for ScalarTwoStagePullProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         // Scalar is pretty straightforward -- zero or one entity, do the pull directly.
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let entity: Entid = row.get(0).unwrap(); // This will always be 0 and a ref.
             let bindings = self.puller.pull(schema, sqlite, once(entity))?;
@@ -153,7 +153,7 @@ impl Projector for TupleTwoStagePullProjector {
         sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
 
             // Keeping the compiler happy.
@@ -280,7 +280,7 @@ impl Projector for RelTwoStagePullProjector {
         let mut pull_consumers = pull_consumers?;
 
         // Collect the usual bindings and accumulate entity IDs for pull.
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             for p in pull_consumers.iter_mut() {
                 p.collect_entity(&row);
@@ -347,7 +347,7 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             pull_consumer.collect_entity(&row);
         }
diff --git a/query-projector/src/projectors/simple.rs b/query-projector/src/projectors/simple.rs
index 213d75a..7e43cc7 100644
--- a/query-projector/src/projectors/simple.rs
+++ b/query-projector/src/projectors/simple.rs
@@ -50,7 +50,7 @@ impl Projector for ScalarProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             QueryResults::Scalar(Some(binding))
@@ -122,7 +122,7 @@ impl Projector for TupleProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let bindings = self.collect_bindings(row)?;
             QueryResults::Tuple(Some(bindings))
@@ -207,7 +207,7 @@ impl Projector for RelProjector {
         let width = self.len;
         let mut values: Vec<_> = Vec::with_capacity(5 * width);
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             self.collect_bindings_into(row, &mut values)?;
         }
@@ -263,7 +263,7 @@ impl Projector for CollProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         let mut out: Vec<_> = vec![];
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             out.push(binding);
-- 
2.43.0


From 04d758ac1e33a1532538ec740d3bc428fee39d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 50/87] fix: accept statements that use every parameter SQLite
 allows

---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 85df00e..78318f1 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -844,7 +844,7 @@ impl MentatStoring for rusqlite::Connection {
             // querying against `all_datoms`.  We know all the attributes, and in the common case,
             // where most unique attributes will not be fulltext-indexed, we'll be querying just
             // `datoms`, which will be much faster.ˇ
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
 
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = format!("WITH t(search_id, a, v, value_type_tag) AS (VALUES {}) SELECT t.search_id, d.e \
@@ -986,7 +986,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = if search_type == SearchType::Exact {
                 format!("INSERT INTO temp.exact_searches (e0, a0, v0, value_type_tag0, added0, flags0) VALUES {}", values)
@@ -1107,7 +1107,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * datom_count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, datom_count, max_vars);
+            assert!(bindings_per_statement * datom_count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, datom_count, max_vars);
             let inner = "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".to_string();
             // Like "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?), (?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".
             let fts_values: String = repeat(inner).take(datom_count).join(", ");
-- 
2.43.0


From be949cdb68cd7f281b038840dfc3037c02138c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 51/87] fix: insert full-text values whose strings were all
 seen before

---
 db/src/db.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 78318f1..9bd55c5 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1085,13 +1085,16 @@ impl MentatStoring for rusqlite::Connection {
                              .chain(once(searchid as &dyn ToSql))
                      }).collect();
 
-            // TODO: make this maximally efficient. It's not terribly inefficient right now.
-            let fts_values: String = repeat_values(2, string_count);
-            let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
-
-            // TODO: consider ensuring we inserted the expected number of rows.
-            let mut stmt = self.prepare_cached(fts_s.as_str())?;
-            stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            // Every string of this chunk may have been inserted by an earlier one.
+            if string_count > 0 {
+                // TODO: make this maximally efficient. It's not terribly inefficient right now.
+                let fts_values: String = repeat_values(2, string_count);
+                let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
+
+                // TODO: consider ensuring we inserted the expected number of rows.
+                let mut stmt = self.prepare_cached(fts_s.as_str())?;
+                stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            }
 
             // Second, insert searches.
             // `params` reference computed values in `block`.
-- 
2.43.0


From 3de7535f43c13743deb6d6a200ae835174b5de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 52/87] fix: search for a full-text value that's already bound

---
 query-algebrizer/src/clauses/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 9b79ee8..cc04996 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -28,7 +28,7 @@ use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 use crate::types::{
     Column, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation, ColumnIntersection,
     ComputedTable, DatomsColumn, DatomsTable, EmptyBecause, EvolvedNonValuePlace, EvolvedPattern,
-    EvolvedValuePlace, FulltextColumn, PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias,
+    EvolvedValuePlace, FulltextColumn, Inequality, PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias,
     TableAlias,
 };
 
@@ -442,13 +442,23 @@ impl ConjoiningClauses {
                     self.constrain_column_to_constant(table, column, bound_val);
                 }
 
-                Column::Fulltext(FulltextColumn::Rowid)
-                | Column::Fulltext(FulltextColumn::Text) => {
-                    // We never expose `rowid` via queries.  We do expose `text`, but only
-                    // indirectly, by joining against `datoms`.  Therefore, these are meaningless.
+                Column::Fulltext(FulltextColumn::Rowid) => {
+                    // We never expose `rowid` via queries: it's meaningless.
                     unimplemented!()
                 }
 
+                // The value of a full-text search. We don't say `text = value`: SQLite would put
+                // the value in place of the column elsewhere, too, and can't `MATCH` that.
+                Column::Fulltext(FulltextColumn::Text) => {
+                    for operator in [Inequality::GreaterThanOrEquals, Inequality::LessThanOrEquals].iter() {
+                        self.wheres.add_intersection(ColumnConstraint::Inequality {
+                            operator: *operator,
+                            left: QueryValue::Column(QualifiedAlias(table.clone(), column.clone())),
+                            right: QueryValue::TypedValue(bound_val.clone()),
+                        });
+                    }
+                }
+
                 Column::Fixed(DatomsColumn::ValueTypeTag) => {
                     // I'm pretty sure this is meaningless right now, because we will never bind
                     // a type tag to a variable -- there's no syntax for doing so.
-- 
2.43.0


From 01ff892994482e379a567afd4a73b32b5bc4a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 53/87] fix: rewind transactions with the schema that each left
 behind

---
 db/src/timelines.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 38fb178..3abce74 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -156,16 +156,18 @@ pub fn move_from_main_timeline(
 
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
-    let mut last_schema = None;
+    // Every transaction is rewound with the schema that it left behind.
+    let mut last_schema: Option<Schema> = None;
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
+        let current_schema = last_schema.as_ref().unwrap_or(schema);
 
         // Rewind schema and datoms.
         let (report, _, new_schema, _) = transact_terms_with_action(
             conn,
             partition_map.clone(),
-            schema,
-            schema,
+            current_schema,
+            current_schema,
             NullWatcher(),
             reversed_terms.into_iter().map(|t| t.rewrap()),
             InternSet::new(),
@@ -182,7 +184,9 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
-        last_schema = new_schema;
+        if new_schema.is_some() {
+            last_schema = new_schema;
+        }
     }
 
     // Move transactions over to the target timeline.
-- 
2.43.0


From 5e88b6dcb6a66065114a21c8a92897a782bd47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 54/87] fix: keep the transactions of facts that rewinding
 brings back

---
 db/src/timelines.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 3abce74..838cf6b 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -94,6 +94,24 @@ fn remove_tx_from_datoms(conn: &rusqlite::Connection, tx_id: Entid) -> Result<()
     Ok(())
 }
 
+/// Datoms that rewinding `rewound` brought back were asserted earlier, not by `tx_id`.
+fn restore_tx_of_datoms(conn: &rusqlite::Connection, tx_id: Entid, rewound: Entid) -> Result<()> {
+    conn.execute(
+        &format!(
+            "UPDATE datoms SET tx = (
+                SELECT t.tx FROM timelined_transactions t
+                WHERE t.e = datoms.e AND t.a = datoms.a AND t.v = datoms.v
+                    AND t.value_type_tag = datoms.value_type_tag AND t.added IS NOT 0
+                    AND t.timeline = {} AND t.tx < ?
+                ORDER BY t.tx DESC LIMIT 1)
+            WHERE tx = ?",
+            crate::TIMELINE_MAIN
+        ),
+        &[&rewound, &tx_id],
+    )?;
+    Ok(())
+}
+
 fn is_timeline_empty(conn: &rusqlite::Connection, timeline: Entid) -> Result<bool> {
     let mut stmt = conn.prepare(
         "SELECT timeline FROM timelined_transactions WHERE timeline = ? GROUP BY timeline",
@@ -184,6 +202,7 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
+        restore_tx_of_datoms(conn, report.tx_id, *tx_id)?;
         if new_schema.is_some() {
             last_schema = new_schema;
         }
-- 
2.43.0


From b2a376bd9f1b7dd63095609c230ed102ed523548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 55/87] fix: rewind transactions with full-text values

---
 db/src/timelines.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 838cf6b..8b5676d 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -125,7 +125,14 @@ fn reversed_terms_for(
     conn: &rusqlite::Connection,
     tx_id: Entid,
 ) -> Result<Vec<TermWithoutTempIds>> {
-    let mut stmt = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC")?;
+    // Full-text values are stored as rowids of their text.
+    let mut stmt = conn.prepare(
+        "SELECT e, a,
+            CASE WHEN value_type_tag = 10 AND typeof(v) = 'integer'
+                THEN (SELECT text FROM fulltext_values WHERE rowid = v) ELSE v END,
+            value_type_tag, tx, added
+        FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC",
+    )?;
     let rows = stmt.query_and_then(
         &[&tx_id, &crate::TIMELINE_MAIN],
         |row| -> Result<TermWithoutTempIds> {
-- 
2.43.0


From 4b8004d848f9f2ca6cd81d755ac49ccb107ee671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 56/87] fix: leave transactions of other timelines alone when
 moving some with the same identifiers

---
 db/src/timelines.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 8b5676d..f79adef 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -77,8 +77,9 @@ fn move_transactions_to(
     // Move specified transactions over to a specified timeline.
     conn.execute(
         &format!(
-            "UPDATE timelined_transactions SET timeline = {} WHERE tx IN {}",
+            "UPDATE timelined_transactions SET timeline = {} WHERE timeline = {} AND tx IN {}",
             new_timeline,
+            crate::TIMELINE_MAIN,
             crate::repeat_values(tx_ids.len(), 1)
         ),
         &(tx_ids
-- 
2.43.0


From 744f7b2d8165b7d9cc61764deb0e09d5530ad208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 57/87] fix: install a removed attribute anew over its datoms
 only where they fit

---
 db/src/db.rs | 84 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 db/src/tx.rs |  7 ++++-
 2 files changed, 89 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 9bd55c5..c0d2111 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -34,7 +34,9 @@ use crate::entids;
 
 use core_traits::{attribute, Attribute, AttributeBitFlags, Entid, TypedValue, ValueType};
 
-use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc};
+use mentat_core::{
+    AttributeMap, FromMicros, IdentMap, SQLValueType, Schema, ToMicros, ValueRc,
+};
 
 use db_traits::errors::{DbErrorKind, Result};
 
@@ -1231,6 +1233,39 @@ pub fn committed_metadata_assertions(
     m
 }
 
+/// Retracting an attribute can leave optional schema datoms dangling.  They apply again when that
+/// attribute is installed anew, so mention them together with the datoms that install it.
+pub(crate) fn add_dangling_schema_datoms(
+    conn: &rusqlite::Connection,
+    schema: &Schema,
+    assertions: &mut Vec<(Entid, Entid, TypedValue, bool)>,
+) -> Result<()> {
+    let installed: Vec<Entid> = assertions
+        .iter()
+        .filter(|(e, a, _, added)| {
+            *added && *a == entids::DB_VALUE_TYPE && !schema.attribute_map.contains_key(e)
+        })
+        .map(|(e, _, _, _)| *e)
+        .collect();
+
+    for entid in installed {
+        let mut stmt = conn.prepare_cached(&format!(
+            "SELECT e, a, v, value_type_tag FROM datoms WHERE e = ? AND a IN {}",
+            entids::SCHEMA_SQL_LIST.as_str()
+        ))?;
+        let datoms: Vec<(Entid, Entid, TypedValue)> = stmt
+            .query_and_then(&[&entid], row_to_datom_assertion)?
+            .collect::<Result<Vec<_>>>()?;
+        for (e, a, v) in datoms {
+            let datom = (e, a, v, true);
+            if !assertions.contains(&datom) {
+                assertions.push(datom);
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Takes a row, produces a transaction quadruple.
 fn row_to_transaction_assertion(row: &rusqlite::Row) -> Result<(Entid, Entid, TypedValue, bool)> {
     Ok((
@@ -1325,6 +1360,53 @@ SELECT EXISTS
         left.v <> right.v)"#,
     )?;
 
+    // An attribute can be installed again after it was retracted, and find its datoms still there.
+    let mut conforming_stmt = conn.prepare(
+        r#"
+SELECT NOT EXISTS
+    (SELECT 1 FROM datoms
+        WHERE a = ? AND (value_type_tag IS NOT ? OR index_fulltext IS NOT ?
+            OR (value_type_tag IS 5 AND typeof(v) IS NOT ?)))"#,
+    )?;
+    let mut flags_stmt = conn.prepare(
+        "UPDATE datoms SET index_avet = ?, index_vaet = ?, unique_value = ? WHERE a = ?",
+    )?;
+
+    for &entid in &metadata_report.attributes_installed {
+        let attribute = new_schema.require_attribute_for_entid(entid)?;
+        let numeric_type = match attribute.value_type {
+            ValueType::Double => "real",
+            _ => "integer",
+        };
+        let conforming: bool = conforming_stmt.query_row(
+            &[
+                &entid as &dyn ToSql,
+                &attribute.value_type.value_type_tag(),
+                &attribute.fulltext,
+                &numeric_type,
+            ],
+            |row| row.get(0),
+        )?;
+        let conflicts: bool = !attribute.multival
+            && cardinality_stmt.query_row(&[&entid as &dyn ToSql], |row| row.get(0))?;
+        if !conforming
+            || conflicts
+            || flags_stmt
+                .execute(&[
+                    to_bool_ref(attribute.index),
+                    to_bool_ref(attribute.value_type == ValueType::Ref),
+                    to_bool_ref(attribute.unique.is_some()),
+                    &entid as &dyn ToSql,
+                ])
+                .is_err()
+        {
+            bail!(DbErrorKind::SchemaAlterationFailed(format!(
+                "Cannot install schema attribute {} over its existing datoms",
+                entid
+            )))
+        }
+    }
+
     for (&entid, alterations) in &metadata_report.attributes_altered {
         let attribute = new_schema.require_attribute_for_entid(entid)?;
 
diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8c602a3..0bbbacf 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -951,12 +951,17 @@ where
 
         if tx_might_update_metadata {
             // Extract changes to metadata from the store.
-            let metadata_assertions = match action {
+            let mut metadata_assertions = match action {
                 TransactorAction::Materialize => self.store.resolved_metadata_assertions()?,
                 TransactorAction::MaterializeAndCommit => {
                     db::committed_metadata_assertions(self.store, self.tx_id)?
                 }
             };
+            db::add_dangling_schema_datoms(
+                self.store,
+                &*self.schema_for_mutation,
+                &mut metadata_assertions,
+            )?;
             let mut new_schema = (*self.schema_for_mutation).clone(); // Clone the underlying Schema for modification.
             let metadata_report = metadata::update_schema_from_entid_quadruples(
                 &mut new_schema,
-- 
2.43.0


From 41fc1cedcf41aceaa26790ab5a8d5323228b2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 58/87] fix: upload full-text values

---
 tolstoy/src/tx_processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tolstoy/src/tx_processor.rs b/tolstoy/src/tx_processor.rs
index f4fd5ff..757bf2d 100644
--- a/tolstoy/src/tx_processor.rs
+++ b/tolstoy/src/tx_processor.rs
@@ -128,8 +128,11 @@ impl Processor {
             Some(tx) => format!(" WHERE timeline = 0 AND tx > {} ", tx),
             None => "WHERE timeline = 0".to_string(),
         };
+        // Full-text values are stored as rowids of `fulltext_values`: read their text.
         let select_query = format!(
-            "SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
+            "SELECT e, a, CASE WHEN value_type_tag = 10 AND typeof(v) = 'integer'
+               THEN (SELECT text FROM fulltext_values WHERE rowid = v) ELSE v END,
+             value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
             tx_filter
         );
         let mut stmt = sqlite.prepare(&select_query)?;
-- 
2.43.0


From c7f28f6add9633acb09adc3c82c29373fa4695ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 59/87] fix: keep what's been allocated when transactions of
 others are applied

---
 tolstoy/src/syncer.rs      | 16 ++++++++++++++++
 tolstoy/src/tx_uploader.rs | 13 +++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 4ad34e9..3602b29 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -324,6 +324,21 @@ impl Syncer {
         }
     }
 
+    /// An incoming transaction's PartitionMap covers nothing but that transaction: what has been
+    /// allocated before it, in partitions other than 'tx', must remain allocated.
+    fn retain_allocations(partition_map: &mut PartitionMap, current: &PartitionMap) {
+        for (name, part) in partition_map.iter_mut() {
+            if name == ":db.part/tx" {
+                continue;
+            }
+            if let Some(current) = current.get(name) {
+                if current.next_entid() > part.next_entid() {
+                    part.set_next_entid(current.next_entid());
+                }
+            }
+        }
+    }
+
     fn fast_forward_local<'a, 'c>(
         in_progress: &mut InProgress<'a, 'c>,
         txs: Vec<Tx>,
@@ -352,6 +367,7 @@ impl Syncer {
             Syncer::remote_parts_to_builder(&mut builder, tx.parts)?;
 
             // Allocate space for the incoming entids.
+            Syncer::retain_allocations(&mut partition_map, &in_progress.partition_map);
             in_progress.partition_map = partition_map;
             let report = in_progress.transact_builder(builder)?;
             last_tx = Some((report.tx_id, tx.tx));
diff --git a/tolstoy/src/tx_uploader.rs b/tolstoy/src/tx_uploader.rs
index d33e352..168bd2a 100644
--- a/tolstoy/src/tx_uploader.rs
+++ b/tolstoy/src/tx_uploader.rs
@@ -12,12 +12,13 @@ use std::collections::HashMap;
 
 use uuid::Uuid;
 
-use core_traits::Entid;
+use core_traits::{Entid, TypedValue};
 
 use mentat_db::{PartitionMap, V1_PARTS};
 
 use public_traits::errors::Result;
 
+use crate::schema::PARTITION_USER;
 use crate::tx_processor::TxReceiver;
 
 use crate::types::{GlobalTransactionLog, TxPart};
@@ -102,10 +103,18 @@ impl<'c> TxReceiver<UploaderReport> for TxUploader<'c> {
 
         let mut datoms: Vec<TxPart> = datoms.collect();
 
+        let user_partition = self.local_partitions.get(PARTITION_USER);
+
         // TODO this should live within a transaction, once server support is in place.
         // For now, we're uploading the PartitionMap in transaction's first chunk.
         datoms[0].partitions = Some(allocate_partition_map_for_entids(
-            datoms.iter().map(|d| d.e),
+            // User entities may have been allocated for their use as values, too.
+            datoms.iter().flat_map(|d| match d.v {
+                TypedValue::Ref(v) if user_partition.map_or(false, |p| p.allows_entid(v)) => {
+                    vec![d.e, v]
+                }
+                _ => vec![d.e],
+            }),
             &self.local_partitions,
         ));
 
-- 
2.43.0


From b6c67bbaf95fca5f32fa73305280c47b1596e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 60/87] fix: keep caches in line when transactions are merged

---
 db/src/cache.rs       | 17 +++++++++++++++++
 tolstoy/src/syncer.rs |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 7090f0a..d8f4475 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1699,6 +1699,23 @@ impl InProgressSQLiteAttributeCache {
         Ok(())
     }
 
+    /// Fill the caches anew, after transactions were undone.
+    pub fn rewound(&mut self, schema: &Schema, sqlite: &rusqlite::Connection) -> Result<()> {
+        let cached: BTreeSet<Entid> = self
+            .overlay
+            .forward_cached_attributes
+            .union(&self.overlay.reverse_cached_attributes)
+            .cloned()
+            .collect();
+        for a in cached {
+            match schema.attribute_for_entid(a) {
+                None => self.unregister(a),
+                Some(_) => self.overlay.repopulate(schema, sqlite, a)?,
+            }
+        }
+        Ok(())
+    }
+
     pub fn unregister_all(&mut self) {
         self.overlay.unregister_all_attributes();
         self.unregistered_forward
diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 3602b29..ef7e287 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -408,6 +408,7 @@ impl Syncer {
             ip.schema = schema
         };
         ip.partition_map = new_partition_map;
+        ip.cache.rewound(&ip.schema, &ip.transaction)?;
 
         // 2) Transact incoming.
         // 2.1) Prepare remote tx tuples (TermBuilder, PartitionMap, Uuid), which represent
@@ -677,6 +678,7 @@ impl Syncer {
                     report.tx_id
                 ));
                 ip.rollback_savepoint("speculative_local")?;
+                ip.cache.rewound(&ip.schema, &ip.transaction)?;
             }
         }
 
-- 
2.43.0


From 4442e16f9fde452473bac3b19ebb652279875263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 61/87] fix: merge transactions whose attributes got other
 entids

---
 tolstoy/src/syncer.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index ef7e287..15f52f2 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -18,6 +18,7 @@ use core_traits::{Entid, KnownEntid, TypedValue};
 
 use edn::entities::{EntityPlace, LookupRef, TxFunction};
 use edn::PlainSymbol;
+use mentat_core::HasSchema;
 use mentat_db::{entids, timelines, PartitionMap, CORE_SCHEMA_VERSION};
 use mentat_transaction::{InProgress, Queryable, TermBuilder};
 
@@ -392,6 +393,9 @@ impl Syncer {
     ) -> Result<SyncReport> {
         d(&"Rewinding local transactions.".to_string());
 
+        // Local transactions refer to attributes as the local schema knows them.
+        let local_schema = ip.schema.clone();
+
         // 1) Rewind local to shared root.
         local_txs_to_merge.sort(); // TODO sort at the interface level?
 
@@ -410,6 +414,8 @@ impl Syncer {
         ip.partition_map = new_partition_map;
         ip.cache.rewound(&ip.schema, &ip.transaction)?;
 
+        let root_attributes: HashSet<Entid> = ip.schema.attribute_map.keys().cloned().collect();
+
         // 2) Transact incoming.
         // 2.1) Prepare remote tx tuples (TermBuilder, PartitionMap, Uuid), which represent
         // a remote transaction, its global identifier and partitions after it's applied.
@@ -552,7 +558,15 @@ impl Syncer {
                 }
 
                 let e: EntityPlace<TypedValue>;
-                let a = KnownEntid(part.a);
+                // An attribute that isn't part of the shared root might be known by another entid now.
+                let a = if root_attributes.contains(&part.a) {
+                    KnownEntid(part.a)
+                } else {
+                    local_schema
+                        .get_ident(part.a)
+                        .and_then(|ident| ip.schema.get_entid(ident))
+                        .unwrap_or(KnownEntid(part.a))
+                };
                 let v = part.v;
 
                 // Rewrite entids if they will allocate (see entity merging notes above).
@@ -593,7 +607,7 @@ impl Syncer {
                         // - we skip retractions of non-unique attributes,
                         // - we "pre-run" a lookup-ref to ensure it will resolve,
                         //   and skip the retraction otherwise.
-                        match ip.schema.attribute_map.get(&part.a) {
+                        match ip.schema.attribute_map.get(&a.0) {
                             Some(attributes) => {
                                 // A lookup-ref using a non-unique attribute will fail.
                                 // Skip this retraction, since we can't make sense of it.
-- 
2.43.0


From aa51df5290d84a5482d279143b29c85875d1a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:01 +0000
Subject: [PATCH 62/87] fix: retract the uniqueness of attributes that the
 vocabulary's store entry doesn't list

---
 src/vocabulary.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index 782f78c..86d8232 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -352,7 +352,7 @@ impl Definition {
         diff: Option<BTreeMap<Keyword, Attribute>>,
     ) -> Result<Terms>
     where
-        T: HasCoreSchema,
+        T: HasCoreSchema + HasSchema,
         R: ::std::borrow::Borrow<(Keyword, Attribute)>,
     {
         // The attributes we'll need to describe this vocabulary.
@@ -430,11 +430,12 @@ impl Definition {
                 };
                 builder.add(tempid.clone(), a_unique, uu)?;
             } else {
-                let existing_unique = if let Some(ref diff) = diff {
-                    diff.get(kw).and_then(|a| a.unique)
-                } else {
-                    None
-                };
+                // The attribute might exist without being part of the stored vocabulary.
+                let existing_unique = diff
+                    .as_ref()
+                    .and_then(|diff| diff.get(kw))
+                    .or_else(|| via.attribute_for_ident(kw).map(|(a, _)| a))
+                    .and_then(|a| a.unique);
                 match existing_unique {
                     None => {
                         // Nothing to do.
-- 
2.43.0


From 27c65853e3611669b6f1dd17fc0c52d19311cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 63/87] fix: keep anonymous entities of nested maps apart from
 numbered tempids

---
 db/src/tx.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 0bbbacf..bb2bcda 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -270,7 +270,8 @@ where
                 InProcess {
                     partition_map,
                     schema,
-                    mentat_id_count: 0,
+                    // Keep out of the way of the numbers that builders give to tempids.
+                    mentat_id_count: i64::min_value(),
                     tx_id,
                     temp_ids: InternSet::new(),
                     lookup_refs: InternSet::new(),
-- 
2.43.0


From 74a084cb5d4c7928a0d0921d7ff6f30e09f1877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 64/87] fix: no value at the index past the last one

value_at_index aborted when asked for the value at the length of the list,
where it's documented to return null.
---
 ffi/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 61ebd65..4666727 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -1931,7 +1931,7 @@ pub unsafe extern "C" fn typed_value_list_iter_next(iter: *mut BindingIterator)
 pub unsafe extern "C" fn value_at_index(values: *mut Vec<Binding>, index: c_int) -> *mut Binding {
     assert_not_null!(values);
     let values = &*values;
-    if index < 0 || (index as usize) > values.len() {
+    if index < 0 || (index as usize) >= values.len() {
         std::ptr::null_mut()
     } else {
         // TODO: an older version of this function returned a reference into values. This
-- 
2.43.0


From 22cc276c9cdfb3b9c2fadfafcc27dc95b8318dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 65/87] fix: no row at a negative index

row_at_index computed with the index as an unsigned number, which overflows,
where it's documented to return null if there is no row.
---
 ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 4666727..173c93e 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -1845,6 +1845,9 @@ pub unsafe extern "C" fn row_at_index(
     index: c_int,
 ) -> *mut Vec<Binding> {
     assert_not_null!(rows);
+    if index < 0 {
+        return std::ptr::null_mut();
+    }
     let result = &*rows;
     result
         .row(index as usize)
-- 
2.43.0


From 73604d362dbf2420ebad83f9965d556efa633eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 66/87] fix: release entids of temporary ids as what they were
 allocated as

destroy, documented as the way to free what tx_report_entity_for_temp_id
returns, gave the allocator the layout of c_void: one byte instead of eight.
---
 ffi/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 173c93e..d2f370f 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -2287,8 +2287,15 @@ macro_rules! define_destructor_with_lifetimes (
     )
 );
 
-/// destroy function for releasing the memory for `repr(C)` structs.
-define_destructor!(destroy, c_void);
+/// destroy function for releasing the memory of the entids that
+/// `tx_report_entity_for_temp_id` returns.
+#[no_mangle]
+pub unsafe extern "C" fn destroy(obj: *mut c_void) {
+    if !obj.is_null() {
+        // The memory must be released as what it was allocated as.
+        let _ = Box::from_raw(obj as *mut c_longlong);
+    }
+}
 
 /// destroy function for releasing the memory of UUIDs
 define_destructor!(uuid_destroy, [u8; 16]);
-- 
2.43.0


From 11a12d7404163155f8d0ed340a59abbd0a4e0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 67/87] fix: take keywords without a namespace, or with more
 slashes, over the FFI

A keyword without a namespace crashed the process, where functions are
documented to report that it isn't an attribute; and what followed a second
slash was dropped, so that :a/b/c stood for :a/b.
---
 ffi/src/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ffi/src/utils.rs b/ffi/src/utils.rs
index 4df4e48..4409d6f 100644
--- a/ffi/src/utils.rs
+++ b/ffi/src/utils.rs
@@ -33,8 +33,12 @@ pub mod strings {
     pub fn kw_from_string(keyword_string: &'static str) -> Keyword {
         // TODO: validate. The input might not be a keyword!
         let attr_name = keyword_string.trim_start_matches(':');
-        let parts: Vec<&str> = attr_name.split('/').collect();
-        Keyword::namespaced(parts[0], parts[1])
+        match attr_name.find('/') {
+            Some(i) if i > 0 && i + 1 < attr_name.len() => {
+                Keyword::namespaced(&attr_name[..i], &attr_name[i + 1..])
+            }
+            _ => Keyword::plain(attr_name),
+        }
     }
 }
 
-- 
2.43.0


From 234485f5756cf38f2caffbb1e8f6a8bef86778c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 68/87] fix: refuse lookups of values of idents that aren't
 attributes

lookup_value_for_attribute is documented to return an error then, but
returned no value.
---
 transaction/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index dab3df9..32c6523 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -198,7 +198,8 @@ fn fetch_values<'sqlite>(
 
 fn lookup_attribute(schema: &Schema, attribute: &Keyword) -> Result<KnownEntid> {
     schema
-        .get_entid(attribute)
+        .attribute_for_ident(attribute)
+        .map(|(_, attribute_id)| attribute_id)
         .ok_or_else(|| MentatError::UnknownAttribute(attribute.name().into()))
 }
 
-- 
2.43.0


From f06195ec67f5597456a5efc7e0c1516eaaa2ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 69/87] fix: refuse further steps once a storage error has
 rolled the transaction back

---
 public-traits/errors.rs |  3 +++
 transaction/src/lib.rs  | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/public-traits/errors.rs b/public-traits/errors.rs
index b3db80f..255b8bf 100644
--- a/public-traits/errors.rs
+++ b/public-traits/errors.rs
@@ -74,6 +74,9 @@ pub enum MentatError {
     #[fail(display = "core schema: wanted version {}, got version {:?}", _0, _1)]
     UnexpectedCoreSchema(u32, Option<u32>),
 
+    #[fail(display = "the transaction in progress was rolled back by an earlier error")]
+    TransactionLost,
+
     #[fail(display = "Lost the transact() race!")]
     UnexpectedLostTransactRace,
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index d11b428..e856385 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -168,6 +168,11 @@ impl<'a, 'c> InProgress<'a, 'c> {
         F: FnOnce(&mut Self) -> Result<TxReport>,
     {
         const STEP: &str = "mentat_transact_step";
+        // Some errors (I/O, a full disk) make SQLite roll the whole transaction back. Whatever
+        // followed would be written, and committed, statement by statement.
+        if self.transaction.is_autocommit() {
+            bail!(MentatError::TransactionLost);
+        }
         self.savepoint(STEP)?;
         match step(self) {
             Ok(report) => {
@@ -176,8 +181,10 @@ impl<'a, 'c> InProgress<'a, 'c> {
             }
             Err(e) => {
                 self.tx_observer_watcher.abandon();
-                self.rollback_savepoint(STEP)?;
-                self.release_savepoint(STEP)?;
+                if !self.transaction.is_autocommit() {
+                    self.rollback_savepoint(STEP)?;
+                    self.release_savepoint(STEP)?;
+                }
                 Err(e)
             }
         }
-- 
2.43.0


From 9574f4a86f7ad9fb4a698b4014136031f304fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 70/87] fix: keep changed pages in memory until they are
 committed

---
 db/src/db.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/src/db.rs b/db/src/db.rs
index c0d2111..614d738 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -93,6 +93,11 @@ fn make_connection(
     // Some of the platforms we support do not have a tmp partition (e.g. Android)
     // necessary to store temp files on disk. Ideally, consumers should be able to
     // override this behaviour (see issue 505).
+    //
+    // cache_spill=OFF keeps the pages that a transaction changes in memory until it is committed.
+    // The SQLite that we bundle gets the checksums of the write-ahead log wrong when pages that it
+    // spilled are rewritten and then undone by rolling back to a savepoint, as a failing step of a
+    // transaction in progress is: after a crash, all that was committed from there on is lost.
     conn.execute_batch(&format!(
         "
         {}
@@ -101,6 +106,7 @@ fn make_connection(
         PRAGMA journal_size_limit=3145728;
         PRAGMA foreign_keys=ON;
         PRAGMA temp_store=2;
+        PRAGMA cache_spill=OFF;
     ",
         initial_pragmas
     ))?;
-- 
2.43.0


From 47927bb65904dd528a5c297c462662c1be0e7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 71/87] fix: give storage errors while caches are filled, and
 don't cache part of an attribute

---
 db/src/cache.rs | 88 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index d8f4475..0b0a42a 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -159,24 +159,6 @@ impl AevFactory {
     }
 }
 
-pub struct AevRows<'conn, F> {
-    rows: rusqlite::MappedRows<'conn, F>,
-}
-
-/// Unwrap the Result from MappedRows. We could also use this opportunity to map_err it, but
-/// for now it's convenient to avoid error handling.
-impl<'conn, F> Iterator for AevRows<'conn, F>
-where
-    F: FnMut(&rusqlite::Row) -> rusqlite::Result<Aev>,
-{
-    type Item = Aev;
-    fn next(&mut self) -> Option<Aev> {
-        self.rows
-            .next()
-            .map(|row_result| row_result.expect("All database contents should be representable"))
-    }
-}
-
 // The behavior of the cache is different for different kinds of attributes:
 // - cardinality/one doesn't need a vec
 // - unique/* should ideally have a bijective mapping (reverse lookup)
@@ -978,12 +960,27 @@ impl AttributeCaches {
             table
         );
         let args: Vec<&dyn rusqlite::types::ToSql> = vec![&attribute];
-        let mut stmt = sqlite
+        let aevs = sqlite
             .prepare(&sql)
-            .context(DbErrorKind::CacheUpdateFailed)?;
-        let replacing = true;
-        self.start_afresh(schema, attribute);
-        self.repopulate_from_aevt(schema, &mut stmt, args, replacing)
+            .context(DbErrorKind::CacheUpdateFailed)
+            .map_err(|e| e.into())
+            .and_then(|mut stmt| AttributeCaches::read_aevs(&mut stmt, args));
+        match aevs {
+            Ok(aevs) => {
+                self.start_afresh(schema, attribute);
+                self.accumulate_into_cache(
+                    None,
+                    schema,
+                    aevs.into_iter().peekable(),
+                    AccumulationBehavior::Add { replacing: true },
+                )
+            }
+            Err(e) => {
+                // A cache without all of the facts would hide the others.
+                self.unregister_attribute(attribute);
+                Err(e)
+            }
+        }
     }
 
     /// Make the caches of the attribute that it should have, empty, and no others.
@@ -1017,16 +1014,25 @@ impl AttributeCaches {
         args: Vec<&'v dyn rusqlite::types::ToSql>,
         replacing: bool,
     ) -> Result<()> {
-        let mut aev_factory = AevFactory::new();
-        let rows = statement.query_map(&args, |row| Ok(aev_factory.row_to_aev(row)))?;
-        let aevs = AevRows { rows };
+        let aevs = AttributeCaches::read_aevs(statement, args)?;
         self.accumulate_into_cache(
             None,
             schema,
-            aevs.peekable(),
+            aevs.into_iter().peekable(),
             AccumulationBehavior::Add { replacing },
-        )?;
-        Ok(())
+        )
+    }
+
+    /// Read all rows before any of them is used: reading might fail.
+    fn read_aevs(
+        statement: &mut rusqlite::Statement,
+        args: Vec<&dyn rusqlite::types::ToSql>,
+    ) -> Result<Vec<Aev>> {
+        let mut aev_factory = AevFactory::new();
+        let aevs = statement
+            .query_map(&args, |row| Ok(aev_factory.row_to_aev(row)))?
+            .collect::<rusqlite::Result<Vec<Aev>>>()?;
+        Ok(aevs)
     }
 }
 
@@ -1602,7 +1608,7 @@ impl InProgressSQLiteAttributeCache {
 
         self.unregistered_forward.remove(&a);
         self.overlay.forward_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register_reverse<U>(
@@ -1627,7 +1633,7 @@ impl InProgressSQLiteAttributeCache {
 
         self.unregistered_reverse.remove(&a);
         self.overlay.reverse_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register<U>(
@@ -1663,7 +1669,7 @@ impl InProgressSQLiteAttributeCache {
             self.overlay.forward_cached_attributes.insert(a);
         }
 
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn unregister<U>(&mut self, attribute: U)
@@ -1676,6 +1682,20 @@ impl InProgressSQLiteAttributeCache {
         self.unregistered_reverse.insert(a);
     }
 
+    /// Fill the caches of an attribute. If that fails, it isn't cached.
+    fn repopulate(
+        &mut self,
+        schema: &Schema,
+        sqlite: &rusqlite::Connection,
+        a: Entid,
+    ) -> Result<()> {
+        let filled = self.overlay.repopulate(schema, sqlite, a);
+        if filled.is_err() {
+            self.unregister(a);
+        }
+        filled
+    }
+
     /// Bring the caches of attributes that were altered or removed in line with the new schema.
     pub fn schema_changed(
         &mut self,
@@ -1693,7 +1713,7 @@ impl InProgressSQLiteAttributeCache {
             match (old.attribute_for_entid(a), new.attribute_for_entid(a)) {
                 (_, None) => self.unregister(a),
                 (Some(before), Some(after)) if before == after => (),
-                _ => self.overlay.repopulate(new, sqlite, a)?,
+                _ => self.repopulate(new, sqlite, a)?,
             }
         }
         Ok(())
@@ -1710,7 +1730,7 @@ impl InProgressSQLiteAttributeCache {
         for a in cached {
             match schema.attribute_for_entid(a) {
                 None => self.unregister(a),
-                Some(_) => self.overlay.repopulate(schema, sqlite, a)?,
+                Some(_) => self.repopulate(schema, sqlite, a)?,
             }
         }
         Ok(())
-- 
2.43.0


From af4b13daf16eb4b3ca0be23c73e784d811a430ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:18 +0000
Subject: [PATCH 72/87] fix: read a store that is opened as of one moment

---
 db/src/db.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 614d738..f207480 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -393,7 +393,13 @@ pub fn ensure_current_version(conn: &mut rusqlite::Connection) -> Result<DB> {
     let user_version = get_user_version(&conn)?;
     match user_version {
         0 => create_current_version(conn),
-        CURRENT_VERSION => read_db(conn),
+        CURRENT_VERSION => {
+            // All of it as of one moment: another connection might be writing.
+            let tx = conn.transaction()?;
+            let db = read_db(&tx)?;
+            tx.commit()?;
+            Ok(db)
+        }
 
         // TODO: support updating an existing store.
         v => bail!(DbErrorKind::NotYetImplemented(format!(
-- 
2.43.0


From b21a577ac11c2f0206b14fb5af3b0dd8cf1fa914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 73/87] fix: run the HTTP client of the global log on a runtime

---
 tolstoy/src/remote_client.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index 9c62071..522e6cd 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -14,7 +14,7 @@ use hyper::{body, header, Body, Client, Method, Request, StatusCode};
 use hyper_tls::HttpsConnector;
 // TODO: https://github.com/mozilla/mentat/issues/570
 // use serde_cbor;
-use futures::executor::block_on;
+use std::future::Future;
 use uuid::Uuid;
 
 use crate::logger::d;
@@ -48,6 +48,15 @@ struct SerializedTransactions {
     transactions: Vec<Uuid>,
 }
 
+/// Hyper needs the reactor of a Tokio runtime.
+fn block_on<F: Future>(work: F) -> Result<F::Output> {
+    let mut runtime = tokio::runtime::Builder::new()
+        .basic_scheduler()
+        .enable_all()
+        .build()?;
+    Ok(runtime.block_on(work))
+}
+
 pub struct RemoteClient {
     base_uri: String,
     user_uuid: Uuid,
@@ -91,7 +100,7 @@ impl RemoteClient {
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             Ok(json.head)
         };
-        block_on(work)
+        block_on(work)?
     }
 
     fn put<T>(&self, uri: String, payload: T, expected: StatusCode) -> Result<()>
@@ -119,7 +128,7 @@ impl RemoteClient {
             }
             Ok(())
         };
-        block_on(work)
+        block_on(work)?
     }
 
     fn get_transactions(&self, parent_uuid: &Uuid) -> Result<Vec<Uuid>> {
@@ -149,7 +158,7 @@ impl RemoteClient {
             d(&format!("got transactions: {:?}", &json.transactions));
             Ok(json.transactions)
         };
-        block_on(work)
+        block_on(work)?
     }
 
     fn get_chunks(&self, transaction_uuid: &Uuid) -> Result<Vec<Uuid>> {
@@ -180,7 +189,7 @@ impl RemoteClient {
             d(&format!("got transaction chunks: {:?}", &json.chunks));
             Ok(json.chunks)
         };
-        block_on(work)
+        block_on(work)?
     }
 
     fn get_chunk(&self, chunk_uuid: &Uuid) -> Result<TxPart> {
@@ -206,7 +215,7 @@ impl RemoteClient {
             d(&format!("got transaction chunk: {:?}", &json));
             Ok(json)
         };
-        block_on(work)
+        block_on(work)?
     }
 }
 
-- 
2.43.0


From b623972e5bc3d895e2cd32bc153c96bdd57fa0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 74/87] fix: report refused requests and network errors to
 whoever syncs

---
 tolstoy/src/remote_client.rs | 58 +++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index 522e6cd..07bf857 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -10,7 +10,7 @@
 
 #![allow(dead_code)]
 
-use hyper::{body, header, Body, Client, Method, Request, StatusCode};
+use hyper::{body, header, Body, Client, Method, Request, Response, StatusCode};
 use hyper_tls::HttpsConnector;
 // TODO: https://github.com/mozilla/mentat/issues/570
 // use serde_cbor;
@@ -19,6 +19,7 @@ use uuid::Uuid;
 
 use crate::logger::d;
 use public_traits::errors::Result;
+use tolstoy_traits::errors::TolstoyError;
 
 use crate::types::{GlobalTransactionLog, Tx, TxPart};
 
@@ -57,6 +58,21 @@ fn block_on<F: Future>(work: F) -> Result<F::Output> {
     Ok(runtime.block_on(work))
 }
 
+/// The body of a response, which must have the expected status.
+async fn body_of(res: Response<Body>, expected: StatusCode) -> Result<String> {
+    let status_code = res.status();
+    d(&format!("response.status: {:?}", status_code));
+    if status_code != expected {
+        bail!(TolstoyError::BadRemoteResponse(status_code.to_string()));
+    }
+
+    let body_bytes = body::to_bytes(res.into_body()).await?;
+    match String::from_utf8(body_bytes.to_vec()) {
+        Ok(body) => Ok(body),
+        Err(e) => bail!(TolstoyError::BadRemoteResponse(e.to_string())),
+    }
+}
+
 pub struct RemoteClient {
     base_uri: String,
     user_uuid: Uuid,
@@ -90,12 +106,8 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
-
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let res = client.get(uri).await?;
+            let body = body_of(res, StatusCode::OK).await?;
             let json: SerializedHead = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             Ok(json.head)
@@ -120,12 +132,8 @@ impl RemoteClient {
             .unwrap();
 
         let work = async {
-            let res = client.request(req).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let status_code = res.status();
-
-            if status_code != expected {
-                d(&format!("bad put response: {:?}", status_code));
-            }
+            let res = client.request(req).await?;
+            body_of(res, expected).await?;
             Ok(())
         };
         block_on(work)?
@@ -147,12 +155,8 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
-
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let res = client.get(uri).await?;
+            let body = body_of(res, StatusCode::OK).await?;
             let json: SerializedTransactions = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             d(&format!("got transactions: {:?}", &json.transactions));
@@ -177,12 +181,8 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
-
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let res = client.get(uri).await?;
+            let body = body_of(res, StatusCode::OK).await?;
             let json: DeserializableTransaction = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
 
@@ -204,12 +204,8 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
-
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let res = client.get(uri).await?;
+            let body = body_of(res, StatusCode::OK).await?;
             let json: TxPart = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             d(&format!("got transaction chunk: {:?}", &json));
-- 
2.43.0


From 20d45fad909569dc0ad4a4ff98787f4d70c74481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 75/87] fix: let the shell's timer be switched off

---
 tools/cli/src/mentat_cli/command_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/command_parser.rs b/tools/cli/src/mentat_cli/command_parser.rs
index 0e6489a..38b75e2 100644
--- a/tools/cli/src/mentat_cli/command_parser.rs
+++ b/tools/cli/src/mentat_cli/command_parser.rs
@@ -273,7 +273,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
 
     let timer_parser = string(COMMAND_TIMER_LONG)
         .with(spaces())
-        .with(string("on").map(|_| true).or(string("off").map(|_| false)))
+        .with(attempt(string("on")).map(|_| true).or(string("off").map(|_| false)))
         .map(|args| Ok(Command::Timer(args)));
 
     let transact_parser = attempt(string(COMMAND_TRANSACT_LONG))
-- 
2.43.0


From 58c6da96eabab550119aadf1cef086879f28bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 76/87] fix: refuse the shell's .sync without a user instead of
 panicking

---
 tools/cli/src/mentat_cli/command_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/command_parser.rs b/tools/cli/src/mentat_cli/command_parser.rs
index 38b75e2..25b3035 100644
--- a/tools/cli/src/mentat_cli/command_parser.rs
+++ b/tools/cli/src/mentat_cli/command_parser.rs
@@ -257,7 +257,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
         .with(spaces())
         .with(arguments())
         .map(|args| {
-            if args.is_empty() {
+            if args.len() < 2 {
                 bail!(CliError::CommandParse(
                     "Missing required argument".to_string()
                 ));
-- 
2.43.0


From 80fbbb5e81f88ef0400760f9bb8b83fe975092ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 77/87] fix: separate the entries of maps printed by the shell

---
 tools/cli/src/mentat_cli/repl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/repl.rs b/tools/cli/src/mentat_cli/repl.rs
index 885d53b..0fa10d2 100644
--- a/tools/cli/src/mentat_cli/repl.rs
+++ b/tools/cli/src/mentat_cli/repl.rs
@@ -586,8 +586,8 @@ impl Repl {
         for (k, v) in value.0.iter() {
             if !first {
                 out.push_str(", ");
-                first = true;
             }
+            first = false;
             out.push_str(&k.to_string());
             out.push(' ');
             out.push_str(self.binding_as_string(v).as_str());
-- 
2.43.0


From 3bbfbbc408fd321721ea9bcc2f010fa27b8b97dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 78/87] fix: carry out all of the shell's startup options,
 queries last

---
 tools/cli/src/mentat_cli/lib.rs | 55 +++++++++++++--------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/tools/cli/src/mentat_cli/lib.rs b/tools/cli/src/mentat_cli/lib.rs
index be5d811..a5d9755 100644
--- a/tools/cli/src/mentat_cli/lib.rs
+++ b/tools/cli/src/mentat_cli/lib.rs
@@ -129,40 +129,29 @@ pub fn run() -> i32 {
         false => None,
     };
 
-    let mut last_arg: Option<&str> = None;
-
-    let cmds: Vec<command_parser::Command> = args
-        .iter()
-        .filter_map(|arg| match last_arg {
-            Some("-d") => {
-                last_arg = None;
-                if let Some(ref k) = key {
-                    Some(command_parser::Command::OpenEncrypted(
-                        arg.clone(),
-                        k.clone(),
-                    ))
-                } else {
-                    Some(command_parser::Command::Open(arg.clone()))
-                }
-            }
-            Some("-q") => {
-                last_arg = None;
-                Some(command_parser::Command::Query(arg.clone()))
-            }
-            Some("-i") => {
-                last_arg = None;
-                Some(command_parser::Command::Import(arg.clone()))
-            }
-            Some("-t") => {
-                last_arg = None;
-                Some(command_parser::Command::Transact(arg.clone()))
-            }
-            Some(_) | None => {
-                last_arg = Some(&arg);
-                None
-            }
-        })
+    let mut cmds: Vec<command_parser::Command> = vec![];
+    if let Some(db) = matches.opt_str("d") {
+        cmds.push(match key {
+            Some(k) => command_parser::Command::OpenEncrypted(db, k),
+            None => command_parser::Command::Open(db),
+        });
+    }
+
+    // Transacts and imports are executed in the order in which they're given, before any queries.
+    let transacts = matches.opt_strs_pos("transact").into_iter();
+    let imports = matches.opt_strs_pos("import").into_iter();
+    let mut writes: Vec<(usize, command_parser::Command)> = transacts
+        .map(|(pos, tx)| (pos, command_parser::Command::Transact(tx)))
+        .chain(imports.map(|(pos, path)| (pos, command_parser::Command::Import(path))))
         .collect();
+    writes.sort_by_key(|&(pos, _)| pos);
+    cmds.extend(writes.into_iter().map(|(_, cmd)| cmd));
+    cmds.extend(
+        matches
+            .opt_strs("query")
+            .into_iter()
+            .map(command_parser::Command::Query),
+    );
 
     let mut repl = match repl::Repl::new(!matches.opt_present("no-tty")) {
         Ok(repl) => repl,
-- 
2.43.0


From 1e3cea015080443a6b728cb6bae9cf5d2bbd5407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 79/87] fix: match the type of a value given to a query of a
 transaction's data

---
 query-algebrizer/src/clauses/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index cc04996..0283110 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -29,7 +29,7 @@ use crate::types::{
     Column, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation, ColumnIntersection,
     ComputedTable, DatomsColumn, DatomsTable, EmptyBecause, EvolvedNonValuePlace, EvolvedPattern,
     EvolvedValuePlace, FulltextColumn, Inequality, PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias,
-    TableAlias,
+    TableAlias, TransactionsColumn,
 };
 
 mod convert; // Converting args to values.
@@ -438,6 +438,14 @@ impl ConjoiningClauses {
                     self.constrain_column_to_constant(table, column, bound_val);
                 }
 
+                // A value in the log can be of any type, and SQLite can't tell them all apart.
+                Column::Transactions(TransactionsColumn::Value) => {
+                    let value_type = bound_val.value_type();
+                    self.constrain_column_to_constant(table.clone(), column, bound_val);
+                    self.wheres
+                        .add_intersection(ColumnConstraint::has_unit_type(table, value_type));
+                }
+
                 Column::Transactions(_) => {
                     self.constrain_column_to_constant(table, column, bound_val);
                 }
-- 
2.43.0


From 46bc63fb751cb1536bcab20519283a548a566a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 80/87] fix: returning to a savepoint restores what a
 transaction in progress keeps in memory

---
 db/src/cache.rs        |  2 +-
 db/src/tx_observer.rs  |  2 +-
 src/conn.rs            |  1 +
 tolstoy/src/syncer.rs  |  2 +-
 transaction/src/lib.rs | 63 ++++++++++++++++++++++++++++++++++--------
 5 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 0b0a42a..b5b3bcd 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1567,7 +1567,7 @@ impl SQLiteAttributeCache {
 
 /// We maintain a diff on top of the `inner` -- existing -- cache.
 /// That involves tracking unregisterings and registerings.
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 pub struct InProgressSQLiteAttributeCache {
     inner: Arc<AttributeCaches>,
     pub overlay: AttributeCaches,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index 7ba6251..6e73602 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -156,7 +156,7 @@ impl Drop for TxObservationService {
     }
 }
 
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub struct InProgressObserverTransactWatcher {
     collected_attributes: AttributeSet,
     pub txes: IndexMap<Entid, AttributeSet>,
diff --git a/src/conn.rs b/src/conn.rs
index 212b3f2..d51fef3 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -258,6 +258,7 @@ impl Conn {
             use_caching: true,
             tx_observer: &self.tx_observer_service,
             tx_observer_watcher: InProgressObserverTransactWatcher::new(),
+            savepoints: vec![],
         })
     }
 
diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 15f52f2..48f4185 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -692,7 +692,7 @@ impl Syncer {
                     report.tx_id
                 ));
                 ip.rollback_savepoint("speculative_local")?;
-                ip.cache.rewound(&ip.schema, &ip.transaction)?;
+                ip.release_savepoint("speculative_local")?;
             }
         }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index e856385..f1e7ac1 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -95,6 +95,16 @@ pub struct InProgress<'a, 'c> {
     pub use_caching: bool,
     pub tx_observer: &'a Mutex<TxObservationService>,
     pub tx_observer_watcher: InProgressObserverTransactWatcher,
+    pub savepoints: Vec<Savepoint>,
+}
+
+/// What an `InProgress` keeps in memory, as it was when a savepoint was set.
+pub struct Savepoint {
+    name: String,
+    partition_map: PartitionMap,
+    schema: Schema,
+    cache: InProgressSQLiteAttributeCache,
+    tx_observer_watcher: InProgressObserverTransactWatcher,
 }
 
 /// Represents an in-progress set of reads to the store. Just like `InProgress`,
@@ -173,17 +183,17 @@ impl<'a, 'c> InProgress<'a, 'c> {
         if self.transaction.is_autocommit() {
             bail!(MentatError::TransactionLost);
         }
-        self.savepoint(STEP)?;
+        self.execute_savepoint("SAVEPOINT", STEP)?;
         match step(self) {
             Ok(report) => {
-                self.release_savepoint(STEP)?;
+                self.execute_savepoint("RELEASE", STEP)?;
                 Ok(report)
             }
             Err(e) => {
                 self.tx_observer_watcher.abandon();
                 if !self.transaction.is_autocommit() {
-                    self.rollback_savepoint(STEP)?;
-                    self.release_savepoint(STEP)?;
+                    self.execute_savepoint("ROLLBACK TO", STEP)?;
+                    self.execute_savepoint("RELEASE", STEP)?;
                 }
                 Err(e)
             }
@@ -367,21 +377,50 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map[":db.part/tx"].next_entid() - 1
     }
 
-    pub fn savepoint(&self, name: &str) -> Result<()> {
+    fn execute_savepoint(&self, command: &str, name: &str) -> Result<()> {
         self.transaction
-            .execute(&format!("SAVEPOINT {}", name), rusqlite::params![])?;
+            .execute(&format!("{} {}", command, name), rusqlite::params![])?;
         Ok(())
     }
 
-    pub fn rollback_savepoint(&self, name: &str) -> Result<()> {
-        self.transaction
-            .execute(&format!("ROLLBACK TO {}", name), rusqlite::params![])?;
+    /// The innermost savepoint of that name: like SQLite, don't tell names apart by their case.
+    fn find_savepoint(&self, name: &str) -> Option<usize> {
+        self.savepoints
+            .iter()
+            .rposition(|s| s.name.eq_ignore_ascii_case(name))
+    }
+
+    pub fn savepoint(&mut self, name: &str) -> Result<()> {
+        self.execute_savepoint("SAVEPOINT", name)?;
+        self.savepoints.push(Savepoint {
+            name: name.to_string(),
+            partition_map: self.partition_map.clone(),
+            schema: self.schema.clone(),
+            cache: self.cache.clone(),
+            tx_observer_watcher: self.tx_observer_watcher.clone(),
+        });
         Ok(())
     }
 
-    pub fn release_savepoint(&self, name: &str) -> Result<()> {
-        self.transaction
-            .execute(&format!("RELEASE {}", name), rusqlite::params![])?;
+    /// Undo everything since the savepoint was set, which remains set.
+    pub fn rollback_savepoint(&mut self, name: &str) -> Result<()> {
+        self.execute_savepoint("ROLLBACK TO", name)?;
+        if let Some(i) = self.find_savepoint(name) {
+            self.savepoints.truncate(i + 1);
+            let savepoint = &self.savepoints[i];
+            self.partition_map = savepoint.partition_map.clone();
+            self.schema = savepoint.schema.clone();
+            self.cache = savepoint.cache.clone();
+            self.tx_observer_watcher = savepoint.tx_observer_watcher.clone();
+        }
+        Ok(())
+    }
+
+    pub fn release_savepoint(&mut self, name: &str) -> Result<()> {
+        self.execute_savepoint("RELEASE", name)?;
+        if let Some(i) = self.find_savepoint(name) {
+            self.savepoints.truncate(i);
+        }
         Ok(())
     }
 }
-- 
2.43.0


From c20615f8bbeac9055c170104e26991edcbc27e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:59 +0000
Subject: [PATCH 81/87] fix: move as many transactions off the main timeline as
 there are

---
 db/src/timelines.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index f79adef..6f5a326 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -18,6 +18,8 @@ use core_traits::{Entid, KnownEntid, TypedValue};
 
 use mentat_core::Schema;
 
+use rusqlite::limits::Limit;
+
 use edn::InternSet;
 
 use edn::entities::OpType;
@@ -74,19 +76,23 @@ fn move_transactions_to(
     tx_ids: &[Entid],
     new_timeline: Entid,
 ) -> Result<()> {
-    // Move specified transactions over to a specified timeline.
-    conn.execute(
-        &format!(
-            "UPDATE timelined_transactions SET timeline = {} WHERE timeline = {} AND tx IN {}",
-            new_timeline,
-            crate::TIMELINE_MAIN,
-            crate::repeat_values(tx_ids.len(), 1)
-        ),
-        &(tx_ids
-            .iter()
-            .map(|x| x as &dyn rusqlite::types::ToSql)
-            .collect::<Vec<_>>()),
-    )?;
+    // Move specified transactions over to a specified timeline, as many at once as a statement can
+    // mention.
+    let max_vars = conn.limit(Limit::SQLITE_LIMIT_VARIABLE_NUMBER) as usize;
+    for tx_ids in tx_ids.chunks(max_vars) {
+        conn.execute(
+            &format!(
+                "UPDATE timelined_transactions SET timeline = {} WHERE timeline = {} AND tx IN {}",
+                new_timeline,
+                crate::TIMELINE_MAIN,
+                crate::repeat_values(tx_ids.len(), 1)
+            ),
+            &(tx_ids
+                .iter()
+                .map(|x| x as &dyn rusqlite::types::ToSql)
+                .collect::<Vec<_>>()),
+        )?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 78891b063297f85386eb16bf24d1e8730149579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 82/87] fix: extending a cache doesn't repeat the values it
 already holds

---
 db/src/cache.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index b5b3bcd..f2222e5 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1225,6 +1225,23 @@ impl AttributeCaches {
             }
         }
 
+        // What's left is fetched for every entity: drop the values that are already cached, so
+        // that they aren't repeated.
+        for (a, cache) in self.multi_vals.iter_mut() {
+            let fetched = match attrs {
+                AttributeSpec::All => true,
+                AttributeSpec::Specified {
+                    ref fts,
+                    ref non_fts,
+                } => fts.contains(a) || non_fts.contains(a),
+            };
+            if fetched {
+                for e in entities {
+                    cache.e_vs.remove(e);
+                }
+            }
+        }
+
         self.populate_cache_for_entities_and_attributes(schema, sqlite, attrs, entities)
     }
 
-- 
2.43.0


From 23fe9b6a849e4ebe7fe9c0aa45154f7fc0b58f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 83/87] fix: caching every attribute of an entity ends when the
 entity has datoms of a removed attribute

---
 db/src/cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index f2222e5..7cf4d6f 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -843,6 +843,9 @@ impl AttributeCaches {
                         unreachable!(); // Must be cached in at least one direction!
                     }
                 }
+            } else {
+                // These datoms outlived their attribute. Skip them.
+                with_aev_iter(a, iter, |_, _| ());
             }
         }
     }
-- 
2.43.0


From c041f25a1fb908ccffdea50a23c68292d5cf5924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:26 +0000
Subject: [PATCH 84/87] fix: refuse map notation that repeats a key, instead of
 dropping what it says first

---
 edn/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 6b9613c..4b6cacc 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -321,7 +321,12 @@ peg::parser!(pub grammar parse() for str {
         = k:(entid()) __ v:(value_place()) { (k, v) }
 
     rule map_notation() -> MapNotation<ValueAndSpan>
-        = "{" __ kvs:(value_place_pair()*) __ "}" { kvs.into_iter().collect() }
+        = "{" __ kvs:(value_place_pair()*) __ "}" {?
+            // What's repeated would be lost.
+            let count = kvs.len();
+            let map: MapNotation<ValueAndSpan> = kvs.into_iter().collect();
+            if map.len() == count { Ok(map) } else { Err("map notation without repeated keys") }
+        }
 
     rule value_place() -> ValuePlace<ValueAndSpan>
         = __ v:lookup_ref() __ { ValuePlace::LookupRef(v) }
-- 
2.43.0


From 0acbc3f78cd5a0dea539e2986e42e4f1964f1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:35 +0000
Subject: [PATCH 85/87] fix: refuse patterns of a named source, instead of
 panicking and poisoning the connection

---
 query-algebrizer/src/lib.rs      |  4 ++++
 query-algebrizer/src/validate.rs | 35 +++++++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index b35cb82..fcf47b4 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -34,6 +34,8 @@ use edn::query::{Element, FindSpec, Limit, Order, ParsedQuery, SrcVar, Variable,
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
+use crate::validate::validate_sources;
+
 pub use crate::clauses::{QueryInputs, VariableBindings};
 
 pub use crate::types::{EmptyBecause, FindQuery};
@@ -307,6 +309,8 @@ pub fn algebrize_with_inputs(
     counter: usize,
     inputs: QueryInputs,
 ) -> Result<AlgebraicQuery> {
+    validate_sources(&parsed.where_clauses)?;
+
     let alias_counter = RcCounter::with_initial(counter);
     let mut cc =
         ConjoiningClauses::with_inputs_and_alias_counter(parsed.in_vars, inputs, alias_counter);
diff --git a/query-algebrizer/src/validate.rs b/query-algebrizer/src/validate.rs
index 58e0ad6..ac1d193 100644
--- a/query-algebrizer/src/validate.rs
+++ b/query-algebrizer/src/validate.rs
@@ -10,10 +10,43 @@
 
 use std::collections::BTreeSet;
 
-use edn::query::{ContainsVariables, NotJoin, OrJoin, UnifyVars, Variable};
+use edn::query::{
+    ContainsVariables, NotJoin, OrJoin, OrWhereClause, PlainSymbol, SrcVar, UnifyVars, Variable,
+    WhereClause,
+};
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
+/// Patterns match datoms of the default source only.
+pub(crate) fn validate_sources<'a, I>(clauses: I) -> Result<()>
+where
+    I: IntoIterator<Item = &'a WhereClause>,
+{
+    for clause in clauses {
+        match clause {
+            WhereClause::Pattern(ref pattern) => match pattern.source {
+                None | Some(SrcVar::DefaultSrc) => (),
+                Some(SrcVar::NamedSrc(_)) => bail!(AlgebrizerError::InvalidArgument(
+                    PlainSymbol::plain("pattern"),
+                    "the default source",
+                    0
+                )),
+            },
+            WhereClause::OrJoin(ref or_join) => {
+                for arm in &or_join.clauses {
+                    match arm {
+                        OrWhereClause::Clause(ref clause) => validate_sources(Some(clause))?,
+                        OrWhereClause::And(ref clauses) => validate_sources(clauses)?,
+                    }
+                }
+            }
+            WhereClause::NotJoin(ref not_join) => validate_sources(&not_join.clauses)?,
+            _ => (),
+        }
+    }
+    Ok(())
+}
+
 /// In an `or` expression, every mentioned var is considered 'free'.
 /// In an `or-join` expression, every var in the var list is 'required'.
 ///
-- 
2.43.0


From bd169611d848426aa2194abe00d6309a70b915ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:35 +0000
Subject: [PATCH 86/87] fix: refuse an or whose arm mentions a variable without
 binding it, instead of panicking

---
 query-algebrizer/src/clauses/or.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 68e5998..27175f2 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -20,7 +20,7 @@ use edn::query::{
 
 use crate::clauses::{ConjoiningClauses, Intersection, PushComputed};
 
-use query_algebrizer_traits::errors::Result;
+use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
 use crate::types::{
     ColumnAlternation, ColumnConstraintOrAlternation, ColumnIntersection, ComputedTable,
@@ -624,6 +624,15 @@ impl ConjoiningClauses {
             if receptacle.is_known_empty() {
                 empty_because = receptacle.empty_because;
             } else {
+                // Mentioning a variable isn't the same as binding it. Each arm must be able to
+                // project every variable.
+                for var in &projected {
+                    if receptacle.bound_value(var).is_none()
+                        && !receptacle.column_bindings.contains_key(var)
+                    {
+                        bail!(AlgebrizerError::UnboundVariable(var.name()));
+                    }
+                }
                 acc.push(receptacle);
             }
         }
-- 
2.43.0


From 3418df1a83625a77dcb9832e72255d9da34ca8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 87/87] fix: answer an or that binds no variables, instead of
 panicking

---
 query-projector/src/translate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/query-projector/src/translate.rs b/query-projector/src/translate.rs
index 5c740d0..3905bec 100644
--- a/query-projector/src/translate.rs
+++ b/query-projector/src/translate.rs
@@ -310,7 +310,12 @@ fn table_for_computed(computed: ComputedTable, alias: TableAlias) -> TableOrSubq
 
                         // Each arm simply turns into a subquery.
                         // The SQL translation will stuff "UNION" between each arm.
-                        let projection = Projection::Columns(columns);
+                        // With no variables to unify, all that matters is whether there's a match.
+                        let projection = if columns.is_empty() {
+                            Projection::One
+                        } else {
+                            Projection::Columns(columns)
+                        };
                         cc_to_select_query(projection, cc, false, vec![], None, Limit::None)
                   }).collect(),
                 alias)
-- 
2.43.0

