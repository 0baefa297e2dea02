From 76f2728892400bce08c4a57c4e5b5f7f40ab9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 01/60] fix: read the generators of V3 messages back

---
 rust/pact_models/src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..abfffef 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -15,7 +15,7 @@ use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, json_to_string};
@@ -226,7 +226,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From 9130c257281ada4461b037d0273dd35fc8a63891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 02/60] fix: clone and display boxed synchronous messages

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..b6a6ef4 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -153,6 +153,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -166,6 +168,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From ce7effe985d2abb6a6baabedb4168d1d08bd04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 03/60] fix: create min-max-type matching rules from their own
 name

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..3bbd45e 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -379,6 +379,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("MinMax matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
-- 
2.43.0


From 0df9428a1774458fec737a360483018dcdbfcb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 04/60] fix: keep the matching rules of a header or query
 parameter named matchers

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 3bbd45e..ef7302e 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1136,7 +1136,7 @@ impl MatchingRuleCategory {
         }
       }
     } else if let Value::Object(m) = rules {
-      if m.contains_key("matchers") {
+      if m.get("matchers").map_or(false, Value::is_array) {
         self.add_rule_list(DocPath::empty(), rules)?;
       } else if self.name == Category::QUERY || self.name == Category::HEADER {
         for (k, v) in m {
-- 
2.43.0


From 8de4f2acc0ffcc82ed55f0aaafe487509e582d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 05/60] fix: only prefix the root of a body path with the
 category in V2 matching rules

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index ef7302e..03f6de3 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1029,7 +1029,7 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        map.insert(String::from(k).replacen("$", "$.body", 1), v.to_v2_json());
       }
       Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
         let mut path = DocPath::root();
-- 
2.43.0


From 68d3f644a694a50c99a94ef916045b5e344f549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 06/60] fix: read V2 matching rules for names that are not
 plain identifiers

---
 rust/pact_models/src/matchingrules/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 03f6de3..16cac3d 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1358,7 +1358,7 @@ impl MatchingRules {
           _ => None
         }).skip(1).next();
         let header = header_name.ok_or_else(|| anyhow!("'{}' is not a valid path value for a matching rule", key))?;
-        self.add_v2_rule("header", DocPath::new(header)?, v)?;
+        self.add_v2_rule("header", Self::v2_name_path(header), v)?;
       } else {
         let path = DocPath::new(key)?;
         let mut names = path.tokens().iter().filter_map(|t| match t {
@@ -1369,7 +1369,7 @@ impl MatchingRules {
         let name = names.next();
         self.add_v2_rule(
           category,
-          if let Some(name) = name { DocPath::new(name)? } else { DocPath::empty() },
+          if let Some(name) = name { Self::v2_name_path(name) } else { DocPath::empty() },
           v,
         )?;
       }
@@ -1377,6 +1377,19 @@ impl MatchingRules {
     Ok(())
   }
 
+  /// Path for the name of a header or query parameter. Names that are not plain identifiers can not
+  /// be parsed as a path expression, so are used as a field as is.
+  fn v2_name_path(name: String) -> DocPath {
+    match DocPath::new(name.as_str()) {
+      Ok(path) if path.first_field() == Some(name.as_str()) => path,
+      _ => {
+        let mut path = DocPath::root();
+        path.push_field(name);
+        path
+      }
+    }
+  }
+
   fn load_from_v3_map(&mut self, map: &serde_json::Map<String, Value>
   ) -> anyhow::Result<()> {
     for (k, v) in map {
-- 
2.43.0


From de467c13d11cf9ebfbf3d656d00110dd65f07512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 07/60] fix: unescape quotes and back-slashes in quoted names
 in path expressions

---
 rust/pact_models/src/path_exp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..d205114 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -593,7 +593,7 @@ fn path_identifier<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path
   }
 }
 
-// string_path -> [^']+
+// string_path -> ([^'\\] | \\ | \' | \)+
 fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &str, index: usize) -> Result<(), String>
   where I: Iterator<Item=(usize, char)> {
   let mut id = String::new();
@@ -603,9 +603,17 @@ fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &s
     let mut ch = next_char.unwrap();
     next_char = peek(chars);
     while ch.1 != '\'' && next_char.is_some() {
-      id.push(ch.1);
+      let next = next_char.unwrap();
       chars.next();
-      ch = next_char.unwrap();
+      if ch.1 == '\\' && (next.1 == '\'' || next.1 == '\\') {
+        // quotes and back-slashes in names are escaped with a back-slash
+        id.push(next.1);
+        ch = chars.next()
+          .ok_or_else(|| format!("Unterminated string in path expression \"{}\" at index {}", path, next.0))?;
+      } else {
+        id.push(ch.1);
+        ch = next;
+      }
       next_char = peek(chars);
     }
     if ch.1 == '\'' {
-- 
2.43.0


From fb8db09948307296711b41633e2a5d1beb491db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 08/60] fix: return an error for an index that is not a number
 in a path expression

---
 rust/pact_models/src/path_exp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index d205114..c7e38d4 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -656,7 +656,9 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
+  let index = id.parse()
+    .map_err(|err| format!("\"{}\" is not a valid index in path expression \"{}\": {}", id, path, err))?;
+  tokens.push(PathToken::Index(index));
   Ok(())
 }
 
-- 
2.43.0


From 5d09730c361e45277f4a3f53747740009c2fd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 09/60] fix: select between matching rules of equal weight by
 their path, not by the random order of a map

---
 rust/pact_models/src/matchingrules/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 16cac3d..29e562e 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -998,7 +998,8 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
+      // equal weights are decided by path, as the order of the entries of a map is random
+      .max_by(|(k1, _, (w1, t1)), (k2, _, (w2, t2))| (w1 * t1).cmp(&(w2 * t2)).then_with(|| k1.cmp(k2)))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
@@ -1082,9 +1083,10 @@ impl MatchingRuleCategory {
     }
   }
 
-  /// Returns this category as a matching rule list. Returns a None if there are no rules
+  /// Returns this category as a matching rule list. Returns an empty list if there are no rules.
+  /// If there are rules for more than one path, the ones for the last path (in order) are returned.
   pub fn as_rule_list(&self) -> RuleList {
-    self.rules.values().next().cloned().unwrap_or_default()
+    self.rules.iter().max_by_key(|&(path, _)| path).map(|(_, rules)| rules.clone()).unwrap_or_default()
   }
 
   /// Adds the rules to the category from the provided JSON
-- 
2.43.0


From b37f04c25ca9705f630018da5d6fa455143b7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:04 +0000
Subject: [PATCH 10/60] fix: do not panic on a content type header without a
 value

---
 rust/pact_models/src/json_utils.rs    |  7 +------
 rust/pact_models/src/v4/http_parts.rs | 10 +++++-----
 rust/pact_models/src/v4/mod.rs        |  2 +-
 3 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..53cff83 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -151,12 +151,7 @@ enum JsonParsable {
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-      Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
-          Ok(v) => Some(v),
-          Err(_) => None
-        }
-      },
+      Some(kv) => kv.1.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
       None => None
     },
     None => None
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..440871d 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -397,15 +397,15 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
         Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
-              Ok(v) => Some(v),
+          Some((_, v)) => v.first().and_then(|v| {
+            match ContentType::parse(v.as_str()) {
+              Ok(ct) => Some(ct),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", v, err);
                 None
               }
             }
-          },
+          }),
           None => None
         },
         None => None
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..4ad33ab 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -65,7 +65,7 @@ pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, V
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
       match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+        Some((_, v)) => v.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
         None => None
       }
     }).flatten())
-- 
2.43.0


From b8961263fe9edf769984b4e4eb2b2995422fbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:04 +0000
Subject: [PATCH 11/60] fix: look up the content type of a message from
 metadata that is not a list

---
 rust/pact_models/src/message.rs          | 5 ++++-
 rust/pact_models/src/v4/message_parts.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index abfffef..14ef4d5 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,10 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..c64aa4b 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,7 +170,10 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 }
 
-- 
2.43.0


From ad485dbc6bb79f5a3f18553dcb8fd393c6065ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 12/60] fix: keep characters that are not ASCII when decoding
 query strings

---
 rust/pact_models/src/query_strings.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..39562b6 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -33,22 +33,19 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             },
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
-              buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              buffer.extend_from_slice(format!("%{}{}", v1, v2).as_bytes());
             }
           }
         },
         (Some(v1), None) => {
-          buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          buffer.extend_from_slice(format!("%{}", v1).as_bytes());
         },
         _ => buffer.push('%' as u8)
       }
     } else if c == '+' {
       buffer.push(' ' as u8);
     } else {
-      buffer.push(c as u8);
+      buffer.extend_from_slice(c.to_string().as_bytes());
     }
 
     ch = chars.next();
-- 
2.43.0


From 3a8f98b370ccb18b4f51ac385a8a8339b2e6c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 13/60] fix: do not panic when encoding a character with an odd
 number of digits in a query string

---
 rust/pact_models/src/query_strings.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 39562b6..e6c35b4 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -69,8 +69,9 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
-      _ => ch.escape_unicode()
-        .filter(|u| u.is_digit(16))
+      // an odd number of digits needs a leading zero
+      _ => std::iter::repeat('0').take(ch.escape_unicode().filter(|u| u.is_digit(16)).count() % 2)
+        .chain(ch.escape_unicode().filter(|u| u.is_digit(16)))
         .batching(|it| {
           match it.next() {
             None => None,
-- 
2.43.0


From ce3fbf58ac520cf61207ef704e39993d4c5c71fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 14/60] fix: read each value of a query parameter that is not
 text as itself

---
 rust/pact_models/src/query_strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index e6c35b4..edde41b 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -157,7 +157,7 @@ pub fn v3_query_from_json(
         Value::Array(array) => array.iter().map(|item| match item {
           Value::String(s) => Some(s.clone()),
           Value::Null => None,
-          _ => Some(v.to_string())
+          _ => Some(item.to_string())
         }).collect(),
         _ => {
           warn!("Query parameter value '{}' is not valid, ignoring", v);
-- 
2.43.0


From 4733b30904a7d030ead9dabdd5c89fd141a0e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 15/60] fix: encode the names of query parameters that contain
 a delimiter

---
 rust/pact_models/src/query_strings.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index edde41b..78c7e5b 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -84,6 +84,14 @@ pub fn encode_query(query: &str) -> String {
   }).collect()
 }
 
+/// Encodes the characters of a query parameter name that have a meaning in a query string
+fn encode_name(name: &str) -> String {
+  name.chars().map(|ch| match ch {
+    '&' | '=' | '%' | '+' => encode_query(&ch.to_string()),
+    _ => ch.to_string()
+  }).collect()
+}
+
 /// Parses a query string into an optional map. The query parameter name will be mapped to
 /// a list of values. Where the query parameter is repeated, the order of the values will be
 /// preserved.
@@ -124,8 +132,8 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .flat_map(|kv| {
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => encode_name(&kv.0),
+          Some(s) => format!("{}={}", encode_name(&kv.0), encode_query(s))
         })
         .collect_vec()
     })
-- 
2.43.0


From e8b8a6796380a2962af935b3e56eaa7e99a98f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 16/60] fix: content types with different suffixes are not
 equivalent

---
 rust/pact_models/src/content_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 38442d3..5728140 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -148,7 +148,7 @@ impl ContentType {
       self.attributes.is_empty() || self.attributes == other.attributes
     }
     else if self.attributes.is_empty() {
-      self.main_type == other.main_type && self.sub_type == other.sub_type
+      self.main_type == other.main_type && self.sub_type == other.sub_type && self.suffix == other.suffix
     } else {
       self == other
     }
-- 
2.43.0


From e3190b1d31686c5036c2d07280d3cfda292b22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 17/60] fix: quote the attributes of a content type that are
 not a token when displaying it

---
 rust/pact_models/src/content_types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 5728140..8213ade 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -188,7 +188,14 @@ impl Display for ContentType {
       write!(f, "{}", base)
     } else {
       write!(f, "{};{}", base, self.attributes.iter()
-        .map(|(key, value)| format!("{}={}", key, value)).join(";"))
+        .map(|(key, value)| {
+          // values that are not a token must be quoted
+          if value.chars().all(|ch| ch.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(ch)) {
+            format!("{}={}", key, value)
+          } else {
+            format!("{}=\"{}\"", key, value)
+          }
+        }).join(";"))
     }
   }
 }
-- 
2.43.0


From d2755b77825eb426f5971473ede550b147702ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 18/60] fix: detect HTML after leading white space

---
 rust/pact_models/src/content_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 8213ade..f7eddf1 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -63,7 +63,7 @@ lazy_static! {
   };
 
   static ref XMLREGEXP: Regex = Regex::new(r"^\s*<\?xml\s*version.*").unwrap();
-  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE)|(<HTML>).*").unwrap();
+  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*((<!DOCTYPE)|(<HTML>)).*").unwrap();
   static ref JSONREGEXP: Regex = Regex::new(r#"^\s*(true|false|null|[0-9]+|"\w*|\{\s*(}|"\w+)|\[\s*)"#).unwrap();
   static ref XMLREGEXP2: Regex = Regex::new(r#"^\s*<\w+\s*(:\w+=["”][^"”]+["”])?.*"#).unwrap();
 }
-- 
2.43.0


From e33055fb3e17984fc9bf8883ed762f9f351e1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 19/60] fix: detect the content type of text with a character
 across the end of the header

---
 rust/pact_models/src/content_types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index f7eddf1..a4fdd60 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -300,6 +300,11 @@ pub fn detect_content_type_from_bytes(s: &[u8]) -> Option<ContentType> {
   } else {
     s
   };
+  let header = match from_utf8(header) {
+    // the header was cut within a character
+    Err(err) if s.len() > 32 && err.error_len().is_none() => &header[0..err.valid_up_to()],
+    _ => header
+  };
   match from_utf8(header) {
     Ok(s) => {
       if is_match(&XMLREGEXP, s) {
-- 
2.43.0


From 71d69da6eafa9678d5b41f2f7d538baba2ce5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 20/60] fix: keep every interaction once when merging pacts in
 any order

---
 rust/pact_models/src/message_pact.rs | 18 ++++------
 rust/pact_models/src/pact.rs         | 10 ++++++
 rust/pact_models/src/sync_pact.rs    | 18 ++++------
 rust/pact_models/src/v4/pact.rs      | 50 ++++++++--------------------
 4 files changed, 38 insertions(+), 58 deletions(-)

diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..d8b8832 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,7 +1,6 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
 use std::fs::File;
@@ -22,7 +21,7 @@ use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
 use crate::interaction::Interaction;
 use crate::message::Message;
-use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
+use crate::pact::{determine_spec_version, merge_order, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
 use crate::sync_pact::RequestResponsePact;
@@ -305,16 +304,13 @@ impl ReadWritePact for MessagePact {
 
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
+      let other_interactions = pact.interactions();
       let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
+        .sorted_by(|a, b| merge_order(*a, *b))
+        .merge_join_by(
+          other_interactions.iter().sorted_by(|a, b| merge_order(a.as_ref(), b.as_ref())),
+          |a, b| merge_order(*a, b.as_ref())
+        )
         .map(|either| match either {
           Left(i) => Ok(i.clone()),
           Right(i) => i.as_message()
diff --git a/rust/pact_models/src/pact.rs b/rust/pact_models/src/pact.rs
index f030933..4941bf6 100644
--- a/rust/pact_models/src/pact.rs
+++ b/rust/pact_models/src/pact.rs
@@ -1,5 +1,6 @@
 //! Traits to represent a Pact
 
+use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::fs;
@@ -254,6 +255,15 @@ pub fn write_pact(
 }
 
 
+/// Order of the interactions in a merged pact: by description and then by the names of the
+/// provider states.
+pub(crate) fn merge_order<A, B>(a: &A, b: &B) -> Ordering
+  where A: Interaction + ?Sized, B: Interaction + ?Sized {
+  let names_a = a.provider_states().iter().map(|state| state.name.clone()).collect::<Vec<_>>();
+  let names_b = b.provider_states().iter().map(|state| state.name.clone()).collect::<Vec<_>>();
+  a.description().cmp(&b.description()).then(names_a.cmp(&names_b))
+}
+
 /// Construct Metadata from JSON value
 pub fn parse_meta_data(pact_json: &Value) -> BTreeMap<String, BTreeMap<String, String>> {
   match pact_json.get("metadata") {
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..f67acc9 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,6 +1,5 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
@@ -19,7 +18,7 @@ use crate::{Consumer, PactSpecification, Provider};
 use crate::interaction::{Interaction, PactConflict, parse_interactions};
 use crate::iterator_utils::CartesianProductIterator;
 use crate::message_pact::MessagePact;
-use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
+use crate::pact::{determine_spec_version, merge_order, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
 use crate::sync_interaction::RequestResponseInteraction;
@@ -299,16 +298,13 @@ impl ReadWritePact for RequestResponsePact {
         Err(anyhow!("Unable to merge pacts, as there were {} conflict(s) between the interactions. Please clean out your pact directory before running the tests.",
                     num_conflicts))
       } else {
+        let other_interactions = pact.interactions();
         let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
+          .sorted_by(|a, b| merge_order(*a, *b))
+          .merge_join_by(
+            other_interactions.iter().sorted_by(|a, b| merge_order(a.as_ref(), b.as_ref())),
+            |a, b| merge_order(*a, b.as_ref())
+          )
           .map(|either| match either {
             Left(i) => Ok(i.clone()),
             Right(i) => i.as_request_response()
diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..1ef2d68 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -18,7 +18,7 @@ use crate::{Consumer, PactSpecification, Provider};
 use crate::interaction::Interaction;
 use crate::json_utils::json_to_string;
 use crate::message_pact::MessagePact;
-use crate::pact::{Pact, ReadWritePact};
+use crate::pact::{merge_order, Pact, ReadWritePact};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
 use crate::sync_pact::RequestResponsePact;
@@ -357,44 +357,22 @@ impl ReadWritePact for V4Pact {
 
   fn merge(&self, other: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == other.consumer().name && self.provider.name == other.provider().name {
+      let same = |a: &dyn V4Interaction, b: &dyn V4Interaction| match (a.key(), b.key()) {
+        (Some(key_a), Some(key_b)) => key_a == key_b,
+        (_, _) => merge_order(a, b) == Ordering::Equal && a.type_of() == b.type_of()
+      };
+      let mut interactions = self.interactions.clone();
+      for interaction in other.interactions().iter().filter_map(|i| i.as_v4()) {
+        if !self.interactions.iter().any(|i| same(i.as_ref(), interaction.as_ref())) {
+          interactions.push(interaction);
+        }
+      }
+      interactions.sort_by(|a, b| merge_order(a.as_ref(), b.as_ref()));
+
       let mut new_pact = V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
-        interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
-          })
-          .collect(),
+        interactions,
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
       };
-- 
2.43.0


From fa6e43b187caf81d7188786d2b194b6ffabe14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 21/60] fix: a V4 pact downgraded to messages has the V3
 specification version in its metadata

---
 rust/pact_models/src/v4/pact.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 1ef2d68..3dead44 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -248,10 +248,14 @@ impl Pact for V4Pact {
       .flatten()
       .collect();
     let metadata = self.metadata.iter().map(|(k, v)| {
-      match v {
-        Value::Object(map) => Some((k.clone(), map.iter()
-          .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
-        _ => None
+      if k == "pactSpecification" {
+        Some((k.clone(), btreemap!{"version".to_string() => PactSpecification::V3.version_str()}))
+      } else {
+        match v {
+          Value::Object(map) => Some((k.clone(), map.iter()
+            .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
+          _ => None
+        }
       }
     }).flatten()
       .collect();
-- 
2.43.0


From 304e6e700fb601284d01758635b7973b3be5140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 22/60] fix: renaming a category of matching rules keeps the
 rules already held under the new name

---
 rust/pact_models/src/matchingrules/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 29e562e..cb52bd0 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1445,15 +1445,12 @@ impl MatchingRules {
     where S: Into<Category> {
     let old = old_name.into();
     let new = new_name.into();
-    MatchingRules {
-      rules: self.rules.iter().map(|(key, value)| {
-        if key == &old {
-          (new.clone(), value.rename(new.clone()))
-        } else {
-          (key.clone(), value.clone())
-        }
-      }).collect()
+    let mut renamed = self.clone();
+    if let Some(category) = renamed.rules.remove(&old) {
+      // there may already be rules under the new name
+      renamed.add_rules(new, category);
     }
+    renamed
   }
 
   /// Add the rules to the category
-- 
2.43.0


From d8e5f494a242f00ad92fdc0f3447fe4472608d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 23/60] fix: hash provider state parameters in key order

---
 rust/pact_models/src/provider_states.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..4546521 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,6 +5,7 @@ use std::cmp::Eq;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
@@ -100,7 +101,8 @@ impl ProviderState {
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       match v {
         Value::Number(n) => if n.is_u64() {
-- 
2.43.0


From c5e3d3dd5437b306effc3788f8c1017b6463dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 24/60] fix: include nested provider state parameter values in
 the hash

---
 rust/pact_models/src/provider_states.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 4546521..5e7207b 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -11,6 +11,7 @@ use serde::{Deserialize, Serialize};
 use serde_json::*;
 use tracing::warn;
 
+use crate::json_utils::hash_json;
 use crate::PactSpecification;
 use crate::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
 
@@ -114,7 +115,7 @@ impl Hash for ProviderState {
         },
         Value::String(s) => s.hash(state),
         Value::Bool(b) => b.hash(state),
-        _ => ()
+        _ => hash_json(v, state)
       }
     }
   }
-- 
2.43.0


From 8375b69921d8164854e7b35fefd60d580226396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 25/60] fix: hash asynchronous message metadata in key order

---
 rust/pact_models/src/v4/async_message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..588d41c 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -9,6 +9,7 @@ use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
 
 use anyhow::anyhow;
+use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Map, Value};
 use tracing::warn;
@@ -447,7 +448,8 @@ impl Hash for AsynchronousMessage {
     self.description.hash(state);
     self.provider_states.hash(state);
     self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
+    for (k, v) in self.contents.metadata.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       hash_json(v, state);
     }
-- 
2.43.0


From ff7cd9b61e57ec50f02db2a261c26dd99cda9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 26/60] fix: hash matching rule categories in order

---
 rust/pact_models/src/matchingrules/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cb52bd0..3298c90 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1472,7 +1472,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
-- 
2.43.0


From b8619d34a943c427845096b7544723e9a778b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 27/60] fix: hash the generators of array contains variants in
 path order

---
 rust/pact_models/src/generators/mod.rs    | 3 ++-
 rust/pact_models/src/matchingrules/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..81e5d25 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,8 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 3298c90..436b0df 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -604,7 +604,8 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
-- 
2.43.0


From 70c7865d6171593d43c25ff54c4e63b11e189d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 28/60] fix: compare the status codes of status code matchers

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 436b0df..0e1620b 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -631,6 +631,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       _ => mem::discriminant(self) == mem::discriminant(other)
     }
   }
-- 
2.43.0


From c1f2af76af7b7ca94e88f2a4e16899ba60b76b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 29/60] fix: look for the closing brace of an expression after
 its opening one

A closing brace before the expression made the range underflow, or repeated text.
---
 rust/pact_models/src/expression_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..ea6c3d3 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -382,7 +382,7 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    let end_position = buffer[index..].find('}').map(|end| end + index)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
-- 
2.43.0


From f1b7ea6ddfd179fb0196068c21a3291100b56e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 30/60] fix: convert negative integer strings when an
 expression has an integer type

Strings were parsed as usize, so a resolved value of "-5" was rejected.
---
 rust/pact_models/src/expression_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index ea6c3d3..d561f8b 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -106,7 +106,8 @@ impl DataValue {
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
-        Value::String(s) => s.parse::<usize>().map(|val| json!(val))
+        Value::String(s) => s.parse::<u64>().map(|val| json!(val))
+          .or_else(|_| s.parse::<i64>().map(|val| json!(val)))
           .map_err(|err| anyhow!("Number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
-- 
2.43.0


From 50604e39fd04933e112c98cdfa51044af698bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 31/60] fix: do not ignore invalid text at the end of a
 matching rule definition

The loop over the definitions stopped at a token that is not valid, so one at the end of the expression was accepted.
---
 rust/pact_models/src/matchingrules/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f6de6eb..9d80681 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -353,8 +353,8 @@ pub fn is_matcher_def(v: &str) -> bool {
 //     ;
 fn matching_definition(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<MatchingRuleDefinition> {
   let mut value = matching_definition_exp(lex, v)?;
-  while let Some(Ok(next)) = lex.next() {
-    if next == MatcherDefinitionToken::Comma {
+  while let Some(next) = lex.next() {
+    if let Ok(MatcherDefinitionToken::Comma) = next {
       value = value.merge(&matching_definition_exp(lex, v)?);
     } else {
       return Err(anyhow!("expected comma, got '{}'", lex.slice()));
-- 
2.43.0


From b344f11108ca238282beb394cc44427d3d3f988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 32/60] fix: decimal matching rule definitions with a provider
 state create a decimal matcher

A number matcher was created, which also accepts integers.
---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 9d80681..c98b622 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -897,7 +897,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
-      Ok((value, value_type, Some(MatchingRule::Number), generator, None))
+      Ok((value, value_type, Some(MatchingRule::Decimal), generator, None))
     } else {
       Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected a decimal number here")?))
     }
-- 
2.43.0


From 614558d1f502d1feeec6af13e5ac3838c56500d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 33/60] fix: read strings in matching rule definitions in the
 same way everywhere

The escape sequences of example values in primitive positions were not processed, and an
escaped quote at the start or end of a string was removed with the surrounding ones.
---
 rust/pact_models/src/matchingrules/expressions.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index c98b622..ce25596 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -797,7 +797,10 @@ fn parse_primitive_value(
 ) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a primitive value"))?;
   match next {
-    Ok(MatcherDefinitionToken::String) => Ok((lex.slice().trim_matches('\'').to_string(), ValueType::String, None)),
+    Ok(MatcherDefinitionToken::String) => {
+      let value = process_raw_string(string_contents(lex), lex.span(), v)?;
+      Ok((value, ValueType::String, None))
+    },
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
     Ok(MatcherDefinitionToken::Int(_)) => {
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
@@ -921,8 +924,7 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   let next = lex.next().ok_or_else(|| end_of_expression(v, "a string"))?;
   if let Ok(MatcherDefinitionToken::String) = next {
     let span = lex.span();
-    let raw_str = lex.slice().trim_matches('\'');
-    process_raw_string(raw_str, span, v)
+    process_raw_string(string_contents(lex), span, v)
   } else {
     let mut buffer = BytesMut::new().writer();
     let span = lex.span();
@@ -938,6 +940,12 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   }
 }
 
+// Contents of the current string token, without the surrounding quotes
+fn string_contents<'a>(lex: &Lexer<'a, MatcherDefinitionToken>) -> &'a str {
+  let slice = lex.slice();
+  &slice[1..(slice.len() - 1)]
+}
+
 fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
   let mut buffer = String::with_capacity(raw_str.len());
   let mut chars = raw_str.chars();
-- 
2.43.0


From fe0ca268215c0a6069a95e15e40adbc8afef4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 34/60] fix: require digits after the decimal point in matching
 rule definitions

Whatever followed the digits of a number was taken as its decimal part if it started with a point.
---
 .../src/matchingrules/expressions.rs            | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index ce25596..b0c43b1 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -807,7 +807,7 @@ fn parse_primitive_value(
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
         let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+        parse_decimal_part(lex, v)?;
         Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
@@ -818,7 +818,7 @@ fn parse_primitive_value(
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
         let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+        parse_decimal_part(lex, v)?;
         Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
@@ -833,6 +833,15 @@ fn parse_primitive_value(
   }
 }
 
+fn parse_decimal_part(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<()> {
+  let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+  if let Ok(MatcherDefinitionToken::DecimalPart) = next {
+    Ok(())
+  } else {
+    Err(anyhow!(error_message(lex, v, "Expected a number", "Expected digits after the decimal point here")?))
+  }
+}
+
 // COMMA val=( DECIMAL_LITERAL | INTEGER_LITERAL | 'fromProviderState' fromProviderState)
 #[allow(clippy::if_same_then_else)]
 fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
@@ -845,7 +854,7 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
       let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+      parse_decimal_part(lex, v)?;
       Ok((format!("{}{}", int_part, lex.slice()), ValueType::Number, Some(MatchingRule::Number), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
@@ -890,7 +899,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
       let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+      parse_decimal_part(lex, v)?;
       Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
-- 
2.43.0


From 2f03cd07e6bdbd9d088f1ba77fcb7d2abcfc8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 35/60] fix: atLeast and atMost also start a matching rule
 definition

is_matcher_def did not recognise them, so these definitions were not parsed.
---
 rust/pact_models/src/matchingrules/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index b0c43b1..82cbbe2 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -337,7 +337,8 @@ pub fn is_matcher_def(v: &str) -> bool {
     let next = lex.next();
     if let Some(Ok(token)) = next {
       if token == MatcherDefinitionToken::Matching || token == MatcherDefinitionToken::NotEmpty ||
-        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue {
+        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue ||
+        token == MatcherDefinitionToken::AtLeast || token == MatcherDefinitionToken::AtMost {
         true
       } else {
         false
-- 
2.43.0


From 3559d516155d5bb4a30178e929db4c668cd36bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 36/60] fix: words that only start with fromProviderState are
 not provider state expressions

The date and time matching rule definitions checked the prefix only.
---
 .../src/matchingrules/expressions.rs          | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 82cbbe2..21f986b 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -720,8 +720,7 @@ fn parse_datetime(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::R
 
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
-    lex.next();
-    from_provider_state(lex, v)?
+    provider_state_value(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::DateTime(Some(format.clone()), None)))
   };
@@ -737,8 +736,7 @@ fn parse_date(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
 
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
-    lex.next();
-    from_provider_state(lex, v)?
+    provider_state_value(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::Date(Some(format.clone()), None)))
   };
@@ -754,8 +752,7 @@ fn parse_time(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
 
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
-    lex.next();
-    from_provider_state(lex, v)?
+    provider_state_value(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::Time(Some(format.clone()), None)))
   };
@@ -1095,6 +1092,16 @@ fn parse_length_param(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyho
   }
 }
 
+// 'fromProviderState' fromProviderState
+fn provider_state_value(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
+  lex.next();
+  if lex.slice() == "fromProviderState" {
+    from_provider_state(lex, v)
+  } else {
+    Err(anyhow!(error_message(lex, v, "Expected fromProviderState", "Expected fromProviderState here")?))
+  }
+}
+
 // '(' exp=STRING_LITERAL COMMA v=primitiveValue ')'
 fn from_provider_state(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "'('"))?;
-- 
2.43.0


From 7c6f390f6d3baee632ccc6277b35653c735420fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 37/60] fix: do not ignore what follows a date or time
 expression

Text that could not be read as a token at the end of an expression, and a token after the last adjustment, were dropped.
---
 .../src/generators/date_expression_parser.rs  | 42 ++++++++----------
 .../src/generators/time_expression_parser.rs  | 44 +++++++++----------
 2 files changed, 40 insertions(+), 46 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..fab484f 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -170,12 +170,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   if let Some(Ok(token)) = lex.next() {
     if token.is_base() {
       date_base = base(lex, exp, &token)?;
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token.is_op() {
       adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
@@ -186,12 +185,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token == DateExpressionToken::Last {
       let (t, v) = offset(lex, exp)?;
@@ -200,12 +198,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else {
       return Err(error(exp, "one of now, today, yesterday, tomorrow, +, -, next or last", Some(lex.span().clone())));
@@ -230,11 +227,10 @@ fn adjustments(lex: &mut Lexer<DateExpressionToken>, exp: &str, token: &DateExpr
   let mut results = vec![];
 
   results.push(adjustment(lex, exp, token)?);
-  while let Some(Ok(token)) = lex.next() {
-    if token.is_op() {
-      results.push(adjustment(lex, exp, &token)?);
-    } else {
-      break
+  while let Some(next) = lex.next() {
+    match next {
+      Ok(token) if token.is_op() => results.push(adjustment(lex, exp, &token)?),
+      _ => return Err(error(exp, "+ or -", Some(lex.span().clone())))
     }
   }
 
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..a9a9fef 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -103,13 +103,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     if token.is_base() {
       let (tb, next) = base(lex, exp, token)?;
       time_base = tb;
-      if let Some(Ok(token)) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
-        if token.is_op() {
+      match next.map(|next| Ok(next)).or_else(|| lex.next()) {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token.is_op() {
       let a = adjustments(lex, exp, token)?;
@@ -121,13 +122,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token == TimeExpressionToken::Last {
       let t = offset(lex, exp)?;
@@ -136,13 +138,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else {
       return Err(error(exp, "one of now, midnight, noon, 1-12 o'clock, +, -, next or last", Some(lex.span().clone())));
@@ -229,18 +232,13 @@ fn adjustments(
 
   let mut token = token.clone();
   loop {
-    if token.is_op() {
-      let adj = adjustment(lex, exp, token)?;
-      results.push(adj);
-    } else {
-      break
-    }
+    let adj = adjustment(lex, exp, token)?;
+    results.push(adj);
 
-    if let Some(Ok(t)) = lex.next() {
-      // loop
-      token = t.clone();
-    } else {
-      break
+    match lex.next() {
+      Some(Ok(t)) if t.is_op() => token = t.clone(),
+      Some(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+      None => break
     }
   }
 
-- 
2.43.0


From 3b4e76294da9e2c44b27ee99e2e5ce385c0a681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 38/60] fix: 12 o'clock pm is noon

There is no hour 24, so the current time was used instead.
---
 rust/pact_models/src/generators/datetime_expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..96e9925 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -184,9 +184,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
       TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
       TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
-      TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
+      TimeBase::Pm { hour } => time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone()),
       TimeBase::Next { hour } => if dt.hour() < 12 {
-        time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
+        time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone())
       } else {
         time.with_hour(hour as u32).unwrap_or(dt.clone())
       }
-- 
2.43.0


From d1d57c795bd3e4e78056dd11d0b75aee0a78e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:01 +0000
Subject: [PATCH 39/60] fix: refuse date and time adjustments that are out of
 range

Large amounts panicked or wrapped around to another amount, and adding years to the 29th of February did nothing.
---
 .../src/generators/datetime_expressions.rs    | 92 +++++++++++--------
 1 file changed, 55 insertions(+), 37 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index 96e9925..15572f6 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -62,7 +62,7 @@ use std::str::from_utf8;
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -196,24 +196,16 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
     for adjustment in &result.adjustments {
       date_time = match adjustment.operation {
         Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
+          TimeOffsetType::HOUR => add_duration(date_time, Duration::try_hours, adjustment.value)?,
+          TimeOffsetType::MINUTE => add_duration(date_time, Duration::try_minutes, adjustment.value)?,
+          TimeOffsetType::SECOND => add_duration(date_time, Duration::try_seconds, adjustment.value)?,
+          TimeOffsetType::MILLISECOND => add_duration(date_time, Duration::try_milliseconds, adjustment.value)?
         },
         Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
+          TimeOffsetType::HOUR => sub_duration(date_time, Duration::try_hours, adjustment.value)?,
+          TimeOffsetType::MINUTE => sub_duration(date_time, Duration::try_minutes, adjustment.value)?,
+          TimeOffsetType::SECOND => sub_duration(date_time, Duration::try_seconds, adjustment.value)?,
+          TimeOffsetType::MILLISECOND => sub_duration(date_time, Duration::try_milliseconds, adjustment.value)?
         }
       }
     }
@@ -245,18 +237,47 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
   }
 }
 
+fn overflow(value: u64) -> anyhow::Error {
+  anyhow!("Adjustment value {} overflows the bounds", value)
+}
+
+/// Adds an amount of some unit of time to the date-time
+fn add_duration<Tz: TimeZone>(dt: DateTime<Tz>, unit: fn(i64) -> Option<Duration>, value: u64) -> anyhow::Result<DateTime<Tz>> {
+  i64::try_from(value).ok()
+    .and_then(unit)
+    .and_then(|duration| dt.checked_add_signed(duration))
+    .ok_or_else(|| overflow(value))
+}
+
+/// Subtracts an amount of some unit of time from the date-time
+fn sub_duration<Tz: TimeZone>(dt: DateTime<Tz>, unit: fn(i64) -> Option<Duration>, value: u64) -> anyhow::Result<DateTime<Tz>> {
+  i64::try_from(value).ok()
+    .and_then(unit)
+    .and_then(|duration| dt.checked_sub_signed(duration))
+    .ok_or_else(|| overflow(value))
+}
+
+/// Number of months, when there is a date that many months away
+fn months_in_range<Tz: TimeZone>(
+  date: &DateTime<Tz>,
+  value: u64,
+  shift: fn(DateTime<Tz>, Months) -> Option<DateTime<Tz>>
+) -> anyhow::Result<i64> {
+  u32::try_from(value).ok()
+    .filter(|months| shift(date.clone(), Months::new(*months)).is_some())
+    .map(|months| months as i64)
+    .ok_or_else(|| overflow(value))
+}
+
 fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::DAY => add_duration(date.clone(), Duration::try_days, adjustment.value)?,
+    DateOffsetType::WEEK => add_duration(date.clone(), Duration::try_weeks, adjustment.value)?,
+    DateOffsetType::MONTH => roll_month(date, months_in_range(date, adjustment.value, DateTime::checked_add_months)?),
+    DateOffsetType::YEAR => u32::try_from(adjustment.value).ok()
+      .and_then(|years| years.checked_mul(12))
+      .and_then(|months| date.clone().checked_add_months(Months::new(months)))
+      .ok_or_else(|| overflow(adjustment.value))?,
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -351,16 +372,13 @@ fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
 
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::DAY => sub_duration(date.clone(), Duration::try_days, adjustment.value)?,
+    DateOffsetType::WEEK => sub_duration(date.clone(), Duration::try_weeks, adjustment.value)?,
+    DateOffsetType::MONTH => roll_month(date, -months_in_range(date, adjustment.value, DateTime::checked_sub_months)?),
+    DateOffsetType::YEAR => u32::try_from(adjustment.value).ok()
+      .and_then(|years| years.checked_mul(12))
+      .and_then(|months| date.clone().checked_sub_months(Months::new(months)))
+      .ok_or_else(|| overflow(adjustment.value))?,
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
-- 
2.43.0


From 91ad66184be0d5d26431df460631cbaa65fc67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 40/60] fix: bytes below 16 of a body are displayed with two
 hexadecimal digits

---
 rust/pact_models/src/bodies.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 60e0628..d831e5a 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -189,13 +189,13 @@ impl OptionalBody {
   pub(crate) fn display_bytes(&self, max_bytes: usize) -> String {
     if let OptionalBody::Present(bytes, _, _) = self {
       if bytes.len() <= max_bytes {
-        let b_str: String = bytes.iter().map(|b| format!("{:0X}", b)).collect();
+        let b_str: String = bytes.iter().map(|b| format!("{:02X}", b)).collect();
         format!("{} ({} bytes)", b_str, bytes.len())
       } else {
         let b_str: String = bytes
           .slice(0..max_bytes)
           .iter()
-          .map(|b| format!("{:0X}", b))
+          .map(|b| format!("{:02X}", b))
           .collect();
         format!("{}... ({} bytes)", b_str, bytes.len())
       }
-- 
2.43.0


From 1adea6ad780bdc278b78728def4e80c342943169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 41/60] fix: random integers include the largest integer and
 never panic

---
 rust/pact_models/src/generators/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 81e5d25..9fadfc7 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -820,6 +820,14 @@ pub fn generate_hexadecimal(digits: usize) -> String {
   HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
 }
 
+fn generate_integer(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min > max {
+    Err(anyhow!("Could not generate a random integer, as there are no values between {} and {}", min, max))
+  } else {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  }
+}
+
 impl GenerateValue<u16> for Generator {
   fn generate_value(
     &self,
@@ -828,7 +836,7 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      &Generator::RandomInt(min, max) => generate_integer(min.max(0), max.min(u16::MAX as i32)).map(|val| val as u16),
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -883,7 +891,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => generate_integer(*min, *max).map(|val| val.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -1044,7 +1052,7 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
+        let rand_int = generate_integer(*min, *max)?;
         match value {
           Value::String(_) => Ok(json!(format!("{}", rand_int))),
           Value::Number(_) => Ok(json!(rand_int)),
-- 
2.43.0


From d94b9868dfb67fcd8e2453b7e95e662d3e7097a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 42/60] fix: random hexadecimal values have as many digits as
 asked for

---
 rust/pact_models/src/generators/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 9fadfc7..9b30f67 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -817,7 +817,7 @@ pub fn generate_decimal(digits: usize) -> String {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  (0..digits).map(|_| char::from(HEX_CHARSET.as_bytes()[rnd.gen_range(0..HEX_CHARSET.len())])).collect()
 }
 
 fn generate_integer(min: i32, max: i32) -> anyhow::Result<i32> {
-- 
2.43.0


From 7cef6cccf41a916dc5de0d954a5cacd2e9f1a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 43/60] fix: values are generated for expressions with only a
 start anchor

---
 rust/pact_models/src/generators/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 9b30f67..115b4d0 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -862,9 +862,8 @@ pub fn generate_ascii_string(size: usize) -> String {
 }
 
 fn strip_anchors(regex: &str) -> &str {
-  regex
-    .strip_prefix('^').unwrap_or(regex)
-    .strip_suffix('$').unwrap_or(regex)
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  regex.strip_suffix('$').unwrap_or(regex)
 }
 
 #[cfg(not(target_family = "wasm"))]
-- 
2.43.0


From 425d034c1b9d90875586174b3490325d8487bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 44/60] fix: mock server URL generators with an expression
 without a group do not panic

---
 rust/pact_models/src/generators/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 115b4d0..c2cdfa6 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -869,15 +869,14 @@ fn strip_anchors(regex: &str) -> &str {
 #[cfg(not(target_family = "wasm"))]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
+    format!("{}{}", url, caps.at(1).unwrap_or_default())
   }).to_string()
 }
 
 #[cfg(target_family = "wasm")]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
+    format!("{}{}", url, caps.get(1).map(|m| m.as_str()).unwrap_or_default())
   }).to_string()
 }
 
-- 
2.43.0


From d68bf66a9fa64ce5425ae76c1d147baf6e8eed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 45/60] fix: the mock server URL of headers, paths and query
 parameters may be given as href too

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index c2cdfa6..3bf4815 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1009,7 +1009,8 @@ impl GenerateValue<String> for Generator {
         debug!("Generating URL from Mock Server details");
         match mock_server_details.as_object() {
           Some(mock_server_details) => {
-            match get_field_as_string("url", mock_server_details) {
+            match get_field_as_string("url", mock_server_details)
+              .or_else(|| get_field_as_string("href", mock_server_details)) {
               Some(url) => match Regex::new(regex) {
                 Ok(re) => Ok(replace_with_regex(example, url, re)),
                 Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
-- 
2.43.0


From 1376e8233714adb4ee8aefc28f44b26018a8faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 46/60] fix: UUIDs that replace JSON values other than texts
 are in the configured format

---
 rust/pact_models/src/generators/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 3bf4815..69be35a 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1058,14 +1058,11 @@ impl GenerateValue<Value> for Generator {
           _ => Ok(json!(rand_int))
         }
       },
-      Generator::Uuid(format) => match value {
-        Value::String(_) => match format.unwrap_or_default() {
-          UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
-          UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
-          UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
-          UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
-        },
-        _ => Ok(json!(Uuid::new_v4().as_hyphenated().to_string()))
+      Generator::Uuid(format) => match format.unwrap_or_default() {
+        UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
+        UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
+        UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
+        UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
       },
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
-- 
2.43.0


From eb31a183aedde370157d003ce550ef01b8e93930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 47/60] fix: JSON pointers of resolved paths escape the names
 in them

---
 rust/pact_models/src/json_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53cff83..6cb0e5f 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -234,8 +234,10 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   query_object_graph(expression.tokens(), &mut tree, root, value.clone());
   let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
     let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
-      let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
+    if node_id != root && node.first_child().is_none() {
+      let path: Vec<String> = node_id.ancestors(&tree)
+        .map(|n| tree.index(n).get().replace('~', "~0").replace('/', "~1"))
+        .collect();
       if path.len() == expression.len() {
         acc.push(path.iter().rev().join("/"));
       }
-- 
2.43.0


From f1b47f4ce8856be7385085afb4274e66411d186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 48/60] fix: generators apply to form parameters with a number
 or a star as a name

---
 rust/pact_models/src/generators/form_urlencoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 09ae0f2..2a9d1cb 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -48,7 +48,9 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     let mut map: HashMap<String, usize> = HashMap::new();
     for (param_key, param_value) in self.params.iter_mut() {
       let index = map.entry(param_key.clone()).or_insert(0);
-      if key.eq(&DocPath::root().join(param_key.clone())) || key.eq(&DocPath::root().join(param_key.clone()).join_index(*index)) {
+      let mut param_path = DocPath::root();
+      param_path.push_field(param_key.clone());
+      if key.eq(&param_path) || key.eq(&param_path.join_index(*index)) {
         return match generator.generate_value(&param_value, context, matcher) {
           Ok(new_value) => *param_value = new_value,
           Err(_) => ()
-- 
2.43.0


From f5d795364655d8cb3bef31e227359b6dcdbc2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:06 +0000
Subject: [PATCH 49/60] fix: numbers that do not fit are not cut off when they
 are converted

---
 rust/pact_models/src/expression_parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index d561f8b..2d8c6cd 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -164,9 +164,11 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n)
+          .map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n)
+          .map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
         Ok(n as u16)
       } else {
@@ -199,7 +201,8 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n)
+          .map_err(|err| anyhow!("u64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
         Ok(n as u64)
       } else {
@@ -230,7 +233,8 @@ impl TryFrom<DataValue> for i64 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
+        i64::try_from(n)
+          .map_err(|err| anyhow!("i64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_i64() {
         Ok(n)
       } else if let Some(n) = n.as_f64() {
-- 
2.43.0


From 62660ba45615a9d0a32a7c1e0c8b50ed445839d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 50/60] fix: validating a date does not panic on a long year or
 a long fraction of a second

---
 rust/pact_models/src/time_utils.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..7e9c95c 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -574,12 +574,9 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
-      Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
-    }
-  })
+  // any run of up to count digits is a valid fraction
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
 }
 
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
@@ -845,13 +842,15 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
   if let Some((_, day)) = day {
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
-    if let Some((_, year)) = year {
-      let year = year.parse::<i16>().unwrap();
+    if let Some((_, year_str)) = year {
+      // Leap years repeat every 400 years, so only the last four digits are needed to know them.
+      // Longer years do not have to fit in the type of the year.
+      let year = year_str[year_str.len().saturating_sub(4)..].parse::<i16>().unwrap();
       if let Some((_, month_str)) = month {
         // should be safe to unwrap here, as the value should have already been validated
         let month = month_value(month_str).unwrap().with_year(year);
         if day > month.total_days() {
-          Err(format!("'{}' is not a valid day for month '{}' in year {}", day, month_str, year))
+          Err(format!("'{}' is not a valid day for month '{}' in year {}", day, month_str, year_str))
         } else {
           Ok(())
         }
-- 
2.43.0


From a51bb6943604bad087dd0f047f60efaa46ce21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 51/60] fix: time zone offsets have one sign and up to 18 hours

---
 rust/pact_models/src/time_utils.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 7e9c95c..f2522a0 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -43,7 +43,7 @@ use gregorian::Month;
 use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1};
+use nom::character::complete::{alphanumeric1, char, digit1, one_of};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
@@ -555,6 +555,15 @@ fn hour_12_0(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
   })
 }
 
+fn offset_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
+  take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
+    match validate_number(result, "offset hour".into(), 0, 18) {
+      Ok(_) => Ok((remaining, result.into())),
+      Err(_err) => Err(Error(DateTimeError::InvalidHour(result.to_string())))
+    }
+  })
+}
+
 fn minute(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
   take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
     match validate_number(result, "minute".into(), 0, 59) {
@@ -580,7 +589,7 @@ fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError
 }
 
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((one_of("+-"), offset_hour, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -588,23 +597,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(one_of("+-"), tuple((offset_hour, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(one_of("+-"), tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(one_of("+-"), tuple((offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(one_of("+-"), tuple((offset_hour, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(one_of("+-"), tuple((offset_hour, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -649,7 +658,7 @@ fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(one_of("+-"), tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -670,7 +679,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), offset_hour, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -678,7 +687,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
-- 
2.43.0


From 506921b42aa80c739543da808f7e8d192d00e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 52/60] fix: time zone IDs can have underscores, dashes and any
 number of parts

---
 rust/pact_models/src/time_utils.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index f2522a0..8fcf1da 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -43,13 +43,13 @@ use gregorian::Month;
 use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1, one_of};
+use nom::character::complete::{char, digit1, one_of};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
 use nom::IResult;
 use nom::multi::many1;
-use nom::sequence::{delimited, preceded, separated_pair, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use tracing::{debug, error, trace, warn};
 
 use crate::timezone_db::*;
@@ -158,6 +158,10 @@ fn is_digit(ch: char) -> bool {
   ch.is_ascii_digit()
 }
 
+fn is_zone_id_char(ch: char) -> bool {
+  ch.is_ascii_alphanumeric() || matches!(ch, '/' | '_' | '-' | '+')
+}
+
 fn is_uppercase(ch: char) -> bool {
   ch.is_ascii_uppercase()
 }
@@ -646,12 +650,11 @@ fn timezone(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-  separated_pair(alphanumeric1, char('/'), alphanumeric1)(s).and_then(|(remaining, result)| {
-    let tz = format!("{}/{}", result.0, result.1);
-    if ZONES.contains(tz.as_str()) {
-      Ok((remaining, tz))
-    } else {
-      Err(Error(DateTimeError::InvalidTimezone(tz)))
+  take_while_m_n(1, s.len(), is_zone_id_char)(s).and_then(|(_, result): (&str, &str)| {
+    // all the characters are ASCII, and the longest known ID is the one meant
+    match (1..=result.len()).rev().find(|len| ZONES.contains(&result[..*len])) {
+      Some(len) => Ok((&s[len..], result[..len].to_string())),
+      None => Err(Error(DateTimeError::InvalidTimezone(result.to_string())))
     }
   })
 }
-- 
2.43.0


From a7667b5968420bac990d51e931ece11df45d4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 53/60] fix: the day of the week as two digits is valid for the
 pattern ee

---
 rust/pact_models/src/time_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 8fcf1da..549dc88 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -515,7 +515,7 @@ fn day_of_week(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&st
   if count > 2 {
     day_of_week_name(s, count)
   } else {
-    take_while_m_n(1, 1, is_digit)(s).and_then(|(remaining, result)|{
+    take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
       match validate_number(result, "day of week".into(), 1, 7) {
         Ok(_) => Ok((remaining, result.into())),
         Err(_err) => Err(Error(DateTimeError::InvalidDayOfWeek(result.to_string())))
-- 
2.43.0


From f8ca452d390b2184af9cd7b5d2b4bd26969e8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 54/60] fix: generated date and time values match the pattern
 they are generated from

---
 rust/pact_models/src/time_utils.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 549dc88..e2f9c0c 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -912,25 +912,21 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::MonthNum(_d) => buffer.push_str("%m"),
       DateTimePatternToken::Text(t) => buffer.push_str(&str::replace(t, "%", "%%")),
       DateTimePatternToken::DayName(d) => buffer.push_str(if *d > 3 { "%A" } else { "%a" }),
-      DateTimePatternToken::DayOfWeek(_d) => buffer.push_str("%u"),
+      DateTimePatternToken::DayOfWeek(d) => buffer.push_str(if *d > 3 { "%A" } else if *d == 3 { "%a" } else { "%u" }),
       DateTimePatternToken::Hour24 => buffer.push_str("%H"),
       DateTimePatternToken::Hour24ZeroBased => buffer.push_str("%H"),
       DateTimePatternToken::Hour12 => buffer.push_str("%I"),
       DateTimePatternToken::Hour12ZeroBased => buffer.push_str("%I"),
       DateTimePatternToken::Minute => buffer.push_str("%M"),
       DateTimePatternToken::Second => buffer.push_str("%S"),
-      DateTimePatternToken::Millisecond(d) => if *d < 3 {
-        // something in chrono panics
-        buffer.push_str("%3f")
-      } else {
-        buffer.push_str(&format!("%{}f", *d))
-      },
+      // Chrono only supports 3, 6 or 9 digits, any other count panics when it is formatted
+      DateTimePatternToken::Millisecond(d) => buffer.push_str(if *d < 6 { "%3f" } else if *d < 9 { "%6f" } else { "%9f" }),
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
-      DateTimePatternToken::TimezoneOffset(_d) => buffer.push_str("%z"),
-      DateTimePatternToken::TimezoneOffsetX(_d) => buffer.push_str("%:z"),
-      DateTimePatternToken::TimezoneOffsetXZZero(_d) => buffer.push_str("%:z"),
+      DateTimePatternToken::TimezoneOffset(d) => buffer.push_str(if *d < 4 { "%z" } else if *d == 4 { "GMT%:z" } else { "%:z" }),
+      DateTimePatternToken::TimezoneOffsetX(d) => buffer.push_str(if *d == 3 || *d == 5 { "%:z" } else { "%z" }),
+      DateTimePatternToken::TimezoneOffsetXZZero(d) => buffer.push_str(if *d == 3 || *d == 5 { "%:z" } else { "%z" }),
       DateTimePatternToken::AmPm => buffer.push_str("%p"),
       _ => warn!("Chono does not support {:?}", token)
     };
-- 
2.43.0


From fee751cf7cf98dd33d7f65c0b85092820761f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:57 +0000
Subject: [PATCH 55/60] fix: days of the month are checked when the month is
 given as a stand-alone number

---
 rust/pact_models/src/time_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e2f9c0c..5a06fd9 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -843,7 +843,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     });
   let month = matched_values.iter()
     .find(|(token, _)| match token {
-      DateTimePatternToken::Month(_) => true,
+      DateTimePatternToken::Month(_) | DateTimePatternToken::MonthNum(_) => true,
       _ => false
     });
   let year = matched_values.iter()
-- 
2.43.0


From dd44542994c5717ce178c958f1ac0958a41be7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:23 +0000
Subject: [PATCH 56/60] fix: format problems name the type of the value that is
 wrong, not of what holds it

---
 rust/pact_models/src/lib.rs              | 4 ++--
 rust/pact_models/src/provider_states.rs  | 4 ++--
 rust/pact_models/src/sync_interaction.rs | 2 +-
 rust/pact_models/src/sync_pact.rs        | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..e750d92 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -228,7 +228,7 @@ impl PactJsonVerifier for Consumer {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-              format!("Must be a String, got {}", json_type_of(pact_json))))
+              format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
@@ -298,7 +298,7 @@ impl PactJsonVerifier for Provider {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 5e7207b..251bdde 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -139,14 +139,14 @@ impl PactJsonVerifier for ProviderState {
             "Provider state 'name' is required")),
           Some(name) => if !name.is_string() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'name' must be a String, got {}", json_type_of(pact_json))))
+              format!("Provider state 'name' must be a String, got {}", json_type_of(name))))
           }
         }
 
         if let Some(params) = values.get("params") {
           if !params.is_object() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'params' must be an Object, got {}", json_type_of(pact_json))))
+              format!("Provider state 'params' must be an Object, got {}", json_type_of(params))))
           }
         }
 
diff --git a/rust/pact_models/src/sync_interaction.rs b/rust/pact_models/src/sync_interaction.rs
index e865e0a..6707f3c 100644
--- a/rust/pact_models/src/sync_interaction.rs
+++ b/rust/pact_models/src/sync_interaction.rs
@@ -273,7 +273,7 @@ impl PactJsonVerifier for RequestResponseInteraction {
         if let Some(description) = values.get("description") {
           if !description.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/description", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(description))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path,
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index f67acc9..235b7b2 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -375,7 +375,7 @@ impl PactJsonVerifier for RequestResponsePact {
                 }))
             }
             _ => results.push(PactFileVerificationResult::new("/interactions", ResultLevel::ERROR,
-                                                              &format!("Must be an Object, got {}", json_type_of(pact_json))))
+                                                              &format!("Must be an Array, got {}", json_type_of(interactions))))
           }
         } else {
           results.push(PactFileVerificationResult::new("/interactions", ResultLevel::WARNING, "Missing interactions"))
-- 
2.43.0


From 8292279785b0d3e25904e74e7feb879c5f8a8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:59 +0000
Subject: [PATCH 57/60] fix: the integer matcher accepts negative integers
 given as text

---
 rust/pact_matching/src/matchers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 7cf878e..c4cf3f1 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -201,7 +201,7 @@ impl Matches<&str> for &str {
         }
       },
       MatchingRule::Integer => {
-        match actual.parse::<u64>() {
+        match actual.parse::<i128>() {
           Ok(_) => Ok(()),
           Err(_) => Err(anyhow!("Expected '{}' to match an integer number", actual))
         }
-- 
2.43.0


From 0ede784aed74d58a885b8368c545eccee1a76b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:59 +0000
Subject: [PATCH 58/60] fix: numbers that do not fit a status code are not
 taken for one

---
 rust/pact_matching/src/matchers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index c4cf3f1..107a68c 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -340,7 +340,10 @@ impl Matches<u64> for &str {
       },
       MatchingRule::Number | MatchingRule::Integer => Ok(()),
       MatchingRule::Decimal => Err(anyhow!("Expected {} to match a decimal number", actual)),
-      MatchingRule::StatusCode(status) => match_status_code(actual as u16, status),
+      MatchingRule::StatusCode(status) => match u16::try_from(actual) {
+        Ok(status_code) => match_status_code(status_code, status),
+        Err(err) => Err(anyhow!("Unable to match {} using {:?} - {}", actual, matcher, err))
+      },
       _ => if !cascaded || matcher.can_cascade() {
         Err(anyhow!("String: Unable to match {} using {:?}", self, matcher))
       } else {
@@ -387,7 +390,10 @@ impl Matches<u64> for u64 {
       },
       MatchingRule::Number | MatchingRule::Integer => Ok(()),
       MatchingRule::Decimal => Err(anyhow!("Expected {} to match a decimal number", actual)),
-      MatchingRule::StatusCode(status) => match_status_code(actual as u16, status),
+      MatchingRule::StatusCode(status) => match u16::try_from(actual) {
+        Ok(status_code) => match_status_code(status_code, status),
+        Err(err) => Err(anyhow!("Unable to match {} using {:?} - {}", actual, matcher, err))
+      },
       _ => if !cascaded || matcher.can_cascade() {
         Err(anyhow!("Unable to match {} using {:?}", self, matcher))
       } else {
-- 
2.43.0


From 689d449eaf0483e23f8c939164072fb714580485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:59 +0000
Subject: [PATCH 59/60] fix: reporting a mismatch of fewer than ten bytes does
 not panic

---
 rust/pact_matching/src/matchers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 107a68c..a10a175 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -741,7 +741,7 @@ impl Matches<&Bytes> for Bytes {
           Ok(())
         } else {
           Err(anyhow!("Expected '{:?}...' ({} bytes) to be equal to '{:?}...' ({} bytes)",
-                      self.split_at(10).0, self.len(), actual.split_at(10).0, actual.len()))
+                      self.slice(..self.len().min(10)), self.len(), actual.slice(..actual.len().min(10)), actual.len()))
         }
       },
       MatchingRule::Type |
@@ -767,7 +767,7 @@ impl Matches<&Bytes> for Bytes {
         }
       }
       _ => if !cascaded || matcher.can_cascade() {
-        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.split_at(10).0, actual.len(), matcher))
+        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.slice(..actual.len().min(10)), actual.len(), matcher))
       } else {
         Ok(())
       }
-- 
2.43.0


From 66f37d3e9e5600769aed00b3c7e8a963a62797c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:12 +0000
Subject: [PATCH 60/60] fix: keep every escaped quote of quoted text in
 date-time patterns

Each '' inside a quoted section of a pattern stands for one quote, but
runs of them (as in 'a''''b') were all merged into a single quote.
---
 rust/pact_models/src/time_utils.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 5a06fd9..f3da66c 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -40,7 +40,6 @@ use std::fmt::{Display, Formatter};
 use anyhow::anyhow;
 use chrono::Local;
 use gregorian::Month;
-use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
 use nom::character::complete::{char, digit1, one_of};
@@ -296,12 +295,8 @@ fn quarter_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatte
 }
 
 fn quoted_text_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
-  delimited(char('\''), many1(alt((tag("''"), is_not("'")))), char('\''))(s)
-    .map(|(remaining, result)| {
-      (remaining, DateTimePatternToken::Text(result.join("").chars().coalesce(|x, y| {
-        if x == '\'' && y == '\'' { Ok('\'') } else { Err((x, y)) }
-      }).collect()))
-    })
+  delimited(char('\''), many1(alt((value("'", tag("''")), is_not("'")))), char('\''))(s)
+    .map(|(remaining, result)| (remaining, DateTimePatternToken::Text(result.concat())))
 }
 
 fn quote_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
-- 
2.43.0

