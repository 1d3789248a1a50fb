From c16aaca3853d96de74f279ef44d250b43351f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:31 +0000
Subject: [PATCH 01/45] fix: urlencode: percent-encode '&', '=' and '%' in keys
 and values

A value containing '&' or '=' was written unencoded, so it ended the parameter
and started another.
---
 crates/core/src/urlencode/ser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..7d6030f 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -1,11 +1,16 @@
-use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC};
 use serde::{ser, Serialize};
 
 use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
 const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~').remove(b'%');
+
+// Characters that would be mistaken for syntax if left unencoded in a key or
+// value. They are encoded as keys and values are written, so '%' is not encoded
+// again when the completed output is.
+const DELIMITERS: &AsciiSet = &CONTROLS.add(b'%').add(b'&').add(b'=');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -138,10 +143,10 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
             self.output += "\"";
-            self.output += v;
+            self.output.extend(utf8_percent_encode(v, DELIMITERS));
             self.output += "\"";
         } else {
-            self.output += v;
+            self.output.extend(utf8_percent_encode(v, DELIMITERS));
         }
         Ok(())
     }
-- 
2.43.0


From ea1d09e50b7ed28e964e0f1d2bda36525f4b31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:55 +0000
Subject: [PATCH 02/45] fix: urlencode: JSON-escape text nested in a parameter

Text with a quote, backslash or control character produced invalid JSON.
---
 crates/core/src/urlencode/ser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 7d6030f..3959b8a 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -142,9 +142,8 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output.extend(utf8_percent_encode(v, DELIMITERS));
-            self.output += "\"";
+            let quoted = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
+            self.output.extend(utf8_percent_encode(&quoted, DELIMITERS));
         } else {
             self.output.extend(utf8_percent_encode(v, DELIMITERS));
         }
-- 
2.43.0


From 4e5fa4683524968c7841ae8e9c7c1cf8cb30cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:55 +0000
Subject: [PATCH 03/45] fix: urlencode: leave the nesting level as it was after
 a tuple

serialize_tuple raised the level twice, so fields after a tuple were written as
nested members instead of as parameters.
---
 crates/core/src/urlencode/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 3959b8a..fbec429 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -246,7 +246,6 @@ impl ser::Serializer for &mut Serializer {
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
-- 
2.43.0


From a596c56b9fb285818bb5c0fbd5a1727aa54720a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:55 +0000
Subject: [PATCH 04/45] fix: urlencode: write a top-level map as parameters

A map (or a struct with flattened fields) came out as ',key:value}'.
---
 crates/core/src/urlencode/ser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index fbec429..1788573 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -438,8 +438,12 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            if !self.output.ends_with('{') {
+                self.output += ",";
+            }
+        } else if !self.output.is_empty() {
+            self.output += "&";
         }
         key.serialize(&mut **self)
     }
@@ -448,12 +452,18 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        if self.level > TOP_LEVEL {
+            self.output += ":";
+        } else {
+            self.output += "=";
+        }
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
+        if self.level > TOP_LEVEL {
+            self.output += "}";
+        }
         self.level -= 1;
         Ok(())
     }
-- 
2.43.0


From e550b52a825174b1cbb631c6e880cf09d3579d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:55 +0000
Subject: [PATCH 05/45] fix: urlencode: decode parameters after splitting them

Decoding first let an encoded '&', '=', '"' or bracket in a value act as syntax:
values were truncated, and further parameters could be injected.
---
 crates/core/src/urlencode.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..8e159e7 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -6,6 +6,7 @@ mod ser;
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
 use serde::de::DeserializeOwned;
+use serde_json::Value;
 
 use crate::urlencode::error::{Error, Result};
 
@@ -49,17 +50,24 @@ where
     T: DeserializeOwned,
 {
     // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    let mut params = serde_json::Map::new();
+    for param in s.split('&') {
+        // delimiters are those of the encoded text, so decode only once split
+        let (key, value) = param.split_once('=').ok_or(Error::ExpectedMapColon)?;
+        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
+        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
+
+        // arrays and objects are JSON, anything else is text
+        let value = match serde_json::from_str::<Value>(&value) {
+            Ok(json) if json.is_array() || json.is_object() => json,
+            _ => Value::String(value),
+        };
+        if params.insert(key, value).is_some() {
+            return Err(Error::Message(format!("duplicate parameter: {param}")));
+        }
+    }
+
+    serde_json::from_value(Value::Object(params)).map_err(|e| Error::Message(e.to_string()))
 }
 
 #[cfg(test)]
-- 
2.43.0


From a0e7f8b39288dfa7e04eb1a6fe4daef664c40c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 06/45] fix: dif-exch: compare text and boolean claims with the
 const they are filtered by

The const was rendered as a JSON literal (quotes included) before the
comparison, and read as a boolean although it is always text, so neither
kind of claim could ever match.
---
 crates/dif-exch/src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..9065886 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -109,9 +109,9 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match vc_node {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
+        Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
-        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
+        Value::Bool(bool_node) => Ok(bool_node.to_string() == *const_str),
         Value::Null => Ok(true),
         Value::Object(_) => {
             unimplemented!("object matching not implemented")
-- 
2.43.0


From c3d1d27dc7535bf8cb2ebfd0ad114faadcd6c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 07/45] fix: dif-exch: a null or object claim does not match a
 const filter

A null claim satisfied every const filter and an object claim panicked.
---
 crates/dif-exch/src/matcher.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 9065886..4fa5224 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -112,10 +112,7 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
         Value::Bool(bool_node) => Ok(bool_node.to_string() == *const_str),
-        Value::Null => Ok(true),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
-        }
+        Value::Null | Value::Object(_) => Ok(false),
     }
 }
 
-- 
2.43.0


From e0a9789289bbe5c9fd10a69fd6936aaaf46595eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 08/45] fix: dif-exch: report an unsupported format filter
 instead of panicking

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 4fa5224..86eb45c 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -143,7 +143,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("unsupported format: {format}")),
     }
 }
 
-- 
2.43.0


From ba45bee24d4ac330d7f965f54f62bdd3b0523c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 09/45] fix: dif-exch: match a pattern filter against the text
 of a claim

The pattern was matched against the JSON form of the claim, quotes
included, so an anchored pattern never matched a text claim.
---
 crates/dif-exch/src/matcher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 86eb45c..a04d04b 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -125,7 +125,9 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    // text is matched as is, without the quotes of its JSON form
+    let text = vc_node.as_str().map_or_else(|| vc_node.to_string(), ToString::to_string);
+    Ok(re.captures(&text).is_some())
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From a3d738f227090e4915a56a57fce7df1c8cd146d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:51 +0000
Subject: [PATCH 10/45] fix: dif-exch: report an invalid JSONPath or filter

`satisfied` is documented to return an error for an invalid query, but
treated it as a field that does not match (or, for an optional field, as
one that does).
---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index a04d04b..01b9d7f 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -35,7 +35,7 @@ impl Constraints {
         // EVERY field must match
         for field in fields {
             // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
+            if !field.matched(&vc_val)? && !field.optional.unwrap_or_default() {
                 return Ok(false);
             }
         }
-- 
2.43.0


From 3245913d2f1f2cfe9ed39fee4cf5c0df293d9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:51 +0000
Subject: [PATCH 11/45] fix: dif-exch: try the next path when a value does not
 match the filter

Presentation Exchange only requires one matching path expression: a value
that fails the filter is skipped, not the rest of the paths.
---
 crates/dif-exch/src/matcher.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 01b9d7f..732170c 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -72,10 +72,8 @@ impl Field {
 
             // find FIRST node matching filter (in practice, there should only be one node)
             if let Some(node) = nodes.into_iter().next() {
-                match filter.value.matched(node) {
-                    Ok(true) => return Ok(true),
-                    Ok(false) => break,
-                    Err(e) => return Err(e),
+                if filter.value.matched(node)? {
+                    return Ok(true);
                 }
             }
         }
-- 
2.43.0


From e6c46e8941219c7bf2876728ec4a67f678a4a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:51 +0000
Subject: [PATCH 12/45] fix: dif-exch: an optional field must match its filter
 when present

`optional` excuses a missing value only: a value that is there MUST
validate against the filter, as documented on the field.
---
 crates/dif-exch/src/matcher.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 732170c..415e51a 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -34,8 +34,8 @@ impl Constraints {
 
         // EVERY field must match
         for field in fields {
-            // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val)? && !field.optional.unwrap_or_default() {
+            // if no match, constraints are not satisfied
+            if !field.matched(&vc_val)? {
                 return Ok(false);
             }
         }
@@ -52,6 +52,8 @@ impl Field {
     /// matching JSON path expression for the field to be considered
     /// matched.
     fn matched(&self, vc: &Value) -> Result<bool> {
+        let mut located = false;
+
         // find the FIRST matching JSON path expression for field
         for path in &self.path {
             // execute JSONPath query
@@ -64,6 +66,7 @@ impl Field {
             if nodes.is_empty() {
                 continue;
             }
+            located = true;
 
             // no filter == match(?)
             let Some(filter) = &self.filter else {
@@ -78,7 +81,8 @@ impl Field {
             }
         }
 
-        Ok(false)
+        // an optional field may be absent, but a value that is there must match
+        Ok(!located && self.optional.unwrap_or_default())
     }
 }
 
-- 
2.43.0


From 8da6e467f1cd78286c60f2255390d46d99c8e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:32 +0000
Subject: [PATCH 13/45] fix: macros: separate the elements of a generated list

---
 crates/macros/src/authorization.rs | 6 +++---
 crates/macros/src/create_offer.rs  | 8 ++++----
 crates/macros/src/token.rs         | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..8d89c34 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -67,7 +67,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`authorization_details` must be an array"));
     };
 
-    let mut tokens = TokenStream::new();
+    let mut tokens = Vec::new();
 
     for detail in details {
         let Some(detail) = detail.as_object() else {
@@ -88,7 +88,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let credential = credential_authorization(detail)?;
 
-        tokens.extend(quote! {
+        tokens.push(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
@@ -97,7 +97,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         });
     }
 
-    Ok(quote! {vec![#tokens]})
+    Ok(quote! {vec![#(#tokens),*]})
 }
 
 fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStream> {
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..2c49f4d 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -53,15 +53,15 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
     let path = quote! {vercre_issuer};
 
     if let Some(gts) = input {
-        let mut tokens = TokenStream::new();
+        let mut tokens = Vec::new();
 
         for gt in gts.as_array().unwrap() {
             match gt.as_str().unwrap() {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.push(quote! {#path::GrantType::PreAuthorizedCode});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.push(quote! {#path::GrantType::AuthorizationCode});
                 }
                 _ => {
                     return Err(Error::new(
@@ -71,7 +71,7 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
                 }
             }
         }
-        Ok(quote! {Some(vec![#tokens])})
+        Ok(quote! {Some(vec![#(#tokens),*])})
     } else {
         Ok(quote! {None})
     }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..db6bcfd 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -92,7 +92,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`authorization_details` must be an array"));
     };
 
-    let mut tokens = TokenStream::new();
+    let mut tokens = Vec::new();
 
     for detail in details {
         let Some(detail) = detail.as_object() else {
@@ -113,7 +113,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let configuration = credential_configuration(detail)?;
 
-        tokens.extend(quote! {
+        tokens.push(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
@@ -122,7 +122,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         });
     }
 
-    Ok(quote! {vec![#tokens]})
+    Ok(quote! {vec![#(#tokens),*]})
 }
 
 fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStream> {
-- 
2.43.0


From 16a84045fc7dea72b4afb17010ca4fce04351bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:33 +0000
Subject: [PATCH 14/45] fix: macros: report grant types that are not a list of
 strings

---
 crates/macros/src/create_offer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 2c49f4d..46f4352 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -55,8 +55,14 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
     if let Some(gts) = input {
         let mut tokens = Vec::new();
 
-        for gt in gts.as_array().unwrap() {
-            match gt.as_str().unwrap() {
+        let Some(gts) = gts.as_array() else {
+            return Err(Error::new(span, "`grant_types` must be an array"));
+        };
+        for gt in gts {
+            let Some(gt) = gt.as_str() else {
+                return Err(Error::new(span, "`grant_types` must be an array of strings"));
+            };
+            match gt {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
                     tokens.push(quote! {#path::GrantType::PreAuthorizedCode});
                 }
@@ -64,10 +70,7 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
                     tokens.push(quote! {#path::GrantType::AuthorizationCode});
                 }
                 _ => {
-                    return Err(Error::new(
-                        span,
-                        format!("unsupported grant type: {}", gt.as_str().unwrap()),
-                    ));
+                    return Err(Error::new(span, format!("unsupported grant type: {gt}")));
                 }
             }
         }
-- 
2.43.0


From 328b42734e637dfb695419d4a818c5769af4c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:33 +0000
Subject: [PATCH 15/45] fix: macros: name the missing field

---
 crates/macros/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..f57d6ca 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -20,7 +20,7 @@ impl Json {
     /// Expect the key to be present and return the value or an error.
     pub fn expect(&mut self, key: &str) -> Result<Value> {
         let Some(v) = self.fields.remove(key) else {
-            return Err(Error::new(Span::call_site(), "`{key}` is not set"));
+            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
         };
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
-- 
2.43.0


From dea7cffe2066156ec53a979467fe1839dcbd7458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:33 +0000
Subject: [PATCH 16/45] fix: macros: token request claims use the types they
 are assigned to

---
 crates/macros/src/token.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index db6bcfd..b74a834 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -134,9 +134,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
+            quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
         } else {
             quote! {None}
         };
@@ -236,7 +234,7 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
 
         // build claims map
         let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
+            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
         });
 
         Ok(quote! {
-- 
2.43.0


From 6885d8e92427eb2fe6a3dd545623d77eb296ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 17/45] fix: macros: default send type does not depend on the
 caller's imports

---
 crates/macros/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 46f4352..5583269 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -31,7 +31,7 @@ pub fn request(input: &Json) -> Result<TokenStream> {
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
     let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
-- 
2.43.0


From b345ff6692cf39f2df1b2f63efff952cd08ce021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:52 +0000
Subject: [PATCH 18/45] fix: macros: keep nested claims in a token request

---
 crates/macros/src/authorization.rs |  3 ++-
 crates/macros/src/token.rs         | 23 +----------------------
 2 files changed, 3 insertions(+), 23 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 8d89c34..32bc5c9 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -202,7 +202,8 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     })
 }
 
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
+// Claims requested by a `credential_definition`.
+pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
 
     if let Some(subject_value) = definition.get("credentialSubject") {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index b74a834..c854bf4 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
@@ -222,25 +223,3 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         }
     })
 }
-
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    if let Some(subject_value) = definition.get("credentialSubject") {
-        let Some(credential_subject) = subject_value.as_object() else {
-            return Err(Error::new(span, "`credentialSubject` must be an object"));
-        };
-
-        // build claims map
-        let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
-        });
-
-        Ok(quote! {
-            Some(std::collections::HashMap::from([#(#claims),*]))
-        })
-    } else {
-        Ok(quote! {None})
-    }
-}
-- 
2.43.0


From a402fa6e9d559b5b8d325540ce1a1959f1ae9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:52 +0000
Subject: [PATCH 19/45] fix: macros: keep the claims of a credential request

---
 crates/macros/src/credential.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 72a33a0..e015877 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -2,6 +2,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
@@ -79,11 +80,11 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`type` is not set"));
     };
 
-    // let subject = subject(credential_definition)?;
+    let subject = subject(credential_definition)?;
 
     Ok(quote! {
         #path::CredentialDefinition {
-            credential_subject: None,
+            credential_subject: #subject,
             context: None,
             type_: Some(#type_array),
         }
-- 
2.43.0


From 79a0f59f3e259e8e16131e17ba16818da580a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:59 +0000
Subject: [PATCH 20/45] fix: reject requested claims the credential
 configuration does not support

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From cabcb624d85c3c06c3097d72eab4769c6f5c921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 21/45] fix: issuer: allow anonymous pre-authorized access
 where the server supports it

---
 vercre-issuer/src/token.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..0ea2c8b 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,9 +94,8 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
+                if request.client_id.as_ref().map_or(true, String::is_empty)
+                    && !server.pre_authorized_grant_anonymous_access_supported
                 {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
-- 
2.43.0


From b6d639a286dd98bd89f32090a22f7313a8d8b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 22/45] fix: issuer: narrow an authorization code grant to the
 details requested

---
 vercre-issuer/src/token.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 0ea2c8b..e309106 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -201,8 +201,11 @@ impl Context {
                 let Stage::Authorized(auth_state) = &self.state.stage else {
                     return Err(Error::ServerError("authorization state not set".into()));
                 };
-                let authorized_details = authorized_details(&auth_state.items);
-                let authorized = authorized_credentials(&auth_state.items);
+
+                // get the subset of requested credentials from those previously authorized
+                let retained_items = retain_details(provider, &request, &auth_state.items).await?;
+                let authorized_details = authorized_details(&retained_items);
+                let authorized = authorized_credentials(&retained_items);
                 (authorized_details, authorized)
             }
         };
-- 
2.43.0


From 3e35156f02f0b40c5c5eb7a80eca5113d7c2b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 23/45] fix: issuer: keep token state for the lifetime given to
 the wallet

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index e309106..174f736 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -215,6 +215,7 @@ impl Context {
 
         // update state
         let mut state = self.state.clone();
+        state.expires_at = Utc::now() + Expire::Access.duration();
         state.stage = Stage::Validated(Token {
             access_token: access_token.clone(),
             credentials: authorized,
-- 
2.43.0


From 852dde4acea1657eac089a8016f5b27f205c274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 24/45] fix: issuer: accept pushed requests where the server
 requires them

---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From 5668fe8646625490fd922a414d9e7cb6afa96db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 25/45] fix: issuer: reject authorization of an unsupported
 credential configuration

---
 vercre-issuer/src/authorize.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..f3738fc 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -300,14 +300,16 @@ impl Context {
                 }
             };
 
+            // check credential is supported
+            let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
+            else {
+                return Err(Error::InvalidAuthorizationDetails(
+                    "invalid credential_configuration_id".into(),
+                ));
+            };
+
             // check claims are supported and include all mandatory claims
             if let Some(requested) = &claims {
-                let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
-                else {
-                    return Err(Error::InvalidAuthorizationDetails(
-                        "invalid credential_configuration_id".into(),
-                    ));
-                };
                 config
                     .verify_claims(requested)
                     .map_err(|e| Error::InvalidRequest(e.to_string()))?;
-- 
2.43.0


From d689dade60415c8d8e0189de3a65506f7ae7caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 26/45] fix: issuer: authorize every requested scope item

---
 vercre-issuer/src/authorize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index f3738fc..ed78ebc 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -325,7 +325,7 @@ impl Context {
     // Verify Credentials requested in `scope` are supported.
     // N.B. has side effect of saving valid scope items into context for later use.
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
-        if let Some(item) = scope.split_whitespace().next() {
+        for item in scope.split_whitespace() {
             let mut scope_map = HashMap::new();
 
             // find supported configurations that has the requested scope
-- 
2.43.0


From 4e6918b2ca18d2eb1adf5959f18132f8e690b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 27/45] fix: issuer: reject an empty list of proofs

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..08e7fda 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -122,6 +122,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From c8113776f9a3ff827622ec71978c43e18550a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 28/45] fix: issuer: look up the status of the credential being
 issued

---
 vercre-issuer/src/credential.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 08e7fda..ed7258f 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -264,7 +264,8 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let identifier = &self.authorized.credential_identifier;
+        let status = Status::status(provider, subject_id, identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From 903794fc6c97fa51c2cee77402e97e09a80740be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 29/45] fix: issuer: keep a deferred transaction while issuance
 is pending

---
 vercre-issuer/src/deferred.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..746bfb0 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -48,11 +48,6 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
@@ -66,6 +61,11 @@ async fn process(
         return Err(Error::IssuancePending(5));
     };
 
+    // remove deferred state item
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
     Ok(DeferredCredentialResponse {
         credential_response: response,
     })
-- 
2.43.0


From 2f5e88b2a250ee1a660511bf3364d9f9e891285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 30/45] fix: issuer: offer without an authorization server when
 none is listed

---
 vercre-issuer/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/create_offer.rs b/vercre-issuer/src/create_offer.rs
index 0228e40..066bb59 100644
--- a/vercre-issuer/src/create_offer.rs
+++ b/vercre-issuer/src/create_offer.rs
@@ -233,7 +233,7 @@ impl Context {
         // TODO: determine how to select correct server?
         // select `authorization_server`, if specified
         let authorization_server =
-            self.issuer.authorization_servers.as_ref().map(|servers| servers[0].clone());
+            self.issuer.authorization_servers.as_ref().and_then(|servers| servers.first().cloned());
 
         let mut grants = Grants {
             authorization_code: None,
-- 
2.43.0


From 8ed167b2de132085f80465bf51d3fed51ab18ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:13 +0000
Subject: [PATCH 31/45] fix: store issued credentials, not a second token,
 under the notification id

---
 vercre-issuer/src/credential.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index ed7258f..9fe9ee6 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -198,12 +198,14 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
         // determine credential format
-        let response = match &self.configuration.format {
+        let (response, vc) = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
                 let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
-                self.jwt_vc_json(vc, signer, issuance_date).await?
+                (self.jwt_vc_json(vc.clone(), signer, issuance_date).await?, vc)
+            }
+            Format::IsoMdl(_) => {
+                (self.mso_mdoc(dataset, signer).await?, VerifiableCredential::default())
             }
-            Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
             Format::JwtVcJsonLd(_) => todo!(),
@@ -227,9 +229,7 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        state.stage = Stage::Issued(Credential { credential: vc });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From 9fe4bee17877d85aefb070818e889dc618b80a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 32/45] fix: verifier: refuse a response to an expired request

---
 vercre-verifier/src/response.rs |  3 +++
 vercre-verifier/src/state.rs    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..ceaa5c9 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -63,6 +63,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.expired() {
+        return Err(Error::InvalidRequest("state has expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
diff --git a/vercre-verifier/src/state.rs b/vercre-verifier/src/state.rs
index 701c59d..043d3e5 100644
--- a/vercre-verifier/src/state.rs
+++ b/vercre-verifier/src/state.rs
@@ -30,9 +30,9 @@ pub struct State {
     pub request_object: RequestObject,
 }
 
-// impl State {
-//     /// Determines whether state has expired or not.
-//     pub fn expired(&self) -> bool {
-//         self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
-//     }
-// }
+impl State {
+    /// Determines whether state has expired or not.
+    pub fn expired(&self) -> bool {
+        self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
+    }
+}
-- 
2.43.0


From 142a49bb558a150a2cf7a32cde4de289f2210a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 33/45] fix: verifier: refuse a presentation made for another
 verifier

---
 vercre-verifier/src/response.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index ceaa5c9..050c312 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -76,8 +76,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
 
     // check nonce matches
     for vp_val in &vp_token {
-        let (vp, nonce) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
-            Ok(Payload::Vp { vp, nonce, .. }) => (vp, nonce),
+        let verified = vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await;
+        let (vp, client_id, nonce) = match verified {
+            Ok(Payload::Vp { vp, client_id, nonce }) => (vp, client_id, nonce),
             Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
             Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
         };
@@ -88,6 +89,10 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         if nonce != saved_req.nonce {
             return Err(Error::InvalidRequest("nonce does not match".into()));
         }
+        // check a VP secured as a JWT is intended for this Verifier
+        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
+            return Err(Error::InvalidRequest("audience does not match client_id".into()));
+        }
         vps.push(vp);
     }
 
-- 
2.43.0


From fba73cc2e325c9678d9d0c63467d38fce0edcc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 34/45] fix: w3c-vc: do not panic securing a credential without
 subjects

---
 crates/w3c-vc/src/proof/jose.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index d25fde6..9d44304 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -87,8 +87,8 @@ pub struct VcClaims {
 impl VcClaims {
     pub fn from_vc(vc: VerifiableCredential, issued_at: i64) -> Self {
         let subject = match &vc.credential_subject {
-            Quota::One(sub) => sub,
-            Quota::Many(subs) => &subs[0],
+            Quota::One(sub) => Some(sub),
+            Quota::Many(subs) => subs.first(),
         };
 
         let issuer_id = match &vc.issuer {
@@ -98,7 +98,7 @@ impl VcClaims {
 
         Self {
             // TODO: find better way to set sub (shouldn't need to be in vc)
-            sub: subject.id.clone().unwrap_or_default(),
+            sub: subject.and_then(|sub| sub.id.clone()).unwrap_or_default(),
             nbf: None,
             iss: issuer_id.clone(),
             iat: issued_at,
-- 
2.43.0


From 7379396ef8044d8cf26155d09697d84b9d961490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 35/45] fix: w3c-vc: do not panic parsing an empty presentation

---
 crates/w3c-vc/src/model/vp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..99b8118 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -168,7 +168,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
-- 
2.43.0


From 8a8dbaffab02ad6bef806a604f1d785f007311f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 36/45] fix: holder: do not keep a flow for an offer that is
 refused

---
 vercre-holder/src/issuance/offer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vercre-holder/src/issuance/offer.rs b/vercre-holder/src/issuance/offer.rs
index e24b74e..04334c0 100644
--- a/vercre-holder/src/issuance/offer.rs
+++ b/vercre-holder/src/issuance/offer.rs
@@ -118,14 +118,6 @@ pub async fn offer(
 
     issuance.status = Status::Ready;
 
-    // Stash the state for the next step.
-    if let Err(e) =
-        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
-    {
-        tracing::error!(target: "Endpoint::offer", ?e);
-        return Err(e);
-    };
-
     // Trim the supported credentials to just those on offer so that the holder
     // can decide which to accept.
     let mut offered = HashMap::<String, CredentialConfiguration>::new();
@@ -140,6 +132,14 @@ pub async fn offer(
         offered.insert(cfg_id.clone(), found.clone());
     }
 
+    // Stash the state for the next step.
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::offer", ?e);
+        return Err(e);
+    };
+
     let res = OfferResponse {
         issuance_id: issuance.id,
         issuer: request.offer.credential_issuer.clone(),
-- 
2.43.0


From 5cf94a801bf8b1c127415549523f713519f35f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 37/45] fix: holder: accept only credentials on offer

---
 vercre-holder/src/issuance/accept.rs | 30 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/vercre-holder/src/issuance/accept.rs b/vercre-holder/src/issuance/accept.rs
index 30f5b5c..e893cb1 100644
--- a/vercre-holder/src/issuance/accept.rs
+++ b/vercre-holder/src/issuance/accept.rs
@@ -17,8 +17,8 @@ use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{
-    AuthorizationDetail, Claim, CredentialAuthorization, CredentialConfiguration,
-    CredentialDefinition, Format, ProfileClaims,
+    AuthorizationDetail, Claim, CredentialAuthorization, CredentialDefinition, Format,
+    ProfileClaims,
 };
 
 use super::{Issuance, Status};
@@ -82,11 +82,10 @@ pub async fn accept(
     };
 
     issuance.accepted =
-        narrow_scope(&issuance.issuer.credential_configurations_supported, request.accept.as_ref())
-            .map_err(|e| {
-                tracing::error!(target: "Endpoint::accept", ?e);
-                e
-            })?;
+        narrow_scope(&issuance, request.accept.as_ref()).map_err(|e| {
+            tracing::error!(target: "Endpoint::accept", ?e);
+            e
+        })?;
 
     issuance.status = Status::Accepted;
 
@@ -110,7 +109,7 @@ pub async fn accept(
 }
 
 fn narrow_scope(
-    offered: &HashMap<String, CredentialConfiguration>, accept: Option<&Vec<AuthorizationSpec>>,
+    issuance: &Issuance, accept: Option<&Vec<AuthorizationSpec>>,
 ) -> anyhow::Result<Option<Vec<AuthorizationDetail>>> {
     // Just return None if the holder wants all credential configurations.
     let Some(accept) = accept else {
@@ -118,12 +117,21 @@ fn narrow_scope(
     };
     let mut auth_details = Vec::new();
     for auth_spec in accept {
+        if !issuance
+            .offer
+            .credential_configuration_ids
+            .contains(&auth_spec.credential_configuration_id)
+        {
+            bail!("credential configuration accepted not found in offer");
+        }
         let claims: Option<ProfileClaims> = match &auth_spec.claims {
             Some(claims) => {
-                let Some(credential_configuration) =
-                    offered.get(&auth_spec.credential_configuration_id)
+                let Some(credential_configuration) = issuance
+                    .issuer
+                    .credential_configurations_supported
+                    .get(&auth_spec.credential_configuration_id)
                 else {
-                    bail!("credential configuration accepted not found in offer");
+                    bail!("credential configuration accepted not found in issuer metadata");
                 };
 
                 let profile = match &credential_configuration.format {
-- 
2.43.0


From 391c562f1e0c992533f5cc5629fb7f07756ca2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 38/45] fix: holder: authorize only the credentials accepted

---
 vercre-holder/src/issuance/authorize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..53ed866 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,10 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    // Without authorization details, what was accepted from the offer stands.
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
-- 
2.43.0


From 7abe9637c6b270420571cdcf889794c3b02fccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 39/45] fix: holder: do not panic on empty authorization server
 metadata

---
 vercre-holder/src/issuance/authorize.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 53ed866..6723082 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -261,20 +261,24 @@ fn authorization_request(
         })?),
     };
 
-    let Some(code_challenge_methods) =
-        issuance.authorization_server.oauth.code_challenge_methods_supported.clone()
+    let oauth = &issuance.authorization_server.oauth;
+    let Some(code_challenge_method) =
+        oauth.code_challenge_methods_supported.as_ref().and_then(|methods| methods.first())
     else {
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
+    let Some(response_type) = oauth.response_types_supported.first() else {
+        return Err(anyhow!("response types missing from authorization server metadata"));
+    };
 
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type: issuance.authorization_server.oauth.response_types_supported[0].clone(),
+        response_type: response_type.clone(),
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
         code_challenge,
-        code_challenge_method: code_challenge_methods[0].clone(),
+        code_challenge_method: code_challenge_method.clone(),
         authorization_details: auth_details,
         scope,
         resource: Some(issuance.issuer.credential_issuer.clone()),
-- 
2.43.0


From 630dc13376a30f8be518e1e719c61129538577fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 40/45] fix: holder: address proofs to the issuer in
 wallet-initiated flows

---
 vercre-holder/src/issuance/credentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..4ec9fa0 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -88,7 +88,7 @@ pub async fn credentials(
     // Construct a proof to be used in the credential requests.
     let claims = ProofClaims {
         iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
+        aud: issuance.issuer.credential_issuer.clone(),
         iat: chrono::Utc::now().timestamp(),
         nonce: issuance.token.c_nonce.clone(),
     };
-- 
2.43.0


From df1491d3279c4bafc40846e85454380252cfc3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 41/45] fix: holder: prove possession with the current nonce in
 every credential request

---
 vercre-holder/src/issuance/credentials.rs | 54 +++++++++++------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 4ec9fa0..cb6e8d6 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -85,37 +85,21 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.issuer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
 
     // Stash the state for the next step (save or cancel or deferred).
@@ -135,9 +119,21 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof to be used in a credential request. The issuer replaces the
+// nonce with every credential it issues, so each request needs its own proof.
+async fn proof(provider: impl HolderProvider, issuance: &Issuance) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(issuance.client_id.clone()),
+        aud: issuance.issuer.credential_issuer.clone(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: issuance.token.c_nonce.clone(),
+    };
+    jws::encode(Type::Proof, &claims, provider).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +149,13 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = proof(provider.clone(), issuance).await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -185,7 +182,7 @@ async fn credential_by_format(
 
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     let Some(authorized) = &issuance.token.authorization_details else {
         bail!("no authorization details in token response");
@@ -217,13 +214,14 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            let jwt = proof(provider.clone(), issuance).await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
                 "credential_identifier": cred_id.to_string(),
                 "proof": {
                     "proof_type": "jwt",
-                    "jwt": jwt.to_string()
+                    "jwt": jwt
                 }
             });
             let cred_res = Issuer::credential(&provider, request).await?;
-- 
2.43.0


From 8ee38e4ec5a99fc5e99b0f5b213d8fa828be5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 42/45] fix: holder: do not panic on a configuration with an
 empty display

---
 vercre-holder/src/issuance/credentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index cb6e8d6..45dba18 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -316,7 +316,7 @@ async fn credential(
     // Base64-encoded logo if possible.
     if let Some(display) = &config.display {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = display.first().and_then(|d| d.logo.as_ref()) {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From ffd6a883c4e8ecd3277b840baaa8f8d159ccdb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 43/45] fix: holder: do not save credentials again once saved

---
 vercre-holder/src/issuance/save.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vercre-holder/src/issuance/save.rs b/vercre-holder/src/issuance/save.rs
index 6acb2e8..39503f6 100644
--- a/vercre-holder/src/issuance/save.rs
+++ b/vercre-holder/src/issuance/save.rs
@@ -5,6 +5,7 @@
 //!
 //! The converse of this endpoint is the `cancel` endpoint.
 
+use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{NotificationEvent, NotificationRequest};
@@ -95,5 +96,14 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
         return Ok(request.issuance_id.clone());
     }
 
+    // Otherwise stash the state so the credentials saved are not saved again.
+    issuance.notification_id = None;
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::save", ?e);
+        return Err(e);
+    }
+
     Ok(request.issuance_id.clone())
 }
-- 
2.43.0


From 4dc38fe040f51458beb52be5c4140e395577f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 44/45] fix: holder: do not panic parsing a presentation status

---
 vercre-holder/src/presentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..0108533 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(e) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(e.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From 2b69ab274b5dfb35d09730da1b38dd14e689560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:02 +0000
Subject: [PATCH 45/45] fix: holder: keep the nonce received with a credential
 in every flow

---
 vercre-holder/src/issuance/credentials.rs | 6 ++++++
 vercre-holder/src/issuance/deferred.rs    | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 45dba18..be33dc9 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -177,6 +177,12 @@ async fn credential_by_format(
             return Err(e);
         }
     };
+    if cred_res.c_nonce.is_some() {
+        issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
+    }
+    if cred_res.c_nonce_expires_in.is_some() {
+        issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
+    }
     Ok(())
 }
 
diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index baa4dde..de105a3 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -90,6 +90,13 @@ pub async fn deferred(
             return Err(e);
         }
     };
+    let cred_res = &deferred_response.credential_response;
+    if cred_res.c_nonce.is_some() {
+        issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
+    }
+    if cred_res.c_nonce_expires_in.is_some() {
+        issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
+    }
 
     // Release issuance state if no more deferred credentials and no
     // credentials to save, otherwise stash the state.
-- 
2.43.0

