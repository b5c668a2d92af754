From edaa0250dbd5a7b7dcb014126e2fde3ec1d8889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:29 +0000
Subject: [PATCH 01/12] fix: percent-encode backslashes in path parameters

---
 progenitor-client/src/progenitor_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index c709e6f..134f1ee 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -417,6 +417,8 @@ const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b'{')
     .add(b'}')
     .add(b'/')
+    // URL parsers treat a backslash in http(s) URLs as a path separator.
+    .add(b'\\')
     .add(b'%');
 
 #[doc(hidden)]
-- 
2.43.0


From fff9063124c3d7cebf43237bff03197db317b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:57 +0000
Subject: [PATCH 02/12] fix: send OPTIONS and TRACE operations with reqwest's
 generic request method

reqwest::Client has no options() or trace() method, so the generated client
did not compile for these operations.
---
 progenitor-impl/src/method.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7446d3f..f0ef6cb 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1081,7 +1081,19 @@ impl Generator {
             }
         });
 
-        let method_func = format_ident!("{}", method.method.as_str());
+        // reqwest has no convenience function for every method.
+        let request_start = match &method.method {
+            HttpMethod::Options => {
+                quote! { request(::reqwest::Method::OPTIONS, #url_ident) }
+            }
+            HttpMethod::Trace => {
+                quote! { request(::reqwest::Method::TRACE, #url_ident) }
+            }
+            http_method => {
+                let method_func = format_ident!("{}", http_method.as_str());
+                quote! { #method_func (#url_ident) }
+            }
+        };
 
         let body_impl = quote! {
             #url_path
@@ -1090,7 +1102,7 @@ impl Generator {
 
             #[allow(unused_mut)]
             let mut #request_ident = #client.client
-                . #method_func (#url_ident)
+                . #request_start
                 #accept_header
                 #(#body_func)*
                 #( .query(#query_params) )*
-- 
2.43.0


From 08b506c69ed0d962d333c079e8838eb499d642a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:37 +0000
Subject: [PATCH 03/12] fix: header parameters sort before the body, whichever
 is compared with the other

---
 progenitor-impl/src/method.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index f0ef6cb..28e7dbf 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -2296,6 +2296,9 @@ fn sort_params(raw_params: &mut [OperationParameter], names: &[String]) {
                 (OperationParameterKind::Header(_), OperationParameterKind::Header(_)) => {
                     a_name.cmp(b_name)
                 }
+                (OperationParameterKind::Header(_), OperationParameterKind::Body(_)) => {
+                    Ordering::Less
+                }
                 (OperationParameterKind::Header(_), _) => Ordering::Greater,
             }
         },
-- 
2.43.0


From 7a884da8b58bc3241e1346da14379f36b6baca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:21 +0000
Subject: [PATCH 04/12] fix: a path template with a stray } after a parameter
 or a nameless parameter is rejected

---
 progenitor-impl/src/template.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 47f3cc8..073ead2 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -114,6 +114,8 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
                 if c == '{' {
                     s = State::Parameter;
                     a = String::new();
+                } else if c == '}' {
+                    return Err(Error::InvalidPath("unexpected }".to_string()));
                 } else {
                     s = State::Constant;
                     a = c.to_string();
@@ -132,7 +134,7 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
             }
             State::Parameter => {
                 if c == '}' {
-                    if a.contains('/') || a.contains('{') {
+                    if a.is_empty() || a.contains('/') || a.contains('{') {
                         return Err(Error::InvalidPath(format!(
                             "invalid parameter name {:?}",
                             a,
-- 
2.43.0


From 60ad1cbd9a41ae713acf198c77ffcc613db1d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:24 +0000
Subject: [PATCH 05/12] fix: infer the number and string types of untyped
 nullable schemas from their constraints

---
 progenitor-impl/src/to_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 359d5bc..59a7630 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -575,10 +575,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                                 .then_some(schemars::schema::InstanceType::Array),
                             so.number
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::Number),
                             so.string
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::String),
                             nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
-- 
2.43.0


From e0ac545d364bdd90f14ee4478cc84fd3ead3ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:24 +0000
Subject: [PATCH 06/12] fix: saturate schema bounds that don't fit in a u32
 rather than wrapping them

---
 progenitor-impl/src/to_schema.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 59a7630..f496f99 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -450,10 +450,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.string().pattern = Some(pattern.clone());
                 }
                 if let Some(min_length) = min_length {
-                    so.string().min_length = Some(*min_length as u32);
+                    so.string().min_length = Some(saturating_u32(*min_length));
                 }
                 if let Some(max_length) = max_length {
-                    so.string().max_length = Some(*max_length as u32);
+                    so.string().max_length = Some(saturating_u32(*max_length));
                 }
 
                 // Number
@@ -496,10 +496,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.object().additional_properties = additional_properties.convert();
                 }
                 if let Some(min_properties) = min_properties {
-                    so.object().min_properties = Some(*min_properties as u32);
+                    so.object().min_properties = Some(saturating_u32(*min_properties));
                 }
                 if let Some(max_properties) = max_properties {
-                    so.object().max_properties = Some(*max_properties as u32);
+                    so.object().max_properties = Some(saturating_u32(*max_properties));
                 }
 
                 // Array
@@ -507,10 +507,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.array().items = items.convert().clone().map(SingleOrVec::Single);
                 }
                 if let Some(min_items) = min_items {
-                    so.array().min_items = Some(*min_items as u32);
+                    so.array().min_items = Some(saturating_u32(*min_items));
                 }
                 if let Some(max_items) = max_items {
-                    so.array().max_items = Some(*max_items as u32);
+                    so.array().max_items = Some(saturating_u32(*max_items));
                 }
                 if let Some(unique_items) = unique_items {
                     so.array().unique_items = Some(*unique_items);
@@ -744,9 +744,14 @@ fn oneof_nullable_wrapper(
     }
 }
 
+// Saturate (rather than wrap) bounds that are too big to be represented.
+fn saturating_u32(value: usize) -> u32 {
+    u32::try_from(value).unwrap_or(u32::MAX)
+}
+
 impl Convert<Option<u32>> for Option<usize> {
     fn convert(&self) -> Option<u32> {
-        (*self).map(|m| m as u32)
+        (*self).map(saturating_u32)
     }
 }
 
-- 
2.43.0


From d5a8c904876e4be035aab1e25eaef436895a8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:24 +0000
Subject: [PATCH 07/12] fix: don't restrict an untyped nullable schema to null

---
 progenitor-impl/src/to_schema.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index f496f99..ae47d33 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -589,6 +589,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                         // infer a type.
 
                         so.instance_type = match (instance_types.first(), instance_types.len()) {
+                            // If there are no subschemas either, we know of no
+                            // type to add null to (e.g. there's only an enum):
+                            // null alone would rule out all the other values.
+                            (Some(_), 1) if so.subschemas.is_none() => None,
                             (Some(typ), 1) => Some(SingleOrVec::Single(Box::new(*typ))),
                             (Some(_), _) => Some(SingleOrVec::Vec(instance_types)),
                             (None, _) => None,
-- 
2.43.0


From 151967b603497325d0f54b9e6f08fb6c85dc1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:20 +0000
Subject: [PATCH 08/12] fix: a parameter named header_map was hidden by the
 generated request code

---
 progenitor-impl/src/method.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 28e7dbf..7471096 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -780,6 +780,7 @@ impl Generator {
         let request_ident = unique_ident_from("request", &param_names);
         let response_ident = unique_ident_from("response", &param_names);
         let result_ident = unique_ident_from("result", &param_names);
+        let header_map_ident = unique_ident_from("header_map", &param_names);
 
         // Generate code for query parameters.
         let query_params = method
@@ -806,7 +807,7 @@ impl Generator {
                     let hn_ident = format_ident!("{}", &param.name);
                     let res = if *required {
                         quote! {
-                            header_map.append(
+                            #header_map_ident.append(
                                 #hn,
                                 #hn_ident.to_string().try_into()?
                             );
@@ -814,7 +815,7 @@ impl Generator {
                     } else {
                         quote! {
                             if let Some(value) = #hn_ident {
-                                header_map.append(
+                                #header_map_ident.append(
                                     #hn,
                                     value.to_string().try_into()?
                                 );
@@ -829,8 +830,8 @@ impl Generator {
 
         let headers_size = headers.len() + 1;
         let headers_build = quote! {
-            let mut header_map = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
-            header_map.append(
+            let mut #header_map_ident = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
+            #header_map_ident.append(
                 ::reqwest::header::HeaderName::from_static("api-version"),
                 ::reqwest::header::HeaderValue::from_static(#client.api_version()),
             );
@@ -839,7 +840,7 @@ impl Generator {
         };
 
         let headers_use = quote! {
-            .headers(header_map)
+            .headers(#header_map_ident)
         };
 
         let websock_hdrs = if method.dropshot_websocket {
-- 
2.43.0


From 5850bf5f25c1a2a5a93386b6b3b2b494c8f57fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:20 +0000
Subject: [PATCH 09/12] fix: parameters named page, first or state were hidden
 in the generated stream method

---
 progenitor-impl/src/method.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7471096..72e2576 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -630,6 +630,17 @@ impl Generator {
 
             let stream_id = format_ident!("{}_stream", method.operation_id);
 
+            // Internal variables must not shadow the parameters that are
+            // passed along to get the subsequent pages.
+            let param_names = method
+                .params
+                .iter()
+                .map(|param| format_ident!("{}", param.name))
+                .collect::<Vec<_>>();
+            let page_ident = unique_ident_from("page", &param_names);
+            let first_ident = unique_ident_from("first", &param_names);
+            let state_ident = unique_ident_from("state", &param_names);
+
             // The parameters are the same as those to the paged method, but
             // without "page_token"
             let stream_params = method
@@ -662,7 +673,7 @@ impl Generator {
             // - The initial inputs for non-query parameters
             let step_params = method.params.iter().map(|param| {
                 if param.api_name.as_str() == "page_token" {
-                    quote! { state.as_deref() }
+                    quote! { #state_ident.as_deref() }
                 } else if param.api_name.as_str() != "limit"
                     && matches!(param.kind, OperationParameterKind::Query(_))
                 {
@@ -703,20 +714,20 @@ impl Generator {
                     // Execute the operation with the basic parameters
                     // (omitting page_token) to get the first page.
                     self.#operation_id( #(#first_params,)* )
-                        .map_ok(move |page| {
-                            let page = page.into_inner();
+                        .map_ok(move |#page_ident| {
+                            let #page_ident = #page_ident.into_inner();
 
                             // Create a stream from the items of the first page.
-                            let first =
-                                futures::stream::iter(page.items).map(Ok);
+                            let #first_ident =
+                                futures::stream::iter(#page_ident.items).map(Ok);
 
                             // We unfold subsequent pages using page.next_page
                             // as the seed value. Each iteration returns its
                             // items and the next page token.
                             let rest = futures::stream::try_unfold(
-                                page.next_page,
-                                move |state| async move {
-                                    if state.is_none() {
+                                #page_ident.next_page,
+                                move |#state_ident| async move {
+                                    if #state_ident.is_none() {
                                         // The page_token was None so we've
                                         // reached the end.
                                         Ok(None)
@@ -744,7 +755,7 @@ impl Generator {
                             )
                             .try_flatten();
 
-                            first.chain(rest)
+                            #first_ident.chain(rest)
                         })
                         .try_flatten_stream()
                         .boxed()
-- 
2.43.0


From 0aafdf260d3b0f40d8b5d2d677c07889f7a84e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:58 +0000
Subject: [PATCH 10/12] fix: mocks for documented status codes without a
 well-known name

---
 progenitor-impl/src/httpmock.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/httpmock.rs b/progenitor-impl/src/httpmock.rs
index 6ac092e..4f5cd39 100644
--- a/progenitor-impl/src/httpmock.rs
+++ b/progenitor-impl/src/httpmock.rs
@@ -303,11 +303,14 @@ impl Generator {
 
                 match status_code {
                     OperationResponseStatus::Code(status_code) => {
-                        let canonical_reason = http::StatusCode::from_u16(*status_code)
+                        // Not every documented code has a well-known name.
+                        let fn_name = match http::StatusCode::from_u16(*status_code)
                             .unwrap()
                             .canonical_reason()
-                            .unwrap();
-                        let fn_name = format_ident!("{}", &sanitize(canonical_reason, Case::Snake));
+                        {
+                            Some(reason) => format_ident!("{}", &sanitize(reason, Case::Snake)),
+                            None => format_ident!("status_{}", status_code),
+                        };
 
                         quote! {
                             pub fn #fn_name(self, #value_param) -> Self {
-- 
2.43.0


From 227fe29dcad79f026ac2290831dc195de11e97ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:20 +0000
Subject: [PATCH 11/12] fix: escape the text of a path in the regular
 expressions of mocks

---
 progenitor-impl/src/template.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 073ead2..f75c26d 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -65,7 +65,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_literal(name),
                 Component::Parameter(_) => "[^/]*".to_string(),
             })
             .collect::<String>();
@@ -77,7 +77,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_literal(name),
                 Component::Parameter(p) if p == param => "{}".to_string(),
                 Component::Parameter(_) => ".*".to_string(),
             })
@@ -86,6 +86,21 @@ impl PathTemplate {
     }
 }
 
+/// Escape the characters that have a meaning in a regular expression.
+fn escape_literal(literal: &str) -> String {
+    let mut escaped = String::new();
+    for c in literal.chars() {
+        if matches!(
+            c,
+            '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '^' | '$'
+        ) {
+            escaped.push('\\');
+        }
+        escaped.push(c);
+    }
+    escaped
+}
+
 pub fn parse(t: &str) -> Result<PathTemplate> {
     enum State {
         Start,
-- 
2.43.0


From 98706f9ab086329aa5ad0d679842f9f3f1d73882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:33 +0000
Subject: [PATCH 12/12] fix: a reference only stands for a component of its own
 kind in the same document

---
 progenitor-impl/src/util.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/util.rs b/progenitor-impl/src/util.rs
index 170d00a..01a877c 100644
--- a/progenitor-impl/src/util.rs
+++ b/progenitor-impl/src/util.rs
@@ -6,12 +6,15 @@ use indexmap::IndexMap;
 use openapiv3::{Components, Parameter, ReferenceOr, RequestBody, Response, Schema};
 use unicode_ident::{is_xid_continue, is_xid_start};
 
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) trait ReferenceOrExt<T: ComponentLookup> {
     fn item<'a>(&'a self, components: &'a Option<Components>) -> Result<&'a T>;
 }
 pub(crate) trait ComponentLookup: Sized {
+    /// What a reference to a component of this kind starts with.
+    const PREFIX: &'static str;
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>>;
 }
 
@@ -20,12 +23,12 @@ impl<T: ComponentLookup> ReferenceOrExt<T> for openapiv3::ReferenceOr<T> {
         match self {
             ReferenceOr::Item(item) => Ok(item),
             ReferenceOr::Reference { reference } => {
-                let idx = reference.rfind('/').unwrap();
-                let key = &reference[idx + 1..];
-                let parameters = T::get_components(components.as_ref().unwrap());
-                parameters
-                    .get(key)
-                    .unwrap_or_else(|| panic!("key {} is missing", key))
+                let key = reference.strip_prefix(T::PREFIX);
+                key.zip(components.as_ref())
+                    .and_then(|(key, components)| T::get_components(components).get(key))
+                    .ok_or_else(|| {
+                        Error::UnexpectedFormat(format!("unresolvable reference {}", reference))
+                    })?
                     .item(components)
             }
         }
@@ -52,24 +55,32 @@ pub(crate) fn parameter_map<'a>(
 }
 
 impl ComponentLookup for Parameter {
+    const PREFIX: &'static str = "#/components/parameters/";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.parameters
     }
 }
 
 impl ComponentLookup for RequestBody {
+    const PREFIX: &'static str = "#/components/requestBodies/";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.request_bodies
     }
 }
 
 impl ComponentLookup for Response {
+    const PREFIX: &'static str = "#/components/responses/";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.responses
     }
 }
 
 impl ComponentLookup for Schema {
+    const PREFIX: &'static str = "#/components/schemas/";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.schemas
     }
-- 
2.43.0

