From 8d7c5fe853587f865c2c27e8f9beb72906a56c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 01/14] fix: decode form and JSON bodies from every body chunk,
 not only the first

---
 src/context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..d5c1617 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,14 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +241,14 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From bec2eaec6c818a0afe6bb0a86398d5a09fcce351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 02/14] fix: serve files that are not valid UTF-8

---
 src/router/response.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..7f11f0b 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -129,9 +129,12 @@ impl Response {
         }
     }
 
-    pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+    pub async fn file(mut self, file_path: &str) -> Self {
+        match fs::read(file_path.to_string()).await {
+            Ok(content) => {
+                self.body = Body::from(content);
+                self
+            }
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From 3aab9de175338112efbe9e3a4159c9f29c036295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:27 +0000
Subject: [PATCH 03/14] fix: a failed write to stderr must not panic a file
 response

---
 src/router/response.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 7f11f0b..9906298 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -4,6 +4,7 @@ use async_std::fs;
 use http::StatusCode;
 use hyper::{header, Body};
 use serde::ser::Serialize;
+use std::io::{self, Write};
 
 #[derive(Debug)]
 pub struct Response {
@@ -136,7 +137,8 @@ impl Response {
                 self
             }
             Err(err) => {
-                dbg!(&err);
+                // Unlike dbg!, a failed write to stderr must not panic the request
+                let _ = writeln!(io::stderr(), "Failed to read {}: {:?}", file_path, err);
                 self.set_body(err.to_string())
                     .set_status(StatusCode::NOT_FOUND)
             }
-- 
2.43.0


From d3b2d3b6424d39caaeb35bb7d1f91872959d1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 04/14] fix: logger must not panic when no response was built

---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..56c985b 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // A context without response is answered with an empty 200 response
+                let status = context_after
+                    .response()
+                    .as_ref()
+                    .map_or(StatusCode::OK, |response| response.status());
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From 25252d762641793170fbfffd16c996b22e9f3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 05/14] fix: logger must not panic when stdout cannot be
 written

---
 src/middleware/logger.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 56c985b..d731b9e 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -1,4 +1,5 @@
 use async_trait::async_trait;
+use std::io::{self, Write};
 use std::time::Instant;
 
 use crate::app::EndpointExecutor;
@@ -9,6 +10,13 @@ use crate::StatusCode;
 
 use colored::*;
 
+/// Write a line to stdout. Unlike `println!`, it does not panic when the write fails
+macro_rules! log {
+    ($($arg:tt)*) => {
+        let _ = writeln!(io::stdout(), $($arg)*);
+    };
+}
+
 #[derive(Default)]
 pub struct Logger {}
 
@@ -26,10 +34,10 @@ impl Middleware for Logger {
         ep_executor: EndpointExecutor<'a>,
     ) -> ContextResult {
         let start = Instant::now();
-        println!("[info] {} {}", context.method(), context.uri(),);
+        log!("[info] {} {}", context.method(), context.uri(),);
 
         #[cfg(debug_assertions)]
-        println!("{} {:#?}", "[debug]".cyan(), context);
+        log!("{} {:#?}", "[debug]".cyan(), context);
 
         match ep_executor.next(context).await {
             Ok(context_after) => {
@@ -39,11 +47,11 @@ impl Middleware for Logger {
                     .response()
                     .as_ref()
                     .map_or(StatusCode::OK, |response| response.status());
-                println!("[info] Sent {} in {:?}", status, duration);
+                log!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-                println!("{} {}", "[error]".red(), error);
+                log!("{} {}", "[error]".red(), error);
                 Err(error)
             }
         }
-- 
2.43.0


From 9b53f35a6c4f73bea33e6c5b32632a7265f73bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:45 +0000
Subject: [PATCH 06/14] fix: answer 500 instead of panicking on an invalid
 response header value

---
 src/app.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 2a8101a..899d1c7 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -240,10 +240,18 @@ impl AppServer {
                         if let Some(response) = ctx.take_response() {
                             if let Some(headers) = response.headers() {
                                 if let Some(response_headers) = res.headers_mut() {
-                                    headers.iter().for_each(move |(key, value)| {
-                                        response_headers
-                                            .insert(key, header::HeaderValue::from_static(value));
-                                    });
+                                    for (key, value) in headers.iter() {
+                                        match header::HeaderValue::from_str(value) {
+                                            Ok(value) => {
+                                                response_headers.insert(key, value);
+                                            }
+                                            Err(err) => {
+                                                return Ok::<_, hyper::Error>(
+                                                    internal_server_error(err),
+                                                )
+                                            }
+                                        }
+                                    }
                                 }
                             }
                             res.status(response.status()).body(response.body())
-- 
2.43.0


From b37091d82971990a6b98438c05ddf5ec29add09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 07/14] fix: static files in a nested router or scope are
 looked up below their own route

---
 src/router.rs            | 47 +++++++---------------------------------
 src/router/route_trie.rs |  7 ++++++
 2 files changed, 15 insertions(+), 39 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..7174b2a 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -83,18 +83,12 @@ impl Router {
         let mut path = String::from(virtual_path);
         path.push_str("/*");
 
-        self.get(
-            &path,
-            Self::static_virtual_file_handler(virtual_path, dir_path),
-        );
+        self.get(&path, Self::static_file_handler(dir_path));
     }
 
     /// Serve static files by the directory path as the route and server file path
     pub fn use_static(&mut self, dir_path: &str) {
-        let mut path = String::from(dir_path);
-        path.push_str("/*");
-
-        self.get(&path, Self::static_dir_file_handler);
+        self.use_static_to(dir_path, dir_path);
     }
 
     /// Apply route handler in current relative route
@@ -112,50 +106,25 @@ impl Router {
         self.routes.insert_route(path, route);
     }
 
-    fn static_virtual_file_handler(virtual_path: &str, dir_path: &str) -> impl Handler {
+    fn static_file_handler(dir_path: &str) -> impl Handler {
         let dir_path = dir_path
             .split('/')
             .filter(|key| !key.is_empty())
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
-        let virtual_path_len = virtual_path
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .count();
-
         move |ctx: Context| {
-            let mut dir_path = dir_path.clone();
-            let mut relative_path = ctx
-                .uri()
-                .path()
-                .split('/')
-                .filter(|key| !key.is_empty())
-                .skip(virtual_path_len)
-                .map(|x| x.to_string())
-                .collect::<Vec<String>>();
-
-            dir_path.append(&mut relative_path);
+            let mut file_path = dir_path.clone();
+
+            // The path below the static route, wherever its router is mounted
+            file_path.extend(ctx.param::<String>("*"));
 
             Box::pin(async move {
-                ctx.build(Response::ok().file(&dir_path.join("/")).await)
+                ctx.build(Response::ok().file(&file_path.join("/")).await)
                     .ok()
             })
         }
     }
-
-    async fn static_dir_file_handler(ctx: Context) -> ContextResult {
-        let relative_path = ctx
-            .uri()
-            .path()
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .map(|x| x.to_string())
-            .collect::<Vec<String>>();
-
-        ctx.build(Response::ok().file(&relative_path.join("/")).await)
-            .ok()
-    }
 }
 
 #[cfg(test)]
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..9a6936d 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -460,6 +460,9 @@ impl Node {
         for node in self.child_nodes.iter() {
             let mut break_key = false;
 
+            // A failed descent consumes the key, the next nodes need it intact
+            let key = &mut key.clone();
+
             if !is_break_parent {
                 // Check param
                 if node.is_param() {
@@ -497,6 +500,10 @@ impl Node {
 
                 // Check wildcard
                 if node.key == "*" {
+                    let mut matched = vec![curr_key];
+                    matched.append(key);
+                    params.insert(node.key.clone(), matched.join("/"));
+
                     match &node.value {
                         Some(curr_val) => {
                             middlewares.append(&mut curr_val.middlewares.clone());
-- 
2.43.0


From 173cfb102dd40bfceaa1deda254365b29a1dcfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:45 +0000
Subject: [PATCH 08/14] fix: never serve files outside of the static directory

---
 src/router.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 7174b2a..e868783 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -117,9 +117,18 @@ impl Router {
             let mut file_path = dir_path.clone();
 
             // The path below the static route, wherever its router is mounted
-            file_path.extend(ctx.param::<String>("*"));
+            let relative_path = ctx.param::<String>("*").unwrap_or_default();
+            let is_outside = relative_path.split('/').any(|key| key == "..");
+            file_path.push(relative_path);
 
             Box::pin(async move {
+                // Never leave the served directory
+                if is_outside {
+                    return ctx
+                        .build("404 Not Found".with_status(StatusCode::NOT_FOUND))
+                        .ok();
+                }
+
                 ctx.build(Response::ok().file(&file_path.join("/")).await)
                     .ok()
             })
-- 
2.43.0


From 72360d560bba62bf61cb0c25947a014a66f57a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 09/14] fix: middleware registered at '/' was silently dropped

---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 9a6936d..fd40321 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -162,6 +162,12 @@ impl RouteTrie {
 
         let mut curr_node = &mut self.head;
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         while let Some(k) = split_key.next() {
             match curr_node.process_insertion(k) {
                 Ok(next_node) => {
-- 
2.43.0


From 38d378a07a193ae3994a6caefa33a90a4aa90039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:05 +0000
Subject: [PATCH 10/14] fix: mounting a router at '/' must not silently drop
 the routes already registered

---
 src/router/route_trie.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index fd40321..87c3a32 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -259,6 +259,10 @@ impl RouteTrie {
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
+            if des.head.value.is_some() || !des.head.child_nodes.is_empty() {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
             des.head = src.head;
             return;
         }
-- 
2.43.0


From e44b6e856e9f451a2622bd5c8ee402574799517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:28 +0000
Subject: [PATCH 11/14] fix: run the middleware of outer paths before the
 middleware of inner paths

---
 src/router/route_trie.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 87c3a32..299f328 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -488,20 +488,23 @@ impl Node {
                             }
                         }
                     } else {
+                        // Outer middlewares come before the inner ones
+                        let outer_count = middlewares.len();
+                        match &node.value {
+                            Some(curr_val) => {
+                                middlewares.append(&mut curr_val.middlewares.clone());
+                            }
+                            None => {}
+                        }
+
                         match node.get_next_node(key, params, middlewares, break_key) {
                             Some(final_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
 
-                                match &node.value {
-                                    Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
-                                    }
-                                    None => {}
-                                }
-
                                 return Some(final_val);
                             }
                             None => {
+                                middlewares.truncate(outer_count);
                                 continue;
                             }
                         }
@@ -568,14 +571,20 @@ impl Node {
                             continue;
                         }
                     }
-                } else if let Some(final_val) =
-                    node.get_next_node(key, params, middlewares, break_key)
-                {
+                } else {
+                    // Outer middlewares come before the inner ones
+                    let outer_count = middlewares.len();
                     if let Some(curr_val) = &node.value {
                         middlewares.append(&mut curr_val.middlewares.clone());
                     }
 
-                    return Some(final_val);
+                    if let Some(final_val) =
+                        node.get_next_node(key, params, middlewares, break_key)
+                    {
+                        return Some(final_val);
+                    }
+
+                    middlewares.truncate(outer_count);
                 }
             }
 
-- 
2.43.0


From 382dc9b5c1aa0685943d0021e3431912e22a688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:30 +0000
Subject: [PATCH 12/14] fix: middleware must not apply to paths which only
 share a part of a segment

---
 src/router/route_trie.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 299f328..c42ffe7 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -575,7 +575,10 @@ impl Node {
                     // Outer middlewares come before the inner ones
                     let outer_count = middlewares.len();
                     if let Some(curr_val) = &node.value {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                        // The middlewares of '/te' do not apply to '/test'
+                        if !break_key {
+                            middlewares.append(&mut curr_val.middlewares.clone());
+                        }
                     }
 
                     if let Some(final_val) =
-- 
2.43.0


From 193d7f927dae043dafea35efdc5e4b6a13626fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:05 +0000
Subject: [PATCH 13/14] fix: match path segments whole, '/test' is not '/te/st'

---
 src/router/route_trie.rs | 52 ++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index c42ffe7..d3444ee 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -105,7 +105,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -169,7 +169,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -268,15 +268,17 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
-                        if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
+                        if next_node.value.is_some()
+                            || next_node.child_nodes.iter().any(|node| !node.mid_segment)
+                        {
                             panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
                         }
 
                         next_node.value = src.head.value;
-                        next_node.child_nodes = src.head.child_nodes;
+                        next_node.child_nodes.extend(src.head.child_nodes);
                         break;
                     }
                     curr_node = next_node;
@@ -316,6 +318,8 @@ impl RouteTrie {
 #[derive(Clone, Debug)]
 struct Node {
     key: String,
+    /// The key continues the path segment of the parent node, instead of starting the next one
+    mid_segment: bool,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
 }
@@ -324,22 +328,28 @@ impl Node {
     fn new(key: String, value: Option<RouteValue>) -> Self {
         Node {
             key,
+            mid_segment: false,
             value,
             child_nodes: Vec::default(),
         }
     }
 
     fn is_param(&self) -> bool {
-        self.key.chars().next().unwrap_or(' ') == ':'
+        !self.mid_segment && self.key.chars().next().unwrap_or(' ') == ':'
     }
 
     /// Process the side effects of node insertion
-    fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+    fn process_insertion(
+        &mut self,
+        key: &str,
+        mid_segment: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, mid_segment);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let mut new_node = Self::new(key.to_string(), None);
+                new_node.mid_segment = mid_segment;
 
                 match key {
                     k if k == "*" => {
@@ -365,7 +375,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_insertion(&key[action.payload.match_count..], true);
                 };
             }
             ActionName::SplitNode => {
@@ -376,6 +386,7 @@ impl Node {
                     node.key = key[..count].to_string();
 
                     let mut inter_node = Self::new(child_key, None);
+                    inter_node.mid_segment = true;
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -388,7 +399,8 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let mut new_node = Self::new(new_key, None);
+                    new_node.mid_segment = true;
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -410,9 +422,15 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, mid_segment: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            // '/te' + 'st' and '/te/st' are different
+            if node.mid_segment != mid_segment {
+                continue;
+            }
+
+            let is_param =
+                !mid_segment && (node.is_param() || key.chars().next().unwrap_or(' ') == ':');
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -470,6 +488,11 @@ impl Node {
         for node in self.child_nodes.iter() {
             let mut break_key = false;
 
+            // '/te' + 'st' and '/te/st' are different
+            if node.mid_segment != is_break_parent {
+                continue;
+            }
+
             // A failed descent consumes the key, the next nodes need it intact
             let key = &mut key.clone();
 
@@ -581,8 +604,7 @@ impl Node {
                         }
                     }
 
-                    if let Some(final_val) =
-                        node.get_next_node(key, params, middlewares, break_key)
+                    if let Some(final_val) = node.get_next_node(key, params, middlewares, break_key)
                     {
                         return Some(final_val);
                     }
-- 
2.43.0


From d136c01e98d03fdc92ef8c22abe80349050bf13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 14/14] fix: which of several decoding errors is reported must
 not depend on hash seeds

---
 src/router/req_deserializer.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..3690f48 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -68,7 +68,11 @@ pub fn from_cow_map<'de, T, S: ::std::hash::BuildHasher>(
 where
     T: Deserialize<'de>,
 {
-    let mut deserializer = FormDeserializer::from_cow_map(s.iter().peekable());
+    // The iteration order of the map is random, which of several errors is reported must not be
+    let mut entries = s.iter().collect::<Vec<_>>();
+    entries.sort_unstable();
+
+    let mut deserializer = FormDeserializer::from_cow_map(entries.into_iter().peekable());
     let t = T::deserialize(&mut deserializer)?;
     Ok(t)
 }
@@ -76,11 +80,10 @@ where
 /// Deserializer for merged hashmap forms.
 struct FormDeserializer<'de> {
     input: std::iter::Peekable<
-        std::collections::hash_map::Iter<
-            'de,
-            std::borrow::Cow<'de, str>,
-            std::borrow::Cow<'de, [String]>,
-        >,
+        std::vec::IntoIter<(
+            &'de std::borrow::Cow<'de, str>,
+            &'de std::borrow::Cow<'de, [String]>,
+        )>,
     >,
 }
 
@@ -100,11 +103,10 @@ macro_rules! from_string_forms_key_impl {
 impl<'de> FormDeserializer<'de> {
     pub fn from_cow_map(
         input: std::iter::Peekable<
-            std::collections::hash_map::Iter<
-                'de,
-                std::borrow::Cow<'de, str>,
-                std::borrow::Cow<'de, [String]>,
-            >,
+            std::vec::IntoIter<(
+                &'de std::borrow::Cow<'de, str>,
+                &'de std::borrow::Cow<'de, [String]>,
+            )>,
         >,
     ) -> Self {
         FormDeserializer { input }
-- 
2.43.0

