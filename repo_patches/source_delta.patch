From fec625355144eaaa11252f9ab417e0594655ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 01/32] fix: merge_location compares end columns with end
 columns

---
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From 21710195a16f9ed5b14874a63d0228fb07354086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 02/32] fix: macro expansion no longer panics on invalid or
 ignored nodes

---
 crates/brack-expander/src/expand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..1b25838 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -41,6 +41,9 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
         AST::Ident(_) => {
             return Ok(ast.clone());
         }
+        AST::Invalid(_) | AST::Ignored(_) => {
+            return Ok(ast.clone());
+        }
         _ => {}
     }
     for child in ast.children() {
-- 
2.43.0


From 48940eeafaa6b435c3c2217160fd8479fff828f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 03/32] fix: keep the expanded children, so macro calls are
 actually expanded

---
 crates/brack-expander/src/expand.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 1b25838..710e003 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -52,7 +52,17 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
             _ => children.push(expand_other(overall_ast, child, plugins)?),
         }
     }
-    Ok(ast.clone())
+    let mut expanded = ast.clone();
+    match &mut expanded {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Square(node)
+        | AST::Curly(node) => node.children = children,
+        _ => (),
+    }
+    Ok(expanded)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From e2e9398d00255cb846f8a5ab64438e1184f339c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 04/32] fix: arg_counter no longer overflows when a parameter
 follows an array parameter

---
 crates/brack-plugin/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-plugin/src/types.rs b/crates/brack-plugin/src/types.rs
index e6b4a75..84af20f 100644
--- a/crates/brack-plugin/src/types.rs
+++ b/crates/brack-plugin/src/types.rs
@@ -13,12 +13,12 @@ pub enum Type {
 
 pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
     let mut min = 0;
-    let mut max = 0;
+    let mut max: usize = 0;
     for arg_type in arg_types {
         match arg_type {
             Type::TOption(_) => {
                 min += 0;
-                max += 1;
+                max = max.saturating_add(1);
             }
             Type::TArray(_) => {
                 min += 0;
@@ -26,7 +26,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
             }
             _ => {
                 min += 1;
-                max += 1;
+                max = max.saturating_add(1);
             }
         }
     }
-- 
2.43.0


From 772624f8ec9a7e57f3f956443d14ebddfa1b7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 05/32] fix: a parameter without a matching argument is an
 error, not an index panic

---
 crates/brack-codegen/src/curly.rs  | 6 ++++--
 crates/brack-codegen/src/square.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..20f86a4 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,10 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => Value::Text(arguments.get(i).cloned().ok_or_else(|| {
+                anyhow::anyhow!("{} requires at least {} arguments", ident_name, i + 1)
+            })?),
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..987a6e9 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,10 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => Value::Text(arguments.get(i).cloned().ok_or_else(|| {
+                anyhow::anyhow!("{} requires at least {} arguments", ident_name, i + 1)
+            })?),
         };
         args.push(arg);
     }
-- 
2.43.0


From eec42a960526ce9042eb2800454f991737d12557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 06/32] fix: build and compile stop on syntax errors instead of
 generating output

---
 crates/brack-project-manager/src/project.rs |  5 ++++-
 src/main.rs                                 | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..e3b27f8 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -136,7 +136,10 @@ impl Project {
             if path.extension() == Some("[]".as_ref()) {
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
-                let (ast, _errors) = brack_transformer::transform::transform(&parsed);
+                let (ast, errors) = brack_transformer::transform::transform(&parsed);
+                if let Some(error) = errors.first() {
+                    anyhow::bail!("{}: {}", path.display(), error);
+                }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
                 std::fs::create_dir_all("out")?;
diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..a422e37 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,7 +97,10 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         4 => {
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if let Some(error) = errors.first() {
+                anyhow::bail!("{}: {}", filename, error);
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             if json {
                 let json = serde_json::to_string(&expanded_ast)?;
@@ -112,7 +115,10 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             }
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if let Some(error) = errors.first() {
+                anyhow::bail!("{}: {}", filename, error);
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             let gen = brack_codegen::generate::generate(&expanded_ast, &mut plugins)?;
             println!("{}", gen);
-- 
2.43.0


From 99875f4b836da0ff3686d3077c9a4b36b6b84359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 07/32] fix: diagnostics are published under the document URI,
 not its file path

---
 crates/brack-language-server/src/notification/did_save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..bbad973 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -16,11 +16,9 @@ impl Server {
             .uri
             .to_file_path()
             .map_err(|_| anyhow::anyhow!("Invalid file path"))?;
-        let uri = file_path
-            .to_str()
-            .ok_or_else(|| anyhow::anyhow!("Invalid file path"))?;
+        let uri = param.text_document.uri.as_str();
 
-        let tokens = match tokenize(uri) {
+        let tokens = match tokenize(&file_path) {
             Ok(tokens) => tokens,
             Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
         };
-- 
2.43.0


From e43e40a48a493dff4f3655ed1054b36ff2c38968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 08/32] fix: offer macros as completions after an opening angle
 bracket

---
 crates/brack-language-server/src/request/completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 45967ee..5888ccf 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -57,6 +57,7 @@ impl Server {
             for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                 if (start == *"[" && matches!(typ, Type::TInline))
                     || (start == *"{" && matches!(typ, Type::TBlock))
+                    || (start == *"<" && matches!(typ, Type::TAST))
                 {
                     completion_items.push(build_completion_item(
                         &plugin.name,
-- 
2.43.0


From eb94c8eab22d6edc992bd2a0c27f29cbaf07cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 09/32] fix: answer requests that have no result with a null
 result

---
 crates/brack-language-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..60a6430 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -112,7 +112,7 @@ impl Server {
                             self.send_stdout(&result).await?;
                             Ok(())
                         }
-                        None => Ok(()),
+                        None => self.send_stdout(&BLSResult::new(id, Value::Null)).await,
                     },
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
@@ -129,7 +129,7 @@ impl Server {
                             self.send_stdout(&result).await?;
                             Ok(())
                         }
-                        None => Ok(()),
+                        None => self.send_stdout(&BLSResult::new(id, Value::Null)).await,
                     },
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
-- 
2.43.0


From 6bed217e444b19f255c1822e0479eb5bd5c410c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 10/32] fix: a failing handler answers its request and no
 longer stops the server

---
 crates/brack-language-server/src/server.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..683d275 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -113,9 +113,21 @@ impl Server {
             msg.get("id").and_then(|i| i.as_i64()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
+            (Some(id), Some(method)) => {
+                if let Err(e) = self.handle_request(&msg, id, method).await {
+                    self.send_error_response(Some(id), -32603, &e.to_string())
+                        .await?;
+                }
+                Ok(())
+            }
             (Some(id), None) => self.handle_response(&msg, id).await,
-            (None, Some(method)) => self.handle_notification(&msg, method).await,
+            (None, Some(method)) => {
+                if let Err(e) = self.handle_notification(&msg, method).await {
+                    self.log_message(&format!("{} failed: {}", method, e))
+                        .await?;
+                }
+                Ok(())
+            }
             _ => self.send_invalid_request_response().await,
         }
     }
-- 
2.43.0


From 84806fafcd394b8695977bbbc38f9d78f7582168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 11/32] fix: frame messages by bytes, process every buffered
 one, and survive malformed ones

---
 crates/brack-language-server/src/server.rs | 61 ++++++++++++----------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 683d275..6164968 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -4,7 +4,7 @@ use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
 #[derive(Default)]
@@ -74,7 +74,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -146,37 +145,41 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
-
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
+            // handle every message that has been received completely
+            while let Some(end_of_header) = buffer.windows(4).position(|w| w == b"\r\n\r\n") {
+                let header_string = from_utf8(&buffer[..end_of_header]).unwrap_or_default();
+
+                let mut content_length = None;
+                let header_length = end_of_header + 4;
+                for line in header_string.split("\r\n") {
+                    if let Some((key, value)) = line.split_once(": ") {
+                        if key == "Content-Length" {
+                            content_length = value.parse::<usize>().ok();
+                        }
+                    }
                 }
-            }
 
-            if content_length == -1 {
-                continue;
-            }
-            let total_length = header_length + content_length as usize;
+                let content_length = match content_length {
+                    Some(content_length) => content_length,
+                    None => {
+                        buffer.drain(0..header_length);
+                        self.send_parse_error_response().await?;
+                        continue;
+                    }
+                };
+                let total_length = header_length.saturating_add(content_length);
+
+                if buffer.len() < total_length {
+                    break;
+                }
 
-            if buffer.len() < total_length {
-                continue;
+                let msg = from_slice::<Value>(&buffer[header_length..total_length]);
+                buffer.drain(0..total_length);
+                match msg {
+                    Ok(msg) => self.dispatch(msg).await?,
+                    Err(_) => self.send_parse_error_response().await?,
+                }
             }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
-- 
2.43.0


From 440854d63f4a8e591a41b904001801725bd73126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 12/32] fix: a NUL character in a document no longer truncates
 it

---
 crates/brack-tokenizer/src/dispatch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..52f469b 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -24,7 +24,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
 
     let (head, tail) = separate(&s);
 
-    if head == "\0" {
+    if s.is_empty() {
         let mut tokens = t
             .tokens
             .clone()
@@ -80,7 +80,8 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
         ("\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
-- 
2.43.0


From 11aec43c56a9174e44e1d300f8db1dc0e583d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 13/32] fix: brackets and newlines are never swallowed into an
 identifier token

---
 crates/brack-tokenizer/src/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 52f469b..48e0891 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -65,19 +65,19 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
     let nested = (angle_c + curly_c + square_c) > 0;
     match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
-        (_, ">") if look_for_ident => identifier::tokenize(t),
-        (_, "}") if look_for_ident => identifier::tokenize(t),
-        (_, "]") if look_for_ident => identifier::tokenize(t),
         ("<", _) => angle_bracket_open::tokenize(t),
         (">", _) => angle_bracket_close::tokenize(t),
         ("{", _) => curly_bracket_open::tokenize(t),
         ("}", _) => curly_bracket_close::tokenize(t),
         ("[", _) => square_bracket_open::tokenize(t),
         ("]", _) => square_bracket_close::tokenize(t),
+        ("\n", _) => newline::tokenize(t),
+        (_, ">") if look_for_ident => identifier::tokenize(t),
+        (_, "}") if look_for_ident => identifier::tokenize(t),
+        (_, "]") if look_for_ident => identifier::tokenize(t),
         (".", _) if nested => dot::tokenize(t),
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
-        ("\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
-- 
2.43.0


From 806ffb54011348cf9b73cbf9512c27a877d86722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 14/32] fix: a node starts where its first child starts, not at
 the document start

---
 crates/brack-parser/src/cst.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/cst.rs b/crates/brack-parser/src/cst.rs
index a1fef29..120c229 100644
--- a/crates/brack-parser/src/cst.rs
+++ b/crates/brack-parser/src/cst.rs
@@ -174,7 +174,10 @@ impl CST {
                     | CST::Invalid(leaf)
                     | CST::EOF(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                node.location = match node.children.len() {
+                    1 => location_children,
+                    _ => merge_location(&node.location, &location_children),
+                };
             }
             _ => panic!("This node does not have children"),
         }
-- 
2.43.0


From 1d44d4244126c47560f781db607590f4edc3f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 15/32] fix: an escape node spans the escaped character too

---
 crates/brack-parser/src/escaped.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/brack-parser/src/escaped.rs b/crates/brack-parser/src/escaped.rs
index 04a9754..0815158 100644
--- a/crates/brack-parser/src/escaped.rs
+++ b/crates/brack-parser/src/escaped.rs
@@ -1,6 +1,6 @@
 use anyhow::bail;
 use anyhow::Result;
-use brack_tokenizer::tokens::Token;
+use brack_tokenizer::tokens::{merge_location, Token};
 use uuid::Uuid;
 
 use crate::cst::new_backslash;
@@ -59,10 +59,14 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                         Ok(node) => vec![node],
                         Err(_) => vec![],
                     };
+                    let location = match children.first() {
+                        Some(child) => merge_location(location, &child.location()),
+                        None => location.clone(),
+                    };
                     return Ok((
                         CST::BackSlash(InnerNode {
                             id: Uuid::new_v4().to_string(),
-                            location: location.clone(),
+                            location,
                             children: children.clone(),
                         }),
                         tokens,
-- 
2.43.0


From a6a6a44679c799497f525b4163caf6f27b3e4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 16/32] fix: report closing brackets that were never opened

---
 crates/brack-transformer/src/stmt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..25860dd 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -12,6 +12,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     let mut csts = vec![];
 
     for child in node.children.clone() {
+        match &child {
+            CST::AngleBracketClose(leaf) => {
+                errors.push(TransformError::AngleNotOpened(leaf.location.clone()))
+            }
+            CST::CurlyBracketClose(leaf) => {
+                errors.push(TransformError::CurlyNotOpened(leaf.location.clone()))
+            }
+            CST::SquareBracketClose(leaf) => {
+                errors.push(TransformError::SquareNotOpened(leaf.location.clone()))
+            }
+            _ => (),
+        }
         let (cst, mut node_errors) = simplify::simplify(&child);
         csts.push(cst);
         errors.append(&mut node_errors);
-- 
2.43.0


From 6d3e9bce22b06e48c2ee4a4e12bad4af91d7e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 17/32] fix: separators outside commands are text, not a panic,
 after mismatched brackets

---
 crates/brack-transformer/src/transform.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/brack-transformer/src/transform.rs b/crates/brack-transformer/src/transform.rs
index ca1dabc..acd120e 100644
--- a/crates/brack-transformer/src/transform.rs
+++ b/crates/brack-transformer/src/transform.rs
@@ -60,6 +60,9 @@ pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
             CST::Module(node) => new_module(node.value.clone(), node.location.clone()),
             CST::Invalid(node) => new_invalid(node.location.clone()),
             CST::Text(node) => new_text(node.value.clone(), node.location.clone()),
+            CST::Whitespace(node) => new_text(Some(" ".to_string()), node.location.clone()),
+            CST::Dot(node) => new_text(Some(".".to_string()), node.location.clone()),
+            CST::Comma(node) => new_text(Some(",".to_string()), node.location.clone()),
             node => panic!("Cannot pass non-ast node to transform::aux: {:?}", node),
         }
     }
-- 
2.43.0


From b5d764b74f152ed6d1943f1fd55af5abff88989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 18/32] fix: tokenize iteratively, so long documents no longer
 overflow the stack

---
 .../src/angle_bracket_close.rs                |  5 +-
 .../brack-tokenizer/src/angle_bracket_open.rs |  5 +-
 crates/brack-tokenizer/src/backslash.rs       |  5 +-
 crates/brack-tokenizer/src/comma.rs           |  5 +-
 .../src/curly_bracket_close.rs                |  5 +-
 .../brack-tokenizer/src/curly_bracket_open.rs |  5 +-
 crates/brack-tokenizer/src/dispatch.rs        | 54 ++++++++++---------
 crates/brack-tokenizer/src/dot.rs             |  5 +-
 crates/brack-tokenizer/src/identifier.rs      |  5 +-
 crates/brack-tokenizer/src/module.rs          |  5 +-
 crates/brack-tokenizer/src/newline.rs         |  5 +-
 .../src/square_bracket_close.rs               |  5 +-
 .../src/square_bracket_open.rs                |  5 +-
 crates/brack-tokenizer/src/text.rs            |  5 +-
 crates/brack-tokenizer/src/whitespace.rs      |  5 +-
 15 files changed, 57 insertions(+), 67 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..afe8bf0 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         angle_nest_count: Some(angle_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/angle_bracket_open.rs b/crates/brack-tokenizer/src/angle_bracket_open.rs
index da23241..76e95e1 100644
--- a/crates/brack-tokenizer/src/angle_bracket_open.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,7 +47,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..f4e499a 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -41,5 +40,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/comma.rs b/crates/brack-tokenizer/src/comma.rs
index 62af075..26a673c 100644
--- a/crates/brack-tokenizer/src/comma.rs
+++ b/crates/brack-tokenizer/src/comma.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..327ec54 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         curly_nest_count: Some(curly_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_open.rs b/crates/brack-tokenizer/src/curly_bracket_open.rs
index 5444695..33ec7cc 100644
--- a/crates/brack-tokenizer/src/curly_bracket_open.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 48e0891..bac51a3 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -10,6 +10,34 @@ use crate::{
 use anyhow::Result;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
+    let mut t = t.clone();
+    while t.untreated.as_deref() != Some("") {
+        t = step(&t)?;
+    }
+    let mut tokens = t
+        .tokens
+        .clone()
+        .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
+    let line = t
+        .line
+        .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
+    let column = t
+        .column
+        .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
+    tokens.push(Token::EOF(Location {
+        start: LocationData {
+            line,
+            character: column,
+        },
+        end: LocationData {
+            line,
+            character: column,
+        },
+    }));
+    Ok(tokens)
+}
+
+fn step(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -24,30 +52,6 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
 
     let (head, tail) = separate(&s);
 
-    if s.is_empty() {
-        let mut tokens = t
-            .tokens
-            .clone()
-            .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
-        let line = t
-            .line
-            .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
-        let column = t
-            .column
-            .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
-        tokens.push(Token::EOF(Location {
-            start: LocationData {
-                line,
-                character: column,
-            },
-            end: LocationData {
-                line,
-                character: column,
-            },
-        }));
-        return Ok(tokens);
-    }
-
     let (head2, _) = separate(&tail);
 
     let angle_c = t
@@ -93,7 +97,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 pool: Some(format!("{}{}", pool, head)),
                 ..Default::default()
             };
-            dispatch(&t.merge(&t2))
+            Ok(t.merge(&t2))
         }
     }
 }
diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 8e7e62e..6e02f88 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/identifier.rs b/crates/brack-tokenizer/src/identifier.rs
index 31f93bf..7b3f000 100644
--- a/crates/brack-tokenizer/src/identifier.rs
+++ b/crates/brack-tokenizer/src/identifier.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -58,5 +57,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/module.rs b/crates/brack-tokenizer/src/module.rs
index 5810d6d..e5a7de4 100644
--- a/crates/brack-tokenizer/src/module.rs
+++ b/crates/brack-tokenizer/src/module.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/newline.rs b/crates/brack-tokenizer/src/newline.rs
index feb9e18..a093d5d 100644
--- a/crates/brack-tokenizer/src/newline.rs
+++ b/crates/brack-tokenizer/src/newline.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -44,5 +43,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..f302ac3 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         square_nest_count: Some(square_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_open.rs b/crates/brack-tokenizer/src/square_bracket_open.rs
index 5be2c55..0e6d71f 100644
--- a/crates/brack-tokenizer/src/square_bracket_open.rs
+++ b/crates/brack-tokenizer/src/square_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/text.rs b/crates/brack-tokenizer/src/text.rs
index 2400693..3797fef 100644
--- a/crates/brack-tokenizer/src/text.rs
+++ b/crates/brack-tokenizer/src/text.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/whitespace.rs b/crates/brack-tokenizer/src/whitespace.rs
index 08a7a78..2228787 100644
--- a/crates/brack-tokenizer/src/whitespace.rs
+++ b/crates/brack-tokenizer/src/whitespace.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
-- 
2.43.0


From 5da949f4676367c469586e9b87652cc2652d3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:09 +0000
Subject: [PATCH 19/32] fix: create the plugins directory before saving a
 downloaded plugin

---
 crates/brack-project-manager/src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index e3b27f8..3226aa7 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -109,6 +109,7 @@ impl Project {
             let results = join_all(tasks).await;
             for result in results {
                 let (name, path, bytes, flag) = result??;
+                std::fs::create_dir_all("plugins")?;
                 std::fs::write(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
-- 
2.43.0


From e344c64395f5872452bedca31d1e3612159185d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 20/32] fix: text after a stray closing bracket no longer makes
 the whole document unparsable

---
 crates/brack-parser/src/stmt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/stmt.rs b/crates/brack-parser/src/stmt.rs
index ea65d1d..9557e3e 100644
--- a/crates/brack-parser/src/stmt.rs
+++ b/crates/brack-parser/src/stmt.rs
@@ -2,13 +2,18 @@ use crate::{cst::new_stmt, expr_or_close, newline, parser::Parser};
 use anyhow::Result;
 use brack_tokenizer::tokens::Token;
 
-// expr_or_close (newline expr_or_close)*
+// expr_or_close+ (newline expr_or_close+)*
 pub fn parse(tokens: &[Token]) -> Result<Parser> {
     let mut stmt = new_stmt();
     let (cst, mut tokens) = expr_or_close::parse(tokens)?;
     stmt.add(cst);
 
     loop {
+        if let Ok((cst, new_tokens)) = expr_or_close::parse(tokens) {
+            stmt.add(cst);
+            tokens = new_tokens;
+            continue;
+        }
         if let Ok((cst1, new_tokens)) = newline::parse(tokens) {
             if let Ok((cst2, new_tokens)) = expr_or_close::parse(new_tokens) {
                 stmt.add(cst1);
-- 
2.43.0


From f18b963cabf1a0e00a7500f4986406358f07094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:16 +0000
Subject: [PATCH 21/32] fix: a CRLF line ending is a newline, not part of the
 text

---
 crates/brack-tokenizer/src/dispatch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index bac51a3..7b78033 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -75,7 +75,7 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         ("}", _) => curly_bracket_close::tokenize(t),
         ("[", _) => square_bracket_open::tokenize(t),
         ("]", _) => square_bracket_close::tokenize(t),
-        ("\n", _) => newline::tokenize(t),
+        ("\n", _) | ("\r\n", _) => newline::tokenize(t),
         (_, ">") if look_for_ident => identifier::tokenize(t),
         (_, "}") if look_for_ident => identifier::tokenize(t),
         (_, "]") if look_for_ident => identifier::tokenize(t),
@@ -84,7 +84,7 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         (" ", _) if nested => whitespace::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") => text::tokenize(t),
         _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
-- 
2.43.0


From 9add19f960f3582b807033f93649bff796b5f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:32 +0000
Subject: [PATCH 22/32] fix: a document may start with blank lines

---
 brack.cst.ebnf                   | 4 ++--
 crates/brack-parser/src/parse.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/brack.cst.ebnf b/brack.cst.ebnf
index de1ad53..eda64f8 100644
--- a/brack.cst.ebnf
+++ b/brack.cst.ebnf
@@ -1,5 +1,5 @@
-document := (stmt newline newline+)* stmt? newline* EOF
-stmt := expr_or_close (newline expr_or_close)*
+document := newline* (stmt newline newline+)* stmt? newline* EOF
+stmt := expr_or_close+ (newline expr_or_close+)*
 expr_or_close := bracket_close | expr
 escaped := backslash (dot | comma | bracket_open | bracket_close | backslash)?
 expr := (escaped | module | ident | bracket | dot | comma | whitespace | text)+
diff --git a/crates/brack-parser/src/parse.rs b/crates/brack-parser/src/parse.rs
index 923b5d8..5ad279d 100644
--- a/crates/brack-parser/src/parse.rs
+++ b/crates/brack-parser/src/parse.rs
@@ -6,11 +6,16 @@ use crate::{
     eof, newline, stmt,
 };
 
-// (stmt newline newline+)* stmt? newline* EOF
+// newline* (stmt newline newline+)* stmt? newline* EOF
 pub fn parse(tokens: &[Token]) -> Result<CST> {
     let mut tokens = tokens;
     let mut cst = new_document();
 
+    while let Ok((cst1, new_tokens)) = newline::parse(tokens) {
+        cst.add(cst1);
+        tokens = new_tokens;
+    }
+
     loop {
         let mut csts = vec![];
         let mut tokens1 = tokens;
-- 
2.43.0


From ffd97a000ef13f636d13cf421bbba543b018f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 23/32] fix: a stray closing bracket no longer changes how
 later commands are read

---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 2 +-
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 2 +-
 crates/brack-tokenizer/src/square_bracket_close.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index afe8bf0..7aca276 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some((angle_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 327ec54..a1e5260 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some((curly_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index f302ac3..424d5e9 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some((square_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From 1b1fb51e21e7f7fb8aeb49bdb8f72dbd99eb5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 24/32] fix: keep the spaces between the words of an argument

---
 crates/brack-transformer/src/utils.rs | 33 ++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..739ce70 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -113,12 +113,39 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
     errors
 }
 
+// Whitespaces between two contents of one argument are part of that argument, so they are kept.
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
-    let mut result = vec![];
+    fn is_content(cst: &CST) -> bool {
+        matches!(
+            cst,
+            CST::Text(_)
+                | CST::Module(_)
+                | CST::Ident(_)
+                | CST::Angle(_)
+                | CST::Curly(_)
+                | CST::Square(_)
+                | CST::Invalid(_)
+        )
+    }
+
+    let mut result: Vec<CST> = vec![];
+    let mut whitespaces = vec![];
     for cst in csts {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
-            _ => result.push(cst.clone()),
+            CST::Newline(_) => (),
+            CST::Whitespace(_) => {
+                // the first four elements are not arguments: bracket, module, dot and ident
+                if result.len() > 4 && result.last().is_some_and(is_content) {
+                    whitespaces.push(cst.clone());
+                }
+            }
+            _ => {
+                if is_content(cst) {
+                    result.append(&mut whitespaces);
+                }
+                whitespaces.clear();
+                result.push(cst.clone());
+            }
         }
     }
     result
-- 
2.43.0


From 84aad515508a0c0107f07cc44f15b07138bcc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:25 +0000
Subject: [PATCH 25/32] fix: an unexpected separator is reported once

---
 crates/brack-transformer/src/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 739ce70..9bb566f 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -71,6 +71,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
             CST::Comma(_) => {
                 if expr.children().is_empty() {
                     errors.push(TransformError::UnexpectedComma(csts[i].location()));
+                    previous_comma = false;
                     continue;
                 }
                 new_csts.push(expr);
@@ -87,10 +88,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 new_csts.push(csts[i].clone());
                 break;
             }
-            CST::Dot(_) => {
-                errors.push(TransformError::UnexpectedDot(csts[i].location()));
-                continue;
-            }
+            CST::Dot(_) => (), // reported by check_unexpected_dot
             _ => {
                 expr.add(csts[i].clone());
                 previous_comma = false;
-- 
2.43.0


From c3dd2096c52a95572d59eabd8b1f3bd23a46342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 26/32] fix: an escaped bracket no longer opens or closes a
 command in the tokenizer

---
 crates/brack-tokenizer/src/backslash.rs | 49 +++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index f4e499a..76fff90 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -33,6 +33,55 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    let t2 = Tokenizer {
+        column: Some(column + 1),
+        token_start_column: Some(column + 1),
+        untreated: Some(tail),
+        tokens: Some(tokens),
+        ..Default::default()
+    };
+    tokenize_escaped(&t.merge(&t2))
+}
+
+// An escaped bracket neither opens nor closes anything, so it must not change the nesting.
+fn tokenize_escaped(t: &Tokenizer) -> Result<Tokenizer> {
+    let s = t
+        .untreated
+        .clone()
+        .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
+    let (head, tail) = separate(&s);
+    let mut tokens = t
+        .tokens
+        .clone()
+        .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
+    let line = t
+        .line
+        .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
+    let column = t
+        .column
+        .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
+
+    let location = Location {
+        start: LocationData {
+            line,
+            character: column,
+        },
+        end: LocationData {
+            line,
+            character: column + 1,
+        },
+    };
+    tokens.push(match &head[..] {
+        "\\" => Token::BackSlash(location),
+        "<" => Token::AngleBracketOpen(location),
+        ">" => Token::AngleBracketClose(location),
+        "{" => Token::CurlyBracketOpen(location),
+        "}" => Token::CurlyBracketClose(location),
+        "[" => Token::SquareBracketOpen(location),
+        "]" => Token::SquareBracketClose(location),
+        _ => return Ok(t.clone()),
+    });
+
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
-- 
2.43.0


From 619c6665744dd1f33d9369931a4e1e99e46dca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 27/32] fix: a trailing comma followed by a dot is reported at
 the comma

---
 crates/brack-transformer/src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 9bb566f..c7c7264 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -65,24 +65,24 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
     let mut errors = vec![];
     let mut new_csts = csts[0..4].to_vec(); // [AngleBracketOpen, Module, Dot, Ident
     let mut expr = new_expr();
-    let mut previous_comma = false;
+    let mut previous_comma = None;
     for i in 4..csts.len() {
         match csts[i].clone() {
             CST::Comma(_) => {
                 if expr.children().is_empty() {
                     errors.push(TransformError::UnexpectedComma(csts[i].location()));
-                    previous_comma = false;
+                    previous_comma = None;
                     continue;
                 }
                 new_csts.push(expr);
                 expr = new_expr();
-                previous_comma = true;
+                previous_comma = Some(csts[i].location());
             }
             CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_) => {
                 if !expr.children().is_empty() {
                     new_csts.push(expr.clone());
-                } else if previous_comma {
-                    errors.push(TransformError::UnexpectedComma(csts[i - 1].location()));
+                } else if let Some(location) = previous_comma.take() {
+                    errors.push(TransformError::UnexpectedComma(location));
                 }
                 expr = new_expr();
                 new_csts.push(csts[i].clone());
@@ -91,7 +91,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
             CST::Dot(_) => (), // reported by check_unexpected_dot
             _ => {
                 expr.add(csts[i].clone());
-                previous_comma = false;
+                previous_comma = None;
             }
         }
     }
-- 
2.43.0


From a5f5533ece904f59e0b2013fe46adc384ae1e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:43 +0000
Subject: [PATCH 28/32] fix: a project name with quotes or backslashes made
 Brack.toml unreadable

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a422e37..ec6fa87 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -137,14 +137,14 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            toml::Value::from(name)
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From b2118667c250c437d95fe805d0a3c940d5bf8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:18 +0000
Subject: [PATCH 29/32] fix: brack build of a project without documents no
 longer fails on the missing output directory

---
 crates/brack-project-manager/src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 3226aa7..9461962 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -126,6 +126,7 @@ impl Project {
         let mut plugins = Plugins::new(plugin_vec)?;
 
         let entries = std::fs::read_dir("docs")?;
+        std::fs::create_dir_all("out")?;
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
@@ -143,7 +144,6 @@ impl Project {
                 }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all("out")?;
                 std::fs::write(
                     format!("out/{}.{}", file_stem, self.config.document.backend),
                     gen,
-- 
2.43.0


From c1e1ee772a23b6aa680edc8c87a5e4e844558d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:53 +0000
Subject: [PATCH 30/32] fix: keep cached modules of different backends apart

---
 crates/brack-project-manager/src/plugin.rs  | 4 +++-
 crates/brack-project-manager/src/project.rs | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..613cfbe 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -171,9 +171,11 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    // The module of a plugin depends on the backend as well as on the declaration.
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
         hasher.update(format!("{:?}", self));
+        hasher.update(backend);
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 9461962..0720ba7 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -45,8 +45,11 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                let path = PathBuf::from(&format!(
+                    "plugins/{}_{}.wasm",
+                    name,
+                    plugin.hash_sha256(&self.config.document.backend)
+                ));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From 3be95427770735a8150868e9798fdca4ee19440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:26 +0000
Subject: [PATCH 31/32] fix: refuse plugin references with empty or surplus
 parts

---
 crates/brack-project-manager/src/plugin.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 613cfbe..4dc5848 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -212,6 +212,13 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         .split('@')
         .nth(1)
         .ok_or_else(|| anyhow::anyhow!("Version is not found."))?;
+    if owner.is_empty()
+        || repo.is_empty()
+        || version.is_empty()
+        || schema != format!("{}:{}/{}@{}", repository_type, owner, repo, version)
+    {
+        return Err(anyhow::anyhow!("Invalid plugin reference: {}", schema));
+    }
     let url = match repository_type {
         "github" => format!("https://github.com/{}/{}", owner, repo),
         _ => {
-- 
2.43.0


From 4936d7969d0a90b6692b2677c1d217f539afc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:13 +0000
Subject: [PATCH 32/32] fix: take only files named like modules as plugins in
 compile

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ec6fa87..c254034 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,13 +31,14 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
+    let pattern = Regex::new(r"^(?<module_name>[[:alpha:]]+)_[[:alnum:]]+\.wasm$").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
         let capture = pattern.captures(
-            path.to_str()
+            path.file_name()
+                .and_then(|name| name.to_str())
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
         );
         if let Some(capture) = capture {
-- 
2.43.0

