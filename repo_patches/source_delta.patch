From eb8c79baf0e87d98166134690f9d8fdc8cc593e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 01/26] fix: report the unparsed text in Partial and
 PartialError results

---
 src/internals/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 65976ab..a2189f2 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -46,7 +46,6 @@ impl<'a> Parser<'a> {
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-    let leftover = self.leftover.into();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
@@ -55,6 +54,7 @@ impl<'a> Parser<'a> {
       },
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
+    let leftover = self.leftover.into();
     if self.leftover.len() > 0 {
       let len = self.errors.borrow().len();
       if len > 0 {
-- 
2.43.0


From 0cfd114dee04312f85da3d44a0e8b1f763e60e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 02/26] fix: accept every Unicode scalar value in strings,
 quoted keys and comments

---
 src/internals/primitives.rs | 18 +++++++++---------
 src/internals/util.rs       |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fa5cb6e..402ee2b 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,35 +430,35 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -￿]|\n|(\r\n))*"#));
+  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -\x{10FFFF}]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(  |[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -614,7 +614,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
diff --git a/src/internals/util.rs b/src/internals/util.rs
index 511e431..b7347a2 100644
--- a/src/internals/util.rs
+++ b/src/internals/util.rs
@@ -2,7 +2,7 @@ use internals::ast::structs::Comment;
 use internals::parser::Parser;
 
 fn not_eol(chr: char) -> bool {
-  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFF)
+  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFFF)
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From af2ac9e99f78658c704456b0a09b26bc86c747e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 03/26] fix: unicode escapes take hexadecimal digits of either
 case and nothing else

---
 src/internals/primitives.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 402ee2b..8077fb0 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,11 +430,11 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
@@ -443,12 +443,12 @@ impl<'a> Parser<'a> {
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -614,7 +614,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Fa-f]{4})|(\\\\U[0-9A-Fa-f]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
-- 
2.43.0


From 2f83fbec0058f0406d55ba98d2f2b28c9d685a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 04/26] fix: only ASCII digits make up integers and floats

---
 src/internals/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 8077fb0..b49e339 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -422,11 +422,11 @@ impl<'a> Parser<'a> {
   }
 
   // Integer
-  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9](\d|(_\d))+)|\d))"#)) ;
+  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
   // Float
   method!(pub float<Parser<'a>, &'a str, &'a str>, self,
-         re_find!(r#"^(\+|-)?([1-9](\d|(_\d))+|\d)((\.\d(\d|(_\d))*)((e|E)(\+|-)?([1-9](\d|(_\d))+|\d))|(\.\d(\d|(_\d))*)|((e|E)(\+|-)?([1-9](\d|(_\d))+|\d)))"#));
+         re_find!(r#"^(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])((\.[0-9]([0-9]|(_[0-9]))*)((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9]))|(\.[0-9]([0-9]|(_[0-9]))*)|((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])))"#));
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-- 
2.43.0


From 2694b1e9769898370bf11f027c5ff255cde14ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 05/26] fix: literal strings may contain tabs

---
 src/internals/primitives.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index b49e339..7c4b510 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -436,10 +436,10 @@ impl<'a> Parser<'a> {
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
     re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -\x{10FFFF}]|\n|(\r\n))*"#));
+  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -\x{10FFFF}]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
@@ -453,12 +453,12 @@ impl<'a> Parser<'a> {
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-\x{10FFFF}])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'(\t|[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(\t|[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
-- 
2.43.0


From c998814f6e9eafa37639312400ce6ea992762549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 06/26] fix: multi-line basic strings accept the tab escape

---
 src/internals/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 7c4b510..b677573 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -434,7 +434,7 @@ impl<'a> Parser<'a> {
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|\t|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
@@ -448,7 +448,7 @@ impl<'a> Parser<'a> {
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|\t|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
-- 
2.43.0


From d6edd1827af0a4ea494a50e9d5b9e37bc16e3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 07/26] fix: printing an empty array or inline table no longer
 panics

---
 src/internals/ast/structs.rs | 2 +-
 src/types.rs                 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b9b10c5..4ba7d2d 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -753,7 +753,7 @@ impl<'a> PartialEq for InlineTable<'a> {
 impl<'a> Display for InlineTable<'a> {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     try!(write!(f, "{{{}", self.ws.ws1));
-    for i in 0..self.keyvals.len() - 1 {
+    for i in 0..self.keyvals.len().saturating_sub(1) {
       try!(write!(f, "{}", self.keyvals[i]));
     }
     if self.keyvals.len() > 0 {
diff --git a/src/types.rs b/src/types.rs
index 5579c3f..051411b 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -280,7 +280,7 @@ impl<'a> Display for Value<'a> {
       &Value::DateTime(ref v) => write!(f, "{}", v),
       &Value::Array(ref arr) => {
         try!(write!(f, "["));
-        for i in 0..arr.len() - 1 {
+        for i in 0..arr.len().saturating_sub(1) {
           try!(write!(f, "{}, ", arr[i]));
         }
         if arr.len() > 0 {
@@ -298,7 +298,7 @@ impl<'a> Display for Value<'a> {
       },
       &Value::InlineTable(ref it) => {
         try!(write!(f, "{{"));
-        for i in 0..it.len() - 1 {
+        for i in 0..it.len().saturating_sub(1) {
           try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
         }
         if it.len() > 0 {
-- 
2.43.0


From f0f7b67283eef92082d5db91c5568948ffd878c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 08/26] fix: printing a parser that has not parsed anything no
 longer panics

---
 src/internals/ast/structs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index 4ba7d2d..bc1c423 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -36,10 +36,10 @@ impl<'a> PartialEq for Toml<'a> {
 
 impl<'a> Display for Toml<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-      for i in 0..self.exprs.len()-1 {
-        try!(write!(f, "{}", self.exprs[i]));
+      for expr in self.exprs.iter() {
+        try!(write!(f, "{}", expr));
       }
-    write!(f, "{}", self.exprs[self.exprs.len()-1])
+    Ok(())
    }
 }
 
-- 
2.43.0


From 8531b8f60a9a8391ac3b6b44827ba9beab44c5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 09/26] fix: integers and floats with trailing text are not
 valid values

---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 051411b..c95c694 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -949,14 +949,14 @@ impl<'a> Value<'a> {
       &Value::Integer(ref s) => {
         let p = Parser::new();
         match p.integer(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
       &Value::Float(ref s) => {
         let p = Parser::new();
         match p.float(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
-- 
2.43.0


From 59a666d00ca9a0c7b919e287547d2dd595ecabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 10/26] fix: dates, times and offsets are made of digits only,
 fractions of any length

---
 src/types.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index c95c694..5454fa5 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -86,6 +86,11 @@ pub enum ParseError<'a> {
   GenericError(String, usize, usize, Option<Cow<'a, str>>, String),
 }
 
+// `usize::from_str` takes a leading plus sign, the numbers of a date or time are made of digits only.
+fn all_digits(s: &str) -> bool {
+  s.bytes().all(|b| b >= b'0' && b <= b'9')
+}
+
 // Represents the 7 different types of values that can exist in a TOML document.
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub enum Value<'a> {
@@ -1160,6 +1165,9 @@ impl<'a> TimeOffsetAmount<'a> {
     if self.hour.len() != 2 || self.minute.len() != 2 {
       return false;
     }
+    if !all_digits(&self.hour) || !all_digits(&self.minute) {
+      return false;
+    }
     return self.validate_numbers();
    }
 
@@ -1244,6 +1252,9 @@ impl<'a> Date<'a> {
     if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 {
       return false;
     }
+    if !all_digits(&self.year) || !all_digits(&self.month) || !all_digits(&self.day) {
+      return false;
+    }
     return self.validate_numbers();
   }
 
@@ -1379,6 +1390,9 @@ impl<'a> Time<'a> {
     if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 {
       return false;
     }
+    if !all_digits(&self.hour) || !all_digits(&self.minute) || !all_digits(&self.second) {
+      return false;
+    }
     return self.validate_numbers();
   }
 
@@ -1405,7 +1419,7 @@ impl<'a> Time<'a> {
       return false;
     }
     if let Some(ref frac) = self.fraction {
-      if u64::from_str(frac).is_err() {
+      if frac.len() == 0 || !all_digits(frac) {
         return false;
       }
     }
-- 
2.43.0


From f2ca0903c4221e6bbb960b11ce75c5603dd88439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 11/26] fix: multi-line strings must not contain or run into
 their delimiter

---
 src/types.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 5454fa5..196f1b3 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -91,6 +91,16 @@ fn all_digits(s: &str) -> bool {
   s.bytes().all(|b| b >= b'0' && b <= b'9')
 }
 
+// The text of a multi-line string may neither contain the delimiter nor run into the closing one.
+fn ends_at_delimiter(s: &str, delimiter: &str) -> bool {
+  let quoted = format!("{}{}{}", delimiter, s, delimiter);
+  let (_, result) = Parser::new().val(&quoted);
+  match result {
+    IResult::Done(i, _) => i.len() == 0,
+    _ => false,
+  }
+}
+
 // Represents the 7 different types of values that can exist in a TOML document.
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub enum Value<'a> {
@@ -976,7 +986,7 @@ impl<'a> Value<'a> {
           },
           StrType::MLBasic => {
             match Parser::quoteless_ml_basic_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && ends_at_delimiter(s, "\"\"\""),
               _ => false,
             }
           },
@@ -988,7 +998,7 @@ impl<'a> Value<'a> {
           },
           StrType::MLLiteral => {
             match Parser::quoteless_ml_literal_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && ends_at_delimiter(s, "'''"),
               _ => false,
             }
           },
-- 
2.43.0


From d4fd008d765e02c7fae619b48ee0bd6d631f2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 12/26] fix: a table has no value to get or set

---
 src/internals/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index a2189f2..55219e1 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -102,6 +102,9 @@ impl<'a> Parser<'a> {
       let hashval = self.map.get(&s_key).unwrap();
       let clone = hashval.clone();
       if let Some(val) = clone.value {
+        if let TOMLValue::Table = *val.borrow() {
+          return None;
+        }
         Some(to_val!(&*val.borrow()))
       } else {
         None
@@ -139,6 +142,9 @@ impl<'a> Parser<'a> {
         &mut Some(ref mut v) => v,
         &mut None => return false,
       };
+      if let TOMLValue::Table = *val_rf.borrow() {
+        return false;
+      }
       // if the inline table/array has the same structure the just replace the values
       if Parser::same_structure(val_rf, &val) {
         return Parser::replace_values(val_rf, &val);
-- 
2.43.0


From f26fe2620cdabc836d6a4653824b9198fc649ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 13/26] fix: setting an invalid value leaves the sub-keys of
 the key alone

---
 src/internals/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 55219e1..d6b033c 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -150,17 +150,17 @@ impl<'a> Parser<'a> {
         return Parser::replace_values(val_rf, &val);
       }
     }
+    let new_value_opt = Parser::convert_vector(&val);
+    if new_value_opt.is_none() {
+      return false;
+    }
+    let new_value = new_value_opt.unwrap();
     // if the inline table/array has a different structure, delete the existing
     // array/inline table from the map and rebuild it from the new value
     let all_keys = self.get_all_subkeys(&s_key);
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_opt = Parser::convert_vector(&val);
-    if new_value_opt.is_none() {
-      return false;
-    }
-    let new_value = new_value_opt.unwrap();
     let new_value_clone = match new_value {
       TOMLValue::Array(ref rc_rc) => {
         TOMLValue::Array(rc_rc.clone())
-- 
2.43.0


From 5e7359c462cef5f70954b4fcc767b249f044ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 14/26] fix: arrays and inline tables are valid only if
 everything in them is

---
 src/types.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 196f1b3..620e2e7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1004,6 +1004,13 @@ impl<'a> Value<'a> {
           },
         }
       },
+      &Value::Array(ref arr) => arr.iter().all(|v| v.validate()),
+      &Value::InlineTable(ref it) => it.iter().all(|kv| {
+        match Parser::new().key(&kv.0) {
+          (_, IResult::Done(i, _)) => i.len() == 0 && kv.1.validate(),
+          (_,_) => false,
+        }
+      }),
       _ => true,
     }
   }
-- 
2.43.0


From 1bb01533c8d652c718a2b43e7ee52f0ad8a7133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 15/26] fix: a value can be replaced by a value of any other
 type and shape

---
 src/internals/parser.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index d6b033c..8eaf32c 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -161,16 +161,7 @@ impl<'a> Parser<'a> {
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_clone = match new_value {
-      TOMLValue::Array(ref rc_rc) => {
-        TOMLValue::Array(rc_rc.clone())
-      },
-      TOMLValue::InlineTable(ref rc_rc) => {
-        TOMLValue::InlineTable(rc_rc.clone())
-      },
-      unknown => panic!("In Parser.set_value, new_value should only be an Array or InlineTable. Instead it's a {:?}", unknown),
-    };
-    if self.map.contains_key(&s_key) {
+    let new_value_rc = {
       let existing_value = match self.map.entry(s_key.clone()) {
         Entry::Occupied(entry) => entry.into_mut(),
         _ => panic!("Map contains key, but map.entry returned a Vacant entry is set_value."),
@@ -181,9 +172,10 @@ impl<'a> Parser<'a> {
         &mut None => panic!("existing_value's value is None, when this should've returned false earlier in the function."),
       };
       *val_rf.borrow_mut() = new_value;
-    }
-    let new_value_rc = Rc::new(RefCell::new(new_value_clone));
-    self.rebuild_vector(s_key.clone(), new_value_rc.clone(), true);
+      existing_value.subkeys = Children::Count(Cell::new(0));
+      val_rf.clone()
+    };
+    self.rebuild_vector(s_key.clone(), new_value_rc, true);
     true
   }
 
@@ -307,10 +299,7 @@ impl<'a> Parser<'a> {
     match *val.borrow() {
       TOMLValue::Array(ref arr) => {
         {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains array key, but map.entry returned a Vacant entry in set_value."),
-          };
+          let value = self.map.entry(key.clone()).or_insert(HashValue::new_count(val.clone()));
           if !skip {
             value.value = Some(val.clone());
           }
@@ -323,13 +312,11 @@ impl<'a> Parser<'a> {
       },
       TOMLValue::InlineTable(ref it) => {
         {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains inline table key, but map.entry returned a Vacant entry is set_value."),
-          };
+          let value = self.map.entry(key.clone()).or_insert(HashValue::new_keys(val.clone()));
           if !skip {
             value.value = Some(val.clone());
           }
+          value.subkeys = Children::Keys(RefCell::new(vec![]));
           if let Children::Keys(ref child_keys) = value.subkeys {
             for i in 0..it.borrow().keyvals.len() {
               Parser::insert(child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
-- 
2.43.0


From 3e5de2173fb30a9b0373782794f7d19be0cb8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 16/26] fix: count the line breaks inside arrays and inline
 tables

---
 src/internals/objects.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ec81530..501c512 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,7 +1,7 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
                               TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
 use internals::parser::Parser;
-use internals::primitives::Key;
+use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -473,8 +473,14 @@ impl<'a> Parser<'a> {
 
   method!(comment_or_nl<Parser<'a>, &'a str, CommentOrNewLines>, mut self,
     alt!(
-      complete!(call_m!(self.comment_nl))   => {|com| CommentOrNewLines::Comment(com)} |
-      complete!(call_m!(self.ws_newline))  => {|nl: &'a str|  CommentOrNewLines::NewLines(nl.into())}
+      complete!(call_m!(self.comment_nl))   => {|com: CommentNewLines<'a>| {
+        self.line_count.set(self.line_count.get() + count_lines(&com.pre_ws_nl) + count_lines(&com.newlines));
+        CommentOrNewLines::Comment(com)
+      }} |
+      complete!(call_m!(self.ws_newline))  => {|nl: &'a str| {
+        self.line_count.set(self.line_count.get() + count_lines(nl));
+        CommentOrNewLines::NewLines(nl.into())
+      }}
     )
   );
 
-- 
2.43.0


From 164349b8e03991730b790b16739dfa4c76a8ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 17/26] fix: report every mixed array, whatever was reported
 before it

---
 src/internals/objects.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 501c512..730c1e0 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -500,20 +500,11 @@ impl<'a> Parser<'a> {
               let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
                 &self.last_array_tables_index, &self.keychain
               );
-              let err_len = self.errors.borrow().len();
-              let mut mixed = false;
-              if err_len > 0 {
-                if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  if !tuple.1.starts_with(key) {
-                    mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.1);
-                  }
-                }
-              } else {
-                mixed = true;
-                debug!("Mixed array error insert: {}", tuple.1);
-              }
+              // every mixed array is reported once
+              let mixed = !self.errors.borrow().iter().any(|e| match e {
+                &ParseError::MixedArray(ref key, _, _) => key == &tuple.2,
+                _ => false,
+              });
               if mixed {
                 self.errors.borrow_mut().push(ParseError::MixedArray(
                   tuple.2, self.line_count.get(), 0
-- 
2.43.0


From 16a8a7b3820fbcc8222a4c7ae4aed33e81921b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 18/26] fix: values of an array or inline table have to be
 separated by commas

---
 src/internals/objects.rs | 44 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 730c1e0..95e264a 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -521,17 +521,24 @@ impl<'a> Parser<'a> {
         )
   );
 
-  method!(array_values<Parser<'a>, &'a str, Vec<ArrayValue> >, mut self,
-    chain!(
-     vals: many0!(call_m!(self.array_value)) ,
-     ||{
-        debug!("Finished array values");
-        let mut tmp = vec![];
-        tmp.extend(vals);
-        tmp
+  // Only the last value may go without a separator after it
+  fn array_values(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Vec<ArrayValue<'a>>>) {
+    let mut rest = input;
+    let mut vals: Vec<ArrayValue<'a>> = vec![];
+    while vals.last().map_or(true, |v| v.array_sep.is_some()) {
+      let (tmp, res) = self.array_value(rest);
+      self = tmp;
+      match res {
+        IResult::Done(i, o) => {
+          rest = i;
+          vals.push(o);
+        },
+        _ => break,
       }
-    )
-  );
+    }
+    debug!("Finished array values");
+    (self, IResult::Done(rest, vals))
+  }
 
   pub fn array(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Rc<RefCell<Array>>>) {
     // Initialize last array type to None, we need a stack because arrays can be nested
@@ -571,7 +578,22 @@ impl<'a> Parser<'a> {
         )
   );
 
-  method!(inline_table_keyvals_non_empty<Parser<'a>, &'a str, Vec<TableKeyVal> >, mut self, many0!(call_m!(self.table_keyval)));
+  fn inline_table_keyvals_non_empty(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Vec<TableKeyVal<'a>>>) {
+    let mut rest = input;
+    let mut keyvals: Vec<TableKeyVal<'a>> = vec![];
+    while keyvals.last().map_or(true, |kv| kv.kv_sep.is_some()) {
+      let (tmp, res) = self.table_keyval(rest);
+      self = tmp;
+      match res {
+        IResult::Done(i, o) => {
+          rest = i;
+          keyvals.push(o);
+        },
+        _ => break,
+      }
+    }
+    (self, IResult::Done(rest, keyvals))
+  }
 
   method!(pub inline_table<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
     chain!(
-- 
2.43.0


From ba3e62015a185d0beb9bc21bf34f7c37ac9fa507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 19/26] fix: resolve table headers through the tables that
 exist

The stack of open array tables lost track of them: headers below an array of
tables that was not the last one got the wrong key, were accepted although
already defined or panicked, and an invalid array of tables left its
key/value pairs to the table before it.
---
 src/internals/objects.rs    | 382 +++++++-----------------------------
 src/internals/parser.rs     |  10 +-
 src/internals/primitives.rs | 304 ++++++----------------------
 3 files changed, 134 insertions(+), 562 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 95e264a..c691e42 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,5 +1,5 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
-                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
+                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue};
 use internals::parser::Parser;
 use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
@@ -36,161 +36,28 @@ impl<'a> Parser<'a> {
     return true;
   }
 
-  fn contains(vector: &RefCell<Vec<String>>, find: &str) -> bool {
-    for s in vector.borrow().iter() {
-      if s == find {
-        return true;
-      }
-    }
-    return false;
-  }
-
-  fn is_top_std_table(tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      let len = tables.borrow().len();
-      if let TableType::Standard(_) = *tables.borrow()[len - 1] {
-        return true;
-      } else {
-        return false;
-      }
-    }
-  }
-
-  fn equal_key_length(table: Rc<TableType<'a>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      match *table {
-        TableType::Array(ref t1) | TableType::Standard(ref t1) => {
-          let len = tables.borrow().len();
-          match *tables.borrow()[len - 1] {
-            TableType::Array(ref t2) | TableType::Standard(ref t2) => {
-              return t1.keys.len() == t2.keys.len();
-            }
-          }
+  // Registers every table on the way to the last key of a table header, and the last key with its parent
+  fn add_to_parents(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, table: &Table<'a>) {
+    let mut parent_key = "$Root$".to_string();
+    for i in 0..table.keys.len() {
+      let mut borrow = map.borrow_mut();
+      if let Entry::Occupied(mut o) = borrow.entry(parent_key.clone()) {
+        if let &Children::Keys(ref vec_rf) = &o.get_mut().subkeys {
+          Parser::insert(vec_rf, table.keys[i].key.clone().into_owned());
         }
       }
-    }
-  }
-
-  fn add_implicit_tables(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>, table: Rc<TableType<'a>>) {
-    let (valid, mut last_key, _) = Parser::get_array_table_key(map, tables, tables_index);
-    if !valid {
-      return;
-    }
-    let mut len = tables.borrow().len();
-    let mut pop = false;
-    if len == 0 {
-      tables.borrow_mut().push(Rc::new(TableType::Standard(
-        Table::new_str(WSSep::new_str("", ""), "$Root$", vec![])
-      )));
-      pop = true;
-      len = 1;
-      last_key.push_str("$Root$");
-    }
-    match *tables.borrow()[len - 1] {
-      TableType::Array(ref last_at) | TableType::Standard(ref last_at) => {
-        match *table {
-          TableType::Array(ref tb) | TableType::Standard(ref tb) => {
-            let mut first = true;
-            debug!("last_at.keys.len(): {}, tb.keys.len(): {}", last_at.keys.len(), tb.keys.len());
-            for i in 0..last_at.keys.len() {
-              debug!("key {}: {}", i, last_at.keys[i].key);
-            }
-            let mut start = last_at.keys.len();
-            if last_key == "$Root$" {
-              start -= 1;
-            }
-            for i in start..tb.keys.len() {
-              let mut borrow = map.borrow_mut();
-              let mut insert = false;
-              debug!("index: {}, last_key: {}", i, last_key);
-              if let Entry::Occupied(mut o) = borrow.entry(last_key.clone()) {
-                if first {
-
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => {debug!("Inserting subkey: {}", tb.keys[i].key); Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned())},
-                    &Children::Count(ref cell) => { debug!("Incrementing subkey count: {}", cell.get() + 1); cell.set(cell.get() + 1); true },
-                  };
-                  first = false;
-                } else {
-                  debug!("Inserting subkey: {}", tb.keys[i].key);
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned()),
-                    _ => panic!("Implicit tables can only be Standard Tables: \"{}\"", format!("{}.{}", last_key, tb.keys[i].key)),
-                  };
-                }
-              }
-              if i < tb.keys.len() - 1 {
-                if last_key != "$Root$" {
-                  last_key.push_str(".");
-                } else {
-                  last_key.truncate(0);
-                }
-                last_key.push_str(&tb.keys[i].key);
-                if insert {
-                  debug!("insert last_key {}", last_key);
-                  if i == tb.keys.len() - 1 {
-                    if let TableType::Array(_) = *table {
-                      borrow.insert(last_key.clone(), HashValue::one_count());
-                    } else {
-                      borrow.insert(last_key.clone(), HashValue::none_keys());
-                    }
-                  } else {
-                    borrow.insert(last_key.clone(), HashValue::none_keys());
-                  }
-                }
-              }
-            }
-          },
-        }
-      }
-    }
-    if pop {
-      tables.borrow_mut().pop();
-    }
-    debug!("Returning from add_implicit_tables");
-  }
-
-  fn increment_array_table_index(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,) {
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("increment_array_table_index: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Count(ref c) = &o.get_mut().subkeys {
-         c.set(c.get() + 1);
-      }
-    }
-    let len = tables_index.borrow().len();
-    let last_index = tables_index.borrow()[len - 1];
-    tables_index.borrow_mut()[len - 1] = last_index + 1;
-  }
-
-  fn add_to_table_set(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>, key: &str) -> bool{
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("add_to_table_set: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Keys(ref keys) = &o.get_mut().subkeys {
-        let contains = Parser::contains(keys, key);
-        if contains {
-          debug!("key already exists");
-          return false;
-        } else {
-          debug!("add_to_table_set--> {}", key);
-          Parser::insert(keys, key.to_string());
+      if i < table.keys.len() - 1 {
+        let key = Parser::append_key(&parent_key, &table.keys[i].key);
+        if !borrow.contains_key(&key) {
+          debug!("Insert implicit table: {}", key);
+          borrow.insert(key.clone(), HashValue::none_keys());
         }
+        parent_key = match Parser::array_table_count(&key, &borrow) {
+          Some(count) => format!("{}[{}]", key, count - 1),
+          None => key,
+        };
       }
     }
-    return true;
   }
 
   // Table
@@ -228,88 +95,36 @@ impl<'a> Parser<'a> {
         let res = Rc::new(TableType::Standard(Table::new_str(
           WSSep::new_str(ws1, ws2), key, subkeys
         )));
-        let mut error = false;
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) || Parser::equal_key_length(res.clone(), &self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
-        let map = RefCell::new(&mut self.map);
-        let mut table_key = "".to_string();
-        let mut parent_key = "$Root$".to_string();
-        debug!("Before get len");
-        let mut len = self.last_array_tables.borrow().len();
-        let current_key = format_tt_keys(&*res);
-        if len > 0 {
-          let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-          if current_key == last_key {
+        if let TableType::Standard(ref tbl) = *res {
+          let map = RefCell::new(&mut self.map);
+          let (valid, is_element, table_key, parent_key) = Parser::get_array_table_key(&map, tbl);
+          let mut error = !valid;
+          // The parent table may not have any values of its own, but the element of an array of tables may
+          if valid && !is_element && Parser::key_has_children_with_values(&parent_key, &map) {
             error = true;
-          } else {
-            debug!("Check if subtable");
-            let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-            if !subtable {
-              loop {
-                debug!("Not subtable pop {}", self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]);
-                self.last_array_tables.borrow_mut().pop();
-                self.last_array_tables_index.borrow_mut().pop();
-                len -= 1;
-                debug!("check array_tables len and subtable");
-                if len == 0 || res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]) {
-                  break;
-                }
-              }
-            }
           }
-        }
-        if len > 0 && current_key == format_tt_keys(&self.last_array_tables.borrow()[len - 1]) {
-          error = true;
-        } else {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let tuple = Parser::get_array_table_key(&map, &self.last_array_tables, &self.last_array_tables_index);
-          table_key = tuple.1;
-          parent_key = tuple.2;
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          if !tuple.0 || Parser::key_has_children_with_values(&parent_key, &map) {
-            error = true;
-          } else {
-            debug!("Standard Table Key: {}", table_key);
-            if map.borrow().contains_key(&table_key) {
-              let map_borrow = map.borrow();
-              let hash_val_opt = map_borrow.get(&table_key);
-              if let Some(ref hash_val) = hash_val_opt {
-                if let Some(ref rc_rc_val) = hash_val.value {
-                  if let TOMLValue::Table = *rc_rc_val.borrow() {
-                    debug!("Table error {}, table already defined", table_key);
-                    error = true;
-                  }
-                }
-              }
+          if let Some(hash_val) = map.borrow().get(&table_key) {
+            if let Children::Count(_) = hash_val.subkeys {
+              debug!("Table error {}, key is an array of tables", table_key);
+              error = true;
+            }
+            if let Some(_) = hash_val.value {
+              debug!("Table error {}, table already defined", table_key);
+              error = true;
             }
           }
-        }
-        debug!("Before error check");
-        if error {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let array_table_key = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index).1;
-          debug!("Setting Invalid Table {} in Standard Table", array_table_key);
-          self.errors.borrow_mut().push(ParseError::InvalidTable(
-            array_table_key, self.line_count.get(), 0,
-            RefCell::new(HashMap::new())
-          ));
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          self.array_error.set(true);
-        } else {
-          Parser::add_implicit_tables(&map, &self.last_array_tables,
-            &self.last_array_tables_index, res.clone());
-          if let TableType::Standard(ref tbl) = *res {
-            Parser::add_to_table_set(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &tbl.keys[keys_len - 1].key);
+          debug!("Before error check");
+          if error {
+            debug!("Setting Invalid Table {} in Standard Table", table_key);
+            self.errors.borrow_mut().push(ParseError::InvalidTable(
+              table_key, self.line_count.get(), 0,
+              RefCell::new(HashMap::new())
+            ));
+            self.array_error.set(true);
+          } else {
+            Parser::add_to_parents(&map, tbl);
             self.array_error.set(false);
             debug!("insert table_key: {}", table_key);
             let contains_key = map.borrow().contains_key(&table_key);
@@ -323,15 +138,7 @@ impl<'a> Parser<'a> {
               debug!("insert new table key {}", table_key);
               map.borrow_mut().insert(table_key.clone(), HashValue::table_keys());
             }
-            if let Entry::Occupied(mut o) = map.borrow_mut().entry(parent_key) {
-              match &o.get_mut().subkeys {
-                &Children::Keys(ref vec_rf) => {Parser::insert(vec_rf, tbl.keys[keys_len - 1].key.clone().into_owned());},
-                _ => panic!("Trying to add a key to an array: \"{}\"", table_key),
-              }
-            }
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
-            self.last_table = Some(res.clone());
+            self.last_table = Some(table_key);
           }
         }
         res
@@ -355,90 +162,35 @@ impl<'a> Parser<'a> {
         )));
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
-        {
+        if let TableType::Array(ref tbl) = *res {
           let map = RefCell::new(&mut self.map);
-          self.array_error.set(false);
-          let len = self.last_array_tables.borrow().len();
-          let current_key = format_tt_keys(&*res);
-          if len > 0 {
-            let mut len = self.last_array_tables.borrow().len();
-            let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-            debug!("current_key: {}, last_key: {}", current_key, last_key);
-            if current_key == last_key {
-              debug!("Increment array table index");
-              Parser::increment_array_table_index(&map, &self.last_array_tables,
-                &self.last_array_tables_index);
-            } else {
-              let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-              if subtable {
-                debug!("Is subtable");
-                Parser::add_implicit_tables(&map, &self.last_array_tables,
-                  &self.last_array_tables_index, res.clone());
-                self.last_array_tables.borrow_mut().push(res.clone());
-                self.last_array_tables_index.borrow_mut().push(0);
-              } else {
-                debug!("NOT subtable");
-                while self.last_array_tables.borrow().len() > 0 &&
-                  current_key != format_tt_keys(&self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]) {
-                  debug!("pop table");
-                  self.last_array_tables.borrow_mut().pop();
-                  self.last_array_tables_index.borrow_mut().pop();
-                }
-                len = self.last_array_tables.borrow().len();
-                if len > 0 {
-                  debug!("Increment array table index the second");
-                  Parser::increment_array_table_index(&map, &self.last_array_tables,
-                    &self.last_array_tables_index);
-                } else {
-                  debug!("Add implicit tables");
-                  Parser::add_implicit_tables(&map, &self.last_array_tables,
-                    &self.last_array_tables_index,  res.clone());
-                  self.last_array_tables.borrow_mut().push(res.clone());
-                  self.last_array_tables_index.borrow_mut().push(0);
-                  let parent_key = Parser::get_key_parent(&self.last_array_tables,
-                    &self.last_array_tables_index);
-                  debug!("Got parent key: {}", parent_key);
-                  let contains_key = map.borrow().contains_key(&parent_key);
-                  if contains_key {
-                    debug!("Increment array table index the third");
-                    Parser::increment_array_table_index(&map, &self.last_array_tables,
-                      &self.last_array_tables_index);
-                  }
-                }
-              }
-            }
-          } else {
-            debug!("Len == 0 add implicit tables");
-            Parser::add_implicit_tables(&map, &self.last_array_tables,
-              &self.last_array_tables_index, res.clone());
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
-          }
-          debug!("Before call to get_array_table_key");
-          let (valid, full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index);
-          if !valid {
+          let (valid, _, table_key, _) = Parser::get_array_table_key(&map, tbl);
+          let exists = map.borrow().contains_key(&table_key);
+          let count = Parser::array_table_count(&table_key, &map.borrow()).unwrap_or(0);
+          let full_key = format!("{}[{}]", table_key, count);
+          if !valid || (exists && count == 0) {
             debug!("Setting Invalid Table {}", full_key);
             self.errors.borrow_mut().push(ParseError::InvalidTable(
               full_key, self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
+            self.array_error.set(true);
           } else {
-            debug!("After call to get_array_table_key");
-            let contains_key = map.borrow().contains_key(&parent_key);
-            if !contains_key {
-              debug!("Insert new array of table key: {}", full_key);
-              map.borrow_mut().insert(parent_key, HashValue::one_count());
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
-            } else {
+            Parser::add_to_parents(&map, tbl);
+            self.array_error.set(false);
+            if exists {
               debug!("Increment existing array of table key: {}", full_key);
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
+              if let Entry::Occupied(mut o) = map.borrow_mut().entry(table_key) {
+                if let &Children::Count(ref c) = &o.get_mut().subkeys {
+                  c.set(count + 1);
+                }
+              }
+            } else {
+              debug!("Insert new array of table key: {}", full_key);
+              map.borrow_mut().insert(table_key, HashValue::one_count());
             }
-            self.last_table = Some(res.clone());
+            map.borrow_mut().insert(full_key.clone(), HashValue::none_keys());
+            self.last_table = Some(full_key);
           }
         }
         res
@@ -497,17 +249,15 @@ impl<'a> Parser<'a> {
             let len = self.last_array_type.borrow().len();
             if len > 0 && self.last_array_type.borrow()[len - 1] != ArrayType::None &&
                self.last_array_type.borrow()[len - 1] != t {
-              let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
-                &self.last_array_tables_index, &self.keychain
-              );
+              let tuple = Parser::get_full_key(&self.last_table, &self.keychain);
               // every mixed array is reported once
               let mixed = !self.errors.borrow().iter().any(|e| match e {
-                &ParseError::MixedArray(ref key, _, _) => key == &tuple.2,
+                &ParseError::MixedArray(ref key, _, _) => key == &tuple.1,
                 _ => false,
               });
               if mixed {
                 self.errors.borrow_mut().push(ParseError::MixedArray(
-                  tuple.2, self.line_count.get(), 0
+                  tuple.1, self.line_count.get(), 0
                 ));
               }
             }
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 8eaf32c..1e579de 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -5,7 +5,7 @@ use std::collections::hash_map::Entry;
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::borrow::Cow;
-use internals::ast::structs::{HashValue, ArrayType, TOMLValue, Toml, TableType, Array, InlineTable, ArrayValue, WSSep,
+use internals::ast::structs::{HashValue, ArrayType, TOMLValue, Toml, Array, InlineTable, ArrayValue, WSSep,
                               TableKeyVal};
 use types::{ParseError, ParseResult, Value, Children};
 use internals::primitives::Key;
@@ -17,10 +17,9 @@ pub struct Parser<'a> {
   pub errors: Rc<RefCell<Vec<ParseError<'a>>>>,
   pub leftover: &'a str,
   pub line_count: Cell<usize>,
-  pub last_array_tables: RefCell<Vec<Rc<TableType<'a>>>>,
-  pub last_array_tables_index: RefCell<Vec<usize>>,
   pub keychain: RefCell<Vec<Key<'a>>>,
-  pub last_table: Option<Rc<TableType<'a>>>,
+  // The full key of the table which the following key/value pairs belong to
+  pub last_table: Option<String>,
   pub last_array_type: RefCell<Vec<ArrayType>>,
   pub array_error: Cell<bool>,
   pub mixed_array: Cell<bool>,
@@ -34,8 +33,7 @@ impl<'a> Parser<'a> {
     map.insert("$Root$".to_string(), HashValue::none_keys());
     Parser{ root: RefCell::new(Toml{ exprs: vec![] }), map: map,
             errors: Rc::new(RefCell::new(vec![])), leftover: "",
-            line_count: Cell::new(1), last_array_tables: RefCell::new(vec![]),
-            last_array_tables_index: RefCell::new(vec![]),
+            line_count: Cell::new(1),
             last_table: None, last_array_type: RefCell::new(vec![]),
             keychain: RefCell::new(vec![]),
             array_error: Cell::new(false), mixed_array: Cell::new(false),
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index b677573..23dbbc3 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -3,7 +3,7 @@ use std::rc::Rc;
 use std::collections::HashMap;
 use std::collections::hash_map::Entry;
 use std::borrow::Cow;
-use internals::ast::structs::{KeyVal, WSSep, TOMLValue, ErrorCode, HashValue, TableType, Table, get_last_keys};
+use internals::ast::structs::{KeyVal, WSSep, TOMLValue, ErrorCode, HashValue, Table};
 use types::{Date, Time, DateTime, TimeOffset, TimeOffsetAmount, ParseError, StrType, Children, Value};
 use internals::parser::Parser;
 use nom;
@@ -43,154 +43,46 @@ pub fn count_lines(s: &str) -> usize {
 }
 
 impl<'a> Parser<'a> {
-  pub fn get_key_parent(tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> String {
-    let mut key_parent: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    for i in 0..tables_len {
-      if let &TableType::Array(ref t) = &*tables.borrow()[i] {
-        if key_parent.len() > 0 {
-          key_parent.push('.');
-        }
-        let keys = get_last_keys(last_table, t);
-        debug!("get_key_parent last_keys: {:?}", keys);
-        for j in prev_end..keys.len() {
-          if keys[j] != "$Root$" {
-            key_parent.push_str(&keys[j]);
-            if j < keys.len() - 1 {
-              key_parent.push('.');
-            }
-          }
-          debug!("get_key_parent key_parent: {}", key_parent);
-        }
-        prev_end = keys.len();
-        let index = tables_index.borrow()[i];
-        if i < tables_len - 1 {
-          key_parent.push_str(&format!("[{}]", index));
-        }
-      }
+  pub fn append_key(parent_key: &str, key: &str) -> String {
+    if parent_key.len() == 0 || parent_key == "$Root$" {
+      key.to_string()
+    } else {
+      format!("{}.{}", parent_key, key)
     }
-    debug!("get_key_parent final key_parent: {}", key_parent);
-    key_parent
   }
 
+  // The number of elements if the key is an array of tables
+  pub fn array_table_count(key: &str, map: &HashMap<String, HashValue<'a>>) -> Option<usize> {
+    match map.get(key) {
+      Some(hash_value) => match (&hash_value.value, &hash_value.subkeys) {
+        (&None, &Children::Count(ref c)) => Some(c.get()),
+        _ => None,
+      },
+      None => None,
+    }
+  }
 
-  pub fn get_array_table_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> (bool, String, String) {
-    let mut full_key: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    let mut valid = true;
+  // Follows all keys of a table header but the last one through the tables, and the last elements of the arrays of
+  // tables, which they name. Returns whether there are nothing but tables on the way, whether the parent is an element
+  // of an array of tables, the full key of the table, and the full key of its parent.
+  pub fn get_array_table_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
+    table: &Table<'a>) -> (bool, bool, String, String) {
     let mut parent_key = "$Root$".to_string();
-    for i in 0..tables_len {
-      match  &*tables.borrow()[i] {
-        &TableType::Array(ref t) => {
-          debug!("Array Table: {}", t);
-          let keys = get_last_keys(last_table, t);
-          let len = keys.len();
-          for j in prev_end..len - 1 {
-            debug!("keys[{}] = {}", j, keys[j]);
-            full_key.push_str(&keys[j]);
-            let map_borrow = map.borrow();
-            let hash_value_opt = map_borrow.get(&full_key);
-            match hash_value_opt {
-              Some(hash_value) =>  {
-                match hash_value.subkeys {
-                  Children::Count(ref c) => {
-                    if full_key == "$Root$" {
-                      full_key.truncate(0);
-                    } else {
-                      full_key.push_str(&format!("[{}].", c.get()))
-                    }
-                  },
-                  Children::Keys(ref hs_rf) => {
-                    if hs_rf.borrow().contains(&keys[j+1]) || j+1 == len - 1 {
-                      if full_key == "$Root$" {
-                        full_key.truncate(0);
-                      } else {
-                        full_key.push('.');
-                      }
-                    } else {
-                      panic!("Key does not exist in map: \"{}\"", &format!("{}.{}", full_key, &keys[j+1]));
-                    }
-                  },
-                }
-              }
-              None => panic!("Key does not exist in map: \"{}\"", &full_key),
-            }
-          }
-          prev_end = len;
-          full_key.push_str(&keys[len-1]);
-          let map_borrow = map.borrow();
-          debug!("Check if key \"{}\" has a value.", full_key);
-          let hash_value_opt = map_borrow.get(&full_key);
-          if let Some(hash_value) = hash_value_opt {
-            if let Some(ref value) = hash_value.value {
-              match *value.borrow() {
-                TOMLValue::Table => {
-                  if let Children::Keys(_) = hash_value.subkeys {
-                    debug!("Array Key \"{}\" conflicts with table key.", full_key);
-                    valid = false;
-                  }
-                },
-                _ => {
-                  debug!("/== Key \"{}\" has a value.", full_key);
-                  valid = false;
-                },
-              }
-            }
-            if let Some(_) = hash_value.value {
-              debug!("Key \"{}\" has a value.", full_key);
-              valid = false;
-            } else if let Children::Keys(_) = hash_value.subkeys {
-              debug!("Array Key \"{}\" conflicts with table key.", full_key);
-              valid = false;
-            }
-          }
-          let map_borrow = map.borrow();
-          let hash_value_opt = map_borrow.get(&full_key);
-          let index;
-          match hash_value_opt {
-            Some(hash_value) =>  {
-              index = match hash_value.subkeys {
-                Children::Count(ref c) => c.get() - 1,
-                _ => tables_index.borrow()[i],
-              };
-            },
-            _ => { index = tables_index.borrow()[i]; },
-          }
-          if i < tables_len - 1 {
-            full_key.push_str(&format!("[{}].", index));
-          } else {
-            parent_key = full_key.clone();
-            full_key.push_str(&format!("[{}]", index));
-          }
-        },
-        &TableType::Standard(ref t) => {
-          // Standard tables can't be nested so this has to be the last table in the vector
-          let keys = get_last_keys(last_table, t);
-          debug!("get_last_keys {:?}, prev_end: {}", keys, prev_end);
-          for j in prev_end..keys.len() - 1 {
-            if keys[j] == "$Root$" {
-              continue;
-            }
-            full_key.push_str(&keys[j]);
-            valid = valid && !Parser::key_has_value(&full_key, map);
-            if j == keys.len() - 2 {
-              parent_key = full_key.clone();
-            }
-            full_key.push('.');
-          }
-          full_key.push_str(&keys[keys.len() - 1]);
-          valid = valid && !Parser::key_has_value(&full_key, map);
-        }
-      }
+    let mut valid = true;
+    let mut is_element = false;
+    for i in 0..table.keys.len() - 1 {
+      let key = Parser::append_key(&parent_key, &table.keys[i].key);
+      valid = valid && !Parser::key_has_value(&key, map);
+      let count = Parser::array_table_count(&key, &map.borrow());
+      is_element = count.is_some();
+      parent_key = match count {
+        Some(count) => format!("{}[{}]", key, count - 1),
+        None => key,
+      };
     }
+    let full_key = Parser::append_key(&parent_key, &table.keys[table.keys.len() - 1].key);
     debug!("valid: {}, full_key: {}, parent_key: {}", valid, full_key, parent_key);
-    (valid, full_key, parent_key)
+    (valid, is_element, full_key, parent_key)
   }
 
   fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
@@ -220,11 +112,7 @@ impl<'a> Parser<'a> {
     let hash_value_opt = map_borrow.get(key);
     if let Some(hash_value) = hash_value_opt {
       match hash_value.subkeys {
-        Children::Count(ref c) => {
-          if c.get() > 0 {
-            panic!("Standard table cannot have indexed sub-keys. Key: {}, sub-key count: {}", key, c.get());
-          }
-        },
+        Children::Count(_) => return false,
         Children::Keys(ref children) => {
           for i in 0..children.borrow().len() {
             let child_key = format!("{}.{}", key, children.borrow()[i]);
@@ -260,27 +148,25 @@ impl<'a> Parser<'a> {
     return (key, parent_key);
   }
 
-  pub fn get_full_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,
-    keychain: &RefCell<Vec<Key<'a>>>) -> (bool, String, String) {
-
-    let (valid, array_key, _) = Parser::get_array_table_key(map, tables, tables_index);
+  pub fn get_full_key(last_table: &Option<String>, keychain: &RefCell<Vec<Key<'a>>>) -> (String, String) {
     let (chain_key, parent_chain_key) = Parser::get_keychain_key(keychain);
-    debug!("array_key: {}, chain_key: {}, parent_chain_key: {}", array_key, chain_key, parent_chain_key);
-    let mut full_key = String::new();
-    let mut parent_key = String::new();
-    if array_key.len() > 0 {
-      full_key.push_str(&array_key);
-      full_key.push_str(".");
-      parent_key.push_str(&array_key);
-      if parent_chain_key.len() > 0 {
-        parent_key.push_str(".");
-      }
+    debug!("last_table: {:?}, chain_key: {}, parent_chain_key: {}", last_table, chain_key, parent_chain_key);
+    match last_table {
+      &None => {
+        if parent_chain_key == "" {
+          (chain_key, "$Root$".to_string())
+        } else {
+          (chain_key, parent_chain_key)
+        }
+      },
+      &Some(ref table_key) => {
+        if parent_chain_key == "" {
+          (Parser::append_key(table_key, &chain_key), table_key.clone())
+        } else {
+          (Parser::append_key(table_key, &chain_key), Parser::append_key(table_key, &parent_chain_key))
+        }
+      },
     }
-    full_key.push_str(&chain_key);
-    parent_key.push_str(&parent_chain_key);
-    debug!("valid: {}, full_key: {}, parent_key: {}", valid, full_key, parent_key);
-    return (valid, full_key, parent_key);
   }
 
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
@@ -289,80 +175,20 @@ impl<'a> Parser<'a> {
     let mut insert = false;
     let mut error = false;
     let mut setvalue = false;
-    let full_key: String;
-    let mut parent_key: String;
-    match &self.last_table {
-      // If the last table is None
-      //  If the key exists
-      //    If the value is empty insert the value
-      //    If the value in non-empty add the key/val to the error list
-      //  If the key doesn't exist, insert it
-      &None => {
-        let tuple = Parser::get_keychain_key(&self.keychain);
-        full_key = tuple.0;
-        parent_key = tuple.1;
-        if parent_key == "" {
-          parent_key.push_str("$Root$");
-        }
-        let map_borrow = map.borrow();
-        let hv_opt = map_borrow.get(&full_key);
-        if let Some(hv) = hv_opt {
-          if let Some(_) = hv.value {
-            error = true;
-          } else {
-            setvalue = true;
-          }
+    // If the key exists
+    //   If the value is empty, insert the value
+    //   If the value is non-empty add the key/val pair to the error list
+    // If the key doesn't exist add the key/value pair to the hash table
+    let (full_key, parent_key) = Parser::get_full_key(&self.last_table, &self.keychain);
+    match map.borrow().get(&full_key) {
+      Some(hv) => {
+        if let Some(_) = hv.value {
+          error = true;
         } else {
-          insert = true;
+          setvalue = true;
         }
       },
-      // If the last table was a StandardTable or ArrayTable:
-      //  If the key exists
-      //    If the value is empty, insert the value
-      //    If the value is non-empty add the key/val pair to the error list
-      //    If the key is for an ArrayOfTables add the key/val to the error list
-      //  If the key doesn't exist add the key/value pair to the hash table
-      &Some(ref ttype) => {
-        match **ttype {
-          TableType::Standard(_) => {
-            self.last_array_tables.borrow_mut().push(ttype.clone());
-            let tuple = Parser::get_full_key(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain);
-            full_key = tuple.1;
-            parent_key = tuple.2;
-            self.last_array_tables.borrow_mut().pop();
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
-          },
-          TableType::Array(_) => {
-            let tuple = Parser::get_full_key(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain);
-            full_key = tuple.1;
-            parent_key = tuple.2;
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                debug!("{} hash value exists in table.", full_key);
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
-          },
-        }
-      }
+      None => insert = true,
     }
 
     if error {
@@ -589,9 +415,7 @@ impl<'a> Parser<'a> {
         if !o.validate() {
           let parsed_len = before_len - i.len();
           self.errors.borrow_mut().push(ParseError::InvalidDateTime(
-            Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain
-            ).1, self.line_count.get(), 0, input[0..parsed_len].into()
+            Parser::get_full_key(&self.last_table, &self.keychain).0, self.line_count.get(), 0, input[0..parsed_len].into()
           ));
         }
         (self, IResult::Done(i, o))
-- 
2.43.0


From b5542219cf24a9fe61cfd8908e5ddbbcd795d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 20/26] fix: values that are not stored leave no traces

The elements of a redefined array or inline table overwrote those of the first
definition, pairs inside values of invalid tables were added to the table
before them or replaced other errors, and keys of implicit tables and arrays
of tables could be given a value.
---
 src/internals/objects.rs    | 10 ++++++---
 src/internals/parser.rs     |  4 +++-
 src/internals/primitives.rs | 43 ++++++++++++++++++++++++++++---------
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index c691e42..fcf4e80 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -119,10 +119,11 @@ impl<'a> Parser<'a> {
           if error {
             debug!("Setting Invalid Table {} in Standard Table", table_key);
             self.errors.borrow_mut().push(ParseError::InvalidTable(
-              table_key, self.line_count.get(), 0,
+              table_key.clone(), self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
             self.array_error.set(true);
+            self.last_table = Some(table_key);
           } else {
             Parser::add_to_parents(&map, tbl);
             self.array_error.set(false);
@@ -171,10 +172,11 @@ impl<'a> Parser<'a> {
           if !valid || (exists && count == 0) {
             debug!("Setting Invalid Table {}", full_key);
             self.errors.borrow_mut().push(ParseError::InvalidTable(
-              full_key, self.line_count.get(), 0,
+              full_key.clone(), self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
             self.array_error.set(true);
+            self.last_table = Some(full_key);
           } else {
             Parser::add_to_parents(&map, tbl);
             self.array_error.set(false);
@@ -264,7 +266,9 @@ impl<'a> Parser<'a> {
             self.last_array_type.borrow_mut().pop();
             self.last_array_type.borrow_mut().push(t);
             let keychain_len = self.keychain.borrow().len();
-            self.insert_keyval_into_map(val.clone());
+            if self.discarded.get() == 0 {
+              self.insert_keyval_into_map(val.clone());
+            }
             self.keychain.borrow_mut()[keychain_len - 1].inc();
             ArrayValue::new(val, array_sep, comment_nls)
           }
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 1e579de..624d827 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -22,6 +22,8 @@ pub struct Parser<'a> {
   pub last_table: Option<String>,
   pub last_array_type: RefCell<Vec<ArrayType>>,
   pub array_error: Cell<bool>,
+  // How many of the key/value pairs being read are not going to be stored
+  pub discarded: Cell<usize>,
   pub mixed_array: Cell<bool>,
   pub failure: Cell<bool>,
 }
@@ -36,7 +38,7 @@ impl<'a> Parser<'a> {
             line_count: Cell::new(1),
             last_table: None, last_array_type: RefCell::new(vec![]),
             keychain: RefCell::new(vec![]),
-            array_error: Cell::new(false), mixed_array: Cell::new(false),
+            array_error: Cell::new(false), discarded: Cell::new(0), mixed_array: Cell::new(false),
             failure: Cell::new(false)}
   }
 
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 23dbbc3..97e6be8 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -471,24 +471,47 @@ impl<'a> Parser<'a> {
     )
   );
 
+  // Consumes nothing, finds out whether the value of the key that was read is going to be stored. A value in an invalid
+  // table, of a key that is already defined, or nested in such a value is not.
+  fn open_keyval(self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, bool>) {
+    let (full_key, _) = Parser::get_full_key(&self.last_table, &self.keychain);
+    let stored = self.discarded.get() == 0 && !self.array_error.get() && !self.map.contains_key(&full_key);
+    if !stored {
+      self.discarded.set(self.discarded.get() + 1);
+    }
+    (self, IResult::Done(input, stored))
+  }
+
+  fn report_discarded(&self, keyval: &KeyVal<'a>) {
+    let val = to_val!(&*keyval.val.borrow());
+    if self.array_error.get() {
+      for err in self.errors.borrow().iter().rev() {
+        if let &ParseError::InvalidTable(_, _, _, ref map) = err {
+          map.borrow_mut().insert(keyval.key.to_string(), val);
+          return;
+        }
+      }
+    } else {
+      self.errors.borrow_mut().push(ParseError::DuplicateKey(
+        Parser::get_full_key(&self.last_table, &self.keychain).0, self.line_count.get(), 0, val
+      ));
+    }
+  }
+
   method!(pub keyval<Parser<'a>, &'a str, KeyVal>, mut self,
     chain!(
       key: call_m!(self.key)        ~
        ws: call_m!(self.keyval_sep) ~
+   stored: call_m!(self.open_keyval)~
       val: call_m!(self.val)        ,
       || {
         let res = KeyVal::new_str(key, ws, val);
-        if self.array_error.get() {
-          debug!("array_error");
-          let err = self.errors.borrow_mut().pop().unwrap();
-          if let ParseError::InvalidTable(_, _, _, ref map) = err {
-            debug!("InvalidTable");
-            map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
-          }
-          self.errors.borrow_mut().push(err);
+        if stored {
+          self.insert_keyval_into_map(res.val.clone());
         } else {
-          match *res.val.borrow() {
-            _ => self.insert_keyval_into_map(res.val.clone()),
+          self.discarded.set(self.discarded.get() - 1);
+          if self.discarded.get() == 0 {
+            self.report_discarded(&res);
           }
         }
         self.keychain.borrow_mut().pop();
-- 
2.43.0


From e6c0838729a4e6cca31d7c84603998e43e10f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 21/26] fix: parsing again with the same parser starts afresh

---
 src/internals/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 624d827..cfcfcf2 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -43,6 +43,8 @@ impl<'a> Parser<'a> {
   }
 
   pub fn parse(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, ParseResult<'a>) {
+    // A parser may have parsed another document before, nothing of it is left.
+    self = Parser::new();
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-- 
2.43.0


From e0ad5aee7c3b5dbd0e9a10bee2a60db8a164860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 22/26] fix: get_children takes the internal name of the root
 for a key

---
 src/internals/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index cfcfcf2..46c22cc 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -121,6 +121,9 @@ impl<'a> Parser<'a> {
     let k;
     if s_key == "" {
       k = "$Root$".to_string();
+    } else if s_key == "$Root$" {
+      // the name of the root in the map, which is no key of the document
+      return None;
     } else {
       k = s_key;
     }
-- 
2.43.0


From ee5f9df528d9696433dbb74d15bbccb80c4838ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 23/26] fix: a value that is not read to its end leaves keys
 and errors behind

---
 src/internals/parser.rs     | 25 ++++++++++++++++++++++++-
 src/internals/primitives.rs |  7 +++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 46c22cc..4f51abe 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -24,6 +24,9 @@ pub struct Parser<'a> {
   pub array_error: Cell<bool>,
   // How many of the key/value pairs being read are not going to be stored
   pub discarded: Cell<usize>,
+  // The full key of the key/value pair of a line that is being read, if it is going to be stored, and how many errors
+  // there were before it
+  pub unfinished: RefCell<Option<(Option<String>, usize)>>,
   pub mixed_array: Cell<bool>,
   pub failure: Cell<bool>,
 }
@@ -38,7 +41,8 @@ impl<'a> Parser<'a> {
             line_count: Cell::new(1),
             last_table: None, last_array_type: RefCell::new(vec![]),
             keychain: RefCell::new(vec![]),
-            array_error: Cell::new(false), discarded: Cell::new(0), mixed_array: Cell::new(false),
+            array_error: Cell::new(false), discarded: Cell::new(0),
+            unfinished: RefCell::new(None), mixed_array: Cell::new(false),
             failure: Cell::new(false)}
   }
 
@@ -58,6 +62,7 @@ impl<'a> Parser<'a> {
     };
     let leftover = self.leftover.into();
     if self.leftover.len() > 0 {
+      self.drop_unfinished();
       let len = self.errors.borrow().len();
       if len > 0 {
         let errors = self.errors.clone();
@@ -76,6 +81,24 @@ impl<'a> Parser<'a> {
     }
   }
 
+  // A key/value pair that was not read to its end is part of the leftover, and leaves neither keys nor errors behind
+  fn drop_unfinished(&mut self) {
+    let unfinished = self.unfinished.borrow_mut().take();
+    if let Some((key, errors)) = unfinished {
+      self.errors.borrow_mut().truncate(errors);
+      if let Some(key) = key {
+        let dotted = format!("{}.", key);
+        let indexed = format!("{}[", key);
+        let subkeys: Vec<String> = self.map.keys().filter(|k| {
+          **k == key || k.starts_with(&dotted[..]) || k.starts_with(&indexed[..])
+        }).cloned().collect();
+        for subkey in subkeys.iter() {
+          self.map.remove(subkey);
+        }
+      }
+    }
+  }
+
   #[allow(dead_code)]
   fn print_keys_and_values_debug(self: &Parser<'a>) {
     let mut btree = BTreeMap::new();
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 97e6be8..b0bc347 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -479,6 +479,10 @@ impl<'a> Parser<'a> {
     if !stored {
       self.discarded.set(self.discarded.get() + 1);
     }
+    if self.keychain.borrow().len() == 1 {
+      let key = if stored { Some(full_key) } else { None };
+      *self.unfinished.borrow_mut() = Some((key, self.errors.borrow().len()));
+    }
     (self, IResult::Done(input, stored))
   }
 
@@ -515,6 +519,9 @@ impl<'a> Parser<'a> {
           }
         }
         self.keychain.borrow_mut().pop();
+        if self.keychain.borrow().is_empty() {
+          *self.unfinished.borrow_mut() = None;
+        }
         res
       }
     )
-- 
2.43.0


From ff9d430ea827db650ea40663f01bf60c454969f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 24/26] fix: tomlkit dropped the Z offset of a date it was told
 to set

---
 src/bin/tomlkit.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 1e62c06..15d124e 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -569,7 +569,7 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
           let (year, month, day);
           let (mut hour, mut minute, mut second, mut fraction) = ("".into(), "".into(), "".into(), "".into());
           let (mut off_hour, mut off_minute, mut pos_neg) = ("".into(), "".into(), PosNeg::Pos);
-          let (mut has_time, mut has_fraction, mut has_offset) = (false, false, false);
+          let (mut has_time, mut has_fraction, mut has_offset, mut is_zulu) = (false, false, false, false);
           if let Ok(dtval) = tmp_result {
             if let Value::DateTime(dt) = dtval {
               year = dt.date.year.to_string().into();
@@ -585,17 +585,22 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
                   fraction = frac.to_string().into();
                 }
                 if let Some(ref offset) = time.offset {
-                  if let &TimeOffset::Time(ref amount) = offset {
-                    has_offset = true;
-                    pos_neg = amount.pos_neg;
-                    off_hour = amount.hour.to_string().into();
-                    off_minute = amount.minute.to_string().into();
+                  match offset {
+                    &TimeOffset::Time(ref amount) => {
+                      has_offset = true;
+                      pos_neg = amount.pos_neg;
+                      off_hour = amount.hour.to_string().into();
+                      off_minute = amount.minute.to_string().into();
+                    },
+                    &TimeOffset::Zulu => is_zulu = true,
                   }
                 }
               }
 
               let newoffset = if has_offset {
                 Some(TimeOffset::Time(TimeOffsetAmount{pos_neg: pos_neg, hour: off_hour, minute: off_minute}))
+              } else if is_zulu {
+                Some(TimeOffset::Zulu)
               } else {
                 None
               };
-- 
2.43.0


From 7ca824a6d67c51da8039dbf01d5cd31e51583a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 25/26] fix: tomlkit ignored --quiet

---
 src/bin/tomlkit.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 15d124e..c3880b1 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -197,6 +197,9 @@ impl Options {
     if matches.has_match("strip-quotes") {
       opts.strip_quotes = true;
     }
+    if matches.has_match("quiet") {
+      opts.quiet = true;
+    }
     // Post-command options
     if matches.has_match("print-doc") {
       opts.print_doc = true;
@@ -322,10 +325,9 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
   let _ = result.remove(0);
   for i in 0..result.len() {
     match &result[i]  {
+      // When quiet the results of modifying commands are already empty
       &Ok(ref val) => {
-        if !opts.quiet {
-          print!("{}", val);
-        }
+        print!("{}", val);
       },
       &Err(ref err) => {
         print!("Error \"{}\": {}", file_path, err);
-- 
2.43.0


From 08b5c72c2fb3ee4edb0a1a30d3ca171670f8840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 26/26] fix: tomlkit panicked on too few --set-true or
 --set-false values

---
 src/bin/tomlkit.rs | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index c3880b1..a39fdb8 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -387,6 +387,15 @@ fn get_value(csv: &str, sep: &String, strip_quotes: bool, doc: &TOMLParser) -> R
   Err(format!("Could not parse keys: \"{:?}\".", csv))
 }
 
+// A single value stands for every key, otherwise there is one value for each key
+fn nth_or_only(vals: &Vec<String>, i: usize) -> Option<&String> {
+  if vals.len() > 1 {
+    vals.get(i)
+  } else {
+    vals.get(0)
+  }
+}
+
 fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, keycount: &mut usize, doc: &TOMLParser)
   -> Result<String, String> {
   let key_results = csv_to_vec(csv);
@@ -401,20 +410,18 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i];
-        } else {
-          true_val = &true_vals[0];
-        }
+        true_val = match nth_or_only(true_vals, i) {
+          Some(val) => val,
+          None => return Err(format!("Not enough true values specified: \"{}\".", true_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i];
-        } else {
-          false_val = &false_vals[0];
-        }
+        false_val = match nth_or_only(false_vals, i) {
+          Some(val) => val,
+          None => return Err(format!("Not enough false values specified: \"{}\".", false_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
@@ -497,20 +504,18 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i+keycount];
-        } else {
-          true_val = &true_vals[0];
-        }
+        true_val = match nth_or_only(true_vals, i+keycount) {
+          Some(val) => val,
+          None => return Err(format!("Not enough true values specified: \"{}\".", true_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i+keycount];
-        } else {
-          false_val = &false_vals[0];
-        }
+        false_val = match nth_or_only(false_vals, i+keycount) {
+          Some(val) => val,
+          None => return Err(format!("Not enough false values specified: \"{}\".", false_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
-- 
2.43.0

