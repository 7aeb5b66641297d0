From f7dddc074fc72a74e84f93e30b94ec5ab3104ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 01/24] fix: treat table headers as keys without a value in
 get_value and set_value

get_value panicked with 'Cannot convert a Table to a Value' and set_value
overwrote the table marker and reported success.
---
 src/internals/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 65976ab..f18d347 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -102,6 +102,10 @@ impl<'a> Parser<'a> {
       let hashval = self.map.get(&s_key).unwrap();
       let clone = hashval.clone();
       if let Some(val) = clone.value {
+        // A table header has no value of its own, only children
+        if let TOMLValue::Table = *val.borrow() {
+          return None;
+        }
         Some(to_val!(&*val.borrow()))
       } else {
         None
@@ -139,6 +143,10 @@ impl<'a> Parser<'a> {
         &mut Some(ref mut v) => v,
         &mut None => return false,
       };
+      // a table header has no value that could be replaced
+      if let TOMLValue::Table = *val_rf.borrow() {
+        return false;
+      }
       // if the inline table/array has the same structure the just replace the values
       if Parser::same_structure(val_rf, &val) {
         return Parser::replace_values(val_rf, &val);
-- 
2.43.0


From df5f9a9320bb7327e777d0f47cb7db7ff8b04969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 02/24] fix: display empty documents, arrays and inline tables

The loops ran to len() - 1, which underflows when there is no element.
---
 src/internals/ast/structs.rs | 13 +++++--------
 src/types.rs                 | 12 ++++++------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b9b10c5..a84cf84 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -36,10 +36,10 @@ impl<'a> PartialEq for Toml<'a> {
 
 impl<'a> Display for Toml<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-      for i in 0..self.exprs.len()-1 {
-        try!(write!(f, "{}", self.exprs[i]));
+      for expr in self.exprs.iter() {
+        try!(write!(f, "{}", expr));
       }
-    write!(f, "{}", self.exprs[self.exprs.len()-1])
+      Ok(())
    }
 }
 
@@ -753,11 +753,8 @@ impl<'a> PartialEq for InlineTable<'a> {
 impl<'a> Display for InlineTable<'a> {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     try!(write!(f, "{{{}", self.ws.ws1));
-    for i in 0..self.keyvals.len() - 1 {
-      try!(write!(f, "{}", self.keyvals[i]));
-    }
-    if self.keyvals.len() > 0 {
-      try!(write!(f, "{}", self.keyvals[self.keyvals.len() - 1]));
+    for keyval in self.keyvals.iter() {
+      try!(write!(f, "{}", keyval));
     }
     write!(f, "{}}}", self.ws.ws2)
   }
diff --git a/src/types.rs b/src/types.rs
index 5579c3f..dd92189 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -280,10 +280,10 @@ impl<'a> Display for Value<'a> {
       &Value::DateTime(ref v) => write!(f, "{}", v),
       &Value::Array(ref arr) => {
         try!(write!(f, "["));
-        for i in 0..arr.len() - 1 {
-          try!(write!(f, "{}, ", arr[i]));
-        }
         if arr.len() > 0 {
+          for i in 0..arr.len() - 1 {
+            try!(write!(f, "{}, ", arr[i]));
+          }
           try!(write!(f, "{}", arr[arr.len()-1]));
         }
         write!(f, "]")
@@ -298,10 +298,10 @@ impl<'a> Display for Value<'a> {
       },
       &Value::InlineTable(ref it) => {
         try!(write!(f, "{{"));
-        for i in 0..it.len() - 1 {
-          try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
-        }
         if it.len() > 0 {
+          for i in 0..it.len() - 1 {
+            try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
+          }
           try!(write!(f, "{} = {}", it[it.len()-1].0, it[it.len()-1].1));
         }
         write!(f, "}}")
-- 
2.43.0


From ab96ef01672661083114c2424a41f08107285f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 03/24] fix: reject integers and floats followed by other text

Value::validate accepted any string that starts with a number, such as "5abc".
---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index dd92189..4cbcda0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -949,14 +949,14 @@ impl<'a> Value<'a> {
       &Value::Integer(ref s) => {
         let p = Parser::new();
         match p.integer(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
       &Value::Float(ref s) => {
         let p = Parser::new();
         match p.float(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
-- 
2.43.0


From 2972107f0b995f101b70bbb2232eb4cd56d0c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 04/24] fix: only accept ASCII digits in integers and floats

\d also matches digits of other scripts, which are not TOML numbers.
---
 src/internals/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fa5cb6e..e62bace 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -422,11 +422,11 @@ impl<'a> Parser<'a> {
   }
 
   // Integer
-  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9](\d|(_\d))+)|\d))"#)) ;
+  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
   // Float
   method!(pub float<Parser<'a>, &'a str, &'a str>, self,
-         re_find!(r#"^(\+|-)?([1-9](\d|(_\d))+|\d)((\.\d(\d|(_\d))*)((e|E)(\+|-)?([1-9](\d|(_\d))+|\d))|(\.\d(\d|(_\d))*)|((e|E)(\+|-)?([1-9](\d|(_\d))+|\d)))"#));
+         re_find!(r#"^(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])((\.[0-9]([0-9]|(_[0-9]))*)((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9]))|(\.[0-9]([0-9]|(_[0-9]))*)|((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])))"#));
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-- 
2.43.0


From cf0f53e5195e5c7d3f767fe4c38847922d14fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 05/24] fix: require every date, time and offset field to be
 digits only

Fields were checked with usize::from_str, which accepts "+1", and a fraction
with more digits than fit in a u64 was rejected although TOML allows it.
---
 src/types.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 4cbcda0..205b507 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -994,6 +994,11 @@ impl<'a> Value<'a> {
   }
 }
 
+// usize::from_str accepts a leading sign, but no field of a date or time may have one
+fn all_digits(s: &str) -> bool {
+  s.bytes().all(|b| b >= b'0' && b <= b'9')
+}
+
 /// Error type returned by `Value` creation convenience functions on invalid input.
 #[derive(Debug)]
 pub struct TOMLError {
@@ -1160,6 +1165,9 @@ impl<'a> TimeOffsetAmount<'a> {
     if self.hour.len() != 2 || self.minute.len() != 2 {
       return false;
     }
+    if !all_digits(&self.hour) || !all_digits(&self.minute) {
+      return false;
+    }
     return self.validate_numbers();
    }
 
@@ -1244,6 +1252,9 @@ impl<'a> Date<'a> {
     if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 {
       return false;
     }
+    if !all_digits(&self.year) || !all_digits(&self.month) || !all_digits(&self.day) {
+      return false;
+    }
     return self.validate_numbers();
   }
 
@@ -1379,6 +1390,9 @@ impl<'a> Time<'a> {
     if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 {
       return false;
     }
+    if !all_digits(&self.hour) || !all_digits(&self.minute) || !all_digits(&self.second) {
+      return false;
+    }
     return self.validate_numbers();
   }
 
@@ -1405,7 +1419,7 @@ impl<'a> Time<'a> {
       return false;
     }
     if let Some(ref frac) = self.fraction {
-      if u64::from_str(frac).is_err() {
+      if frac.len() == 0 || !all_digits(frac) {
         return false;
       }
     }
-- 
2.43.0


From a178f1e65f593265490ff37a15e8eca778efec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 06/24] fix: accept characters outside the basic multilingual
 plane

Comments ended at U+10FFF and strings and quoted keys at U+FFFF, so a document
with an emoji was only partially parsed.
---
 src/internals/primitives.rs | 18 +++++++++---------
 src/internals/util.rs       |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index e62bace..7f84923 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,35 +430,35 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-􏿿])*"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -￿]|\n|(\r\n))*"#));
+  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -􏿿]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-􏿿])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(  |[ -􏿿]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -614,7 +614,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-􏿿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
diff --git a/src/internals/util.rs b/src/internals/util.rs
index 511e431..b7347a2 100644
--- a/src/internals/util.rs
+++ b/src/internals/util.rs
@@ -2,7 +2,7 @@ use internals::ast::structs::Comment;
 use internals::parser::Parser;
 
 fn not_eol(chr: char) -> bool {
-  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFF)
+  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFFF)
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From 877e27da27a3dcfcf4dbfb3022d4e31831112bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 07/24] fix: accept exactly hexadecimal digits in unicode
 escapes

The class was [0-9A-Z]: it rejected lower case digits and accepted G to Z.
---
 src/internals/primitives.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 7f84923..a8810eb 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,11 +430,11 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-􏿿])*"#));
   // Multiline Literal String
@@ -443,12 +443,12 @@ impl<'a> Parser<'a> {
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -614,7 +614,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-􏿿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-􏿿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Fa-f]{4})|(\\\\U[0-9A-Fa-f]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
-- 
2.43.0


From 6d5d56ec1a4213926cbe7f1a2379b3c92b901dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 08/24] fix: accept the \t escape in multi-line basic strings

---
 src/internals/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index a8810eb..7df253a 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -434,7 +434,7 @@ impl<'a> Parser<'a> {
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|\t|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-􏿿])*"#));
   // Multiline Literal String
@@ -448,7 +448,7 @@ impl<'a> Parser<'a> {
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|\t|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
-- 
2.43.0


From 7f5fb2d1ae79f6582b1d0d70559d523c586a4774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 09/24] fix: accept tabs in literal strings

The patterns listed a space twice where a tab was meant.
---
 src/internals/primitives.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 7df253a..fd36a61 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -436,10 +436,10 @@ impl<'a> Parser<'a> {
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
     re_find!(r#"^([ -\[]|[\]-􏿿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|\t|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-􏿿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -&]|[\(-􏿿])*"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -􏿿]|\n|(\r\n))*"#));
+  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -􏿿]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
@@ -453,12 +453,12 @@ impl<'a> Parser<'a> {
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-􏿿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'(\t|[ -&]|[\(-􏿿])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -􏿿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(\t|[ -􏿿]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
-- 
2.43.0


From e26223fa988692db7f7afed74b154c8067088003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 10/24] fix: reject multi-line strings that contain their own
 delimiter

ml_basic_string and ml_literal_string accepted text with three quotes in a row
or a quote at the end, and setting such a value produced a document that does
not parse.
---
 src/types.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 205b507..a08e39a 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -962,6 +962,9 @@ impl<'a> Value<'a> {
       },
       &Value::DateTime(ref dt) => {dt.validate()},
       &Value::String(ref s, st) => {
+        if ends_early(s, st) {
+          return false;
+        }
         match st {
           StrType::Basic => {
             match Parser::quoteless_basic_string(s) {
@@ -999,6 +1002,29 @@ fn all_digits(s: &str) -> bool {
   s.bytes().all(|b| b >= b'0' && b <= b'9')
 }
 
+// A multi-line string ends at its first unescaped delimiter, so it can't contain one or end with a part of one
+fn ends_early(s: &str, st: StrType) -> bool {
+  let quote = match st {
+    StrType::MLBasic => '"',
+    StrType::MLLiteral => '\'',
+    _ => return false,
+  };
+  let mut quotes = 0;
+  let mut escaped = false;
+  for c in s.chars() {
+    if c == quote && !escaped {
+      quotes += 1;
+      if quotes == 3 {
+        return true;
+      }
+    } else {
+      quotes = 0;
+    }
+    escaped = st == StrType::MLBasic && c == '\\' && !escaped;
+  }
+  quotes > 0
+}
+
 /// Error type returned by `Value` creation convenience functions on invalid input.
 #[derive(Debug)]
 pub struct TOMLError {
-- 
2.43.0


From b32dc665f509c081841cac0b3f173d4aaa72ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 11/24] fix: resolve table headers by walking the keys already
 defined

Valid documents with sibling nested arrays of tables paniced, reopening an array
of tables after another table overwrote its elements, a table whose name merely
started with another's was taken for its subtable, and subtables of array
elements were added to the children of the root.
---
 src/internals/ast/structs.rs |  68 ------
 src/internals/objects.rs     | 437 +++++++++--------------------------
 src/internals/parser.rs      |  11 +-
 src/internals/primitives.rs  | 264 +++------------------
 4 files changed, 135 insertions(+), 645 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index a84cf84..91f7dd9 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -399,55 +399,6 @@ impl<'a> WSKeySep<'a> {
     }
 }
 
-pub fn get_last_keys(last_table: Option<&Table>, t: &Table) -> Vec<String> {
-  match last_table {
-    None => {
-      let mut last_keys = vec!["$Root$".to_string()];
-      for i in 0..t.keys.len() {
-        last_keys.push(t.keys[i].key.clone().into_owned());
-      }
-      last_keys
-    },
-    Some(lt) => {
-      let len_last = lt.keys.len();
-      let len = t.keys.len();
-      let mut last_keys = vec![];
-      for i in len_last..len {
-        last_keys.push(t.keys[i].key.clone().into_owned());
-      }
-      last_keys
-    }
-  }
-}
-
-pub fn format_keys(t: &Table) -> String {
-  let mut s = String::new();
-  if t.keys.len() > 0 {
-    for i in 0..t.keys.len() - 1 {
-      s.push_str(&t.keys[i].key);
-      s.push('.');
-    }
-    s.push_str(&t.keys[t.keys.len() - 1].key);
-  }
-  s
-}
-
-pub fn format_tt_keys(tabletype: &TableType) -> String {
-  match tabletype {
-    &TableType::Standard(ref t) | &TableType::Array(ref t) => {
-      let mut s = String::new();
-      if t.keys.len() > 0 {
-        for i in 0..t.keys.len() - 1 {
-          s.push_str(&t.keys[i].key);
-          s.push('.');
-        }
-        s.push_str(&t.keys[t.keys.len() - 1].key);
-      }
-      s
-    }
-  }
-}
-
 // Standard: [<ws.ws1><key><subkeys*><ws.ws2>]
 // Array: [[<ws.ws1><key><subkeys*><ws.ws2>]]
 #[derive(Debug, Eq)]
@@ -488,25 +439,6 @@ impl<'a> Table<'a> {
   }
 }
 
-impl<'a> TableType<'a> {
-  pub fn is_subtable_of(&self, prev: &TableType<'a>) -> bool {
-    match self { 
-      &TableType::Standard(ref t) | &TableType::Array(ref t) => {
-        match prev {
-          &TableType::Standard(ref prev_table) | &TableType::Array(ref prev_table) => {
-            let prev_key = format_keys(&prev_table);
-            let key = format_keys(t);
-            if let Some(i) = key.find(&prev_key) {
-              return i == 0;
-            }
-          }
-        }
-      }
-    }
-    false
-  }
-}
-
 // <comment><newlines+>
 #[derive(Debug, Eq)]
 pub struct CommentNewLines<'a> {
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ec81530..0b24cc5 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,11 +1,10 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
-                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
+                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue};
 use internals::parser::Parser;
 use internals::primitives::Key;
 use types::{ParseError, Children};
 use std::cell::RefCell;
 use std::collections::HashMap;
-use std::collections::hash_map::Entry;
 use std::rc::Rc;
 use std::cell::Cell;
 use nom::IResult;
@@ -36,161 +35,66 @@ impl<'a> Parser<'a> {
     return true;
   }
 
-  fn contains(vector: &RefCell<Vec<String>>, find: &str) -> bool {
-    for s in vector.borrow().iter() {
-      if s == find {
-        return true;
-      }
-    }
-    return false;
-  }
-
-  fn is_top_std_table(tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      let len = tables.borrow().len();
-      if let TableType::Standard(_) = *tables.borrow()[len - 1] {
-        return true;
-      } else {
-        return false;
-      }
-    }
-  }
-
-  fn equal_key_length(table: Rc<TableType<'a>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      match *table {
-        TableType::Array(ref t1) | TableType::Standard(ref t1) => {
-          let len = tables.borrow().len();
-          match *tables.borrow()[len - 1] {
-            TableType::Array(ref t2) | TableType::Standard(ref t2) => {
-              return t1.keys.len() == t2.keys.len();
+  // Resolves the keys of a table header to the full key of the table and the full key of its parent. A key on the way
+  // that belongs to an array of tables refers to the last table in the array. Also returns whether the parent is such
+  // an element of an array, and whether the table could exist at all: no key on the way may have a value.
+  fn get_table_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, table: &TableType<'a>)
+    -> (bool, String, String, bool) {
+    let mut valid = true;
+    let mut in_array = false;
+    let mut parent_key = "$Root$".to_string();
+    let mut full_key = String::new();
+    match table {
+      &TableType::Standard(ref t) | &TableType::Array(ref t) => {
+        for i in 0..t.keys.len() {
+          if i > 0 {
+            in_array = false;
+            valid = valid && !Parser::key_has_value(&full_key, map);
+            if let Some(hash_value) = map.borrow().get(&full_key) {
+              if let (&None, &Children::Count(ref c)) = (&hash_value.value, &hash_value.subkeys) {
+                full_key.push_str(&format!("[{}]", c.get() - 1));
+                in_array = true;
+              }
             }
+            parent_key = full_key.clone();
+            full_key.push('.');
           }
+          full_key.push_str(&t.keys[i].key);
         }
-      }
+      },
     }
+    debug!("valid: {}, full_key: {}, parent_key: {}", valid, full_key, parent_key);
+    (valid, full_key, parent_key, in_array)
   }
 
-  fn add_implicit_tables(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>, table: Rc<TableType<'a>>) {
-    let (valid, mut last_key, _) = Parser::get_array_table_key(map, tables, tables_index);
-    if !valid {
-      return;
-    }
-    let mut len = tables.borrow().len();
-    let mut pop = false;
-    if len == 0 {
-      tables.borrow_mut().push(Rc::new(TableType::Standard(
-        Table::new_str(WSSep::new_str("", ""), "$Root$", vec![])
-      )));
-      pop = true;
-      len = 1;
-      last_key.push_str("$Root$");
-    }
-    match *tables.borrow()[len - 1] {
-      TableType::Array(ref last_at) | TableType::Standard(ref last_at) => {
-        match *table {
-          TableType::Array(ref tb) | TableType::Standard(ref tb) => {
-            let mut first = true;
-            debug!("last_at.keys.len(): {}, tb.keys.len(): {}", last_at.keys.len(), tb.keys.len());
-            for i in 0..last_at.keys.len() {
-              debug!("key {}: {}", i, last_at.keys[i].key);
-            }
-            let mut start = last_at.keys.len();
-            if last_key == "$Root$" {
-              start -= 1;
+  // Adds every key of a table header to the children of its parent, and the tables that the header only implies to the
+  // map
+  fn add_table_keys(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, table: &TableType<'a>) {
+    match table {
+      &TableType::Standard(ref t) | &TableType::Array(ref t) => {
+        let mut parent_key = "$Root$".to_string();
+        for i in 0..t.keys.len() {
+          let key = t.keys[i].key.clone().into_owned();
+          let mut borrow = map.borrow_mut();
+          if let Some(parent) = borrow.get(&parent_key) {
+            if let Children::Keys(ref vec_rf) = parent.subkeys {
+              Parser::insert(vec_rf, key.clone());
             }
-            for i in start..tb.keys.len() {
-              let mut borrow = map.borrow_mut();
-              let mut insert = false;
-              debug!("index: {}, last_key: {}", i, last_key);
-              if let Entry::Occupied(mut o) = borrow.entry(last_key.clone()) {
-                if first {
-
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => {debug!("Inserting subkey: {}", tb.keys[i].key); Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned())},
-                    &Children::Count(ref cell) => { debug!("Incrementing subkey count: {}", cell.get() + 1); cell.set(cell.get() + 1); true },
-                  };
-                  first = false;
-                } else {
-                  debug!("Inserting subkey: {}", tb.keys[i].key);
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned()),
-                    _ => panic!("Implicit tables can only be Standard Tables: \"{}\"", format!("{}.{}", last_key, tb.keys[i].key)),
-                  };
-                }
-              }
-              if i < tb.keys.len() - 1 {
-                if last_key != "$Root$" {
-                  last_key.push_str(".");
-                } else {
-                  last_key.truncate(0);
-                }
-                last_key.push_str(&tb.keys[i].key);
-                if insert {
-                  debug!("insert last_key {}", last_key);
-                  if i == tb.keys.len() - 1 {
-                    if let TableType::Array(_) = *table {
-                      borrow.insert(last_key.clone(), HashValue::one_count());
-                    } else {
-                      borrow.insert(last_key.clone(), HashValue::none_keys());
-                    }
-                  } else {
-                    borrow.insert(last_key.clone(), HashValue::none_keys());
-                  }
-                }
-              }
+          }
+          if parent_key == "$Root$" {
+            parent_key = key;
+          } else {
+            parent_key = format!("{}.{}", parent_key, key);
+          }
+          if i < t.keys.len() - 1 {
+            let hash_value = borrow.entry(parent_key.clone()).or_insert(HashValue::none_keys());
+            if let Children::Count(ref c) = hash_value.subkeys {
+              parent_key.push_str(&format!("[{}]", c.get() - 1));
             }
-          },
-        }
-      }
-    }
-    if pop {
-      tables.borrow_mut().pop();
-    }
-    debug!("Returning from add_implicit_tables");
-  }
-
-  fn increment_array_table_index(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,) {
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("increment_array_table_index: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Count(ref c) = &o.get_mut().subkeys {
-         c.set(c.get() + 1);
-      }
-    }
-    let len = tables_index.borrow().len();
-    let last_index = tables_index.borrow()[len - 1];
-    tables_index.borrow_mut()[len - 1] = last_index + 1;
-  }
-
-  fn add_to_table_set(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>, key: &str) -> bool{
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("add_to_table_set: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Keys(ref keys) = &o.get_mut().subkeys {
-        let contains = Parser::contains(keys, key);
-        if contains {
-          debug!("key already exists");
-          return false;
-        } else {
-          debug!("add_to_table_set--> {}", key);
-          Parser::insert(keys, key.to_string());
+          }
         }
-      }
+      },
     }
-    return true;
   }
 
   // Table
@@ -228,112 +132,36 @@ impl<'a> Parser<'a> {
         let res = Rc::new(TableType::Standard(Table::new_str(
           WSSep::new_str(ws1, ws2), key, subkeys
         )));
-        let mut error = false;
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) || Parser::equal_key_length(res.clone(), &self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
         let map = RefCell::new(&mut self.map);
-        let mut table_key = "".to_string();
-        let mut parent_key = "$Root$".to_string();
-        debug!("Before get len");
-        let mut len = self.last_array_tables.borrow().len();
-        let current_key = format_tt_keys(&*res);
-        if len > 0 {
-          let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-          if current_key == last_key {
-            error = true;
-          } else {
-            debug!("Check if subtable");
-            let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-            if !subtable {
-              loop {
-                debug!("Not subtable pop {}", self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]);
-                self.last_array_tables.borrow_mut().pop();
-                self.last_array_tables_index.borrow_mut().pop();
-                len -= 1;
-                debug!("check array_tables len and subtable");
-                if len == 0 || res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]) {
-                  break;
-                }
-              }
-            }
-          }
-        }
-        if len > 0 && current_key == format_tt_keys(&self.last_array_tables.borrow()[len - 1]) {
-          error = true;
-        } else {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let tuple = Parser::get_array_table_key(&map, &self.last_array_tables, &self.last_array_tables_index);
-          table_key = tuple.1;
-          parent_key = tuple.2;
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          if !tuple.0 || Parser::key_has_children_with_values(&parent_key, &map) {
-            error = true;
-          } else {
-            debug!("Standard Table Key: {}", table_key);
-            if map.borrow().contains_key(&table_key) {
-              let map_borrow = map.borrow();
-              let hash_val_opt = map_borrow.get(&table_key);
-              if let Some(ref hash_val) = hash_val_opt {
-                if let Some(ref rc_rc_val) = hash_val.value {
-                  if let TOMLValue::Table = *rc_rc_val.borrow() {
-                    debug!("Table error {}, table already defined", table_key);
-                    error = true;
-                  }
-                }
-              }
-            }
+        let (valid, table_key, parent_key, in_array) = Parser::get_table_key(&map, &res);
+        let mut error = !valid || Parser::key_has_value(&table_key, &map) ||
+          (!in_array && Parser::key_has_children_with_values(&parent_key, &map));
+        debug!("Standard Table Key: {}", table_key);
+        if let Some(hash_val) = map.borrow().get(&table_key) {
+          match (&hash_val.value, &hash_val.subkeys) {
+            (&None, &Children::Keys(_)) => (),
+            _ => {
+              debug!("Table error {}, table already defined", table_key);
+              error = true;
+            },
           }
         }
-        debug!("Before error check");
         if error {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let array_table_key = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index).1;
-          debug!("Setting Invalid Table {} in Standard Table", array_table_key);
+          debug!("Setting Invalid Table {} in Standard Table", table_key);
           self.errors.borrow_mut().push(ParseError::InvalidTable(
-            array_table_key, self.line_count.get(), 0,
+            table_key.clone(), self.line_count.get(), 0,
             RefCell::new(HashMap::new())
           ));
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          self.array_error.set(true);
         } else {
-          Parser::add_implicit_tables(&map, &self.last_array_tables,
-            &self.last_array_tables_index, res.clone());
-          if let TableType::Standard(ref tbl) = *res {
-            Parser::add_to_table_set(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &tbl.keys[keys_len - 1].key);
-            self.array_error.set(false);
-            debug!("insert table_key: {}", table_key);
-            let contains_key = map.borrow().contains_key(&table_key);
-            if contains_key {
-              debug!("contains table key {}", table_key);
-              if let Entry::Occupied(mut o) = map.borrow_mut().entry(table_key.clone()) {
-                o.get_mut().value = Some(Rc::new(RefCell::new(TOMLValue::Table)));
-                debug!("table key {}'s children: {:?}", table_key, o.get().subkeys)
-              }
-            } else {
-              debug!("insert new table key {}", table_key);
-              map.borrow_mut().insert(table_key.clone(), HashValue::table_keys());
-            }
-            if let Entry::Occupied(mut o) = map.borrow_mut().entry(parent_key) {
-              match &o.get_mut().subkeys {
-                &Children::Keys(ref vec_rf) => {Parser::insert(vec_rf, tbl.keys[keys_len - 1].key.clone().into_owned());},
-                _ => panic!("Trying to add a key to an array: \"{}\"", table_key),
-              }
-            }
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
-            self.last_table = Some(res.clone());
-          }
+          Parser::add_table_keys(&map, &res);
+          let mut borrow = map.borrow_mut();
+          let hash_val = borrow.entry(table_key.clone()).or_insert(HashValue::none_keys());
+          hash_val.value = Some(Rc::new(RefCell::new(TOMLValue::Table)));
         }
+        self.array_error.set(error);
+        *self.table_key.borrow_mut() = table_key;
         res
       }
     )
@@ -355,92 +183,37 @@ impl<'a> Parser<'a> {
         )));
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
-        {
-          let map = RefCell::new(&mut self.map);
-          self.array_error.set(false);
-          let len = self.last_array_tables.borrow().len();
-          let current_key = format_tt_keys(&*res);
-          if len > 0 {
-            let mut len = self.last_array_tables.borrow().len();
-            let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-            debug!("current_key: {}, last_key: {}", current_key, last_key);
-            if current_key == last_key {
-              debug!("Increment array table index");
-              Parser::increment_array_table_index(&map, &self.last_array_tables,
-                &self.last_array_tables_index);
-            } else {
-              let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-              if subtable {
-                debug!("Is subtable");
-                Parser::add_implicit_tables(&map, &self.last_array_tables,
-                  &self.last_array_tables_index, res.clone());
-                self.last_array_tables.borrow_mut().push(res.clone());
-                self.last_array_tables_index.borrow_mut().push(0);
-              } else {
-                debug!("NOT subtable");
-                while self.last_array_tables.borrow().len() > 0 &&
-                  current_key != format_tt_keys(&self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]) {
-                  debug!("pop table");
-                  self.last_array_tables.borrow_mut().pop();
-                  self.last_array_tables_index.borrow_mut().pop();
-                }
-                len = self.last_array_tables.borrow().len();
-                if len > 0 {
-                  debug!("Increment array table index the second");
-                  Parser::increment_array_table_index(&map, &self.last_array_tables,
-                    &self.last_array_tables_index);
-                } else {
-                  debug!("Add implicit tables");
-                  Parser::add_implicit_tables(&map, &self.last_array_tables,
-                    &self.last_array_tables_index,  res.clone());
-                  self.last_array_tables.borrow_mut().push(res.clone());
-                  self.last_array_tables_index.borrow_mut().push(0);
-                  let parent_key = Parser::get_key_parent(&self.last_array_tables,
-                    &self.last_array_tables_index);
-                  debug!("Got parent key: {}", parent_key);
-                  let contains_key = map.borrow().contains_key(&parent_key);
-                  if contains_key {
-                    debug!("Increment array table index the third");
-                    Parser::increment_array_table_index(&map, &self.last_array_tables,
-                      &self.last_array_tables_index);
-                  }
-                }
-              }
-            }
-          } else {
-            debug!("Len == 0 add implicit tables");
-            Parser::add_implicit_tables(&map, &self.last_array_tables,
-              &self.last_array_tables_index, res.clone());
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
+        let map = RefCell::new(&mut self.map);
+        let (valid, array_key, _, _) = Parser::get_table_key(&map, &res);
+        let mut error = !valid;
+        let mut index = 0;
+        if let Some(hash_val) = map.borrow().get(&array_key) {
+          match (&hash_val.value, &hash_val.subkeys) {
+            (&None, &Children::Count(ref c)) => index = c.get(),
+            _ => {
+              debug!("Array Key \"{}\" conflicts with another key.", array_key);
+              error = true;
+            },
           }
-          debug!("Before call to get_array_table_key");
-          let (valid, full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index);
-          if !valid {
-            debug!("Setting Invalid Table {}", full_key);
-            self.errors.borrow_mut().push(ParseError::InvalidTable(
-              full_key, self.line_count.get(), 0,
-              RefCell::new(HashMap::new())
-            ));
-          } else {
-            debug!("After call to get_array_table_key");
-            let contains_key = map.borrow().contains_key(&parent_key);
-            if !contains_key {
-              debug!("Insert new array of table key: {}", full_key);
-              map.borrow_mut().insert(parent_key, HashValue::one_count());
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
-            } else {
-              debug!("Increment existing array of table key: {}", full_key);
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
-            }
-            self.last_table = Some(res.clone());
+        }
+        let table_key = format!("{}[{}]", array_key, index);
+        if error {
+          debug!("Setting Invalid Table {}", table_key);
+          self.errors.borrow_mut().push(ParseError::InvalidTable(
+            table_key.clone(), self.line_count.get(), 0,
+            RefCell::new(HashMap::new())
+          ));
+        } else {
+          debug!("Insert new array of table key: {}", table_key);
+          Parser::add_table_keys(&map, &res);
+          let mut borrow = map.borrow_mut();
+          if let Children::Count(ref c) = borrow.entry(array_key).or_insert(HashValue::none_count()).subkeys {
+            c.set(index + 1);
           }
+          borrow.insert(table_key.clone(), HashValue::none_keys());
         }
+        self.array_error.set(error);
+        *self.table_key.borrow_mut() = table_key;
         res
       }
     )
@@ -491,26 +264,24 @@ impl<'a> Parser<'a> {
             let len = self.last_array_type.borrow().len();
             if len > 0 && self.last_array_type.borrow()[len - 1] != ArrayType::None &&
                self.last_array_type.borrow()[len - 1] != t {
-              let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
-                &self.last_array_tables_index, &self.keychain
-              );
+              let tuple = Parser::get_full_key(&self.table_key.borrow(), &self.keychain);
               let err_len = self.errors.borrow().len();
               let mut mixed = false;
               if err_len > 0 {
                 if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  if !tuple.1.starts_with(key) {
+                  debug!("Check mixed array previous: {}, current: {}", key, tuple.0);
+                  if !tuple.0.starts_with(key) {
                     mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.1);
+                    debug!("Mixed array error insert: {}", tuple.0);
                   }
                 }
               } else {
                 mixed = true;
-                debug!("Mixed array error insert: {}", tuple.1);
+                debug!("Mixed array error insert: {}", tuple.0);
               }
               if mixed {
                 self.errors.borrow_mut().push(ParseError::MixedArray(
-                  tuple.2, self.line_count.get(), 0
+                  tuple.1, self.line_count.get(), 0
                 ));
               }
             }
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index f18d347..09567e2 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -5,7 +5,7 @@ use std::collections::hash_map::Entry;
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::borrow::Cow;
-use internals::ast::structs::{HashValue, ArrayType, TOMLValue, Toml, TableType, Array, InlineTable, ArrayValue, WSSep,
+use internals::ast::structs::{HashValue, ArrayType, TOMLValue, Toml, Array, InlineTable, ArrayValue, WSSep,
                               TableKeyVal};
 use types::{ParseError, ParseResult, Value, Children};
 use internals::primitives::Key;
@@ -17,10 +17,8 @@ pub struct Parser<'a> {
   pub errors: Rc<RefCell<Vec<ParseError<'a>>>>,
   pub leftover: &'a str,
   pub line_count: Cell<usize>,
-  pub last_array_tables: RefCell<Vec<Rc<TableType<'a>>>>,
-  pub last_array_tables_index: RefCell<Vec<usize>>,
+  pub table_key: RefCell<String>,
   pub keychain: RefCell<Vec<Key<'a>>>,
-  pub last_table: Option<Rc<TableType<'a>>>,
   pub last_array_type: RefCell<Vec<ArrayType>>,
   pub array_error: Cell<bool>,
   pub mixed_array: Cell<bool>,
@@ -34,9 +32,8 @@ impl<'a> Parser<'a> {
     map.insert("$Root$".to_string(), HashValue::none_keys());
     Parser{ root: RefCell::new(Toml{ exprs: vec![] }), map: map,
             errors: Rc::new(RefCell::new(vec![])), leftover: "",
-            line_count: Cell::new(1), last_array_tables: RefCell::new(vec![]),
-            last_array_tables_index: RefCell::new(vec![]),
-            last_table: None, last_array_type: RefCell::new(vec![]),
+            line_count: Cell::new(1), table_key: RefCell::new(String::new()),
+            last_array_type: RefCell::new(vec![]),
             keychain: RefCell::new(vec![]),
             array_error: Cell::new(false), mixed_array: Cell::new(false),
             failure: Cell::new(false)}
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fd36a61..7c37aa2 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -3,7 +3,7 @@ use std::rc::Rc;
 use std::collections::HashMap;
 use std::collections::hash_map::Entry;
 use std::borrow::Cow;
-use internals::ast::structs::{KeyVal, WSSep, TOMLValue, ErrorCode, HashValue, TableType, Table, get_last_keys};
+use internals::ast::structs::{KeyVal, WSSep, TOMLValue, ErrorCode, HashValue};
 use types::{Date, Time, DateTime, TimeOffset, TimeOffsetAmount, ParseError, StrType, Children, Value};
 use internals::parser::Parser;
 use nom;
@@ -43,157 +43,7 @@ pub fn count_lines(s: &str) -> usize {
 }
 
 impl<'a> Parser<'a> {
-  pub fn get_key_parent(tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> String {
-    let mut key_parent: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    for i in 0..tables_len {
-      if let &TableType::Array(ref t) = &*tables.borrow()[i] {
-        if key_parent.len() > 0 {
-          key_parent.push('.');
-        }
-        let keys = get_last_keys(last_table, t);
-        debug!("get_key_parent last_keys: {:?}", keys);
-        for j in prev_end..keys.len() {
-          if keys[j] != "$Root$" {
-            key_parent.push_str(&keys[j]);
-            if j < keys.len() - 1 {
-              key_parent.push('.');
-            }
-          }
-          debug!("get_key_parent key_parent: {}", key_parent);
-        }
-        prev_end = keys.len();
-        let index = tables_index.borrow()[i];
-        if i < tables_len - 1 {
-          key_parent.push_str(&format!("[{}]", index));
-        }
-      }
-    }
-    debug!("get_key_parent final key_parent: {}", key_parent);
-    key_parent
-  }
-
-
-  pub fn get_array_table_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> (bool, String, String) {
-    let mut full_key: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    let mut valid = true;
-    let mut parent_key = "$Root$".to_string();
-    for i in 0..tables_len {
-      match  &*tables.borrow()[i] {
-        &TableType::Array(ref t) => {
-          debug!("Array Table: {}", t);
-          let keys = get_last_keys(last_table, t);
-          let len = keys.len();
-          for j in prev_end..len - 1 {
-            debug!("keys[{}] = {}", j, keys[j]);
-            full_key.push_str(&keys[j]);
-            let map_borrow = map.borrow();
-            let hash_value_opt = map_borrow.get(&full_key);
-            match hash_value_opt {
-              Some(hash_value) =>  {
-                match hash_value.subkeys {
-                  Children::Count(ref c) => {
-                    if full_key == "$Root$" {
-                      full_key.truncate(0);
-                    } else {
-                      full_key.push_str(&format!("[{}].", c.get()))
-                    }
-                  },
-                  Children::Keys(ref hs_rf) => {
-                    if hs_rf.borrow().contains(&keys[j+1]) || j+1 == len - 1 {
-                      if full_key == "$Root$" {
-                        full_key.truncate(0);
-                      } else {
-                        full_key.push('.');
-                      }
-                    } else {
-                      panic!("Key does not exist in map: \"{}\"", &format!("{}.{}", full_key, &keys[j+1]));
-                    }
-                  },
-                }
-              }
-              None => panic!("Key does not exist in map: \"{}\"", &full_key),
-            }
-          }
-          prev_end = len;
-          full_key.push_str(&keys[len-1]);
-          let map_borrow = map.borrow();
-          debug!("Check if key \"{}\" has a value.", full_key);
-          let hash_value_opt = map_borrow.get(&full_key);
-          if let Some(hash_value) = hash_value_opt {
-            if let Some(ref value) = hash_value.value {
-              match *value.borrow() {
-                TOMLValue::Table => {
-                  if let Children::Keys(_) = hash_value.subkeys {
-                    debug!("Array Key \"{}\" conflicts with table key.", full_key);
-                    valid = false;
-                  }
-                },
-                _ => {
-                  debug!("/== Key \"{}\" has a value.", full_key);
-                  valid = false;
-                },
-              }
-            }
-            if let Some(_) = hash_value.value {
-              debug!("Key \"{}\" has a value.", full_key);
-              valid = false;
-            } else if let Children::Keys(_) = hash_value.subkeys {
-              debug!("Array Key \"{}\" conflicts with table key.", full_key);
-              valid = false;
-            }
-          }
-          let map_borrow = map.borrow();
-          let hash_value_opt = map_borrow.get(&full_key);
-          let index;
-          match hash_value_opt {
-            Some(hash_value) =>  {
-              index = match hash_value.subkeys {
-                Children::Count(ref c) => c.get() - 1,
-                _ => tables_index.borrow()[i],
-              };
-            },
-            _ => { index = tables_index.borrow()[i]; },
-          }
-          if i < tables_len - 1 {
-            full_key.push_str(&format!("[{}].", index));
-          } else {
-            parent_key = full_key.clone();
-            full_key.push_str(&format!("[{}]", index));
-          }
-        },
-        &TableType::Standard(ref t) => {
-          // Standard tables can't be nested so this has to be the last table in the vector
-          let keys = get_last_keys(last_table, t);
-          debug!("get_last_keys {:?}, prev_end: {}", keys, prev_end);
-          for j in prev_end..keys.len() - 1 {
-            if keys[j] == "$Root$" {
-              continue;
-            }
-            full_key.push_str(&keys[j]);
-            valid = valid && !Parser::key_has_value(&full_key, map);
-            if j == keys.len() - 2 {
-              parent_key = full_key.clone();
-            }
-            full_key.push('.');
-          }
-          full_key.push_str(&keys[keys.len() - 1]);
-          valid = valid && !Parser::key_has_value(&full_key, map);
-        }
-      }
-    }
-    debug!("valid: {}, full_key: {}, parent_key: {}", valid, full_key, parent_key);
-    (valid, full_key, parent_key)
-  }
-
-  fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
+  pub fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
     let map_borrow = map.borrow();
     debug!("Check if key \"{}\" has a value.", key);
     let hash_value_opt = map_borrow.get(key);
@@ -260,27 +110,23 @@ impl<'a> Parser<'a> {
     return (key, parent_key);
   }
 
-  pub fn get_full_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,
-    keychain: &RefCell<Vec<Key<'a>>>) -> (bool, String, String) {
-
-    let (valid, array_key, _) = Parser::get_array_table_key(map, tables, tables_index);
+  pub fn get_full_key(table_key: &str, keychain: &RefCell<Vec<Key<'a>>>) -> (String, String) {
     let (chain_key, parent_chain_key) = Parser::get_keychain_key(keychain);
-    debug!("array_key: {}, chain_key: {}, parent_chain_key: {}", array_key, chain_key, parent_chain_key);
+    debug!("table_key: {}, chain_key: {}, parent_chain_key: {}", table_key, chain_key, parent_chain_key);
     let mut full_key = String::new();
     let mut parent_key = String::new();
-    if array_key.len() > 0 {
-      full_key.push_str(&array_key);
+    if table_key.len() > 0 {
+      full_key.push_str(table_key);
       full_key.push_str(".");
-      parent_key.push_str(&array_key);
+      parent_key.push_str(table_key);
       if parent_chain_key.len() > 0 {
         parent_key.push_str(".");
       }
     }
     full_key.push_str(&chain_key);
     parent_key.push_str(&parent_chain_key);
-    debug!("valid: {}, full_key: {}, parent_key: {}", valid, full_key, parent_key);
-    return (valid, full_key, parent_key);
+    debug!("full_key: {}, parent_key: {}", full_key, parent_key);
+    return (full_key, parent_key);
   }
 
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
@@ -289,79 +135,25 @@ impl<'a> Parser<'a> {
     let mut insert = false;
     let mut error = false;
     let mut setvalue = false;
-    let full_key: String;
-    let mut parent_key: String;
-    match &self.last_table {
-      // If the last table is None
-      //  If the key exists
-      //    If the value is empty insert the value
-      //    If the value in non-empty add the key/val to the error list
-      //  If the key doesn't exist, insert it
-      &None => {
-        let tuple = Parser::get_keychain_key(&self.keychain);
-        full_key = tuple.0;
-        parent_key = tuple.1;
-        if parent_key == "" {
-          parent_key.push_str("$Root$");
-        }
-        let map_borrow = map.borrow();
-        let hv_opt = map_borrow.get(&full_key);
-        if let Some(hv) = hv_opt {
-          if let Some(_) = hv.value {
-            error = true;
-          } else {
-            setvalue = true;
-          }
+    let (full_key, mut parent_key) = Parser::get_full_key(&self.table_key.borrow(), &self.keychain);
+    if parent_key == "" {
+      parent_key.push_str("$Root$");
+    }
+    //  If the key exists
+    //    If the value is empty insert the value
+    //    If the value in non-empty add the key/val to the error list
+    //  If the key doesn't exist, insert it
+    {
+      let map_borrow = map.borrow();
+      let hv_opt = map_borrow.get(&full_key);
+      if let Some(hv) = hv_opt {
+        if let Some(_) = hv.value {
+          error = true;
         } else {
-          insert = true;
-        }
-      },
-      // If the last table was a StandardTable or ArrayTable:
-      //  If the key exists
-      //    If the value is empty, insert the value
-      //    If the value is non-empty add the key/val pair to the error list
-      //    If the key is for an ArrayOfTables add the key/val to the error list
-      //  If the key doesn't exist add the key/value pair to the hash table
-      &Some(ref ttype) => {
-        match **ttype {
-          TableType::Standard(_) => {
-            self.last_array_tables.borrow_mut().push(ttype.clone());
-            let tuple = Parser::get_full_key(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain);
-            full_key = tuple.1;
-            parent_key = tuple.2;
-            self.last_array_tables.borrow_mut().pop();
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
-          },
-          TableType::Array(_) => {
-            let tuple = Parser::get_full_key(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain);
-            full_key = tuple.1;
-            parent_key = tuple.2;
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                debug!("{} hash value exists in table.", full_key);
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
-          },
+          setvalue = true;
         }
+      } else {
+        insert = true;
       }
     }
 
@@ -589,9 +381,7 @@ impl<'a> Parser<'a> {
         if !o.validate() {
           let parsed_len = before_len - i.len();
           self.errors.borrow_mut().push(ParseError::InvalidDateTime(
-            Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain
-            ).1, self.line_count.get(), 0, input[0..parsed_len].into()
+            Parser::get_full_key(&self.table_key.borrow(), &self.keychain).0, self.line_count.get(), 0, input[0..parsed_len].into()
           ));
         }
         (self, IResult::Done(i, o))
-- 
2.43.0


From 34a999a44048d4e6e62887c1190f705ae231f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 12/24] fix: report the unparsed input in Partial and
 PartialError

---
 src/internals/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 09567e2..941c171 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -43,7 +43,6 @@ impl<'a> Parser<'a> {
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-    let leftover = self.leftover.into();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
@@ -52,6 +51,7 @@ impl<'a> Parser<'a> {
       },
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
+    let leftover = self.leftover.into();
     if self.leftover.len() > 0 {
       let len = self.errors.borrow().len();
       if len > 0 {
-- 
2.43.0


From 186717bb7b6e2b0adca375b4f36a695d7e5f9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 13/24] fix: start every parse from an empty parser

A second document parsed with the same parser was reported with the keys, errors
and line numbers of the first.
---
 src/internals/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 941c171..956802b 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -40,6 +40,8 @@ impl<'a> Parser<'a> {
   }
 
   pub fn parse(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, ParseResult<'a>) {
+    // Nothing of a document that was parsed earlier belongs to this one
+    self = Parser::new();
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-- 
2.43.0


From 04d38aa1102693260b3e6504cae1a07829c23488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 14/24] fix: add a value's keys once its statement is complete

The elements of an array or inline table were added while the value was still
being parsed: a repeated key reported an error for every element and mixed its
elements into the first value, elements of values in an invalid table were
recorded under a wrong key, a value could replace a table or array of tables, and
a statement that failed to parse left keys behind.
---
 src/internals/objects.rs    |   1 -
 src/internals/primitives.rs | 131 +++++++++++++++---------------------
 2 files changed, 54 insertions(+), 78 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 0b24cc5..c2767a1 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -288,7 +288,6 @@ impl<'a> Parser<'a> {
             self.last_array_type.borrow_mut().pop();
             self.last_array_type.borrow_mut().push(t);
             let keychain_len = self.keychain.borrow().len();
-            self.insert_keyval_into_map(val.clone());
             self.keychain.borrow_mut()[keychain_len - 1].inc();
             ArrayValue::new(val, array_sep, comment_nls)
           }
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 7c37aa2..c83b1ef 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -1,7 +1,6 @@
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::collections::HashMap;
-use std::collections::hash_map::Entry;
 use std::borrow::Cow;
 use internals::ast::structs::{KeyVal, WSSep, TOMLValue, ErrorCode, HashValue};
 use types::{Date, Time, DateTime, TimeOffset, TimeOffsetAmount, ParseError, StrType, Children, Value};
@@ -131,85 +130,61 @@ impl<'a> Parser<'a> {
 
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
     debug!("Insert val: {}", *(*val).borrow());
-    let map = RefCell::new(&mut self.map);
-    let mut insert = false;
-    let mut error = false;
-    let mut setvalue = false;
     let (full_key, mut parent_key) = Parser::get_full_key(&self.table_key.borrow(), &self.keychain);
     if parent_key == "" {
       parent_key.push_str("$Root$");
     }
-    //  If the key exists
-    //    If the value is empty insert the value
-    //    If the value in non-empty add the key/val to the error list
+    //  If the key exists add the key/val to the error list
     //  If the key doesn't exist, insert it
-    {
-      let map_borrow = map.borrow();
-      let hv_opt = map_borrow.get(&full_key);
-      if let Some(hv) = hv_opt {
-        if let Some(_) = hv.value {
-          error = true;
-        } else {
-          setvalue = true;
-        }
-      } else {
-        insert = true;
-      }
-    }
-
-    if error {
+    if self.map.contains_key(&full_key) {
       debug!("Error: {}", *(*val).borrow());
       self.errors.borrow_mut().push(ParseError::DuplicateKey(
         full_key, self.line_count.get(), 0, to_val!(&*val.borrow())
       ));
-    } else if setvalue  || insert {
-      if setvalue {
-        debug!("Set existing hash value. full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
-        let mut borrow = map.borrow_mut();
-        let entry = borrow.entry(full_key.clone());
-        match entry {
-          Entry::Occupied(mut o) => {
-            debug!("Children: {:?}", &o.get_mut().subkeys);
-            o.get_mut().value = Some(val.clone());
-          },
-          _ => panic!("Unreachable! Set existing hash value has no exisiting hash value."),
+    } else {
+      debug!("Insert full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
+      if let Some(parent) = self.map.get(&parent_key) {
+        if let (&Children::Keys(ref vec_rf), Some(&Key::Str(ref s))) = (&parent.subkeys, self.keychain.borrow().last()) {
+          Parser::insert(vec_rf, s.clone().into_owned());
         }
-      } else if insert {
-        debug!("Insert full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
-        match *val.borrow() {
-          TOMLValue::InlineTable(_) => map.borrow_mut().insert(full_key.clone(), HashValue::new_keys(val.clone())),
-          _                     => map.borrow_mut().insert(full_key.clone(), HashValue::new_count(val.clone())),
-        };
       }
+      self.insert_value(full_key, val);
+    }
+  }
 
-      // in either case update the parent and possibly grandparent
-      let mut borrow = map.borrow_mut();
-      {
-        let entry = borrow.entry(parent_key.clone());
-        match entry {
-          Entry::Occupied(mut o) => {
-            debug!("Children: {:?}", &o.get_mut().subkeys);
-            match &o.get_mut().subkeys {
-              &Children::Count(ref c) => { debug!("parent inc to {}", c.get() + 1); c.set(c.get() + 1) },
-              &Children::Keys(ref vec_rf) => {
-                if let Key::Str(ref s) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-                  Parser::insert(vec_rf,s.clone().into_owned());
-                }
-              },
-            }
-          },
-          Entry::Vacant(v) => {
-            debug!("vacant parent");
-            if let Key::Index(_) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-              debug!("initialize to 1");
-              v.insert(HashValue::one_count());
-            } else if let Key::Str(ref s) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-              debug!("initialize to string: {}", s);
-              v.insert(HashValue::one_keys(s.clone().into_owned()));
+  // Inserts a key with its value and, if the value is an array or an inline table, the keys of all of its elements
+  pub fn insert_value(&mut self, key: String, val: Rc<RefCell<TOMLValue<'a>>>) {
+    match *val.borrow() {
+      TOMLValue::Array(ref arr) => {
+        let count = arr.borrow().values.len();
+        self.map.insert(key.clone(), HashValue::new_count(val.clone()));
+        if let Children::Count(ref c) = self.map[&key].subkeys {
+          c.set(count);
+        }
+        for i in 0..count {
+          self.insert_value(format!("{}[{}]", key, i), arr.borrow().values[i].val.clone());
+        }
+      },
+      TOMLValue::InlineTable(ref it) => {
+        self.map.insert(key.clone(), HashValue::new_keys(val.clone()));
+        for table_keyval in it.borrow().keyvals.iter() {
+          let keyval = &table_keyval.keyval;
+          let subkey = format!("{}.{}", key, keyval.key);
+          if self.map.contains_key(&subkey) {
+            self.errors.borrow_mut().push(ParseError::DuplicateKey(
+              subkey, self.line_count.get(), 0, to_val!(&*keyval.val.borrow())
+            ));
+          } else {
+            if let Children::Keys(ref vec_rf) = self.map[&key].subkeys {
+              Parser::insert(vec_rf, keyval.key.clone().into_owned());
             }
-          },
+            self.insert_value(subkey, keyval.val.clone());
+          }
         }
-      }
+      },
+      _ => {
+        self.map.insert(key, HashValue::new_count(val.clone()));
+      },
     }
   }
 
@@ -444,17 +419,19 @@ impl<'a> Parser<'a> {
       val: call_m!(self.val)        ,
       || {
         let res = KeyVal::new_str(key, ws, val);
-        if self.array_error.get() {
-          debug!("array_error");
-          let err = self.errors.borrow_mut().pop().unwrap();
-          if let ParseError::InvalidTable(_, _, _, ref map) = err {
-            debug!("InvalidTable");
-            map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
-          }
-          self.errors.borrow_mut().push(err);
-        } else {
-          match *res.val.borrow() {
-            _ => self.insert_keyval_into_map(res.val.clone()),
+        // The key/value pairs of an inline table are added together with the table
+        if self.keychain.borrow().len() == 1 {
+          if self.array_error.get() {
+            debug!("array_error");
+            for err in self.errors.borrow().iter().rev() {
+              if let &ParseError::InvalidTable(_, _, _, ref map) = err {
+                debug!("InvalidTable");
+                map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+                break;
+              }
+            }
+          } else {
+            self.insert_keyval_into_map(res.val.clone());
           }
         }
         self.keychain.borrow_mut().pop();
-- 
2.43.0


From d552b5a4921bcff9eab6a7e233e8f91b94ccf297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 15/24] fix: report every array of mixed types exactly once

An array of mixed types went unreported if an error of another kind preceded it
or if its key started with the key of the one reported before.
---
 src/internals/ast/structs.rs |  1 +
 src/internals/objects.rs     | 31 ++++++++++---------------------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index 91f7dd9..72eff1a 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -143,6 +143,7 @@ pub enum ArrayType {
   Array,
   String,
   InlineTable,
+  Mixed,
   None,
 }
 
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index c2767a1..7e8b599 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -261,32 +261,21 @@ impl<'a> Parser<'a> {
   comment_nls: complete!(call_m!(self.comment_or_nls))  ,
           ||{
             let t = map_val_to_array_type(&*val.borrow());
-            let len = self.last_array_type.borrow().len();
-            if len > 0 && self.last_array_type.borrow()[len - 1] != ArrayType::None &&
-               self.last_array_type.borrow()[len - 1] != t {
-              let tuple = Parser::get_full_key(&self.table_key.borrow(), &self.keychain);
-              let err_len = self.errors.borrow().len();
-              let mut mixed = false;
-              if err_len > 0 {
-                if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.0);
-                  if !tuple.0.starts_with(key) {
-                    mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.0);
-                  }
-                }
-              } else {
-                mixed = true;
+            let last = self.last_array_type.borrow_mut().pop().unwrap_or(ArrayType::None);
+            let next = if last == ArrayType::None || last == t {
+              t
+            } else {
+              // Report an array only once, however often the type changes
+              if last != ArrayType::Mixed {
+                let tuple = Parser::get_full_key(&self.table_key.borrow(), &self.keychain);
                 debug!("Mixed array error insert: {}", tuple.0);
-              }
-              if mixed {
                 self.errors.borrow_mut().push(ParseError::MixedArray(
                   tuple.1, self.line_count.get(), 0
                 ));
               }
-            }
-            self.last_array_type.borrow_mut().pop();
-            self.last_array_type.borrow_mut().push(t);
+              ArrayType::Mixed
+            };
+            self.last_array_type.borrow_mut().push(next);
             let keychain_len = self.keychain.borrow().len();
             self.keychain.borrow_mut()[keychain_len - 1].inc();
             ArrayValue::new(val, array_sep, comment_nls)
-- 
2.43.0


From ea5ab52ce5feadc4e7a35ee57e2095f24fa996f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 16/24] fix: count the lines inside arrays and inline tables

The line numbers of everything after a multi-line array or inline table were too
small.
---
 src/internals/objects.rs    | 14 +++++++++++---
 src/internals/parser.rs     |  4 +++-
 src/internals/primitives.rs |  5 +++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 7e8b599..7817296 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -246,8 +246,15 @@ impl<'a> Parser<'a> {
 
   method!(comment_or_nl<Parser<'a>, &'a str, CommentOrNewLines>, mut self,
     alt!(
-      complete!(call_m!(self.comment_nl))   => {|com| CommentOrNewLines::Comment(com)} |
-      complete!(call_m!(self.ws_newline))  => {|nl: &'a str|  CommentOrNewLines::NewLines(nl.into())}
+      complete!(call_m!(self.comment_nl))   => {|com: CommentNewLines<'a>| {
+        self.add_lines(&com.pre_ws_nl);
+        self.add_lines(&com.newlines);
+        CommentOrNewLines::Comment(com)
+      }} |
+      complete!(call_m!(self.ws_newline))  => {|nl: &'a str| {
+        self.add_lines(nl);
+        CommentOrNewLines::NewLines(nl.into())
+      }}
     )
   );
 
@@ -257,6 +264,7 @@ impl<'a> Parser<'a> {
   method!(array_value<Parser<'a>, &'a str, ArrayValue>, mut self,
         chain!(
           val: call_m!(self.val)                        ~
+         line: value!(self.line_count.get())            ~
     array_sep: complete!(call_m!(self.array_sep))?      ~
   comment_nls: complete!(call_m!(self.comment_or_nls))  ,
           ||{
@@ -270,7 +278,7 @@ impl<'a> Parser<'a> {
                 let tuple = Parser::get_full_key(&self.table_key.borrow(), &self.keychain);
                 debug!("Mixed array error insert: {}", tuple.0);
                 self.errors.borrow_mut().push(ParseError::MixedArray(
-                  tuple.1, self.line_count.get(), 0
+                  tuple.1, line, 0
                 ));
               }
               ArrayType::Mixed
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 956802b..ddd0b24 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -44,12 +44,14 @@ impl<'a> Parser<'a> {
     self = Parser::new();
     let (tmp, res) = self.toml(input);
     self = tmp;
-    let line_count = self.line_count.get();
+    let mut line_count = self.line_count.get();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
         *self.root.borrow_mut() = o;
         self.leftover = i;
+        // An expression that failed to parse may have counted lines that are now left over
+        line_count = 1 + input[..input.len() - i.len()].matches('\n').count();
       },
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index c83b1ef..d969e38 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -42,6 +42,11 @@ pub fn count_lines(s: &str) -> usize {
 }
 
 impl<'a> Parser<'a> {
+  // Counts the lines that end in a piece of the document that can contain newlines
+  pub fn add_lines(&self, s: &str) {
+    self.line_count.set(self.line_count.get() + s.matches('\n').count());
+  }
+
   pub fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
     let map_borrow = map.borrow();
     debug!("Check if key \"{}\" has a value.", key);
-- 
2.43.0


From 0dbeebc90d17d46fc59d1461f5c7e45ffcc14d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 17/24] fix: report a duplicate key at the line of the key

---
 src/internals/primitives.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index d969e38..b6f9101 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -133,7 +133,7 @@ impl<'a> Parser<'a> {
     return (full_key, parent_key);
   }
 
-  pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
+  pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>, line: usize) {
     debug!("Insert val: {}", *(*val).borrow());
     let (full_key, mut parent_key) = Parser::get_full_key(&self.table_key.borrow(), &self.keychain);
     if parent_key == "" {
@@ -144,7 +144,7 @@ impl<'a> Parser<'a> {
     if self.map.contains_key(&full_key) {
       debug!("Error: {}", *(*val).borrow());
       self.errors.borrow_mut().push(ParseError::DuplicateKey(
-        full_key, self.line_count.get(), 0, to_val!(&*val.borrow())
+        full_key, line, 0, to_val!(&*val.borrow())
       ));
     } else {
       debug!("Insert full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
@@ -153,12 +153,12 @@ impl<'a> Parser<'a> {
           Parser::insert(vec_rf, s.clone().into_owned());
         }
       }
-      self.insert_value(full_key, val);
+      self.insert_value(full_key, val, line);
     }
   }
 
   // Inserts a key with its value and, if the value is an array or an inline table, the keys of all of its elements
-  pub fn insert_value(&mut self, key: String, val: Rc<RefCell<TOMLValue<'a>>>) {
+  pub fn insert_value(&mut self, key: String, val: Rc<RefCell<TOMLValue<'a>>>, line: usize) {
     match *val.borrow() {
       TOMLValue::Array(ref arr) => {
         let count = arr.borrow().values.len();
@@ -167,7 +167,7 @@ impl<'a> Parser<'a> {
           c.set(count);
         }
         for i in 0..count {
-          self.insert_value(format!("{}[{}]", key, i), arr.borrow().values[i].val.clone());
+          self.insert_value(format!("{}[{}]", key, i), arr.borrow().values[i].val.clone(), line);
         }
       },
       TOMLValue::InlineTable(ref it) => {
@@ -177,13 +177,13 @@ impl<'a> Parser<'a> {
           let subkey = format!("{}.{}", key, keyval.key);
           if self.map.contains_key(&subkey) {
             self.errors.borrow_mut().push(ParseError::DuplicateKey(
-              subkey, self.line_count.get(), 0, to_val!(&*keyval.val.borrow())
+              subkey, line, 0, to_val!(&*keyval.val.borrow())
             ));
           } else {
             if let Children::Keys(ref vec_rf) = self.map[&key].subkeys {
               Parser::insert(vec_rf, keyval.key.clone().into_owned());
             }
-            self.insert_value(subkey, keyval.val.clone());
+            self.insert_value(subkey, keyval.val.clone(), line);
           }
         }
       },
@@ -420,6 +420,7 @@ impl<'a> Parser<'a> {
   method!(pub keyval<Parser<'a>, &'a str, KeyVal>, mut self,
     chain!(
       key: call_m!(self.key)        ~
+     line: value!(self.line_count.get()) ~
        ws: call_m!(self.keyval_sep) ~
       val: call_m!(self.val)        ,
       || {
@@ -436,7 +437,7 @@ impl<'a> Parser<'a> {
               }
             }
           } else {
-            self.insert_keyval_into_map(res.val.clone());
+            self.insert_keyval_into_map(res.val.clone(), line);
           }
         }
         self.keychain.borrow_mut().pop();
-- 
2.43.0


From fd89c7624f9cea720c08d10afe75bc78ea5f6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 18/24] fix: require separators between array values and inline
 table pairs

---
 src/internals/objects.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 7817296..9fdcea5 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -7,7 +7,7 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
 use std::cell::Cell;
-use nom::IResult;
+use nom::{IResult, Err, ErrorKind};
 
 #[inline(always)]
 fn map_val_to_array_type(val: &TOMLValue) -> ArrayType {
@@ -291,7 +291,7 @@ impl<'a> Parser<'a> {
         )
   );
 
-  method!(array_values<Parser<'a>, &'a str, Vec<ArrayValue> >, mut self,
+  method!(array_values_unchecked<Parser<'a>, &'a str, Vec<ArrayValue> >, mut self,
     chain!(
      vals: many0!(call_m!(self.array_value)) ,
      ||{
@@ -303,6 +303,18 @@ impl<'a> Parser<'a> {
     )
   );
 
+  fn array_values(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Vec<ArrayValue<'a>>>) {
+    let (tmp, res) = self.array_values_unchecked(input);
+    self = tmp; // Restore self
+    if let IResult::Done(_, ref vals) = res {
+      // Only the last value may go without a separator
+      if vals.iter().rev().skip(1).any(|v| v.array_sep.is_none()) {
+        return (self, IResult::Error(Err::Code(ErrorKind::SeparatedList)));
+      }
+    }
+    (self, res)
+  }
+
   pub fn array(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Rc<RefCell<Array>>>) {
     // Initialize last array type to None, we need a stack because arrays can be nested
     // debug!("*** array called on input:\t\t\t{}", input);
@@ -341,7 +353,20 @@ impl<'a> Parser<'a> {
         )
   );
 
-  method!(inline_table_keyvals_non_empty<Parser<'a>, &'a str, Vec<TableKeyVal> >, mut self, many0!(call_m!(self.table_keyval)));
+  method!(inline_table_keyvals_unchecked<Parser<'a>, &'a str, Vec<TableKeyVal> >, mut self, many0!(call_m!(self.table_keyval)));
+
+  fn inline_table_keyvals_non_empty(mut self: Parser<'a>, input: &'a str)
+    -> (Parser<'a>, IResult<&'a str, Vec<TableKeyVal<'a>>>) {
+    let (tmp, res) = self.inline_table_keyvals_unchecked(input);
+    self = tmp; // Restore self
+    if let IResult::Done(_, ref keyvals) = res {
+      // Only the last key/value pair may go without a separator
+      if keyvals.iter().rev().skip(1).any(|kv| kv.kv_sep.is_none()) {
+        return (self, IResult::Error(Err::Code(ErrorKind::SeparatedList)));
+      }
+    }
+    (self, res)
+  }
 
   method!(pub inline_table<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
     chain!(
-- 
2.43.0


From 48baaa826c421613c6fa9545b8b125a1fbe8298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 19/24] fix: accept newlines and comments before a separator

---
 src/internals/objects.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 9fdcea5..ea24e91 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -220,12 +220,17 @@ impl<'a> Parser<'a> {
   );
 
   // Array
+  // Newlines and comments are allowed on both sides of a separator. Those after it belong to the value before it.
+  method!(pre_array_sep<Parser<'a>, &'a str, &'a str>, self,
+    re_find!("^( |\t|\n|(\r\n)|(#(\t|[ -\u{10FFFF}])*(\n|(\r\n))))*"));
+
   method!(array_sep<Parser<'a>, &'a str, WSSep>, mut self,
     chain!(
-      ws1: call_m!(self.ws)         ~
-           tag_s!(",")~
-      ws2: call_m!(self.ws)         ,
+      ws1: call_m!(self.pre_array_sep)  ~
+           tag_s!(",")                  ~
+      ws2: call_m!(self.ws)             ,
       ||{
+        self.add_lines(ws1);
         WSSep::new_str(ws1, ws2)
       }
     )
-- 
2.43.0


From baee9992c41b5fa7d1871e39407cfa3f24fef81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 20/24] fix: set any value in place of any other

Replacing an array or inline table by a scalar, an inline table by a larger one
or a scalar by an inline table paniced or left the previous subkeys behind,
changes to an array set earlier did not reach the document, and an invalid value
deleted the subkeys or paniced.
---
 src/internals/parser.rs | 115 ++++++++--------------------------------
 src/types.rs            |  14 +++++
 2 files changed, 36 insertions(+), 93 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index ddd0b24..3cbc2b3 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -1,7 +1,6 @@
 use std::fmt;
 use std::fmt::Display;
 use std::collections::{HashMap, BTreeMap};
-use std::collections::hash_map::Entry;
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::borrow::Cow;
@@ -134,59 +133,35 @@ impl<'a> Parser<'a> {
 
   pub fn set_value<S>(self: &mut Parser<'a>, key: S, val: Value<'a>) -> bool where S: Into<String> {
     let s_key = key.into();
-    {
-      let tval = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => return false,
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut tval.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => return false,
-      };
-      // a table header has no value that could be replaced
-      if let TOMLValue::Table = *val_rf.borrow() {
-        return false;
-      }
-      // if the inline table/array has the same structure the just replace the values
-      if Parser::same_structure(val_rf, &val) {
-        return Parser::replace_values(val_rf, &val);
-      }
+    if !val.validate() {
+      return false;
+    }
+    let val_rf = match self.map.get(&s_key) {
+      Some(&HashValue{value: Some(ref v), ..}) => v.clone(),
+      _ => return false,
+    };
+    // a table header has no value that could be replaced
+    if let TOMLValue::Table = *val_rf.borrow() {
+      return false;
+    }
+    // if the inline table/array has the same structure the just replace the values
+    if Parser::same_structure(&val_rf, &val) {
+      return Parser::replace_values(&val_rf, &val);
     }
+    let new_value = match Parser::convert_vector(&val) {
+      Some(v) => v,
+      None => return false,
+    };
     // if the inline table/array has a different structure, delete the existing
     // array/inline table from the map and rebuild it from the new value
     let all_keys = self.get_all_subkeys(&s_key);
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_opt = Parser::convert_vector(&val);
-    if new_value_opt.is_none() {
-      return false;
-    }
-    let new_value = new_value_opt.unwrap();
-    let new_value_clone = match new_value {
-      TOMLValue::Array(ref rc_rc) => {
-        TOMLValue::Array(rc_rc.clone())
-      },
-      TOMLValue::InlineTable(ref rc_rc) => {
-        TOMLValue::InlineTable(rc_rc.clone())
-      },
-      unknown => panic!("In Parser.set_value, new_value should only be an Array or InlineTable. Instead it's a {:?}", unknown),
-    };
-    if self.map.contains_key(&s_key) {
-      let existing_value = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => panic!("Map contains key, but map.entry returned a Vacant entry is set_value."),
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut existing_value.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => panic!("existing_value's value is None, when this should've returned false earlier in the function."),
-      };
-      *val_rf.borrow_mut() = new_value;
-    }
-    let new_value_rc = Rc::new(RefCell::new(new_value_clone));
-    self.rebuild_vector(s_key.clone(), new_value_rc.clone(), true);
+    // the document shares this value, so writing through it changes the document as well
+    *val_rf.borrow_mut() = new_value;
+    let line = self.line_count.get();
+    self.insert_value(s_key, val_rf, line);
     true
   }
 
@@ -306,52 +281,6 @@ impl<'a> Parser<'a> {
     }
   }
 
-  fn rebuild_vector(self: &mut Parser<'a>, key: String, val: Rc<RefCell<TOMLValue<'a>>>, skip: bool) {
-    match *val.borrow() {
-      TOMLValue::Array(ref arr) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains array key, but map.entry returned a Vacant entry in set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          value.subkeys = Children::Count(Cell::new(arr.borrow().values.len()));
-        }
-        for i in 0..arr.borrow().values.len() {
-          let subkey = format!("{}[{}]", key, i);
-          self.rebuild_vector(subkey, arr.borrow().values[i].val.clone(), false);
-        }
-      },
-      TOMLValue::InlineTable(ref it) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains inline table key, but map.entry returned a Vacant entry is set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          if let Children::Keys(ref child_keys) = value.subkeys {
-            for i in 0..it.borrow().keyvals.len() {
-              Parser::insert(child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
-            }
-          }
-        }
-        for i in 0..it.borrow().keyvals.len() {
-          let subkey = format!("{}.{}", key, &it.borrow().keyvals[i].keyval.key);
-          self.rebuild_vector(subkey, it.borrow().keyvals[i].keyval.val.clone(), false);
-        }
-      },
-      _ => {
-        self.map.entry(key.clone()).or_insert(
-          HashValue::new_count(val.clone())
-        );
-      },
-    }
-  }
-
   fn get_all_subkeys(self: &Parser<'a>, key: &str) -> Vec<String>{
     let hv_opt = self.map.get(key);
     let mut all_keys = vec![];
diff --git a/src/types.rs b/src/types.rs
index a08e39a..d1a52ae 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -992,6 +992,20 @@ impl<'a> Value<'a> {
           },
         }
       },
+      &Value::Array(ref arr) => arr.iter().all(|v| v.validate()),
+      &Value::InlineTable(ref it) => {
+        for i in 0..it.len() {
+          let p = Parser::new();
+          let valid_key = match p.key(&it[i].0) {
+            (_, IResult::Done(rest, _)) => rest.len() == 0,
+            (_,_) => false,
+          };
+          if !valid_key || !it[i].1.validate() || it[..i].iter().any(|kv| kv.0 == it[i].0) {
+            return false;
+          }
+        }
+        true
+      },
       _ => true,
     }
   }
-- 
2.43.0


From fd9434546ec2137f68bcaf865e24506709d23596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 21/24] fix: keep the Zulu offset of a datetime set with
 tomlkit

---
 src/bin/tomlkit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 1e62c06..ecc8484 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -569,7 +569,7 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
           let (year, month, day);
           let (mut hour, mut minute, mut second, mut fraction) = ("".into(), "".into(), "".into(), "".into());
           let (mut off_hour, mut off_minute, mut pos_neg) = ("".into(), "".into(), PosNeg::Pos);
-          let (mut has_time, mut has_fraction, mut has_offset) = (false, false, false);
+          let (mut has_time, mut has_fraction, mut has_offset, mut is_zulu) = (false, false, false, false);
           if let Ok(dtval) = tmp_result {
             if let Value::DateTime(dt) = dtval {
               year = dt.date.year.to_string().into();
@@ -590,12 +590,16 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
                     pos_neg = amount.pos_neg;
                     off_hour = amount.hour.to_string().into();
                     off_minute = amount.minute.to_string().into();
+                  } else {
+                    is_zulu = true;
                   }
                 }
               }
 
               let newoffset = if has_offset {
                 Some(TimeOffset::Time(TimeOffsetAmount{pos_neg: pos_neg, hour: off_hour, minute: off_minute}))
+              } else if is_zulu {
+                Some(TimeOffset::Zulu)
               } else {
                 None
               };
-- 
2.43.0


From 07928f684f6026f354b8f884a299a69be6af8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 22/24] fix: honour tomlkit's --quiet for commands that modify

---
 src/bin/tomlkit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index ecc8484..cf29a83 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -197,6 +197,9 @@ impl Options {
     if matches.has_match("strip-quotes") {
       opts.strip_quotes = true;
     }
+    if matches.has_match("quiet") {
+      opts.quiet = true;
+    }
     // Post-command options
     if matches.has_match("print-doc") {
       opts.print_doc = true;
@@ -323,9 +326,7 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
   for i in 0..result.len() {
     match &result[i]  {
       &Ok(ref val) => {
-        if !opts.quiet {
-          print!("{}", val);
-        }
+        print!("{}", val);
       },
       &Err(ref err) => {
         print!("Error \"{}\": {}", file_path, err);
-- 
2.43.0


From 85b9d347e6e899752b7abed7f28f67777905731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 23/24] fix: report too few --set-true or --set-false values

---
 src/bin/tomlkit.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index cf29a83..c496c0f 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -400,20 +400,20 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i];
-        } else {
-          true_val = &true_vals[0];
-        }
+        let index = if true_vals.len() > 1 { i } else { 0 };
+        true_val = match true_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough true values specified for the keys: \"{}\".", csv)),
+        };
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i];
-        } else {
-          false_val = &false_vals[0];
-        }
+        let index = if false_vals.len() > 1 { i } else { 0 };
+        false_val = match false_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough false values specified for the keys: \"{}\".", csv)),
+        };
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
@@ -496,20 +496,20 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i+keycount];
-        } else {
-          true_val = &true_vals[0];
-        }
+        let index = if true_vals.len() > 1 { i+keycount } else { 0 };
+        true_val = match true_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough true values specified for the keys: \"{}\".", csv)),
+        };
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i+keycount];
-        } else {
-          false_val = &false_vals[0];
-        }
+        let index = if false_vals.len() > 1 { i+keycount } else { 0 };
+        false_val = match false_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough false values specified for the keys: \"{}\".", csv)),
+        };
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
-- 
2.43.0


From 01c62dfc1be4954eb2b8f57500148611fd25e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 24/24] fix: get_children takes $Root$ for a key of the
 document

---
 src/internals/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 3cbc2b3..fc56d3e 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -120,6 +120,9 @@ impl<'a> Parser<'a> {
     let k;
     if s_key == "" {
       k = "$Root$".to_string();
+    } else if s_key == "$Root$" {
+      // The name the root has in the map is not a key of the document
+      return None;
     } else {
       k = s_key;
     }
-- 
2.43.0

