From 064ae98e2e88d13daa7b52df4943cd1bfd93dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:50 +0000
Subject: [PATCH 1/4] fix: return an error from parse() on unparsable input
 instead of panicking

---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 378268e..d4085ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,10 +82,9 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
-    assert!(
-        remaining.is_empty(),
-        "There is redundant raw data after parsing"
-    );
+    if !remaining.is_empty() {
+        return Err(Err::Error((remaining, ErrorKind::Eof)));
+    }
     Ok(parsed)
 }
 
-- 
2.43.0


From dd291fe2e01a81c6d5b1cf716ac0346a59f4028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:50 +0000
Subject: [PATCH 2/4] fix: accept input that only contains whitespace and
 comments in parse()

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d4085ce..49dedcb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,8 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
+    // input without any definition may still contain whitespace & comments
+    let (remaining, _) = whitespace::sp(remaining)?;
     if !remaining.is_empty() {
         return Err(Err::Error((remaining, ErrorKind::Eof)));
     }
-- 
2.43.0


From 660ab504dd3157ba1baa6fc6ab883bbfeaac873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:50 +0000
Subject: [PATCH 3/4] fix: accept a line comment that ends at the end of input

---
 src/whitespace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/whitespace.rs b/src/whitespace.rs
index e6bbf0a..7731bbb 100644
--- a/src/whitespace.rs
+++ b/src/whitespace.rs
@@ -4,8 +4,8 @@ pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
     recognize!(
         input,
         many0!(alt!(
-            // ignores line comments
-            do_parse!(tag!("//") >> take_until!("\n") >> char!('\n') >> (()))
+            // ignores line comments, the last one may end at the end of input
+            do_parse!(tag!("//") >> take_while!(|c| c != '\n') >> opt!(char!('\n')) >> (()))
             |
             // ignores whitespace
             map!(take_while1!(|c| c == '\t' || c == '\n' || c == '\r' || c == ' '), |_| ())
-- 
2.43.0


From 6545a04e2a1ca059c830d7acf3876ef102d3dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:51 +0000
Subject: [PATCH 4/4] fix: require at least one digit in hexadecimal integer
 literals

---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 34d9bb1..aae7e60 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -19,7 +19,7 @@ ast_types! {
                 opt!(char!('-')) >>
                 char!('0') >>
                 alt!(char!('x') | char!('X')) >>
-                take_while!(|c: char| c.is_ascii_hexdigit()) >>
+                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                 (())
             ))),
         )),
-- 
2.43.0

