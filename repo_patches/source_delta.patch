From 0896c0eaca22a8b113cb6a048b2b8e8e270e2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 01/10] fix: count nested functions in a usize

A function with 256 or more directly nested functions overflowed the u8
counter: a panic in debug builds, a wrong predicate count (and a panic in
eval, or a wrong result) in release builds.
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 4b5014e..abf2d16 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -27,7 +27,7 @@ impl Expression {
             parens_index: usize,
             span: std::ops::Range<usize>,
             predicates: SmallVec<[InnerPredicate; 5]>,
-            nest_level: u8,
+            nest_level: usize,
         }
 
         let mut func_stack = SmallVec::<[FuncAndSpan; 5]>::new();
@@ -317,7 +317,7 @@ impl Expression {
                             #[allow(clippy::bool_to_int_with_if)]
                             let num_predicates = top.predicates.len()
                                 + if key.is_some() { 1 } else { 0 }
-                                + top.nest_level as usize;
+                                + top.nest_level;
 
                             let func = match top.func {
                                 Func::All(_) => Func::All(num_predicates),
-- 
2.43.0


From 2eb50f2e8191629546a2676e12a9e4d90baf8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 02/10] fix: count functions as root predicates

Only plain predicates were counted, so `all(a), b`, `any(), all()` and
`a, not(b)` were accepted and evaluated to whichever root came last.
---
 src/expr/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index abf2d16..3df07cd 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -237,7 +237,7 @@ impl Expression {
         let mut pred_key: Option<(&str, _)> = None;
         let mut pred_val: Option<(&str, _)> = None;
 
-        let mut root_predicate_count = 0;
+        let mut root_predicate_count: usize = 0;
 
         // Basic implementation of the https://en.wikipedia.org/wiki/Shunting-yard_algorithm
         'outer: for lt in lexer {
@@ -348,6 +348,11 @@ impl Expression {
 
                             expr_queue.push(ExprNode::Fn(func));
 
+                            // A function that is not nested in another is a root predicate
+                            if func_stack.is_empty() {
+                                root_predicate_count += 1;
+                            }
+
                             // This is the only place we go back to the top of the outer loop,
                             // so make sure we correctly record this token
                             last_token = Some(Token::CloseParen);
-- 
2.43.0


From e6fa79cf734d741f145ffdfc1d4af4ef213237b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 03/10] fix: reject repeated commas

`all(a,,b)` and `a,,` were accepted, though a list has exactly one comma
between predicates and at most one after the last.
---
 src/expr/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 3df07cd..855347d 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -371,7 +371,12 @@ impl Expression {
                     if matches!(
                         last_token,
                         None | Some(
-                            Token::OpenParen | Token::All | Token::Any | Token::Not | Token::Equals
+                            Token::OpenParen
+                                | Token::All
+                                | Token::Any
+                                | Token::Not
+                                | Token::Equals
+                                | Token::Comma
                         )
                     ) {
                         token_err!(lt.span)
-- 
2.43.0


From 613b336213d1feab2cda3c8fea81cae0d0094439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 04/10] fix: cover the whole offending character in the lexer's
 error span

The span ended one byte after the start, inside a multi-byte character, so
slicing the text with it panicked.
---
 src/expr/lexer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 60abc6b..088ba82 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -133,12 +133,9 @@ impl<'a> Iterator for Lexer<'a> {
                         other => Some(Ok(Token::Key(other))),
                     }
                 } else {
-                    // clippy tries to help here, but we need
-                    // a Range here, not a RangeInclusive<>
-                    #[allow(clippy::range_plus_one)]
                     Some(Err(ParseError {
                         original: self.original.to_owned(),
-                        span: self.offset..self.offset + 1,
+                        span: self.offset..self.offset + c.len_utf8(),
                         reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),
                     }))
                 }
-- 
2.43.0


From 74d958525ef689146397e6fb60c63f4e55aad2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 05/10] fix: end the lexer after an error

The cursor was not moved on an error, so the iterator yielded the same error
forever.
---
 src/expr/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 088ba82..e29b0a7 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -142,6 +142,11 @@ impl<'a> Iterator for Lexer<'a> {
             }
         }
         .map(|tok| {
+            if tok.is_err() {
+                // There is nothing more to lex after an error
+                self.inner = "";
+            }
+
             tok.map(|tok| {
                 let len = tok.len();
 
-- 
2.43.0


From 64c1344ee4566eefb58d39c894a78d393862ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 06/10] fix: don't match mips r6 triples as mips or mips64

rustc reports them as mips32r6 and mips64r6 only, as the builtin targets say,
but the parsed triples matched target_arch = "mips" and "mips64" too.
---
 src/expr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index ad17b27..6240f8d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -148,6 +148,18 @@ impl TargetMatcher for target_lexicon::Triple {
                 } else {
                     match arch.0.parse::<Architecture>() {
                         Ok(a) => match (self.architecture, a) {
+                            // These have an arch of their own, see above
+                            (
+                                Architecture::Mips32(
+                                    Mips32Architecture::Mipsisa32r6
+                                    | Mips32Architecture::Mipsisa32r6el,
+                                )
+                                | Architecture::Mips64(
+                                    Mips64Architecture::Mipsisa64r6
+                                    | Mips64Architecture::Mipsisa64r6el,
+                                ),
+                                _,
+                            ) => false,
                             (Architecture::Aarch64(_), Architecture::Aarch64(_))
                             | (Architecture::Mips32(_), Architecture::Mips32(_))
                             | (Architecture::Mips64(_), Architecture::Mips64(_))
-- 
2.43.0


From b75bb42257f689d8d9e29667d6d83058a170568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 07/10] fix: don't match android triples as linux or gnu

rustc reports target_os = "android" and an empty target_env for them, as the
builtin targets say, but the parsed triples matched target_os = "linux" and
target_env = "gnu" too.
---
 src/expr.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 6240f8d..b19dca8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -231,14 +231,6 @@ impl TargetMatcher for target_lexicon::Triple {
                                             | Environment::GnuIlp32
                                             | Environment::Gnueabihf
                                             | Environment::GnuLlvm => true,
-                                            // Rust 1.49.0 changed all android targets to have the
-                                            // gnu environment
-                                            Environment::Android | Environment::Androideabi
-                                                if self.operating_system
-                                                    == OperatingSystem::Linux =>
-                                            {
-                                                true
-                                            }
                                             Environment::Kernel => {
                                                 self.operating_system == OperatingSystem::Linux
                                             }
@@ -361,6 +353,12 @@ impl TargetMatcher for target_lexicon::Triple {
                 match os.0.parse::<OperatingSystem>() {
                     Ok(o) => match self.environment {
                         Environment::HermitKernel => os == &targ::Os::hermit,
+                        // The os is android, handled below
+                        Environment::Android | Environment::Androideabi
+                            if self.operating_system == OperatingSystem::Linux =>
+                        {
+                            false
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From b680ab7c8c84ae2f596d6cc2fd16f698ac42ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 08/10] fix: don't match nuttx and rtems triples as target_os
 unknown

The os of such a triple is parsed as its vendor and left unknown; the builtin
targets match only target_os = "nuttx" and "rtems".
---
 src/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index b19dca8..0c4b33e 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -359,6 +359,10 @@ impl TargetMatcher for target_lexicon::Triple {
                         {
                             false
                         }
+                        // The os is the vendor, handled above
+                        _ if self.vendor == NUTTX || self.vendor == RTEMS => {
+                            o != OperatingSystem::Unknown && self.operating_system == o
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From a39923989499d5672a73949072e7ed201ebb4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 09/10] fix: don't match newlib triples as having no env

Horizon, Espidf and RTEMS triples matched both target_env = "newlib" and the
empty env; the builtin targets match newlib only.
---
 src/expr.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 0c4b33e..e93c2a4 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -205,18 +205,24 @@ impl TargetMatcher for target_lexicon::Triple {
                     OperatingSystem::WasiP2 => env == &targ::Env::p2,
                     OperatingSystem::Wasi => env.0.is_empty() || env == &targ::Env::p1,
                     _ => {
+                        let is_newlib = matches!(
+                            self.operating_system,
+                            OperatingSystem::Horizon | OperatingSystem::Espidf
+                        ) || self.vendor == RTEMS;
+
                         if env.0.is_empty() {
-                            matches!(
-                                self.environment,
-                                Environment::Unknown
-                                    | Environment::Android
-                                    | Environment::Softfloat
-                                    | Environment::Androideabi
-                                    | Environment::Eabi
-                                    | Environment::Eabihf
-                                    | Environment::Sim
-                                    | Environment::None
-                            )
+                            !is_newlib
+                                && matches!(
+                                    self.environment,
+                                    Environment::Unknown
+                                        | Environment::Android
+                                        | Environment::Softfloat
+                                        | Environment::Androideabi
+                                        | Environment::Eabi
+                                        | Environment::Eabihf
+                                        | Environment::Sim
+                                        | Environment::None
+                                )
                         } else {
                             match env.0.parse::<Environment>() {
                                 Ok(e) => {
@@ -252,10 +258,7 @@ impl TargetMatcher for target_lexicon::Triple {
                                                 | Environment::Uclibceabihf
                                         )
                                     } else if env == &targ::Env::newlib {
-                                        matches!(
-                                            self.operating_system,
-                                            OperatingSystem::Horizon | OperatingSystem::Espidf
-                                        ) || self.vendor == RTEMS
+                                        is_newlib
                                     } else {
                                         self.environment == e
                                     }
-- 
2.43.0


From afff2692bf5713f9efaf9f73ce83eb5f6b57d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 10/10] fix: don't match espressif triples as vendor unknown

rustc reports target_vendor = "espressif" for them, as the builtin targets
say, but the parsed triples matched "unknown" too.
---
 src/expr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index e93c2a4..80eae66 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -398,8 +398,7 @@ impl TargetMatcher for target_lexicon::Triple {
                         true
                     } else if let target_lexicon::Vendor::Custom(custom) = &self.vendor {
                         matches!(custom.as_str(), "esp" | "esp32" | "esp32s2" | "esp32s3")
-                            && (v == target_lexicon::Vendor::Espressif
-                                || v == target_lexicon::Vendor::Unknown)
+                            && v == target_lexicon::Vendor::Espressif
                     } else {
                         false
                     }
-- 
2.43.0

