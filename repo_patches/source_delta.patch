From e614fd89175912c553b93a4d6e126fa24a288592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 01/15] fix: do not overflow the operand count of lists with
 256+ nested functions

The number of function operands of a list was kept in a u8, so a list with
256 or more of them panicked (debug) or evaluated to the wrong value
(release).
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 4b5014e..abf2d16 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -27,7 +27,7 @@ impl Expression {
             parens_index: usize,
             span: std::ops::Range<usize>,
             predicates: SmallVec<[InnerPredicate; 5]>,
-            nest_level: u8,
+            nest_level: usize,
         }
 
         let mut func_stack = SmallVec::<[FuncAndSpan; 5]>::new();
@@ -317,7 +317,7 @@ impl Expression {
                             #[allow(clippy::bool_to_int_with_if)]
                             let num_predicates = top.predicates.len()
                                 + if key.is_some() { 1 } else { 0 }
-                                + top.nest_level as usize;
+                                + top.nest_level;
 
                             let func = match top.func {
                                 Func::All(_) => Func::All(num_predicates),
-- 
2.43.0


From 069cd8272e4f26e4246d4c74d8f5bcef4dc7afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 02/15] fix: count root level functions as root predicates

`all(), any()` or `all(), key` were accepted, and all but the last predicate
were silently ignored by eval.
---
 src/expr/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index abf2d16..a0b5dd6 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -348,6 +348,10 @@ impl Expression {
 
                             expr_queue.push(ExprNode::Fn(func));
 
+                            if func_stack.is_empty() {
+                                root_predicate_count += 1;
+                            }
+
                             // This is the only place we go back to the top of the outer loop,
                             // so make sure we correctly record this token
                             last_token = Some(Token::CloseParen);
-- 
2.43.0


From ac747602ae8b4da2555a13fe183f14a13f2f923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 03/15] fix: reject consecutive commas

`all(a,,b)` is not a valid predicate list.
---
 src/expr/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index a0b5dd6..acbd6fd 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -370,7 +370,12 @@ impl Expression {
                     if matches!(
                         last_token,
                         None | Some(
-                            Token::OpenParen | Token::All | Token::Any | Token::Not | Token::Equals
+                            Token::OpenParen
+                                | Token::All
+                                | Token::Any
+                                | Token::Not
+                                | Token::Equals
+                                | Token::Comma
                         )
                     ) {
                         token_err!(lt.span)
-- 
2.43.0


From 94570a28df7a3bc5a46c312746bb8891b3041e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 04/15] fix: cover the whole unexpected character in the error
 span

The end of the span of a multibyte character was not a character boundary,
so slicing the original text with it panicked.
---
 src/expr/lexer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 60abc6b..088ba82 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -133,12 +133,9 @@ impl<'a> Iterator for Lexer<'a> {
                         other => Some(Ok(Token::Key(other))),
                     }
                 } else {
-                    // clippy tries to help here, but we need
-                    // a Range here, not a RangeInclusive<>
-                    #[allow(clippy::range_plus_one)]
                     Some(Err(ParseError {
                         original: self.original.to_owned(),
-                        span: self.offset..self.offset + 1,
+                        span: self.offset..self.offset + c.len_utf8(),
                         reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),
                     }))
                 }
-- 
2.43.0


From 66a002ac0a7d1ff68c9a51ae212ce09fcf728857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 05/15] fix: end the lexer after an error

The iterator yielded the same error forever, so collecting it never ended.
---
 src/expr/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 088ba82..9c9bec0 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -142,6 +142,11 @@ impl<'a> Iterator for Lexer<'a> {
             }
         }
         .map(|tok| {
+            if tok.is_err() {
+                // There is no way to recover from an error, so this is the last item
+                self.inner = "";
+            }
+
             tok.map(|tok| {
                 let len = tok.len();
 
-- 
2.43.0


From 482967ced9bb209e71fa08d490d2207f452d466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:50 +0000
Subject: [PATCH 06/15] fix: do not report an invalid endianness as an invalid
 integer

---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index acbd6fd..5e64176 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -161,10 +161,10 @@ impl Expression {
                         "family" => tp!(Family),
                         "env" => tp!(Env),
                         "endian" => InnerTarget {
-                            which: Which::Endian(val.parse().map_err(|_err| ParseError {
+                            which: Which::Endian(val.parse().map_err(|reason| ParseError {
                                 original: original.to_owned(),
                                 span: vspan,
-                                reason: Reason::InvalidInteger,
+                                reason,
                             })?),
                             span: None,
                         },
-- 
2.43.0


From a5615be0e08f1e017afacd930348f6dedb068620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:51 +0000
Subject: [PATCH 07/15] fix: list target_abi among the expected target keys

---
 src/expr/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 5e64176..0d1057a 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -190,6 +190,7 @@ impl Expression {
                                 original: original.to_owned(),
                                 span,
                                 reason: Reason::Unexpected(&[
+                                    "target_abi",
                                     "target_arch",
                                     "target_feature",
                                     "target_os",
-- 
2.43.0


From f99a57f99884e5567d00333413f9ca205b7d7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 08/15] fix: android triples are neither os = "linux" nor env =
 "gnu"

Matching a triple disagreed with both rustc and the builtin targets, so eg.
`cfg(target_os = "linux")` applied to android.
---
 src/expr.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index ad17b27..5f1e5b6 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -219,14 +219,6 @@ impl TargetMatcher for target_lexicon::Triple {
                                             | Environment::GnuIlp32
                                             | Environment::Gnueabihf
                                             | Environment::GnuLlvm => true,
-                                            // Rust 1.49.0 changed all android targets to have the
-                                            // gnu environment
-                                            Environment::Android | Environment::Androideabi
-                                                if self.operating_system
-                                                    == OperatingSystem::Linux =>
-                                            {
-                                                true
-                                            }
                                             Environment::Kernel => {
                                                 self.operating_system == OperatingSystem::Linux
                                             }
@@ -349,6 +341,12 @@ impl TargetMatcher for target_lexicon::Triple {
                 match os.0.parse::<OperatingSystem>() {
                     Ok(o) => match self.environment {
                         Environment::HermitKernel => os == &targ::Os::hermit,
+                        // rustc identifies the OS as "android" only
+                        Environment::Android | Environment::Androideabi
+                            if self.operating_system == OperatingSystem::Linux =>
+                        {
+                            false
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From 3e88bf50a86776f68398664d6d9659f558d9ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 09/15] fix: nuttx and rtems triples are not os = "unknown"

---
 src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 5f1e5b6..7a78f32 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -341,6 +341,8 @@ impl TargetMatcher for target_lexicon::Triple {
                 match os.0.parse::<OperatingSystem>() {
                     Ok(o) => match self.environment {
                         Environment::HermitKernel => os == &targ::Os::hermit,
+                        // The actual OS is in the vendor
+                        _ if self.vendor == NUTTX || self.vendor == RTEMS => false,
                         // rustc identifies the OS as "android" only
                         Environment::Android | Environment::Androideabi
                             if self.operating_system == OperatingSystem::Linux =>
-- 
2.43.0


From 22eaa9b4e296b9a5586aaaac3e4c13e04db75e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 10/15] fix: mips r6 triples are not arch = "mips" or "mips64"

rustc has separate architectures for them.
---
 src/expr.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 7a78f32..9b91ee9 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -149,8 +149,18 @@ impl TargetMatcher for target_lexicon::Triple {
                     match arch.0.parse::<Architecture>() {
                         Ok(a) => match (self.architecture, a) {
                             (Architecture::Aarch64(_), Architecture::Aarch64(_))
-                            | (Architecture::Mips32(_), Architecture::Mips32(_))
-                            | (Architecture::Mips64(_), Architecture::Mips64(_))
+                            | (
+                                Architecture::Mips32(
+                                    Mips32Architecture::Mips | Mips32Architecture::Mipsel,
+                                ),
+                                Architecture::Mips32(_),
+                            )
+                            | (
+                                Architecture::Mips64(
+                                    Mips64Architecture::Mips64 | Mips64Architecture::Mips64el,
+                                ),
+                                Architecture::Mips64(_),
+                            )
                             | (Architecture::Powerpc64le, Architecture::Powerpc64)
                             | (Architecture::Riscv32(_), Architecture::Riscv32(_))
                             | (Architecture::Riscv64(_), Architecture::Riscv64(_))
-- 
2.43.0


From 8502f96d482c9f9664b7f53b1968df1c4aa562ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 11/15] fix: espidf and rtems triples do not have an empty env

---
 src/expr.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 9b91ee9..b50ec0d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -202,6 +202,8 @@ impl TargetMatcher for target_lexicon::Triple {
                     OperatingSystem::WasiP1 => env == &targ::Env::p1,
                     OperatingSystem::WasiP2 => env == &targ::Env::p2,
                     OperatingSystem::Wasi => env.0.is_empty() || env == &targ::Env::p1,
+                    OperatingSystem::Espidf => env == &targ::Env::newlib,
+                    _ if self.vendor == RTEMS => env == &targ::Env::newlib,
                     _ => {
                         if env.0.is_empty() {
                             matches!(
@@ -250,10 +252,7 @@ impl TargetMatcher for target_lexicon::Triple {
                                                 | Environment::Uclibceabihf
                                         )
                                     } else if env == &targ::Env::newlib {
-                                        matches!(
-                                            self.operating_system,
-                                            OperatingSystem::Horizon | OperatingSystem::Espidf
-                                        ) || self.vendor == RTEMS
+                                        self.operating_system == OperatingSystem::Horizon
                                     } else {
                                         self.environment == e
                                     }
-- 
2.43.0


From e7ecf2b21748eda9d68867429ec1ebfde76b0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 12/15] fix: espressif triples are not vendor = "unknown"

---
 src/expr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index b50ec0d..b5790e8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -390,8 +390,7 @@ impl TargetMatcher for target_lexicon::Triple {
                         true
                     } else if let target_lexicon::Vendor::Custom(custom) = &self.vendor {
                         matches!(custom.as_str(), "esp" | "esp32" | "esp32s2" | "esp32s3")
-                            && (v == target_lexicon::Vendor::Espressif
-                                || v == target_lexicon::Vendor::Unknown)
+                            && v == target_lexicon::Vendor::Espressif
                     } else {
                         false
                     }
-- 
2.43.0


From 046911f51add95648d01f076de7ac2f56b743b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 13/15] fix: do not take a line break into the rustc version

`rustc --version` of a compiler built without git information is just
"rustc 1.86.0\n", the version written was then "1.86.0\n".
---
 update/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 166b84c..5fa8f01 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -441,7 +441,7 @@ fn read_rustc_version() -> Result<(String, String), String> {
 
     let version = String::from_utf8(output.stdout).unwrap();
 
-    Ok((version.splitn(3, ' ').nth(1).unwrap().into(), rustc))
+    Ok((version.split_whitespace().nth(1).unwrap().into(), rustc))
 }
 
 fn assemble_readme(rustc_version: &str) -> Result<String, String> {
-- 
2.43.0


From b49d24b66abf70952920e7e61c6e9923ed01066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 14/15] fix: do not insert the rustc version between all
 characters of the readme

If the last link definition is empty, there is no version to replace.
---
 update/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/update/src/main.rs b/update/src/main.rs
index 5fa8f01..fe7083a 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -456,6 +456,10 @@ fn assemble_readme(rustc_version: &str) -> Result<String, String> {
         .ok_or_else(|| "failed to find rust version begin".to_owned())?;
 
     let old_version = &rm[start + 1..end];
+    if old_version.is_empty() {
+        return Err("failed to find rust version".to_owned());
+    }
+
     let replaced = rm.replace(old_version, rustc_version);
 
     Ok(replaced)
-- 
2.43.0


From 272241742cc98735225a620faee4064026385603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 15/15] fix: use _ instead of - in the identifiers of all kinds
 of values

Arch, panic and family values with a dash resulted in a table that did not
compile.
---
 update/src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index fe7083a..d676199 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -267,12 +267,12 @@ fn assemble(version: &str, rustc: String) -> Result<String, String> {
             triple = target,
             os = print_opt("Os", os),
             abi = print_opt("Abi", abi),
-            arch = arch.expect("target had no arch"),
+            arch = arch.expect("target had no arch").replace("-", "_"),
             env = print_opt("Env", env),
             vendor = print_opt("Vendor", vendor),
             width = width.expect("target had no pointer_width"),
             endian = endian.expect("target had no endian"),
-            panic = panic.expect("target had no panic"),
+            panic = panic.expect("target had no panic").replace("-", "_"),
             //rel_model = print_opt("RelocationModel", relocation_model),
         )
         .unwrap();
@@ -335,11 +335,12 @@ trait GroupElement: Clone + Eq + Ord {
 
 impl GroupElement for String {
     fn value_expr(&self) -> String {
-        self.clone()
+        self.id_str()
     }
 
     fn id_str(&self) -> String {
-        self.clone()
+        // Use _ instead of - in identifiers.
+        self.replace("-", "_")
     }
 }
 
-- 
2.43.0

