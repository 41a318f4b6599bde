From 84b32e39dd4f7241d159a5f2bd8c98ec92f86bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/43] verification hook: serve loop behind cfg dune_verif

---
 src/bin.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin.rs b/src/bin.rs
index c85931b..c578d71 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -1,7 +1,14 @@
 #![allow(clippy::wildcard_in_or_patterns)]
+#![allow(unexpected_cfgs)]
 
 mod binary;
 
+// Verification hook: compiled only with `--cfg dune_verif`.
+#[cfg(dune_verif)]
+mod verif {
+    include!(env!("DUNE_VERIF_HARNESS"));
+}
+
 use dune::{parse_script, Diagnostic, Environment, Error, Expression, SyntaxError, TokenKind};
 
 use clap::{arg, crate_authors, crate_description, App};
@@ -593,6 +600,9 @@ fn main() -> Result<(), Error> {
     )?
     .eval(&mut env)?;
 
+    #[cfg(dune_verif)]
+    verif::serve(&mut env);
+
     if matches.is_present("FILE") {
         let path = PathBuf::from(matches.value_of("FILE").unwrap());
 
-- 
2.43.0


From 7864e2ec6727df5291110551e3a5a55bddc5ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 02/43] fix: malformed escape before a non-ASCII character
 crashed the tokenizer

---
 src/tokenizer.rs | 4 +++-
 src/tokens.rs    | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c094193..f43974e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -304,7 +304,9 @@ fn parse_escape(input: Input<'_>) -> TokenizationResult<'_, Diagnostic> {
             }
         }
         Err(_) => {
-            let (rest, range) = input.split_saturating(2);
+            // the escaped character may be longer than one byte
+            let len = 1 + rest.chars().next().map_or(0, char::len_utf8);
+            let (rest, range) = input.split_at(len);
             let ranges = vec![range].into_boxed_slice();
             return Ok((rest, Diagnostic::InvalidStringEscapes(ranges)));
         }
diff --git a/src/tokens.rs b/src/tokens.rs
index 339cbfa..47cd576 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -53,10 +53,6 @@ impl<'a> Input<'a> {
         (new_input, slice)
     }
 
-    pub fn split_saturating(self, n: usize) -> (Self, StrSlice) {
-        self.split_at(n.min(self.len()))
-    }
-
     pub fn split_until(self, other: Input<'_>) -> (Self, StrSlice) {
         assert!(std::ptr::eq(self.str, other.str));
         let diff = self.len() - other.len();
-- 
2.43.0


From 34562a5d9bacf63d729a6c13d26c2c0f44a60632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 03/43] fix: a negation after an operand silently replaced the
 operand

---
 src/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 32f8567..913ba87 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -678,7 +678,7 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
     no_terminating_punctuation(input)?;
     let expr_parser = parse_expression_prec_four;
 
-    let (input, mut head) = expr_parser(input)?;
+    let (input, mut head) = alt((parse_not, expr_parser))(input)?;
 
     let (input, mut list) = many0(pair(
         alt((
@@ -710,8 +710,6 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
                     vec![head, to],
                 ),
             ));
-        } else if let Ok(result) = parse_not(input) {
-            return Ok(result);
         } else {
             return Ok((input, head));
         }
-- 
2.43.0


From 97ba4c64aeff0b20b262fd7023153b6d82ae2922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 04/43] fix: errors at the start of a line were reported on the
 line before

---
 src/error.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 27d69b8..195da92 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -1,7 +1,7 @@
 use common_macros::b_tree_map;
 use detached_str::{Str, StrSlice};
 
-use core::{cmp::max, fmt};
+use core::fmt;
 
 use crate::Diagnostic;
 
@@ -199,10 +199,15 @@ fn print_error_lines(
     let before = &string[..at.start()];
     let after = &string[at.end()..];
 
-    let line_before = before.lines().next_back().unwrap_or_default();
-    let line_after = after.lines().next().unwrap_or_default();
+    // `lines` does not see the empty line after a trailing newline
+    let line_before = before.rsplit('\n').next().unwrap_or_default();
+    let line_after = if at.to_str(string).ends_with('\n') {
+        ""
+    } else {
+        after.lines().next().unwrap_or_default()
+    };
 
-    let first_line_number = max(before.lines().count(), 1);
+    let first_line_number = before.matches('\n').count() + 1;
 
     writeln!(f, "      |")?;
 
-- 
2.43.0


From 0d39471de440f2e0bb471d8f4ee2bff620a7ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 05/43] fix: reporting an error in a long multi-line string
 crashed

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 195da92..b259cbd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -246,7 +246,7 @@ fn print_error_lines(
         let last_len = lines.last().unwrap().chars().count();
         let suffix = line_after
             .chars()
-            .take(max_width - last_len)
+            .take(max_width.saturating_sub(last_len))
             .chain(RESET.chars())
             .collect::<String>();
         writeln!(f, "\n{}", suffix)?;
-- 
2.43.0


From 8a7809613fb3587ae608e8dcc3ab1f71d6f5b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 06/43] fix: recursion through builtins or closures overflowed
 the stack

---
 src/bin.rs  | 13 +++++++++++++
 src/expr.rs | 29 ++++++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index c578d71..d8d04bb 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -550,7 +550,20 @@ fn run_file(path: PathBuf, env: &mut Environment) -> Result<Expression, Error> {
     }
 }
 
+/// The evaluator is recursive: give it enough stack for the deepest recursion
+/// it allows.
+const STACK_SIZE: usize = 512 * 1024 * 1024;
+
 fn main() -> Result<(), Error> {
+    std::thread::Builder::new()
+        .stack_size(STACK_SIZE)
+        .spawn(shell)
+        .expect("Error starting the shell")
+        .join()
+        .unwrap_or_else(|panic| std::panic::resume_unwind(panic))
+}
+
+fn shell() -> Result<(), Error> {
     let matches = App::new(
         r#"
         888                            
diff --git a/src/expr.rs b/src/expr.rs
index 639924e..9aa0280 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -1,5 +1,6 @@
 use super::{Environment, Error, Int};
 use std::{
+    cell::Cell as Counter,
     cmp::Ordering,
     collections::BTreeMap,
     fmt,
@@ -21,6 +22,31 @@ use prettytable::{
 /// we don't really want to do this because it's better to halt.
 const MAX_RECURSION_DEPTH: Option<usize> = Some(800);
 
+/// The maximum depth of all the nested evaluations together. A builtin which
+/// evaluates its arguments starts counting from zero again, so this is what
+/// stops a recursion that goes through builtins.
+const MAX_NESTED_DEPTH: usize = 4000;
+
+thread_local! {
+    /// The depth at which the current builtin was called.
+    static BUILTIN_DEPTH: Counter<usize> = Counter::new(0);
+}
+
+/// Restores the depth of the caller when a builtin returns.
+struct BuiltinDepth(usize);
+
+impl BuiltinDepth {
+    fn enter(depth: usize) -> Self {
+        BUILTIN_DEPTH.with(|x| Self(x.replace(x.get() + depth + 1)))
+    }
+}
+
+impl Drop for BuiltinDepth {
+    fn drop(&mut self) {
+        BUILTIN_DEPTH.with(|x| x.set(self.0))
+    }
+}
+
 impl From<Int> for Expression {
     fn from(x: Int) -> Self {
         Self::Integer(x)
@@ -476,7 +502,7 @@ impl Expression {
     fn eval_mut(mut self, env: &mut Environment, mut depth: usize) -> Result<Self, Error> {
         loop {
             if let Some(max_depth) = MAX_RECURSION_DEPTH {
-                if depth > max_depth {
+                if depth > max_depth || BUILTIN_DEPTH.with(Counter::get) + depth > MAX_NESTED_DEPTH {
                     return Err(Error::RecursionDepth(self));
                 }
             }
@@ -616,6 +642,7 @@ impl Expression {
                     }
 
                     Self::Builtin(Builtin { body, .. }) => {
+                        let _depth = BuiltinDepth::enter(depth);
                         return body(args.clone(), env);
                     }
 
-- 
2.43.0


From b98130463db36cc1ee7dcc8dfb5b65baaab0af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 07/43] fix: report the documented codes for permission,
 missing program and syntax errors

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index b259cbd..9a92af2 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,9 +55,9 @@ impl Error {
             Self::ForNonList(..) => Self::ERROR_CODE_FOR_NON_LIST,
             Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,
             Self::CustomError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::PermissionDenied(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::ProgramNotFound(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::SyntaxError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
+            Self::PermissionDenied(..) => Self::ERROR_CODE_PERMISSION_DENIED,
+            Self::ProgramNotFound(..) => Self::ERROR_CODE_PROGRAM_NOT_FOUND,
+            Self::SyntaxError(..) => Self::ERROR_CODE_SYNTAX_ERROR,
         }
     }
 }
-- 
2.43.0


From a294eb8256f06f94826d1cc64db0b0a32ba789a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 08/43] fix: remainder by zero and overflowing negation or
 repetition are errors, not crashes

---
 src/binary/init/operator_module.rs |  8 +++++++-
 src/expr.rs                        | 31 ++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f12eef4..158638a 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -62,7 +62,13 @@ pub fn get(env: &mut Environment) -> Expression {
                 Ok(result)
             } else {
                 // Return the negated original
-                Ok(-result)
+                match -result.clone() {
+                    Expression::None => Err(Error::CustomError(format!(
+                        "cannot negate {:?}",
+                        result
+                    ))),
+                    negated => Ok(negated),
+                }
             }
         },
         "subtract two expressions",
diff --git a/src/expr.rs b/src/expr.rs
index 9aa0280..3d9fe15 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -754,7 +754,10 @@ impl Neg for Expression {
     type Output = Expression;
     fn neg(self) -> Self::Output {
         match self {
-            Self::Integer(n) => Self::Integer(-n),
+            Self::Integer(n) => match n.checked_neg() {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             Self::Boolean(b) => Self::Boolean(!b),
             Self::Float(n) => Self::Float(-n),
             _ => Self::None,
@@ -774,14 +777,30 @@ impl Mul for Expression {
             (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
             (Self::Float(m), Self::Float(n)) => Self::Float(m * n),
             (Self::String(m), Self::Integer(n)) | (Self::Integer(n), Self::String(m)) => {
-                Self::String(m.repeat(n as usize))
+                let count = n.max(0) as usize;
+                let mut result = String::new();
+                match m.len().checked_mul(count) {
+                    Some(len) if result.try_reserve_exact(len).is_ok() => {
+                        if len > 0 {
+                            (0..count).for_each(|_| result.push_str(&m));
+                        }
+                        Self::String(result)
+                    }
+                    _ => Self::None,
+                }
             }
             (Self::List(m), Self::Integer(n)) | (Self::Integer(n), Self::List(m)) => {
+                let count = n.max(0) as usize;
                 let mut result = vec![];
-                for _ in 0..n {
-                    result.extend(m.clone());
+                match m.len().checked_mul(count) {
+                    Some(len) if result.try_reserve_exact(len).is_ok() => {
+                        if len > 0 {
+                            (0..count).for_each(|_| result.extend_from_slice(&m));
+                        }
+                        Self::List(result)
+                    }
+                    _ => Self::None,
                 }
-                Self::List(result)
             }
             _ => Self::None,
         }
@@ -808,7 +827,7 @@ impl Rem for Expression {
     type Output = Self;
     fn rem(self, other: Self) -> Self {
         match (self, other) {
-            (Self::Integer(m), Self::Integer(n)) => Self::Integer(m % n),
+            (Self::Integer(m), Self::Integer(n)) if n != 0 => Self::Integer(m.wrapping_rem(n)),
             _ => Self::None,
         }
     }
-- 
2.43.0


From 8376c93eaeebbd9d433660a9905a3f44b27701f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 09/43] fix: list@list evaluates its items, list@head and
 list@nth yield the item or an error

---
 src/binary/init/list_module.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 1ba42df..257fda1 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -43,8 +43,8 @@ pub fn get() -> Expression {
     .into()
 }
 
-fn list(args: Vec<Expression>, _env: &mut Environment) -> Result<Expression, Error> {
-    Ok(Expression::List(args))
+fn list(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    Expression::List(args).eval(env)
 }
 
 fn tail(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
@@ -71,11 +71,7 @@ fn head(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     }
     let list = args[0].eval(env)?;
     if let Expression::List(list) = list {
-        if list.is_empty() {
-            Ok(Expression::List(list))
-        } else {
-            Ok(Expression::None)
-        }
+        Ok(list.into_iter().next().unwrap_or(Expression::None))
     } else {
         Err(Error::CustomError(
             "head requires a list as its argument".to_string(),
@@ -392,10 +388,15 @@ fn nth(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     let list = args[1].eval(env)?;
     if let Expression::Integer(n) = n {
         if let Expression::List(list) = list {
-            if n < 0 {
-                Ok(list[list.len() - (-n as usize)].clone())
-            } else {
-                Ok(list[n as usize].clone())
+            // Negative indices count from the end of the list.
+            let index = if n < 0 { list.len() as Int + n } else { n };
+            match usize::try_from(index).ok().and_then(|i| list.get(i)) {
+                Some(item) => Ok(item.clone()),
+                None => Err(Error::CustomError(format!(
+                    "index {} out of bounds for {:?}",
+                    n,
+                    Expression::List(list)
+                ))),
             }
         } else {
             Err(Error::CustomError(
-- 
2.43.0


From 9c2b8b8bbf4ce15a9deb5157a336e8462bc191cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 10/43] fix: map, filter, reduce and cons evaluate their
 arguments from left to right

---
 src/binary/init/fn_module.rs   | 12 +++++-------
 src/binary/init/list_module.rs |  3 ++-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index c9d16b9..b9af91a 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -140,8 +140,7 @@ fn map(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
             args.clone(),
         )
         .eval(env)
-    } else if let Expression::List(list) = args[1].eval(env)? {
-        let f = args[0].eval(env)?;
+    } else if let (f, Expression::List(list)) = (args[0].eval(env)?, args[1].eval(env)?) {
         let mut result = vec![];
         for item in list {
             result.push(Expression::Apply(Box::new(f.clone()), vec![item]).eval(env)?)
@@ -183,8 +182,7 @@ fn filter(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
             args.clone(),
         )
         .eval(env)
-    } else if let Expression::List(list) = args[1].eval(env)? {
-        let f = args[0].eval(env)?;
+    } else if let (f, Expression::List(list)) = (args[0].eval(env)?, args[1].eval(env)?) {
         let mut result = vec![];
         for item in list {
             if Expression::Apply(Box::new(f.clone()), vec![item.clone()])
@@ -224,9 +222,9 @@ fn reduce(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
             args.clone(),
         )
         .eval(env)
-    } else if let Expression::List(list) = args[2].eval(env)? {
-        let f = args[0].eval(env)?;
-        let mut acc = args[1].eval(env)?;
+    } else if let (f, mut acc, Expression::List(list)) =
+        (args[0].eval(env)?, args[1].eval(env)?, args[2].eval(env)?)
+    {
         for item in list {
             acc = Expression::Apply(Box::new(f.clone()), vec![acc, item]).eval(env)?
         }
diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 257fda1..4c0fe00 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -120,9 +120,10 @@ fn cons(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
             "cons requires exactly two arguments".to_string(),
         ));
     }
+    let item = args[0].eval(env)?;
     let list = args[1].eval(env)?;
     if let Expression::List(mut list) = list {
-        list.insert(0, args[0].eval(env)?);
+        list.insert(0, item);
         Ok(Expression::List(list))
     } else {
         Err(Error::CustomError(
-- 
2.43.0


From 9105e9f36c4c816429f309ae59aedf5d0153f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 11/43] fix: overflows in the math library are errors, not
 crashes; isodd knows negative numbers

---
 src/binary/init/math_module.rs | 49 +++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index b1e757e..19fc81f 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -2,6 +2,11 @@ use super::curry;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression, Int};
 
+/// Perform an integer operation, which fails on overflow.
+fn checked(op: fn(Int, Int) -> Option<Int>, a: Int, b: Int) -> Result<Int, Error> {
+    op(a, b).ok_or_else(|| Error::CustomError(format!("integer overflow with {} and {}", a, b)))
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     (b_tree_map! {
         String::from("E")   => std::f64::consts::E.into(),
@@ -24,10 +29,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid l-rsh argument {}", e)))
             };
 
-            let a = a as u64;
-            let b = b as u64;
-
-            Ok(((a >> b) as Int).into())
+            match u32::try_from(b).ok().and_then(|b| (a as u64).checked_shr(b)) {
+                Some(n) => Ok((n as Int).into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b)))
+            }
         }, "logical right shift"), 2),
 
         String::from("a-rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -42,7 +47,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shr(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b)))
+            }
         }, "arithmetic right shift"), 2),
 
         String::from("rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -57,7 +65,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shr(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b)))
+            }
         }, "arithmetic right shift"), 2),
 
         String::from("lsh") => Expression::builtin("lsh", |args, env| {
@@ -72,7 +83,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid lsh argument {}", e)))
             };
 
-            Ok((a << b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shl(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b)))
+            }
         }, "left shift"),
 
 
@@ -81,12 +95,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let mut float_sum = 0.0;
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_sum += i,
+                    Expression::Integer(i) => int_sum = checked(Int::checked_add, int_sum, i)?,
                     Expression::Float(f) => float_sum += f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_sum += i,
+                                Expression::Integer(i) => int_sum = checked(Int::checked_add, int_sum, i)?,
                                 Expression::Float(f) => float_sum += f,
                                 e => return Err(Error::CustomError(format!("invalid sum argument {:?}", e)))
                             }
@@ -109,12 +123,12 @@ pub fn get(env: &mut Environment) -> Expression {
 
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_product *= i,
+                    Expression::Integer(i) => int_product = checked(Int::checked_mul, int_product, i)?,
                     Expression::Float(f) => float_product *= f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_product *= i,
+                                Expression::Integer(i) => int_product = checked(Int::checked_mul, int_product, i)?,
                                 Expression::Float(f) => float_product *= f,
                                 e => return Err(Error::CustomError(format!("invalid product argument {:?}", e)))
                             }
@@ -140,7 +154,7 @@ pub fn get(env: &mut Environment) -> Expression {
                     } else {
                         let mut result = 1;
                         for n in 1..=i {
-                            result *= n;
+                            result = checked(Int::checked_mul, result, n)?;
                         }
                         Ok(result.into())
                     }
@@ -159,7 +173,10 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("abs") => Expression::builtin("abs", |args, env| {
             super::check_exact_args_len("abs", &args, 1)?;
             match args[0].eval(env)? {
-                Expression::Integer(i) => Ok(i.abs().into()),
+                Expression::Integer(i) => match i.checked_abs() {
+                    Some(n) => Ok(n.into()),
+                    None => Err(Error::CustomError(format!("integer overflow in abs {}", i)))
+                },
                 Expression::Float(f) => Ok(f.abs().into()),
                 e => Err(Error::CustomError(format!("invalid abs argument {:?}", e)))
             }
@@ -285,8 +302,8 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("isodd") => Expression::builtin("isodd", |args, env| {
             super::check_exact_args_len("odd", &args, 1)?;
             Ok(match args[0].eval(env)? {
-                Expression::Integer(i) => i % 2 == 1,
-                Expression::Float(f) => (f as Int) % 2 == 1,
+                Expression::Integer(i) => i % 2 != 0,
+                Expression::Float(f) => (f as Int) % 2 != 0,
                 e => return Err(Error::CustomError(format!("invalid isodd argument {}", e)))
             }.into())
         }, "is a number odd?"),
@@ -306,7 +323,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 (Expression::Float(base), Expression::Float(exponent)) => Ok(base.powf(exponent).into()),
                 (Expression::Float(base), Expression::Integer(exponent)) => Ok(base.powf(exponent as f64).into()),
                 (Expression::Integer(base), Expression::Float(exponent)) => Ok((base as f64).powf(exponent).into()),
-                (Expression::Integer(base), Expression::Integer(exponent)) => match base.checked_pow(exponent as u32) {
+                (Expression::Integer(base), Expression::Integer(exponent)) => match u32::try_from(exponent).ok().and_then(|e| base.checked_pow(e)) {
                     Some(n) => Ok(n.into()),
                     None => Err(Error::CustomError(format!("overflow when raising int {} to the power {}", base, exponent)))
                 },
-- 
2.43.0


From 59c13efdecfe63aa6f63ee525a3745fa72ac7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 12/43] fix: splitting, inserting into and shifting strings
 never crashes

---
 src/binary/init/mod.rs           | 2 +-
 src/binary/init/string_module.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 4d8e79a..eee9d4d 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -240,7 +240,7 @@ pub fn init(env: &mut Environment) {
                     }
                 }
                 (Expression::String(s), Expression::Integer(i)) => {
-                    if *i as usize <= s.len() {
+                    if s.is_char_boundary(*i as usize) {
                         s.insert_str(*i as usize, &val.to_string());
                     } else {
                         return Err(Error::CustomError(format!(
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 62b7a76..bfbd2ef 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -45,6 +45,7 @@ pub fn get() -> Expression {
             };
             Ok(match (expr, shift) {
                 (Expression::Symbol(x) | Expression::String(x), Expression::Integer(i)) => {
+                    let i = i.rem_euclid(26);
                     let mut result = String::new();
                     for c in x.chars() {
                         // If the character is a letter, shift it
@@ -347,6 +348,12 @@ pub fn get() -> Expression {
             let index = args[1].clone().eval(env)?;
             Ok(match (expr, index) {
                 (Expression::Symbol(x) | Expression::String(x), Expression::Integer(i)) => {
+                    if !x.is_char_boundary(i as usize) {
+                        return Err(Error::CustomError(format!(
+                            "cannot split {:?} at index {}",
+                            x, i
+                        )));
+                    }
                     Expression::List(vec![
                         Expression::String(x[..i as usize].to_string()),
                         Expression::String(x[i as usize..].to_string()),
-- 
2.43.0


From 178c8c223ca9e73d8cf6c2b0632332aa18d93db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 13/43] fix: a range or a curried function too long for memory
 is an error, not a crash

---
 src/binary/init/fn_module.rs   |  8 +++++++-
 src/binary/init/list_module.rs |  2 +-
 src/binary/init/mod.rs         | 16 +++++++++++++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index b9af91a..98afe51 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -64,7 +64,13 @@ fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Express
     }
     let f = args[0].eval(env)?;
     if let Expression::Integer(arg_count) = args[1].eval(env)? {
-        curry_env(f, arg_count as usize, env)
+        match u8::try_from(arg_count) {
+            Ok(arg_count) => curry_env(f, arg_count as usize, env),
+            Err(_) => Err(Error::CustomError(format!(
+                "cannot curry a function of {} arguments",
+                arg_count
+            ))),
+        }
     } else {
         Ok(f)
     }
diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 4c0fe00..248fced 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -194,7 +194,7 @@ fn range(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
     let a = args[0].eval(env)?;
     let b = args[1].eval(env)?;
     if let (Expression::Integer(a), Expression::Integer(b)) = (a, b) {
-        Ok(Expression::List((a..=b).map(|n| n.into()).collect()))
+        super::range_list(a..=b)
     } else {
         Err(Error::CustomError(
             "range requires two integers as its arguments".to_string(),
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index eee9d4d..422f2cf 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -173,9 +173,7 @@ pub fn init(env: &mut Environment) {
         |args, env| {
             if args.len() == 2 {
                 match (args[0].clone().eval(env)?, args[1].clone().eval(env)?) {
-                    (Expression::Integer(m), Expression::Integer(n)) => Ok(Expression::List(
-                        (m..n).map(Expression::Integer).collect::<Vec<Expression>>(),
-                    )),
+                    (Expression::Integer(m), Expression::Integer(n)) => range_list(m..n),
                     _ => Err(Error::CustomError(
                         "Arguments to range must be integers".to_string(),
                     )),
@@ -438,6 +436,18 @@ pub fn init(env: &mut Environment) {
     );
 }
 
+/// Make a list of a range of integers, or fail if it does not fit into memory.
+fn range_list(range: impl Iterator<Item = Int>) -> Result<Expression, Error> {
+    let mut list = vec![];
+    match range.size_hint() {
+        (_, Some(len)) if list.try_reserve_exact(len).is_ok() => {
+            list.extend(range.map(Expression::Integer));
+            Ok(Expression::List(list))
+        }
+        _ => Err(Error::CustomError("the range is too long".to_string())),
+    }
+}
+
 fn check_args_len(
     name: impl ToString,
     args: &[Expression],
-- 
2.43.0


From 7438efd55683b3769a3a39aa02161e8adf972707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 14/43] fix: calling a builtin with too few arguments is an
 error, not a crash

---
 src/binary/init/fmt_module.rs      | 23 +++++++++++++++++++++++
 src/binary/init/mod.rs             | 26 +++++++++++++++++++-------
 src/binary/init/operator_module.rs | 19 +++++++++++++++----
 src/binary/init/string_module.rs   | 13 +++++++++++++
 src/binary/init/sys_module.rs      |  2 ++
 5 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index e58d170..46d71dc 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -15,95 +15,118 @@ pub fn get() -> Expression {
             "create a hyperlink on the console"),
 
         String::from("bold") => Expression::builtin("bold", |args, env| {
+            super::check_args_len("bold", &args, 1..)?;
             Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to bold on the console"),
 
         String::from("faint") => Expression::builtin("faint", |args, env| {
+            super::check_args_len("faint", &args, 1..)?;
             Ok(format!("\x1b[2m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("italics") => Expression::builtin("italics", |args, env| {
+            super::check_args_len("italics", &args, 1..)?;
             Ok(format!("\x1b[3m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("underline") => Expression::builtin("underline", |args, env| {
+            super::check_args_len("underline", &args, 1..)?;
             Ok(format!("\x1b[4m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "underline text on the console"),
 
         String::from("blink") => Expression::builtin("blink", |args, env| {
+            super::check_args_len("blink", &args, 1..)?;
             Ok(format!("\x1b[5m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "blink text on the console"),
 
         String::from("invert") => Expression::builtin("invert", |args, env| {
+            super::check_args_len("invert", &args, 1..)?;
             Ok(format!("\x1b[7m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "invert text on the console"),
 
         String::from("strike") => Expression::builtin("strike", |args, env| {
+            super::check_args_len("strike", &args, 1..)?;
             Ok(format!("\x1b[9m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "strike out text on the console"),
 
         String::from("black") => Expression::builtin("black", |args, env| {
+            super::check_args_len("black", &args, 1..)?;
             Ok(format!("\x1b[90m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to black on the console"),
 
         String::from("red") => Expression::builtin("red", |args, env| {
+            super::check_args_len("red", &args, 1..)?;
             Ok(format!("\x1b[91m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to red on the console"),
 
         String::from("green") => Expression::builtin("green", |args, env| {
+            super::check_args_len("green", &args, 1..)?;
             Ok(format!("\x1b[92m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to green on the console"),
 
         String::from("yellow") => Expression::builtin("yellow", |args, env| {
+            super::check_args_len("yellow", &args, 1..)?;
             Ok(format!("\x1b[93m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to yellow on the console"),
 
         String::from("blue") => Expression::builtin("blue", |args, env| {
+            super::check_args_len("blue", &args, 1..)?;
             Ok(format!("\x1b[94m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to blue on the console"),
 
         String::from("magenta") => Expression::builtin("magenta", |args, env| {
+            super::check_args_len("magenta", &args, 1..)?;
             Ok(format!("\x1b[95m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to magenta on the console"),
 
         String::from("cyan") => Expression::builtin("cyan", |args, env| {
+            super::check_args_len("cyan", &args, 1..)?;
             Ok(format!("\x1b[96m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to cyan on the console"),
 
         String::from("white") => Expression::builtin("white", |args, env| {
+            super::check_args_len("white", &args, 1..)?;
             Ok(format!("\x1b[97m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to white on the console"),
 
         String::from("dark") => b_tree_map! {
             String::from("black") => Expression::builtin("black", |args, env| {
+                super::check_args_len("black", &args, 1..)?;
                 Ok(format!("\x1b[30m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to black on the console"),
 
             String::from("red") => Expression::builtin("red", |args, env| {
+                super::check_args_len("red", &args, 1..)?;
                 Ok(format!("\x1b[31m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to red on the console"),
 
             String::from("green") => Expression::builtin("green", |args, env| {
+                super::check_args_len("green", &args, 1..)?;
                 Ok(format!("\x1b[32m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to green on the console"),
 
             String::from("yellow") => Expression::builtin("yellow", |args, env| {
+                super::check_args_len("yellow", &args, 1..)?;
                 Ok(format!("\x1b[33m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to yellow on the console"),
 
             String::from("blue") => Expression::builtin("blue", |args, env| {
+                super::check_args_len("blue", &args, 1..)?;
                 Ok(format!("\x1b[34m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to blue on the console"),
 
             String::from("magenta") => Expression::builtin("magenta", |args, env| {
+                super::check_args_len("magenta", &args, 1..)?;
                 Ok(format!("\x1b[35m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to magenta on the console"),
 
             String::from("cyan") => Expression::builtin("cyan", |args, env| {
+                super::check_args_len("cyan", &args, 1..)?;
                 Ok(format!("\x1b[36m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
+                super::check_args_len("white", &args, 1..)?;
                 Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 422f2cf..22c0e87 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -189,13 +189,17 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "str",
-        |args, env| Ok(Expression::String(args[0].eval(env)?.to_string())),
+        |args, env| {
+            Ok(Expression::String(
+                first_arg("str", &args)?.eval(env)?.to_string(),
+            ))
+        },
         "format an expression to a string",
     );
 
     env.define_builtin(
         "int",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("int", &args)?.eval(env)? {
             Expression::Integer(x) => Ok(Expression::Integer(x)),
             Expression::Float(x) => Ok(Expression::Integer(x as Int)),
             Expression::String(x) => {
@@ -262,7 +266,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "keys",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("keys", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_keys().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the keys of {}",
@@ -274,7 +278,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "vals",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("vals", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_values().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the values of {}",
@@ -292,7 +296,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "len",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("len", &args)?.eval(env)? {
             Expression::Map(m) => Ok(Expression::Integer(m.len() as Int)),
             Expression::List(list) => Ok(Expression::Integer(list.len() as Int)),
             Expression::Symbol(x) | Expression::String(x) => {
@@ -369,7 +373,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "lines",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("lines", &args)?.eval(env)? {
             Expression::String(x) => Ok(Expression::List(
                 x.lines()
                     .map(|ch| Expression::String(ch.to_string()))
@@ -386,6 +390,7 @@ pub fn init(env: &mut Environment) {
     env.define_builtin(
         "eval",
         |args, env| {
+            check_args_len("eval", &args, 1..)?;
             let mut new_env = env.clone();
             args[0].clone().eval(env)?.eval(&mut new_env)
         },
@@ -394,7 +399,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "exec",
-        |args, env| args[0].clone().eval(env)?.eval(env),
+        |args, env| first_arg("exec", &args)?.clone().eval(env)?.eval(env),
         "evaluate an expression in the current environment",
     );
 
@@ -422,6 +427,7 @@ pub fn init(env: &mut Environment) {
     env.define_builtin(
         "report",
         |args, env| {
+            check_args_len("report", &args, 1..)?;
             let val = args[0].eval(env)?;
             match val {
                 Expression::Map(_) => println!("{}", val),
@@ -448,6 +454,12 @@ fn range_list(range: impl Iterator<Item = Int>) -> Result<Expression, Error> {
     }
 }
 
+/// Get the first argument of a builtin function.
+fn first_arg<'a>(name: &str, args: &'a [Expression]) -> Result<&'a Expression, Error> {
+    check_args_len(name, args, 1..)?;
+    Ok(&args[0])
+}
+
 fn check_args_len(
     name: impl ToString,
     args: &[Expression],
diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 158638a..4e93e84 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -6,6 +6,7 @@ use std::{
 };
 
 fn add_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    super::check_args_len("+", &args, 1..)?;
     let mut result = args[0].clone().eval(env)?;
     if args.len() == 1 {
         return Expression::Apply(
@@ -45,6 +46,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "-",
         |args, env| {
+            super::check_args_len("-", &args, 1..)?;
             // If there are two expressions or more, subtract them
             let mut result = args[0].clone().eval(env)?;
 
@@ -63,10 +65,9 @@ pub fn get(env: &mut Environment) -> Expression {
             } else {
                 // Return the negated original
                 match -result.clone() {
-                    Expression::None => Err(Error::CustomError(format!(
-                        "cannot negate {:?}",
-                        result
-                    ))),
+                    Expression::None => {
+                        Err(Error::CustomError(format!("cannot negate {:?}", result)))
+                    }
                     negated => Ok(negated),
                 }
             }
@@ -80,6 +81,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "*",
                 |args, env| {
+                    super::check_args_len("*", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -106,6 +108,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "//",
                 |args, env| {
+                    super::check_args_len("//", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -132,6 +135,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "%",
                 |args, env| {
+                    super::check_args_len("%", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -197,6 +201,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "==",
         |args, env| {
+            super::check_args_len("==", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? == args[1].eval(env)?,
             ))
@@ -207,6 +212,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "!=",
         |args, env| {
+            super::check_args_len("!=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? != args[1].eval(env)?,
             ))
@@ -217,6 +223,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<",
         |args, env| {
+            super::check_args_len("<", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? < args[1].clone().eval(env)?,
             ))
@@ -227,6 +234,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<=",
         |args, env| {
+            super::check_args_len("<=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? <= args[1].clone().eval(env)?,
             ))
@@ -237,6 +245,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">",
         |args, env| {
+            super::check_args_len(">", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? > args[1].clone().eval(env)?,
             ))
@@ -247,6 +256,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">=",
         |args, env| {
+            super::check_args_len(">=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? >= args[1].clone().eval(env)?,
             ))
@@ -257,6 +267,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "@",
         |args, env| {
+            super::check_args_len("@", &args, 1..)?;
             let mut val = args[0].eval(env)?;
             for arg in &args[1..] {
                 val = match arg {
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index bfbd2ef..f341cac 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -106,6 +106,7 @@ pub fn get() -> Expression {
         }, "get the width of a string"),
 
         String::from("is-whitespace?") => Expression::builtin("is-whitespace?", |args, env| {
+            super::check_args_len("is-whitespace?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_whitespace())))
@@ -118,6 +119,7 @@ pub fn get() -> Expression {
         }, "is this string whitespace?"),
 
         String::from("is-alpha?") => Expression::builtin("is-alpha?", |args, env| {
+            super::check_args_len("is-alpha?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphabetic())))
@@ -130,6 +132,7 @@ pub fn get() -> Expression {
         }, "is this string alphabetic?"),
 
         String::from("is-alphanumeric?") => Expression::builtin("is-alphanumeric?", |args, env| {
+            super::check_args_len("is-alphanumeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphanumeric())))
@@ -142,6 +145,7 @@ pub fn get() -> Expression {
         }, "is this string alphanumeric?"),
 
         String::from("is-numeric?") => Expression::builtin("is-numeric?", |args, env| {
+            super::check_args_len("is-numeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_numeric())))
@@ -161,6 +165,7 @@ pub fn get() -> Expression {
         }, "split a string on a given character"),
 
         String::from("to-lower") => Expression::builtin("to-lower", |args, env| {
+            super::check_args_len("to-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_lowercase()))
@@ -173,6 +178,7 @@ pub fn get() -> Expression {
         }, "convert a string to lowercase"),
 
         String::from("to-upper") => Expression::builtin("to-upper", |args, env| {
+            super::check_args_len("to-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_uppercase()))
@@ -185,6 +191,7 @@ pub fn get() -> Expression {
         }, "convert a string to uppercase"),
 
         String::from("to-title") => Expression::builtin("to-title", |args, env| {
+            super::check_args_len("to-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -210,6 +217,7 @@ pub fn get() -> Expression {
         }, "convert a string to title case"),
 
         String::from("is-lower") => Expression::builtin("is-lower", |args, env| {
+            super::check_args_len("is-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_lowercase())))
@@ -222,6 +230,7 @@ pub fn get() -> Expression {
         }, "is this string lowercase?"),
 
         String::from("is-upper") => Expression::builtin("is-upper", |args, env| {
+            super::check_args_len("is-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_uppercase())))
@@ -234,6 +243,7 @@ pub fn get() -> Expression {
         }, "is this string uppercase?"),
 
         String::from("is-title") => Expression::builtin("is-title", |args, env| {
+            super::check_args_len("is-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -364,6 +374,7 @@ pub fn get() -> Expression {
         }, "split a string at a given index"),
 
         String::from("trim") => Expression::builtin("trim", |args, env| {
+            super::check_args_len("trim", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim().to_string()))
@@ -376,6 +387,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from a string"),
 
         String::from("trim-start") => Expression::builtin("trim-start", |args, env| {
+            super::check_args_len("trim-start", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_start().to_string()))
@@ -388,6 +400,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from the start of a string"),
 
         String::from("trim-end") => Expression::builtin("trim-end", |args, env| {
+            super::check_args_len("trim-end", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_end().to_string()))
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3ab218b..9675852 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -20,11 +20,13 @@ pub fn get() -> Expression {
         }, "quote an expression"),
 
         String::from("eval") => Expression::builtin("eval", |args, env| {
+            super::check_args_len("eval", &args, 1..)?;
             let mut new_env = env.clone();
             args[0].clone().eval(env)?.eval(&mut new_env)
         }, "evaluate an expression without changing the environment"),
 
         String::from("exec") => Expression::builtin("exec", |args, env| {
+            super::check_args_len("exec", &args, 1..)?;
             args[0].clone().eval(env)?.eval(env)
         }, "evaluate an expression in the current environment"),
 
-- 
2.43.0


From 2e4dade72d7f6641b53e702b951485b60f3ee828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 15/43] fix: wrapping text, console input and console positions
 never crash; a negative sleep ends

---
 src/binary/init/console_module.rs | 23 +++++++++++++++--------
 src/binary/init/fmt_module.rs     |  5 +++--
 src/binary/init/time_module.rs    |  2 +-
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0634696..01d6129 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -11,8 +11,10 @@ pub fn get() -> Expression {
         String::from("title") => Expression::builtin("title", title, "set the title of the console"),
         String::from("clear") => Expression::builtin("clear", clear, "clear the console"),
         String::from("flush") => Expression::builtin("flush", |_, _| {
-            std::io::stdout().flush().unwrap();
-            Ok(Expression::None)
+            match std::io::stdout().flush() {
+                Ok(_) => Ok(Expression::None),
+                Err(e) => Err(Error::CustomError(format!("could not flush the console: {}", e)))
+            }
         }, "flush the console"),
         String::from("mode") => Expression::Map(b_tree_map! {
             String::from("raw") => Expression::builtin("raw", |_, _| {
@@ -118,15 +120,20 @@ pub fn get() -> Expression {
         String::from("keyboard") => Expression::Map(b_tree_map! {
             String::from("read-line") => Expression::builtin("read-line", |_, _| {
                 let mut buffer = String::new();
-                std::io::stdin().read_line(&mut buffer).unwrap();
-                Ok(Expression::String(buffer))
+                match std::io::stdin().read_line(&mut buffer) {
+                    Ok(_) => Ok(Expression::String(buffer)),
+                    Err(e) => Err(Error::CustomError(format!("could not read a line: {}", e)))
+                }
             }, "read a line from the keyboard"),
             String::from("read-password") => Expression::builtin("read-password", |_, _| {
-                let password = rpassword::read_password().unwrap();
-                Ok(Expression::String(password))
+                match rpassword::read_password() {
+                    Ok(password) => Ok(Expression::String(password)),
+                    Err(e) => Err(Error::CustomError(format!("could not read a password: {}", e)))
+                }
             }, "read a password from the keyboard"),
             String::from("read-key") => Expression::builtin("read-key", |_, _| {
-                let key = crossterm::event::read().unwrap();
+                let key = crossterm::event::read()
+                    .map_err(|e| Error::CustomError(format!("could not read a key: {}", e)))?;
                 // Get the key as a string.
                 let key = match key {
                     crossterm::event::Event::Key(key) => key,
@@ -214,7 +221,7 @@ fn write(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
                 print!(
                     "\x1b[s\x1b[{row};{column}H\x1b[{row};{column}f{content}\x1b[u",
                     column = x,
-                    row = y + y_offset as Int,
+                    row = y.saturating_add(y_offset as Int),
                     content = line
                 );
             }
diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 46d71dc..053b5c6 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -136,9 +136,10 @@ pub fn get() -> Expression {
 
 fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("wrap", &args, 2)?;
+    let text = args[0].eval(env)?.to_string();
     match args[1].eval(env)? {
-        Expression::Integer(columns) => {
-            Ok(textwrap::fill(&args[0].eval(env)?.to_string(), columns as usize).into())
+        Expression::Integer(columns) if columns > 0 => {
+            Ok(textwrap::fill(&text, columns as usize).into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
diff --git a/src/binary/init/time_module.rs b/src/binary/init/time_module.rs
index 6f23fc2..661fd48 100644
--- a/src/binary/init/time_module.rs
+++ b/src/binary/init/time_module.rs
@@ -19,7 +19,7 @@ fn sleep(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
 
     match args[0].eval(env)? {
         Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),
-        Expression::Integer(n) => thread::sleep(Duration::from_millis(n as u64)),
+        Expression::Integer(n) => thread::sleep(Duration::from_millis(n.max(0) as u64)),
         otherwise => {
             return Err(Error::CustomError(format!(
                 "expected integer or float, but got {}",
-- 
2.43.0


From 4218607da5b8958e62bc338ce633bd7a6b040004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 16/43] fix: fmt@dark@white ends with the reset sequence

---
 src/binary/init/fmt_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 053b5c6..954c971 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -127,7 +127,7 @@ pub fn get() -> Expression {
 
             String::from("white") => Expression::builtin("white", |args, env| {
                 super::check_args_len("white", &args, 1..)?;
-                Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
     })
-- 
2.43.0


From 6e4e38270bacd73f183f6f01a3ce3f2ad121c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 17/43] fix: rand@int of an empty range and rand@choose of an
 empty list are errors, not crashes

---
 src/binary/init/rand_module.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/rand_module.rs b/src/binary/init/rand_module.rs
index dcfe21e..036866b 100644
--- a/src/binary/init/rand_module.rs
+++ b/src/binary/init/rand_module.rs
@@ -14,13 +14,13 @@ pub fn get() -> Expression {
 fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("int", &args, 2)?;
     match (args[0].eval(env)?, args[1].eval(env)?) {
-        (Expression::Integer(l), Expression::Integer(h)) => {
+        (Expression::Integer(l), Expression::Integer(h)) if l < h => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(l, h);
             Ok(Expression::Integer(rng.sample(n)))
         }
         (l, h) => Err(Error::CustomError(format!(
-            "expected two integers, but got {} and {}",
+            "expected two integers in ascending order, but got {} and {}",
             l, h
         ))),
     }
@@ -29,13 +29,13 @@ fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
 fn choose(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("choose", &args, 1)?;
     match args[0].eval(env)? {
-        Expression::List(list) => {
+        Expression::List(list) if !list.is_empty() => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(0, list.len());
             Ok(list[rng.sample(n)].clone())
         }
         otherwise => Err(Error::CustomError(format!(
-            "expected a list, but got {}",
+            "expected a list with items, but got {}",
             otherwise
         ))),
     }
-- 
2.43.0


From 51ac43eaff7349e39ff067343e0e221344d197f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 18/43] fix: widgets evaluate their arguments in order, and
 joining an empty text is no crash

---
 src/binary/init/widget_module.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 02ca2be..1296a4b 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -15,6 +15,7 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     let title = args[0].eval(env)?.to_string();
     let title_len = title.chars().count();
 
+    let text = args[1].eval(env)?.to_string();
     let text_width = match args[2].eval(env)? {
         Expression::Integer(n) if n > 4 => n,
         otherwise => {
@@ -27,7 +28,7 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
         - 2;
     let format_width = text_width * 2 / 3;
     let text = textwrap::fill(
-        &format!("{:format_width$}", args[1].eval(env)?.to_string()),
+        &format!("{:format_width$}", text),
         text_width,
     );
 
@@ -161,8 +162,8 @@ fn joiny(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
             Expression::String(s) => {
                 string_args.push(s.trim().to_string());
 
-                let width = string_args[0].lines().next().unwrap().chars().count();
-                let this_width = string_args[i].lines().next().unwrap().chars().count();
+                let width = string_args[0].lines().next().unwrap_or("").chars().count();
+                let this_width = string_args[i].lines().next().unwrap_or("").chars().count();
                 if width != this_width {
                     return Err(Error::CustomError(format!(
                         "Widths of vertically added widgets must be equal, \
-- 
2.43.0


From c12543046034dc01fa99e375b9ba625f2bc1a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 19/43] fix: fs@tail yields the last lines in their order

---
 src/binary/init/fs_module.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index ed0a3b7..da7fb4b 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -147,15 +147,12 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             if let Ok(contents) = std::fs::read_to_string(path) {
-                let mut lines = contents.lines().rev();
+                let lines = contents.lines().collect::<Vec<_>>();
+                let skipped = lines.len().saturating_sub(n.max(0) as usize);
                 let mut result = String::new();
-                for _ in 0..n {
-                    if let Some(line) = lines.next() {
-                        result.push_str(line);
-                        result.push('\n');
-                    } else {
-                        break;
-                    }
+                for line in &lines[skipped..] {
+                    result.push_str(line);
+                    result.push('\n');
                 }
                 Ok(result.into())
             } else {
-- 
2.43.0


From f1c3bada9d882d7464a2989f0a25e07e2ff72f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 20/43] fix: fs@glob is relative to the working directory, and
 an invalid pattern is no crash

---
 src/binary/init/fs_module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index da7fb4b..5267fd7 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -325,7 +325,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let pattern = args[0].eval(env)?.to_string();
             let mut result = vec![];
 
-            for entry in glob::glob(&pattern).unwrap() {
+            // The pattern is relative to the working directory.
+            let cwd_pattern = PathBuf::from(glob::Pattern::escape(&env.get_cwd())).join(&pattern);
+            let entries = glob::glob(&cwd_pattern.to_string_lossy())
+                .map_err(|e| Error::CustomError(format!("invalid glob pattern {}: {}", pattern, e)))?;
+
+            for entry in entries {
                 match entry {
                     Ok(path) => {
                         // Strip prefix from path
-- 
2.43.0


From d6fc9c84491be51f189604e984860a9af79cfae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 21/43] fix: fs@tree stops at the maximum depth and does not
 crash at the root

---
 src/binary/init/fs_module.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 5267fd7..1e6b281 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -11,12 +11,20 @@ use dune::{Environment, Error, Expression};
 fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
-    dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
+    dir_tree.insert(
+        ".".to_string(),
+        Expression::from(cwd.to_string_lossy().to_string()),
+    );
     dir_tree.insert(
         "..".to_string(),
-        Expression::from(cwd.parent().unwrap().to_str().unwrap()),
+        Expression::from(cwd.parent().unwrap_or(cwd).to_string_lossy().to_string()),
     );
 
+    // Do not go deeper than the maximum depth.
+    if matches!(max_depth, Some(depth) if depth <= 0) {
+        return dir_tree;
+    }
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
@@ -30,7 +38,7 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
                 } else {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(path.into_os_string().into_string().unwrap()),
+                        Expression::from(path.to_string_lossy().to_string()),
                     );
                 }
             }
-- 
2.43.0


From 601782808b2a38a59d90d68c885a6627fe88c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 22/43] fix: copying a directory into itself is an error, not
 an endless copy

---
 src/binary/init/fs_module.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 1e6b281..65fa74f 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -374,6 +374,19 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
         )));
     }
 
+    // A directory cannot be copied into itself.
+    let existing_dst = dst
+        .ancestors()
+        .find_map(|path| dunce::canonicalize(path).ok());
+    if let (true, Ok(src), Some(dst)) = (src.is_dir(), dunce::canonicalize(src), existing_dst) {
+        if dst.starts_with(src) {
+            return Err(Error::CustomError(format!(
+                "cannot copy a directory into itself at {}",
+                dst.display()
+            )));
+        }
+    }
+
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
         // Create the destination directory and all of its parents.
-- 
2.43.0


From 0f9c4771a05ed65facaa0ceb1fc001d0eb2c9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 23/43] fix: sys@cd only enters directories, and moves the
 process like cd

---
 src/binary/init/fs_module.rs  | 2 +-
 src/binary/init/sys_module.rs | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 65fa74f..c46cd68 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -173,7 +173,7 @@ pub fn get(env: &mut Environment) -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                Ok(canon_path.into_os_string().into_string().unwrap().into())
+                Ok(canon_path.to_string_lossy().to_string().into())
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 9675852..c3a9047 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -58,8 +58,13 @@ pub fn get() -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                env.set_cwd(canon_path.to_str().unwrap().to_string());
-                Ok(Expression::None)
+                match canon_path.to_str() {
+                    Some(new_cwd) if std::env::set_current_dir(&canon_path).is_ok() => {
+                        env.set_cwd(new_cwd);
+                        Ok(Expression::None)
+                    }
+                    _ => Err(Error::CustomError(format!("could not change directory to {}", canon_path.display())))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
-- 
2.43.0


From e8bb1381a8e2b6e56cb8bcb149f90e6cf6cbec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 24/43] fix: a pipeline never waits forever on a lot of data,
 nor fails when it is not all read

---
 src/binary/init/operator_module.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 4e93e84..3f9a9b5 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -367,22 +367,16 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                     // If we need to pipe in STDIN:
                     if !is_first {
                         // Attempt to grab the STDIN of the process from the handler.
-                        if let Some(stdin) = child_handler.stdin.as_mut() {
-                            // Write the contents of the previous command's STDOUT
-                            // to the process's STDIN.
-                            if stdin.write_all(&buf).is_err() {
-                                return Err(Error::CustomError(format!(
-                                    "error when piping into process `{}`",
-                                    expr
-                                )));
-                            }
-
+                        if let Some(mut stdin) = child_handler.stdin.take() {
                             // Zero out all of our information about the previous command.
-                            buf = vec![];
+                            let input = std::mem::take(&mut buf);
                             result_of_last_cmd = Expression::None;
 
-                            // Flush the STDIN buffer to force the process to read it.
-                            stdin.flush().unwrap();
+                            // Write the contents of the previous command's STDOUT
+                            // to the process's STDIN. This happens in the background:
+                            // the process may write more output than fits into its pipe
+                            // before it has read everything, or not read everything at all.
+                            std::thread::spawn(move || stdin.write_all(&input));
                         } else {
                             return Err(Error::CustomError(format!(
                                 "error when piping into process `{}`",
-- 
2.43.0


From 05dc22c5e0506ddfcf8729fe903b0e3b013e422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 25/43] fix: a program in a pipeline gets its arguments like
 any other program

---
 src/binary/init/operator_module.rs | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 3f9a9b5..823d4b7 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -459,6 +459,21 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
     Ok(result_of_last_cmd)
 }
 
+/// Get the arguments of a program, like those of a program outside of a pipe.
+fn command_args(args: &[Expression], env: &mut Environment) -> Result<Vec<String>, Error> {
+    let mut result = vec![];
+    for arg in args {
+        for flattened_arg in Expression::flatten(vec![arg.eval(env)?]) {
+            match flattened_arg {
+                Expression::Bytes(b) => result.push(String::from_utf8_lossy(&b).to_string()),
+                Expression::None => continue,
+                _ => result.push(flattened_arg.to_string()),
+            }
+        }
+    }
+    Ok(result)
+}
+
 /// Interpret a Dune expression as a program to be executed.
 /// If the expression can be executed as a program, then it will
 /// be stored in the `cmd` parameter, and the function will return
@@ -497,24 +512,18 @@ fn expr_to_command<'a>(
                 };
                 *cmd = Command::new(cmd_name);
                 Some(
-                    cmd.current_dir(env.get_cwd()).envs(bindings).args(
-                        args.iter()
-                            .filter(|&x| x != &Expression::None)
-                            .map(|x| Ok(format!("{}", x.eval(env)?)))
-                            .collect::<Result<Vec<String>, Error>>()?,
-                    ),
+                    cmd.current_dir(env.get_cwd())
+                        .envs(bindings)
+                        .args(command_args(args, env)?),
                 )
             }
             Expression::Quote(ref program) => match *program.clone() {
                 Expression::String(cmd_name) | Expression::Symbol(cmd_name) => {
                     *cmd = Command::new(cmd_name);
                     Some(
-                        cmd.current_dir(env.get_cwd()).envs(bindings).args(
-                            args.iter()
-                                .filter(|&x| x != &Expression::None)
-                                .map(|x| Ok(format!("{}", x.eval(env)?)))
-                                .collect::<Result<Vec<String>, Error>>()?,
-                        ),
+                        cmd.current_dir(env.get_cwd())
+                            .envs(bindings)
+                            .args(command_args(args, env)?),
                     )
                 }
                 _ => None,
-- 
2.43.0


From af6b2899ab284177f24b414505b1c80fada200fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 26/43] fix: a function applied to several arguments equals one
 applied to them one at a time

---
 src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 3d9fe15..acae3dc 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -621,7 +621,10 @@ impl Expression {
                         new_env.set_cwd(env.get_cwd());
                         new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
                         self = Self::Apply(
-                            Box::new(body.eval_mut(&mut new_env, depth + 1)?),
+                            // This is a value already: do not evaluate it again in this scope.
+                            Box::new(Self::Quote(Box::new(
+                                body.eval_mut(&mut new_env, depth + 1)?,
+                            ))),
                             args[1..].to_vec(),
                         );
                     }
@@ -636,7 +639,7 @@ impl Expression {
                         let x = args[0].clone().eval_mut(env, depth + 1)?;
                         env.define(&param, x);
                         self = Self::Apply(
-                            Box::new(body.eval_mut(env, depth + 1)?),
+                            Box::new(Self::Quote(Box::new(body.eval_mut(env, depth + 1)?))),
                             args[1..].to_vec(),
                         );
                     }
-- 
2.43.0


From 9bef46156b2f329a39df9194d980baf05e6d3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 27/43] fix: printing a map with a long key is no crash

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index acae3dc..6e41723 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -330,7 +330,7 @@ impl fmt::Display for Expression {
                             t.add_row(row!(key, format!("{:specified_width$}", val)));
                         }
                         Self::List(_) => {
-                            let w = specified_width - key.len() - 3;
+                            let w = specified_width.saturating_sub(key.len() + 3).max(1);
                             let formatted = format!("{:w$}", val);
                             t.add_row(row!(key, textwrap::fill(&formatted, w),));
                         }
-- 
2.43.0


From 0937df3a168b6407ca4d929d50f9de7b499e7504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 28/43] fix: a function whose argument changes the directory
 ran in the old one

---
 src/expr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 6e41723..33f066b 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -611,15 +611,17 @@ impl Expression {
 
                     Self::Lambda(param, body, old_env) if args.len() == 1 => {
                         let mut new_env = old_env;
+                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                         new_env.set_cwd(env.get_cwd());
-                        new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
+                        new_env.define(&param, x);
                         return body.eval_mut(&mut new_env, depth + 1);
                     }
 
                     Self::Lambda(param, body, old_env) if args.len() > 1 => {
                         let mut new_env = old_env.clone();
+                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                         new_env.set_cwd(env.get_cwd());
-                        new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
+                        new_env.define(&param, x);
                         self = Self::Apply(
                             // This is a value already: do not evaluate it again in this scope.
                             Box::new(Self::Quote(Box::new(
-- 
2.43.0


From 190c96f564cd2674d0e079a4c5baafcab4151032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 29/43] fix: the result of dunesh -x was evaluated again when
 it was reported

---
 src/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index d8d04bb..1d92d76 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -641,7 +641,7 @@ fn shell() -> Result<(), Error> {
             Ok(result) => {
                 Expression::Apply(
                     Box::new(Expression::Symbol("report".to_string())),
-                    vec![result],
+                    vec![Expression::Quote(Box::new(result))],
                 )
                 .eval(&mut env)?;
             }
-- 
2.43.0


From 0e96349f7c94aecacd9af4dffc15833a76c5f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 30/43] fix: text printed without a newline came after the
 output of the next program

---
 src/binary/init/operator_module.rs | 3 +++
 src/expr.rs                        | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 823d4b7..f5eee1e 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -362,6 +362,9 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                     cmd = cmd.stdout(Stdio::piped());
                 }
 
+                // The program may write to the same output: what was printed comes first.
+                let _ = std::io::stdout().flush();
+
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
                     // If we need to pipe in STDIN:
diff --git a/src/expr.rs b/src/expr.rs
index 33f066b..e6a5873 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -4,7 +4,7 @@ use std::{
     cmp::Ordering,
     collections::BTreeMap,
     fmt,
-    io::ErrorKind,
+    io::{ErrorKind, Write},
     ops::{Add, Div, Index, Mul, Neg, Rem, Sub},
     process::Command,
 };
@@ -585,6 +585,8 @@ impl Expression {
                             }
                         }
 
+                        // The program writes to the same output: what was printed comes first.
+                        let _ = std::io::stdout().flush();
                         match Command::new(&name)
                             .current_dir(env.get_cwd())
                             .args(
-- 
2.43.0


From e6b292966e5235af953a52ffae2b98ea0ef8ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 31/43] fix: curried functions see their arguments, not the
 caller's arg0, arg1, ...

---
 src/binary/init/fn_module.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index 98afe51..1a2b07a 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -17,10 +17,14 @@ pub(super) fn curry_env(
             format!("arg{}", i),
             Box::new(result),
             Environment::default(),
-        )
-        .eval(env)?;
+        );
+    }
+    // Only the outermost function captures the environment: the inner ones
+    // must see the arguments, not the caller's variables of the same name.
+    match result {
+        Expression::Lambda(_, _, _) => result.eval(env),
+        result => Ok(result),
     }
-    Ok(result)
 }
 
 pub(super) fn reverse_curry_env(
@@ -40,10 +44,14 @@ pub(super) fn reverse_curry_env(
             format!("arg{}", i),
             Box::new(result),
             Environment::default(),
-        )
-        .eval(env)?;
+        );
+    }
+    // Only the outermost function captures the environment: the inner ones
+    // must see the arguments, not the caller's variables of the same name.
+    match result {
+        Expression::Lambda(_, _, _) => result.eval(env),
+        result => Ok(result),
     }
-    Ok(result)
 }
 
 pub fn reverse_curry(f: Expression, args: usize) -> Expression {
-- 
2.43.0


From e5ce1ac5c88aeeedf5dad5af92b8cad182c03c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 32/43] fix: fs@rm of a directory's . or .. entry fails without
 emptying it

---
 src/binary/init/fs_module.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index c46cd68..a1b8102 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -463,7 +463,10 @@ fn move_path(src: &Path, dst: &Path) -> Result<(), Error> {
 /// Removes a file or directory from the file system.
 fn remove_path(path: &Path) -> Result<(), Error> {
     if path.is_dir() {
-        if std::fs::remove_dir_all(path).is_err() {
+        // A directory named by its `.` or `..` entry would be emptied,
+        // but could not be removed itself.
+        let dir = path.components().collect::<PathBuf>();
+        if dir.file_name().is_none() || std::fs::remove_dir_all(dir).is_err() {
             return Err(Error::CustomError(format!(
                 "could not remove directory {}",
                 path.display()
-- 
2.43.0


From fd3b0e437e566c92163d33a7f3ae757fb49f1efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:06 +0000
Subject: [PATCH 33/43] fix: a widget wider than 65535 columns, or too large
 for memory, is no crash

---
 src/binary/init/widget_module.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 1296a4b..ff98f89 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -15,7 +15,7 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     let title = args[0].eval(env)?.to_string();
     let title_len = title.chars().count();
 
-    let text = args[1].eval(env)?.to_string();
+    let mut text = args[1].eval(env)?.to_string();
     let text_width = match args[2].eval(env)? {
         Expression::Integer(n) if n > 4 => n,
         otherwise => {
@@ -27,10 +27,12 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     } as usize
         - 2;
     let format_width = text_width * 2 / 3;
-    let text = textwrap::fill(
-        &format!("{:format_width$}", text),
-        text_width,
-    );
+    let padding = format_width.saturating_sub(text.chars().count());
+    if text.try_reserve(padding).is_err() {
+        return Err(Error::CustomError("the widget is too large".to_string()));
+    }
+    text += &" ".repeat(padding);
+    let text = textwrap::fill(&text, text_width);
 
     let widget_height = match args[3].eval(env)? {
         Expression::Integer(n) if n >= 3 => n,
@@ -46,6 +48,11 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
         Err(Error::CustomError(String::from(
             "width is less than title length",
         )))
+    } else if String::new()
+        .try_reserve(text_width.saturating_mul(widget_height).saturating_mul(3))
+        .is_err()
+    {
+        Err(Error::CustomError("the widget is too large".to_string()))
     } else {
         let mut left_border_half =
             "─".repeat(((text_width - title_len) as f64 / 2.0).round() as usize);
-- 
2.43.0


From 6e539f93d2f575ce93921fa875362cb1a3809900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 34/43] fix: fs@mkdir and fs@cp to a path ending with /. create
 it instead of failing half way

---
 src/binary/init/fs_module.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index a1b8102..de67957 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -183,7 +183,8 @@ pub fn get(env: &mut Environment) -> Expression {
             let cwd = PathBuf::from(env.get_cwd());
             let dir = cwd.join(args[0].eval(env)?.to_string());
 
-            if std::fs::create_dir_all(&dir).is_err() {
+            // Drop every `.`, as the parents of a path ending with one cannot be created.
+            if std::fs::create_dir_all(dir.components().collect::<PathBuf>()).is_err() {
                 return Err(Error::CustomError(format!("could not create directory {}", dir.display())));
             }
 
@@ -390,7 +391,7 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
         // Create the destination directory and all of its parents.
-        if std::fs::create_dir_all(dst).is_err() {
+        if std::fs::create_dir_all(dst.components().collect::<PathBuf>()).is_err() {
             return Err(Error::CustomError(format!(
                 "could not create directory {}",
                 dst.display()
-- 
2.43.0


From 820e236e40ae8220ce96eb77427409a11df38c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 35/43] fix: wrapping text to a wide width neither crashes nor
 exceeds the width

---
 src/binary/init/fmt_module.rs    | 9 ++++++++-
 src/binary/init/widget_module.rs | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 954c971..90f98fe 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -139,7 +139,14 @@ fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     let text = args[0].eval(env)?.to_string();
     match args[1].eval(env)? {
         Expression::Integer(columns) if columns > 0 => {
-            Ok(textwrap::fill(&text, columns as usize).into())
+            Ok(textwrap::fill(
+                &text,
+                // The default algorithm overflows its costs on wide lines
+                // and lets a line exceed the width to avoid a large gap.
+                textwrap::Options::new(columns as usize)
+                    .wrap_algorithm(textwrap::wrap_algorithms::FirstFit),
+            )
+            .into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index ff98f89..758ef8b 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -32,7 +32,12 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
         return Err(Error::CustomError("the widget is too large".to_string()));
     }
     text += &" ".repeat(padding);
-    let text = textwrap::fill(&text, text_width);
+    let text = textwrap::fill(
+        &text,
+        // The default algorithm overflows its costs on wide lines and lets
+        // a line exceed the width to avoid a large gap.
+        textwrap::Options::new(text_width).wrap_algorithm(textwrap::wrap_algorithms::FirstFit),
+    );
 
     let widget_height = match args[3].eval(env)? {
         Expression::Integer(n) if n >= 3 => n,
-- 
2.43.0


From fc5cc9fd3cce047799ceb9db1d7b5df952b2aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 36/43] fix: cd to a directory whose name is not UTF-8 is an
 error, not a crash

---
 src/binary/init/os_module.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 01ae0c7..b63397d 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -53,6 +53,16 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
+            let new_cwd_text = match new_cwd.to_str() {
+                Some(text) => text.to_string(),
+                None => {
+                    return Err(dune::Error::CustomError(format!(
+                        "could not change directory to {:?}\n  reason: the path is not valid UTF-8",
+                        new_cwd
+                    )))
+                }
+            };
+
             std::env::set_current_dir(&new_cwd).map_err(|e| {
                 dune::Error::CustomError(match format!("{:?}", e.kind()).as_str() {
                     "PermissionDenied" => {
@@ -68,7 +78,7 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
-            env.set_cwd(new_cwd.into_os_string().into_string().unwrap());
+            env.set_cwd(new_cwd_text);
             Ok(Expression::None)
         }
 
-- 
2.43.0


From f7d4a12b4ec870b5332874ce5a971abf4f10d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 37/43] fix: a variable with a null character does not keep
 programs from starting

---
 src/binary/init/operator_module.rs | 3 ++-
 src/expr.rs                        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f5eee1e..a8ebd1d 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -497,7 +497,8 @@ fn expr_to_command<'a>(
         // This causes some strange bugs on Linux: mainly it becomes
         // impossible to execute any program because `the argument
         // list is too long`.
-        .filter(|(_, s)| s.len() <= 1024);
+        // No environment variable can hold a null character.
+        .filter(|(_, s)| s.len() <= 1024 && !s.contains('\0'));
 
     Ok(match expr {
         // If the command is quoted or in parentheses, try to get the inner command.
diff --git a/src/expr.rs b/src/expr.rs
index e6a5873..0e6d507 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -566,7 +566,8 @@ impl Expression {
                             // This causes some strange bugs on Linux: mainly it becomes
                             // impossible to execute any program because `the argument
                             // list is too long`.
-                            .filter(|(_, s)| s.len() <= 1024)
+                            // No environment variable can hold a null character.
+                            .filter(|(_, s)| s.len() <= 1024 && !s.contains('\0'))
                             .collect::<BTreeMap<String, String>>();
 
                         let mut cmd_args = vec![];
-- 
2.43.0


From a1207b84754788bcfc3fe455168a32be8340f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 38/43] fix: a widget title of several lines is an error
 instead of a broken frame

---
 src/binary/init/widget_module.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 758ef8b..567445a 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -49,7 +49,11 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
         }
     } as usize;
 
-    if text_width < title_len {
+    if title.contains('\n') {
+        Err(Error::CustomError(String::from(
+            "title must be a single line",
+        )))
+    } else if text_width < title_len {
         Err(Error::CustomError(String::from(
             "width is less than title length",
         )))
-- 
2.43.0


From 1a7c63d296f275009f4f2dc920b102c82844ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:58 +0000
Subject: [PATCH 39/43] fix: the prompt reports the failure of a macro result
 or of its report

---
 src/bin.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 1d92d76..9e1bb37 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -504,21 +504,27 @@ fn repl(
                     }
                     Ok(Expression::None) => {}
                     Ok(Expression::Macro(_, _)) => {
-                        let _ = Expression::Apply(
+                        if let Err(e) = Expression::Apply(
                             Box::new(Expression::Symbol("report".to_string())),
                             vec![Expression::Apply(
                                 Box::new(val.unwrap().clone()),
                                 vec![env.get_cwd().into()],
                             )],
                         )
-                        .eval(&mut env);
+                        .eval(&mut env)
+                        {
+                            eprintln!("{}", e)
+                        }
                     }
                     Ok(val) => {
-                        let _ = Expression::Apply(
+                        if let Err(e) = Expression::Apply(
                             Box::new(Expression::Symbol("report".to_string())),
                             vec![Expression::Quote(Box::new(val))],
                         )
-                        .eval(&mut env);
+                        .eval(&mut env)
+                        {
+                            eprintln!("{}", e)
+                        }
                     }
                     Err(e) => {
                         eprintln!("{}", e)
-- 
2.43.0


From c2f1f3d39cd53b87b4c7264131a2f44501cdceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:00 +0000
Subject: [PATCH 40/43] fix: a failing report of inline code is reported and
 does not keep the prompt from starting

---
 src/bin.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 9e1bb37..07fb04f 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -645,11 +645,14 @@ fn shell() -> Result<(), Error> {
             &mut env,
         ) {
             Ok(result) => {
-                Expression::Apply(
+                if let Err(e) = Expression::Apply(
                     Box::new(Expression::Symbol("report".to_string())),
                     vec![Expression::Quote(Box::new(result))],
                 )
-                .eval(&mut env)?;
+                .eval(&mut env)
+                {
+                    eprintln!("{}", e)
+                }
             }
             Err(e) => eprintln!("{}", e),
         }
-- 
2.43.0


From 59dfe625852fcf487b5346686456654ce8dbe91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:11 +0000
Subject: [PATCH 41/43] fix: parse@json gives the float nearest to a number

---
 src/binary/init/parse_module.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/parse_module.rs b/src/binary/init/parse_module.rs
index 1251414..7800d4c 100644
--- a/src/binary/init/parse_module.rs
+++ b/src/binary/init/parse_module.rs
@@ -51,7 +51,14 @@ fn json_to_expr(val: JsonValue) -> Expression {
     match val {
         JsonValue::Null => Expression::None,
         JsonValue::Boolean(b) => Expression::Boolean(b),
-        JsonValue::Number(n) => Expression::Float(n.into()),
+        JsonValue::Number(n) => {
+            // The conversion of the JSON library is not the nearest float.
+            let (positive, mantissa, exponent) = n.as_parts();
+            let x: f64 = format!("{}e{}", mantissa, exponent)
+                .parse()
+                .unwrap_or_else(|_| n.into());
+            Expression::Float(if positive { x } else { -x })
+        }
         JsonValue::Short(s) => Expression::String(s.to_string()),
         JsonValue::String(s) => Expression::String(s),
         JsonValue::Array(a) => {
-- 
2.43.0


From 11cc3fca0b943b3106a54f83f09b780cbee5a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:12 +0000
Subject: [PATCH 42/43] fix: parse@json rejects vertical tabs and form feeds
 between values

---
 src/binary/init/parse_module.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/binary/init/parse_module.rs b/src/binary/init/parse_module.rs
index 7800d4c..fa39d3c 100644
--- a/src/binary/init/parse_module.rs
+++ b/src/binary/init/parse_module.rs
@@ -37,13 +37,13 @@ fn parse_json(args: Vec<Expression>, env: &mut Environment) -> Result<Expression
         return Ok(Expression::None);
     }
 
-    if let Ok(val) = json::parse(&text) {
-        Ok(json_to_expr(val))
-    } else {
-        Err(Error::CustomError(format!(
+    // Vertical tabs and form feeds are no white space in JSON, but the library takes them.
+    match json::parse(&text) {
+        Ok(val) if !text.contains(['\u{b}', '\u{c}']) => Ok(json_to_expr(val)),
+        _ => Err(Error::CustomError(format!(
             "could not parse `{}` as JSON",
             text
-        )))
+        ))),
     }
 }
 
-- 
2.43.0


From 19fd07fea4d24141240b204a6b2c14e976bb06d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:08 +0000
Subject: [PATCH 43/43] fix: parse@json rejects numbers of more digits than the
 library can count

---
 src/binary/init/parse_module.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/parse_module.rs b/src/binary/init/parse_module.rs
index fa39d3c..5e69bc1 100644
--- a/src/binary/init/parse_module.rs
+++ b/src/binary/init/parse_module.rs
@@ -38,8 +38,9 @@ fn parse_json(args: Vec<Expression>, env: &mut Environment) -> Result<Expression
     }
 
     // Vertical tabs and form feeds are no white space in JSON, but the library takes them.
-    match json::parse(&text) {
-        Ok(val) if !text.contains(['\u{b}', '\u{c}']) => Ok(json_to_expr(val)),
+    let valid = !text.contains(['\u{b}', '\u{c}']) && !has_endless_number(&text);
+    match valid.then(|| json::parse(&text)) {
+        Some(Ok(val)) => Ok(json_to_expr(val)),
         _ => Err(Error::CustomError(format!(
             "could not parse `{}` as JSON",
             text
@@ -47,6 +48,24 @@ fn parse_json(args: Vec<Expression>, env: &mut Environment) -> Result<Expression
     }
 }
 
+/// The JSON library counts the digits of a number in an `i16`, which overflows.
+fn has_endless_number(text: &str) -> bool {
+    let (mut in_string, mut escaped, mut digits) = (false, false, 0);
+    for c in text.chars() {
+        if in_string {
+            in_string = escaped || c != '"';
+            escaped = !escaped && c == '\\';
+        } else {
+            in_string = c == '"';
+            digits = if c.is_ascii_digit() { digits + 1 } else { 0 };
+            if digits == i16::MAX {
+                return true;
+            }
+        }
+    }
+    false
+}
+
 fn json_to_expr(val: JsonValue) -> Expression {
     match val {
         JsonValue::Null => Expression::None,
-- 
2.43.0

