From e11851aba32e5aa47801caeb56df135ee48507a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 01/18] fix: report the published error code for permission,
 missing-program and syntax errors

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 27d69b8..4309dc4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,9 +55,9 @@ impl Error {
             Self::ForNonList(..) => Self::ERROR_CODE_FOR_NON_LIST,
             Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,
             Self::CustomError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::PermissionDenied(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::ProgramNotFound(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::SyntaxError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
+            Self::PermissionDenied(..) => Self::ERROR_CODE_PERMISSION_DENIED,
+            Self::ProgramNotFound(..) => Self::ERROR_CODE_PROGRAM_NOT_FOUND,
+            Self::SyntaxError(..) => Self::ERROR_CODE_SYNTAX_ERROR,
         }
     }
 }
-- 
2.43.0


From ead3869afda8298b6629e6409e2d2f430f4a98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 02/18] fix: do not underflow when a multi-line syntax error
 ends in a long line

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4309dc4..0a64a1b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -241,7 +241,7 @@ fn print_error_lines(
         let last_len = lines.last().unwrap().chars().count();
         let suffix = line_after
             .chars()
-            .take(max_width - last_len)
+            .take(max_width.saturating_sub(last_len))
             .chain(RESET.chars())
             .collect::<String>();
         writeln!(f, "\n{}", suffix)?;
-- 
2.43.0


From 5cb5e0f6d1afd0c94aa2a867fde78e25b147b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 03/18] fix: fmt@dark@white leaked 'k[0m' into the text instead
 of resetting the style

---
 src/binary/init/fmt_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index e58d170..a61675e 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -104,7 +104,7 @@ pub fn get() -> Expression {
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
-                Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
     })
-- 
2.43.0


From d8b77e47fb4cd515647916fa3e92009c9288a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 04/18] fix: builtins called with too few arguments report an
 error instead of panicking

---
 src/binary/init/chess_module.rs    |  2 +-
 src/binary/init/fmt_module.rs      | 23 +++++++++++++++++++++++
 src/binary/init/mod.rs             | 23 ++++++++++++++---------
 src/binary/init/operator_module.rs | 12 ++++++++++++
 src/binary/init/string_module.rs   | 13 +++++++++++++
 src/binary/init/sys_module.rs      |  4 ++--
 6 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/chess_module.rs b/src/binary/init/chess_module.rs
index ceacc8f..8cf228e 100644
--- a/src/binary/init/chess_module.rs
+++ b/src/binary/init/chess_module.rs
@@ -3,7 +3,7 @@ use dune::{Environment, Error, Expression};
 pub fn chess_fn(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     let mut won = false;
 
-    let player_color = match &args[0] {
+    let player_color = match super::first_arg("chess", &args)? {
         Expression::String(color) | Expression::Symbol(color) if color == "white" => {
             chess_engine::WHITE
         }
diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index a61675e..7c1262d 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -15,95 +15,118 @@ pub fn get() -> Expression {
             "create a hyperlink on the console"),
 
         String::from("bold") => Expression::builtin("bold", |args, env| {
+            super::check_args_len("bold", &args, 1..)?;
             Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to bold on the console"),
 
         String::from("faint") => Expression::builtin("faint", |args, env| {
+            super::check_args_len("faint", &args, 1..)?;
             Ok(format!("\x1b[2m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("italics") => Expression::builtin("italics", |args, env| {
+            super::check_args_len("italics", &args, 1..)?;
             Ok(format!("\x1b[3m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("underline") => Expression::builtin("underline", |args, env| {
+            super::check_args_len("underline", &args, 1..)?;
             Ok(format!("\x1b[4m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "underline text on the console"),
 
         String::from("blink") => Expression::builtin("blink", |args, env| {
+            super::check_args_len("blink", &args, 1..)?;
             Ok(format!("\x1b[5m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "blink text on the console"),
 
         String::from("invert") => Expression::builtin("invert", |args, env| {
+            super::check_args_len("invert", &args, 1..)?;
             Ok(format!("\x1b[7m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "invert text on the console"),
 
         String::from("strike") => Expression::builtin("strike", |args, env| {
+            super::check_args_len("strike", &args, 1..)?;
             Ok(format!("\x1b[9m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "strike out text on the console"),
 
         String::from("black") => Expression::builtin("black", |args, env| {
+            super::check_args_len("black", &args, 1..)?;
             Ok(format!("\x1b[90m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to black on the console"),
 
         String::from("red") => Expression::builtin("red", |args, env| {
+            super::check_args_len("red", &args, 1..)?;
             Ok(format!("\x1b[91m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to red on the console"),
 
         String::from("green") => Expression::builtin("green", |args, env| {
+            super::check_args_len("green", &args, 1..)?;
             Ok(format!("\x1b[92m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to green on the console"),
 
         String::from("yellow") => Expression::builtin("yellow", |args, env| {
+            super::check_args_len("yellow", &args, 1..)?;
             Ok(format!("\x1b[93m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to yellow on the console"),
 
         String::from("blue") => Expression::builtin("blue", |args, env| {
+            super::check_args_len("blue", &args, 1..)?;
             Ok(format!("\x1b[94m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to blue on the console"),
 
         String::from("magenta") => Expression::builtin("magenta", |args, env| {
+            super::check_args_len("magenta", &args, 1..)?;
             Ok(format!("\x1b[95m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to magenta on the console"),
 
         String::from("cyan") => Expression::builtin("cyan", |args, env| {
+            super::check_args_len("cyan", &args, 1..)?;
             Ok(format!("\x1b[96m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to cyan on the console"),
 
         String::from("white") => Expression::builtin("white", |args, env| {
+            super::check_args_len("white", &args, 1..)?;
             Ok(format!("\x1b[97m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to white on the console"),
 
         String::from("dark") => b_tree_map! {
             String::from("black") => Expression::builtin("black", |args, env| {
+                super::check_args_len("black", &args, 1..)?;
                 Ok(format!("\x1b[30m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to black on the console"),
 
             String::from("red") => Expression::builtin("red", |args, env| {
+                super::check_args_len("red", &args, 1..)?;
                 Ok(format!("\x1b[31m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to red on the console"),
 
             String::from("green") => Expression::builtin("green", |args, env| {
+                super::check_args_len("green", &args, 1..)?;
                 Ok(format!("\x1b[32m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to green on the console"),
 
             String::from("yellow") => Expression::builtin("yellow", |args, env| {
+                super::check_args_len("yellow", &args, 1..)?;
                 Ok(format!("\x1b[33m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to yellow on the console"),
 
             String::from("blue") => Expression::builtin("blue", |args, env| {
+                super::check_args_len("blue", &args, 1..)?;
                 Ok(format!("\x1b[34m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to blue on the console"),
 
             String::from("magenta") => Expression::builtin("magenta", |args, env| {
+                super::check_args_len("magenta", &args, 1..)?;
                 Ok(format!("\x1b[35m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to magenta on the console"),
 
             String::from("cyan") => Expression::builtin("cyan", |args, env| {
+                super::check_args_len("cyan", &args, 1..)?;
                 Ok(format!("\x1b[36m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
+                super::check_args_len("white", &args, 1..)?;
                 Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 4d8e79a..da29a42 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -191,13 +191,13 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "str",
-        |args, env| Ok(Expression::String(args[0].eval(env)?.to_string())),
+        |args, env| Ok(Expression::String(first_arg("str", &args)?.eval(env)?.to_string())),
         "format an expression to a string",
     );
 
     env.define_builtin(
         "int",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("int", &args)?.eval(env)? {
             Expression::Integer(x) => Ok(Expression::Integer(x)),
             Expression::Float(x) => Ok(Expression::Integer(x as Int)),
             Expression::String(x) => {
@@ -264,7 +264,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "keys",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("keys", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_keys().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the keys of {}",
@@ -276,7 +276,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "vals",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("vals", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_values().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the values of {}",
@@ -294,7 +294,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "len",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("len", &args)?.eval(env)? {
             Expression::Map(m) => Ok(Expression::Integer(m.len() as Int)),
             Expression::List(list) => Ok(Expression::Integer(list.len() as Int)),
             Expression::Symbol(x) | Expression::String(x) => {
@@ -371,7 +371,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "lines",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("lines", &args)?.eval(env)? {
             Expression::String(x) => Ok(Expression::List(
                 x.lines()
                     .map(|ch| Expression::String(ch.to_string()))
@@ -389,14 +389,14 @@ pub fn init(env: &mut Environment) {
         "eval",
         |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         },
         "evaluate an expression without changing the environment",
     );
 
     env.define_builtin(
         "exec",
-        |args, env| args[0].clone().eval(env)?.eval(env),
+        |args, env| first_arg("exec", &args)?.eval(env)?.eval(env),
         "evaluate an expression in the current environment",
     );
 
@@ -424,7 +424,7 @@ pub fn init(env: &mut Environment) {
     env.define_builtin(
         "report",
         |args, env| {
-            let val = args[0].eval(env)?;
+            let val = first_arg("report", &args)?.eval(env)?;
             match val {
                 Expression::Map(_) => println!("{}", val),
                 Expression::String(s) => println!("{}", s),
@@ -453,6 +453,11 @@ fn check_args_len(
     }
 }
 
+fn first_arg<'a>(name: &str, args: &'a [Expression]) -> Result<&'a Expression, Error> {
+    check_args_len(name, args, 1..)?;
+    Ok(&args[0])
+}
+
 fn check_exact_args_len(
     name: impl ToString,
     args: &[Expression],
diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f12eef4..4a0da28 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -6,6 +6,7 @@ use std::{
 };
 
 fn add_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    super::check_args_len("+", &args, 1..)?;
     let mut result = args[0].clone().eval(env)?;
     if args.len() == 1 {
         return Expression::Apply(
@@ -45,6 +46,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "-",
         |args, env| {
+            super::check_args_len("-", &args, 1..)?;
             // If there are two expressions or more, subtract them
             let mut result = args[0].clone().eval(env)?;
 
@@ -74,6 +76,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "*",
                 |args, env| {
+                    super::check_args_len("*", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -100,6 +103,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "//",
                 |args, env| {
+                    super::check_args_len("//", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -126,6 +130,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "%",
                 |args, env| {
+                    super::check_args_len("%", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -191,6 +196,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "==",
         |args, env| {
+            super::check_args_len("==", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? == args[1].eval(env)?,
             ))
@@ -201,6 +207,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "!=",
         |args, env| {
+            super::check_args_len("!=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? != args[1].eval(env)?,
             ))
@@ -211,6 +218,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<",
         |args, env| {
+            super::check_args_len("<", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? < args[1].clone().eval(env)?,
             ))
@@ -221,6 +229,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<=",
         |args, env| {
+            super::check_args_len("<=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? <= args[1].clone().eval(env)?,
             ))
@@ -231,6 +240,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">",
         |args, env| {
+            super::check_args_len(">", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? > args[1].clone().eval(env)?,
             ))
@@ -241,6 +251,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">=",
         |args, env| {
+            super::check_args_len(">=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? >= args[1].clone().eval(env)?,
             ))
@@ -251,6 +262,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "@",
         |args, env| {
+            super::check_args_len("@", &args, 1..)?;
             let mut val = args[0].eval(env)?;
             for arg in &args[1..] {
                 val = match arg {
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 62b7a76..dee5513 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -105,6 +105,7 @@ pub fn get() -> Expression {
         }, "get the width of a string"),
 
         String::from("is-whitespace?") => Expression::builtin("is-whitespace?", |args, env| {
+            super::check_args_len("is-whitespace?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_whitespace())))
@@ -117,6 +118,7 @@ pub fn get() -> Expression {
         }, "is this string whitespace?"),
 
         String::from("is-alpha?") => Expression::builtin("is-alpha?", |args, env| {
+            super::check_args_len("is-alpha?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphabetic())))
@@ -129,6 +131,7 @@ pub fn get() -> Expression {
         }, "is this string alphabetic?"),
 
         String::from("is-alphanumeric?") => Expression::builtin("is-alphanumeric?", |args, env| {
+            super::check_args_len("is-alphanumeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphanumeric())))
@@ -141,6 +144,7 @@ pub fn get() -> Expression {
         }, "is this string alphanumeric?"),
 
         String::from("is-numeric?") => Expression::builtin("is-numeric?", |args, env| {
+            super::check_args_len("is-numeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_numeric())))
@@ -160,6 +164,7 @@ pub fn get() -> Expression {
         }, "split a string on a given character"),
 
         String::from("to-lower") => Expression::builtin("to-lower", |args, env| {
+            super::check_args_len("to-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_lowercase()))
@@ -172,6 +177,7 @@ pub fn get() -> Expression {
         }, "convert a string to lowercase"),
 
         String::from("to-upper") => Expression::builtin("to-upper", |args, env| {
+            super::check_args_len("to-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_uppercase()))
@@ -184,6 +190,7 @@ pub fn get() -> Expression {
         }, "convert a string to uppercase"),
 
         String::from("to-title") => Expression::builtin("to-title", |args, env| {
+            super::check_args_len("to-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -209,6 +216,7 @@ pub fn get() -> Expression {
         }, "convert a string to title case"),
 
         String::from("is-lower") => Expression::builtin("is-lower", |args, env| {
+            super::check_args_len("is-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_lowercase())))
@@ -221,6 +229,7 @@ pub fn get() -> Expression {
         }, "is this string lowercase?"),
 
         String::from("is-upper") => Expression::builtin("is-upper", |args, env| {
+            super::check_args_len("is-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_uppercase())))
@@ -233,6 +242,7 @@ pub fn get() -> Expression {
         }, "is this string uppercase?"),
 
         String::from("is-title") => Expression::builtin("is-title", |args, env| {
+            super::check_args_len("is-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -357,6 +367,7 @@ pub fn get() -> Expression {
         }, "split a string at a given index"),
 
         String::from("trim") => Expression::builtin("trim", |args, env| {
+            super::check_args_len("trim", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim().to_string()))
@@ -369,6 +380,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from a string"),
 
         String::from("trim-start") => Expression::builtin("trim-start", |args, env| {
+            super::check_args_len("trim-start", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_start().to_string()))
@@ -381,6 +393,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from the start of a string"),
 
         String::from("trim-end") => Expression::builtin("trim-end", |args, env| {
+            super::check_args_len("trim-end", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_end().to_string()))
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3ab218b..111fc17 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -21,11 +21,11 @@ pub fn get() -> Expression {
 
         String::from("eval") => Expression::builtin("eval", |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            super::first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         }, "evaluate an expression without changing the environment"),
 
         String::from("exec") => Expression::builtin("exec", |args, env| {
-            args[0].clone().eval(env)?.eval(env)
+            super::first_arg("exec", &args)?.eval(env)?.eval(env)
         }, "evaluate an expression in the current environment"),
 
         // Evaluate a file in the current environment.
-- 
2.43.0


From 3e0f4040c742967d254d100da696e41e4dcb0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 05/18] fix: integer negation, remainder and string repetition
 no longer panic on overflow, zero or negative operands

---
 src/binary/init/operator_module.rs |  7 ++++++-
 src/expr.rs                        | 12 +++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 4a0da28..4e93e84 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -64,7 +64,12 @@ pub fn get(env: &mut Environment) -> Expression {
                 Ok(result)
             } else {
                 // Return the negated original
-                Ok(-result)
+                match -result.clone() {
+                    Expression::None => {
+                        Err(Error::CustomError(format!("cannot negate {:?}", result)))
+                    }
+                    negated => Ok(negated),
+                }
             }
         },
         "subtract two expressions",
diff --git a/src/expr.rs b/src/expr.rs
index 639924e..9f84638 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -727,7 +727,10 @@ impl Neg for Expression {
     type Output = Expression;
     fn neg(self) -> Self::Output {
         match self {
-            Self::Integer(n) => Self::Integer(-n),
+            Self::Integer(n) => match n.checked_neg() {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             Self::Boolean(b) => Self::Boolean(!b),
             Self::Float(n) => Self::Float(-n),
             _ => Self::None,
@@ -747,7 +750,7 @@ impl Mul for Expression {
             (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
             (Self::Float(m), Self::Float(n)) => Self::Float(m * n),
             (Self::String(m), Self::Integer(n)) | (Self::Integer(n), Self::String(m)) => {
-                Self::String(m.repeat(n as usize))
+                Self::String(m.repeat(n.max(0) as usize))
             }
             (Self::List(m), Self::Integer(n)) | (Self::Integer(n), Self::List(m)) => {
                 let mut result = vec![];
@@ -781,7 +784,10 @@ impl Rem for Expression {
     type Output = Self;
     fn rem(self, other: Self) -> Self {
         match (self, other) {
-            (Self::Integer(m), Self::Integer(n)) => Self::Integer(m % n),
+            (Self::Integer(m), Self::Integer(n)) => match m.checked_rem(n) {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             _ => Self::None,
         }
     }
-- 
2.43.0


From 374e7e893537d2d71f2fa54bd640e664160aa291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 06/18] fix: math integer functions report overflow and bad
 shift amounts, isodd handles negative numbers

---
 src/binary/init/math_module.rs | 39 ++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index b1e757e..7cc53a9 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -25,7 +25,7 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             let a = a as u64;
-            let b = b as u64;
+            let b = shift_amount("l-rsh", b)?;
 
             Ok(((a >> b) as Int).into())
         }, "logical right shift"), 2),
@@ -42,7 +42,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            Ok((a >> shift_amount("a-rsh", b)?).into())
         }, "arithmetic right shift"), 2),
 
         String::from("rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -57,7 +57,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            Ok((a >> shift_amount("rsh", b)?).into())
         }, "arithmetic right shift"), 2),
 
         String::from("lsh") => Expression::builtin("lsh", |args, env| {
@@ -72,7 +72,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid lsh argument {}", e)))
             };
 
-            Ok((a << b).into())
+            Ok((a << shift_amount("lsh", b)?).into())
         }, "left shift"),
 
 
@@ -81,12 +81,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let mut float_sum = 0.0;
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_sum += i,
+                    Expression::Integer(i) => int_sum = checked("sum", Int::checked_add(int_sum, i))?,
                     Expression::Float(f) => float_sum += f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_sum += i,
+                                Expression::Integer(i) => int_sum = checked("sum", Int::checked_add(int_sum, i))?,
                                 Expression::Float(f) => float_sum += f,
                                 e => return Err(Error::CustomError(format!("invalid sum argument {:?}", e)))
                             }
@@ -109,12 +109,12 @@ pub fn get(env: &mut Environment) -> Expression {
 
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_product *= i,
+                    Expression::Integer(i) => int_product = checked("product", Int::checked_mul(int_product, i))?,
                     Expression::Float(f) => float_product *= f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_product *= i,
+                                Expression::Integer(i) => int_product = checked("product", Int::checked_mul(int_product, i))?,
                                 Expression::Float(f) => float_product *= f,
                                 e => return Err(Error::CustomError(format!("invalid product argument {:?}", e)))
                             }
@@ -140,7 +140,7 @@ pub fn get(env: &mut Environment) -> Expression {
                     } else {
                         let mut result = 1;
                         for n in 1..=i {
-                            result *= n;
+                            result = checked("fact", Int::checked_mul(result, n))?;
                         }
                         Ok(result.into())
                     }
@@ -159,7 +159,7 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("abs") => Expression::builtin("abs", |args, env| {
             super::check_exact_args_len("abs", &args, 1)?;
             match args[0].eval(env)? {
-                Expression::Integer(i) => Ok(i.abs().into()),
+                Expression::Integer(i) => Ok(checked("abs", i.checked_abs())?.into()),
                 Expression::Float(f) => Ok(f.abs().into()),
                 e => Err(Error::CustomError(format!("invalid abs argument {:?}", e)))
             }
@@ -285,8 +285,8 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("isodd") => Expression::builtin("isodd", |args, env| {
             super::check_exact_args_len("odd", &args, 1)?;
             Ok(match args[0].eval(env)? {
-                Expression::Integer(i) => i % 2 == 1,
-                Expression::Float(f) => (f as Int) % 2 == 1,
+                Expression::Integer(i) => i % 2 != 0,
+                Expression::Float(f) => (f as Int) % 2 != 0,
                 e => return Err(Error::CustomError(format!("invalid isodd argument {}", e)))
             }.into())
         }, "is a number odd?"),
@@ -306,7 +306,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 (Expression::Float(base), Expression::Float(exponent)) => Ok(base.powf(exponent).into()),
                 (Expression::Float(base), Expression::Integer(exponent)) => Ok(base.powf(exponent as f64).into()),
                 (Expression::Integer(base), Expression::Float(exponent)) => Ok((base as f64).powf(exponent).into()),
-                (Expression::Integer(base), Expression::Integer(exponent)) => match base.checked_pow(exponent as u32) {
+                (Expression::Integer(base), Expression::Integer(exponent)) => match u32::try_from(exponent).ok().and_then(|exponent| base.checked_pow(exponent)) {
                     Some(n) => Ok(n.into()),
                     None => Err(Error::CustomError(format!("overflow when raising int {} to the power {}", base, exponent)))
                 },
@@ -476,3 +476,16 @@ pub fn get(env: &mut Environment) -> Expression {
     })
     .into()
 }
+
+/// The result of a checked integer operation, or an error if it overflowed.
+fn checked(name: &str, result: Option<Int>) -> Result<Int, Error> {
+    result.ok_or_else(|| Error::CustomError(format!("integer overflow in {}", name)))
+}
+
+/// The number of bits to shift an integer by, or an error if it is out of range.
+fn shift_amount(name: &str, bits: Int) -> Result<u32, Error> {
+    match u32::try_from(bits) {
+        Ok(n) if n < Int::BITS => Ok(n),
+        _ => Err(Error::CustomError(format!("invalid {} amount {}", name, bits))),
+    }
+}
-- 
2.43.0


From bb6ca91af65ba2455b0584807f01a0f6bb73ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 07/18] fix: nth, split-at, insert, caesar and rand report
 out-of-range requests instead of panicking

---
 src/binary/init/list_module.rs   | 14 +++++++++++---
 src/binary/init/mod.rs           |  2 +-
 src/binary/init/rand_module.rs   |  8 ++++++--
 src/binary/init/string_module.rs |  7 ++++++-
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 1ba42df..3dc58a2 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -392,10 +392,18 @@ fn nth(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     let list = args[1].eval(env)?;
     if let Expression::Integer(n) = n {
         if let Expression::List(list) = list {
-            if n < 0 {
-                Ok(list[list.len() - (-n as usize)].clone())
+            let index = if n < 0 {
+                list.len().checked_sub(n.unsigned_abs() as usize)
             } else {
-                Ok(list[n as usize].clone())
+                Some(n as usize)
+            };
+            match index.and_then(|i| list.get(i)) {
+                Some(item) => Ok(item.clone()),
+                None => Err(Error::CustomError(format!(
+                    "index {} out of bounds for a list of {} items",
+                    n,
+                    list.len()
+                ))),
             }
         } else {
             Err(Error::CustomError(
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index da29a42..e903a83 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -240,7 +240,7 @@ pub fn init(env: &mut Environment) {
                     }
                 }
                 (Expression::String(s), Expression::Integer(i)) => {
-                    if *i as usize <= s.len() {
+                    if s.is_char_boundary(*i as usize) {
                         s.insert_str(*i as usize, &val.to_string());
                     } else {
                         return Err(Error::CustomError(format!(
diff --git a/src/binary/init/rand_module.rs b/src/binary/init/rand_module.rs
index dcfe21e..222bd4c 100644
--- a/src/binary/init/rand_module.rs
+++ b/src/binary/init/rand_module.rs
@@ -14,6 +14,9 @@ pub fn get() -> Expression {
 fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("int", &args, 2)?;
     match (args[0].eval(env)?, args[1].eval(env)?) {
+        (Expression::Integer(l), Expression::Integer(h)) if l >= h => Err(Error::CustomError(
+            format!("cannot choose an integer from the empty range {} to {}", l, h),
+        )),
         (Expression::Integer(l), Expression::Integer(h)) => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(l, h);
@@ -31,8 +34,9 @@ fn choose(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     match args[0].eval(env)? {
         Expression::List(list) => {
             let mut rng = rand::thread_rng();
-            let n = Uniform::new(0, list.len());
-            Ok(list[rng.sample(n)].clone())
+            list.choose(&mut rng).cloned().ok_or_else(|| {
+                Error::CustomError("cannot choose an item from an empty list".to_string())
+            })
         }
         otherwise => Err(Error::CustomError(format!(
             "expected a list, but got {}",
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index dee5513..03a2446 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -58,7 +58,7 @@ pub fn get() -> Expression {
                             // Get the offset from the base
                             let offset = c as u8 - base;
                             // Shift the offset
-                            let shifted_offset = (offset + (i as u8)) % 26;
+                            let shifted_offset = (offset + i.rem_euclid(26) as u8) % 26;
                             // Get the shifted character
                             let shifted_char = (shifted_offset + base) as char;
                             // Add the shifted character to the result
@@ -357,6 +357,11 @@ pub fn get() -> Expression {
             let index = args[1].clone().eval(env)?;
             Ok(match (expr, index) {
                 (Expression::Symbol(x) | Expression::String(x), Expression::Integer(i)) => {
+                    if !x.is_char_boundary(i as usize) {
+                        return Err(Error::CustomError(format!(
+                            "cannot split {:?} at index {}", x, i
+                        )));
+                    }
                     Expression::List(vec![
                         Expression::String(x[..i as usize].to_string()),
                         Expression::String(x[i as usize..].to_string()),
-- 
2.43.0


From 9dd6e24d730c862bf72ff85c1d559c33f7dce348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 08/18] fix: list@head returns the first element of a non-empty
 list

---
 src/binary/init/list_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 3dc58a2..00e6e33 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -72,9 +72,9 @@ fn head(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     let list = args[0].eval(env)?;
     if let Expression::List(list) = list {
         if list.is_empty() {
-            Ok(Expression::List(list))
-        } else {
             Ok(Expression::None)
+        } else {
+            Ok(list[0].clone())
         }
     } else {
         Err(Error::CustomError(
-- 
2.43.0


From 33e390a68ae1298ccb14bf7dc7e0df4ab945d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 09/18] fix: fs@tree honours its maximum depth and does not
 panic at the root directory or on non-UTF-8 paths

---
 src/binary/init/fs_module.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index ed0a3b7..3c97413 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -11,12 +11,17 @@ use dune::{Environment, Error, Expression};
 fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
-    dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
+    dir_tree.insert(".".to_string(), Expression::from(cwd.to_string_lossy().to_string()));
     dir_tree.insert(
         "..".to_string(),
-        Expression::from(cwd.parent().unwrap().to_str().unwrap()),
+        Expression::from(cwd.parent().unwrap_or(cwd).to_string_lossy().to_string()),
     );
 
+    // Do not descend past the maximum depth.
+    if matches!(max_depth, Some(depth) if depth <= 0) {
+        return dir_tree;
+    }
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
@@ -30,7 +35,7 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
                 } else {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(path.into_os_string().into_string().unwrap()),
+                        Expression::from(path.to_string_lossy().to_string()),
                     );
                 }
             }
@@ -74,7 +79,7 @@ pub fn get(env: &mut Environment) -> Expression {
 
     let fs_module = b_tree_map! {
         String::from("tree") => Expression::builtin("tree", |args, env| {
-            super::check_args_len("joinx", &args, 1..=2)?;
+            super::check_args_len("tree", &args, 1..=2)?;
             // Return a nested map of the filesystem.
             // Get current working directory
             let mut cwd = PathBuf::from(env.get_cwd());
-- 
2.43.0


From cd77a7cc22f50a4ebb59722b6ac48396ae55ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 10/18] fix: cd, canon and start-up do not panic on non-UTF-8
 paths; sys@cd rejects non-directories

---
 src/binary/init/fs_module.rs  | 25 +++++++++++++------------
 src/binary/init/os_module.rs  |  6 +++++-
 src/binary/init/sys_module.rs |  9 +++++++--
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 3c97413..896e7ac 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -48,31 +48,27 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
 pub fn get(env: &mut Environment) -> Expression {
     let mut dir_tree = b_tree_map! {};
 
-    if let Some(home_dir) = dirs::home_dir() {
-        let home_dir = home_dir.into_os_string().into_string().unwrap();
+    if let Some(home_dir) = dirs::home_dir().and_then(utf8_path) {
         env.set_cwd(&home_dir);
         dir_tree.insert("home".to_string(), Expression::from(home_dir.clone()));
         env.define("HOME", Expression::String(home_dir));
     }
 
-    if let Ok(cwd) = current_dir() {
-        env.set_cwd(&cwd.into_os_string().into_string().unwrap());
+    if let Some(cwd) = current_dir().ok().and_then(utf8_path) {
+        env.set_cwd(&cwd);
     }
 
-    if let Some(desk_dir) = dirs::desktop_dir() {
-        let desk_dir = desk_dir.into_os_string().into_string().unwrap();
+    if let Some(desk_dir) = dirs::desktop_dir().and_then(utf8_path) {
         dir_tree.insert("desk".to_string(), desk_dir.clone().into());
         env.define("DESK", Expression::String(desk_dir));
     }
 
-    if let Some(docs_dir) = dirs::document_dir() {
-        let docs_dir = docs_dir.into_os_string().into_string().unwrap();
+    if let Some(docs_dir) = dirs::document_dir().and_then(utf8_path) {
         dir_tree.insert("docs".to_string(), docs_dir.clone().into());
         env.define("DOCS", Expression::String(docs_dir));
     }
 
-    if let Some(down_dir) = dirs::download_dir() {
-        let down_dir = down_dir.into_os_string().into_string().unwrap();
+    if let Some(down_dir) = dirs::download_dir().and_then(utf8_path) {
         dir_tree.insert("down".to_string(), down_dir.clone().into());
         env.define("DOWN", Expression::String(down_dir));
     }
@@ -172,8 +168,8 @@ pub fn get(env: &mut Environment) -> Expression {
             let cwd = PathBuf::from(env.get_cwd());
             let path = cwd.join(args[0].eval(env)?.to_string());
 
-            if let Ok(canon_path) = dunce::canonicalize(&path) {
-                Ok(canon_path.into_os_string().into_string().unwrap().into())
+            if let Some(canon_path) = dunce::canonicalize(&path).ok().and_then(utf8_path) {
+                Ok(canon_path.into())
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
@@ -355,6 +351,11 @@ pub fn get(env: &mut Environment) -> Expression {
     Expression::Map(fs_module)
 }
 
+/// Convert a path to a string, if it is valid UTF-8.
+fn utf8_path(path: PathBuf) -> Option<String> {
+    path.into_os_string().into_string().ok()
+}
+
 /// Copy one path to another path.
 fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     if src == dst {
diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 01ae0c7..71d0176 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -53,6 +53,10 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
+            let new_cwd_str = new_cwd.to_str().map(String::from).ok_or_else(|| {
+                dune::Error::CustomError(format!("the path {:?} is not valid UTF-8", new_cwd))
+            })?;
+
             std::env::set_current_dir(&new_cwd).map_err(|e| {
                 dune::Error::CustomError(match format!("{:?}", e.kind()).as_str() {
                     "PermissionDenied" => {
@@ -68,7 +72,7 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
-            env.set_cwd(new_cwd.into_os_string().into_string().unwrap());
+            env.set_cwd(new_cwd_str);
             Ok(Expression::None)
         }
 
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 111fc17..4d35a81 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -56,8 +56,13 @@ pub fn get() -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                env.set_cwd(canon_path.to_str().unwrap().to_string());
-                Ok(Expression::None)
+                match canon_path.to_str() {
+                    Some(cwd) if canon_path.is_dir() => {
+                        env.set_cwd(cwd);
+                        Ok(Expression::None)
+                    }
+                    _ => Err(Error::CustomError(format!("cannot change to directory {}", canon_path.display())))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
-- 
2.43.0


From b981c1903a4ada522dcd3fbcab3b127d813548e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 11/18] fix: console builtins report terminal and stdin
 failures as errors instead of panicking

---
 src/binary/init/console_module.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0634696..31a9e35 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -11,8 +11,10 @@ pub fn get() -> Expression {
         String::from("title") => Expression::builtin("title", title, "set the title of the console"),
         String::from("clear") => Expression::builtin("clear", clear, "clear the console"),
         String::from("flush") => Expression::builtin("flush", |_, _| {
-            std::io::stdout().flush().unwrap();
-            Ok(Expression::None)
+            match std::io::stdout().flush() {
+                Ok(()) => Ok(Expression::None),
+                Err(_) => Err(Error::CustomError("could not flush the console".to_string()))
+            }
         }, "flush the console"),
         String::from("mode") => Expression::Map(b_tree_map! {
             String::from("raw") => Expression::builtin("raw", |_, _| {
@@ -118,15 +120,21 @@ pub fn get() -> Expression {
         String::from("keyboard") => Expression::Map(b_tree_map! {
             String::from("read-line") => Expression::builtin("read-line", |_, _| {
                 let mut buffer = String::new();
-                std::io::stdin().read_line(&mut buffer).unwrap();
-                Ok(Expression::String(buffer))
+                match std::io::stdin().read_line(&mut buffer) {
+                    Ok(_) => Ok(Expression::String(buffer)),
+                    Err(_) => Err(Error::CustomError("could not read a line from the keyboard".to_string()))
+                }
             }, "read a line from the keyboard"),
             String::from("read-password") => Expression::builtin("read-password", |_, _| {
-                let password = rpassword::read_password().unwrap();
-                Ok(Expression::String(password))
+                match rpassword::read_password() {
+                    Ok(password) => Ok(Expression::String(password)),
+                    Err(_) => Err(Error::CustomError("could not read a password from the keyboard".to_string()))
+                }
             }, "read a password from the keyboard"),
             String::from("read-key") => Expression::builtin("read-key", |_, _| {
-                let key = crossterm::event::read().unwrap();
+                let key = crossterm::event::read().map_err(|_| {
+                    Error::CustomError("could not read a key from the keyboard".to_string())
+                })?;
                 // Get the key as a string.
                 let key = match key {
                     crossterm::event::Event::Key(key) => key,
@@ -214,7 +222,7 @@ fn write(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
                 print!(
                     "\x1b[s\x1b[{row};{column}H\x1b[{row};{column}f{content}\x1b[u",
                     column = x,
-                    row = y + y_offset as Int,
+                    row = y.saturating_add(y_offset as Int),
                     content = line
                 );
             }
-- 
2.43.0


From 56df870b1055825046e3fa1b874f7b61a1935ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 12/18] fix: fs@glob reports invalid patterns and resolves
 relative patterns against the shell's working directory

---
 src/binary/init/fs_module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 896e7ac..4f4bd2a 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -329,7 +329,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let pattern = args[0].eval(env)?.to_string();
             let mut result = vec![];
 
-            for entry in glob::glob(&pattern).unwrap() {
+            // Relative patterns are resolved against the shell's working directory.
+            let cwd_pattern = PathBuf::from(glob::Pattern::escape(&env.get_cwd())).join(&pattern);
+            let entries = glob::glob(&cwd_pattern.to_string_lossy())
+                .map_err(|e| Error::CustomError(format!("could not glob pattern {}: {:?}", pattern, e)))?;
+
+            for entry in entries {
                 match entry {
                     Ok(path) => {
                         // Strip prefix from path
-- 
2.43.0


From d21b0e9ec6709a8826c664b878d69264d132f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 13/18] fix: fs@tail keeps the last lines in file order

---
 src/binary/init/fs_module.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 4f4bd2a..307fff3 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -148,15 +148,12 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             if let Ok(contents) = std::fs::read_to_string(path) {
-                let mut lines = contents.lines().rev();
+                let lines = contents.lines().collect::<Vec<&str>>();
+                let start = lines.len().saturating_sub(n.max(0) as usize);
                 let mut result = String::new();
-                for _ in 0..n {
-                    if let Some(line) = lines.next() {
-                        result.push_str(line);
-                        result.push('\n');
-                    } else {
-                        break;
-                    }
+                for line in &lines[start..] {
+                    result.push_str(line);
+                    result.push('\n');
                 }
                 Ok(result.into())
             } else {
-- 
2.43.0


From 48c67c8a7f752edf4008a5adbde6d09340ce70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 14/18] fix: displaying a map with long keys and joining empty
 widgets no longer panics

---
 src/binary/init/widget_module.rs | 4 ++--
 src/expr.rs                      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 02ca2be..2099cbe 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -161,8 +161,8 @@ fn joiny(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
             Expression::String(s) => {
                 string_args.push(s.trim().to_string());
 
-                let width = string_args[0].lines().next().unwrap().chars().count();
-                let this_width = string_args[i].lines().next().unwrap().chars().count();
+                let width = string_args[0].lines().next().unwrap_or("").chars().count();
+                let this_width = string_args[i].lines().next().unwrap_or("").chars().count();
                 if width != this_width {
                     return Err(Error::CustomError(format!(
                         "Widths of vertically added widgets must be equal, \
diff --git a/src/expr.rs b/src/expr.rs
index 9f84638..0bac4ae 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -304,7 +304,7 @@ impl fmt::Display for Expression {
                             t.add_row(row!(key, format!("{:specified_width$}", val)));
                         }
                         Self::List(_) => {
-                            let w = specified_width - key.len() - 3;
+                            let w = specified_width.saturating_sub(key.len() + 3);
                             let formatted = format!("{:w$}", val);
                             t.add_row(row!(key, textwrap::fill(&formatted, w),));
                         }
-- 
2.43.0


From 9b7b552fb828086b7c689d28f32215144960c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 15/18] fix: start-up on non-UTF-8 paths and curry with a
 negative count no longer panic

---
 src/bin.rs                      | 2 +-
 src/binary/init/fn_module.rs    | 5 +++++
 src/binary/init/shell_module.rs | 4 ++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index c85931b..6c441d9 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -165,7 +165,7 @@ impl Completer for DuneHelper {
                 }
             }
 
-            let path_str = (path.into_os_string().into_string().unwrap()
+            let path_str = (path.to_string_lossy().to_string()
                 + if segment.is_empty() { "/" } else { "" })
             .replace("/./", "/")
             .replace("//", "/");
diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index c9d16b9..4a4d076 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -64,6 +64,11 @@ fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Express
     }
     let f = args[0].eval(env)?;
     if let Expression::Integer(arg_count) = args[1].eval(env)? {
+        if arg_count < 0 {
+            return Err(Error::CustomError(
+                "curry requires a non-negative argument count".to_string(),
+            ));
+        }
         curry_env(f, arg_count as usize, env)
     } else {
         Ok(f)
diff --git a/src/binary/init/shell_module.rs b/src/binary/init/shell_module.rs
index 3ebe7b8..e6d2222 100644
--- a/src/binary/init/shell_module.rs
+++ b/src/binary/init/shell_module.rs
@@ -12,7 +12,7 @@ pub fn get() -> Expression {
         String::from("version") => Expression::String(VERSION.to_string()),
         String::from("path") => {
             if let Ok(path) = current_exe() {
-                Expression::String(path.to_str().unwrap().to_string())
+                Expression::String(path.to_string_lossy().to_string())
             } else {
                 Expression::None
             }
@@ -30,7 +30,7 @@ pub fn get() -> Expression {
             let prelude_path = if let Some(home_dir) = dirs::home_dir() {
                 let prelude_path = home_dir.join(".dune-prelude");
                 if prelude_path.exists() {
-                    Expression::String(prelude_path.to_str().unwrap().to_string())
+                    Expression::String(prelude_path.to_string_lossy().to_string())
                 } else {
                     Expression::None
                 }
-- 
2.43.0


From a6bdf0cdc8e92bee7b571115e8d14962b0be8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 16/18] fix: an invalid escape before a multi-byte character no
 longer panics the tokenizer

---
 src/tokenizer.rs | 4 +++-
 src/tokens.rs    | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c094193..feb78e3 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -304,7 +304,9 @@ fn parse_escape(input: Input<'_>) -> TokenizationResult<'_, Diagnostic> {
             }
         }
         Err(_) => {
-            let (rest, range) = input.split_saturating(2);
+            // the backslash and the (possibly multi-byte) character after it
+            let len = input.chars().take(2).map(char::len_utf8).sum();
+            let (rest, range) = input.split_at(len);
             let ranges = vec![range].into_boxed_slice();
             return Ok((rest, Diagnostic::InvalidStringEscapes(ranges)));
         }
diff --git a/src/tokens.rs b/src/tokens.rs
index 339cbfa..47cd576 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -53,10 +53,6 @@ impl<'a> Input<'a> {
         (new_input, slice)
     }
 
-    pub fn split_saturating(self, n: usize) -> (Self, StrSlice) {
-        self.split_at(n.min(self.len()))
-    }
-
     pub fn split_until(self, other: Input<'_>) -> (Self, StrSlice) {
         assert!(std::ptr::eq(self.str, other.str));
         let diff = self.len() - other.len();
-- 
2.43.0


From 0e6d758c1d9e36bf344fd7062c99c258a7b69266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 17/18] fix: a negation after an expression no longer discards
 that expression

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 32f8567..37894da 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -676,6 +676,9 @@ fn parse_range(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError
 
 fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
     no_terminating_punctuation(input)?;
+    if let Ok(result) = parse_not(input) {
+        return Ok(result);
+    }
     let expr_parser = parse_expression_prec_four;
 
     let (input, mut head) = expr_parser(input)?;
@@ -710,8 +713,6 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
                     vec![head, to],
                 ),
             ));
-        } else if let Ok(result) = parse_not(input) {
-            return Ok(result);
         } else {
             return Ok((input, head));
         }
-- 
2.43.0


From 594d8ec0ac8f76fbbff0a5e6ee8f08136a274d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:17 +0000
Subject: [PATCH 18/18] fix: read-key returns for a function key the sequence
 that console@keyboard@keys lists for it

---
 src/binary/init/console_module.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 31a9e35..3105102 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -158,7 +158,13 @@ pub fn get() -> Expression {
                     Tab => Expression::String("\t".to_string()),
                     Esc => Expression::String("\x1b".to_string()),
                     Insert => Expression::String("\x1b[2~".to_string()),
-                    F(i) => Expression::String(format!("\x1b[{}~", i)),
+                    // The same sequences as in `keys`.
+                    F(i) => Expression::String(match i {
+                        1..=5 => format!("\x1b[{}~", i + 10),
+                        6..=10 => format!("\x1b[{}~", i + 11),
+                        11..=12 => format!("\x1b[{}~", i + 12),
+                        _ => format!("\x1b[{}~", i),
+                    }),
                     Null => Expression::String("\x00".to_string()),
                     BackTab => Expression::String("\x1b[Z".to_string()),
                     _ => Expression::None
-- 
2.43.0

