From 3d45d87b878a451a49778fa965601ea3e3d18955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 01/27] fix: report reserved and unrecognised tokens as errors
 instead of panicking

ParserRules::for_token hit todo!() for every token without a rule.
---
 dice-syntax/src/parser/rules.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dice-syntax/src/parser/rules.rs b/dice-syntax/src/parser/rules.rs
index 7024442..45717c5 100644
--- a/dice-syntax/src/parser/rules.rs
+++ b/dice-syntax/src/parser/rules.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 
-use dice_core::error::Error;
+use dice_core::error::{
+    codes::{RESERVED_KEYWORD, UNRECOGNIZED_INPUT},
+    Error,
+};
 use dice_core::span::Span;
+use dice_core::tags;
 
 use crate::{
     lexer::{Token, TokenKind},
@@ -226,16 +230,15 @@ impl<'a> ParserRules<'a> {
 
     pub fn for_token(&self, token: &Token) -> Result<&Rule<'a>, Error> {
         self.rules.get(&token.kind).ok_or_else(|| {
-            todo!()
-            // let error = if token.kind == TokenKind::Reserved {
-            //     RESERVED_KEYWORD
-            // } else {
-            //     UNRECOGNIZED_INPUT
-            // };
+            let error = if token.kind == TokenKind::Reserved {
+                RESERVED_KEYWORD
+            } else {
+                UNRECOGNIZED_INPUT
+            };
 
-            // Error::new(error).with_span(token.span).with_tags(tags! {
-            //     input => token.slice.to_string()
-            // })
+            Error::new(error).with_span(token.span).with_tags(tags! {
+                input => token.slice.to_string()
+            })
         })
     }
 
-- 
2.43.0


From 87429a07978fe306f36ca482c754bd92a5fa9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 02/27] fix: reject an unmatched closing brace instead of
 dropping the rest of the program

---
 dice-syntax/src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c7cde60..b07ebd5 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -53,6 +53,7 @@ impl<'a> Parser<'a> {
 
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
         let root = self.expression_sequence()?;
+        self.lexer.consume(TokenKind::EndOfInput)?;
 
         Ok(SyntaxTree::new(root, self.arena))
     }
-- 
2.43.0


From a7546dfae2bae9213e726a84557f160bd490aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:30 +0000
Subject: [PATCH 03/27] fix: reject else without a block or another if

---
 dice-syntax/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index b07ebd5..278a8d3 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -151,10 +151,11 @@ impl<'a> Parser<'a> {
         let secondary = if self.lexer.peek()?.kind == TokenKind::Else {
             self.lexer.consume(TokenKind::Else)?;
 
-            match self.lexer.peek()?.kind {
+            let next_token = self.lexer.peek()?;
+            match next_token.kind {
                 TokenKind::If => Some(self.if_expression(false)?),
                 TokenKind::LeftCurly => Some(self.block_expression(false)?),
-                _ => None,
+                kind => self.unexpected_token(kind, &[TokenKind::If, TokenKind::LeftCurly], next_token.span)?,
             }
         } else {
             None
-- 
2.43.0


From 5f76e77ebbcf99a11ef93d666dcf1ec419fc60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 04/27] fix: consume the name of an exported variable

It was left in the input and read a second time as an expression.
---
 dice-syntax/src/parser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 278a8d3..3df56cd 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -322,9 +322,11 @@ impl<'a> Parser<'a> {
             TokenKind::Let => self.var_decl()?,
             TokenKind::Function => self.fn_decl()?,
             TokenKind::Class => self.class_decl()?,
-            TokenKind::Identifier => self
-                .arena
-                .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span))),
+            TokenKind::Identifier => {
+                self.lexer.next()?;
+                self.arena
+                    .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span)))
+            }
             kind => self.unexpected_token(
                 kind,
                 &[
-- 
2.43.0


From 70c1ea7c855396c50304ffe771b27392c55cf1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:32 +0000
Subject: [PATCH 05/27] fix: strip the quotes from string keys of object
 literals

---
 dice-syntax/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 3df56cd..f2e1899 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -952,7 +952,10 @@ impl<'a> Parser<'a> {
         while self.lexer.peek()?.kind != TokenKind::RightCurly {
             let next = self.lexer.next()?.clone();
             let key = match next.kind {
-                TokenKind::String | TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
+                TokenKind::String => process_string(next.slice, StringMode::Escaped)
+                    .with_source(|| self.source.clone())
+                    .with_span(|| next.span)?,
+                TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
                 kind => self.unexpected_token(
                     kind,
                     &[TokenKind::String, TokenKind::Integer, TokenKind::Identifier],
-- 
2.43.0


From 681187f38e78580b2c8d24863995ac491b918b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:32 +0000
Subject: [PATCH 06/27] fix: recognise empty line comments

---
 dice-syntax/src/lexer/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a8ab006..48633f9 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -222,7 +222,7 @@ pub enum TokenKind {
     BackslashArg,
 
     #[error]
-    #[regex(r"[ \t\r\n\f]+|//[^\r\n]+", logos::skip)]
+    #[regex(r"[ \t\r\n\f]+|//[^\r\n]*", logos::skip)]
     Error,
 }
 
-- 
2.43.0


From ed927e2bf2baf5a6f0266b62134fe84440aafe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:46 +0000
Subject: [PATCH 07/27] fix: report unterminated strings and backslash
 arguments as such

The errors were commented out and E1009 had no message.
---
 data/locales/en-US/errors.ftl  | 1 +
 dice-syntax/src/lexer/token.rs | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index d10c728..929c5e7 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -8,6 +8,7 @@ E1005 = Function has too many arguments (max: 255).
 E1006 = Operator has an incorrect number of arguments (1 for unary operators and 2 for binary).
 E1007 = Invalid integer value: {$message}
 E1008 = Invalid float value: {$message}
+E1009 = Unterminated backslash argument encountered.
 
 # Compiler errors
 E2000 = Internal Compiler Error (please report this as a bug with code to reproduce the issue).
diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index 48633f9..85aae62 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -7,7 +7,7 @@ use logos::{Lexer, Logos};
 
 use dice_core::{
     error::{
-        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_STRING},
+        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_BACKSLASH_ARG, UNTERMINATED_STRING},
         Error, ResultExt,
     },
     source::Source,
@@ -319,7 +319,7 @@ fn lex_backslash_arg(lexer: &mut Lexer<TokenKind>) -> bool {
                 input.push(current);
             }
             None => {
-                // lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
+                lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
                 return false;
             }
         }
@@ -372,7 +372,7 @@ fn lex_string(lexer: &mut Lexer<TokenKind>) -> bool {
                 result.push(current);
             }
             None => {
-                //   lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
+                lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
                 return false;
             }
         }
-- 
2.43.0


From e82021e273a66c3623c29aba33c7615796cd268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:11 +0000
Subject: [PATCH 08/27] fix: give existing-module and existing-global errors
 their own code and message

E4003 had no message and GLOBAL_ALREADY_EXISTS shared E4002 with INVALID_SCRIPT_LOCATION.
---
 data/locales/en-US/errors.ftl | 4 +++-
 dice-core/src/error/codes.rs  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 929c5e7..57f5336 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -70,4 +70,6 @@ E3402 = Classes cannot inherit from value types.
 # System errors
 E4000 = A panic has occurred. {$message}
 E4001 = IO error occurred. {$message}
-E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
\ No newline at end of file
+E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
+E4003 = A module named {$name} already exists.
+E4004 = A global variable named {$name} already exists.
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 6f240f7..4f4ee1a 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -73,4 +73,4 @@ pub static PANIC: ErrorCode = "E4000";
 pub static IO_ERROR: ErrorCode = "E4001";
 pub static INVALID_SCRIPT_LOCATION: ErrorCode = "E4002";
 pub static MODULE_ALREADY_EXISTS: ErrorCode = "E4003";
-pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4002";
+pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4004";
-- 
2.43.0


From f21751bb9a4cc49a399ed34ccf491538913e1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:11 +0000
Subject: [PATCH 09/27] fix: label each line of a multi-line trace frame with
 its own number

---
 dice-core/src/error/fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dice-core/src/error/fmt.rs b/dice-core/src/error/fmt.rs
index 75fb5e8..0baff1c 100644
--- a/dice-core/src/error/fmt.rs
+++ b/dice-core/src/error/fmt.rs
@@ -152,10 +152,11 @@ impl HumanReadableErrorFormatter {
                 }
 
                 for line in trace.source.line_index().lines(trace.span) {
+                    let line_position = trace.source.line_index().position_of(line.start);
                     writeln!(
                         buffer,
                         "    {:<4} | {}",
-                        position.line + 1,
+                        line_position.line + 1,
                         &trace.source.source()[line.range()].trim()
                     )?
                 }
-- 
2.43.0


From 62a2a85d4551c733b53a318219cabcd0db1aed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:11 +0000
Subject: [PATCH 10/27] fix: end inclusive range iteration with is_done, as the
 iterator protocol requires

---
 data/scripts/prelude.dm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/scripts/prelude.dm b/data/scripts/prelude.dm
index 0d90317..aad1eb8 100644
--- a/data/scripts/prelude.dm
+++ b/data/scripts/prelude.dm
@@ -35,9 +35,9 @@ export class RangeInclusive {
         #{
             next: || {
                 let result = if current <= self.end {
-                    #{ value: current, done: false }
+                    #{ value: current, is_done: false }
                 } else {
-                    #{ done: true }
+                    #{ is_done: true }
                 }
 
                 current += 1
-- 
2.43.0


From c93eebd2f1bc609067a0f599e231cf54141d117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 11/27] fix: make variables destructured by let mut mutable

---
 dice-compiler/src/visitor/decl_var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 934efb5..087daeb 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -52,7 +52,7 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
 
                 Ok((item.as_str(), slot as u8))
             })
-- 
2.43.0


From 1e792c1416ab912d01d4ad7888faf34a11ea54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 12/27] fix: reject a function or class whose name was declared
 again as something else

A function panicked the compiler, a class overwrote the other variable.
---
 dice-compiler/src/visitor/decl_class.rs | 7 +++----
 dice-compiler/src/visitor/decl_fn.rs    | 9 ++++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index d36bc6e..e76b597 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -55,16 +55,15 @@ impl NodeVisitor<&ClassDecl> for Compiler {
                 .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
             // NOTE: Check if a class of the given name has already been initialized.
-            if let State::Class { ref mut is_initialized } = &mut local.state {
-                if *is_initialized {
+            match &mut local.state {
+                State::Class { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+                _ => {
                     return Err(Error::new(CLASS_ALREADY_DECLARED)
                         .with_span(node.name.span)
                         .with_tags(tags! {
                             name => node.name.identifier.clone()
                         }));
                 }
-
-                *is_initialized = true;
             }
 
             local.slot as u8
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 46222ae..95504d9 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -76,7 +76,14 @@ impl Compiler {
                     }));
             }
             State::Function { ref mut is_initialized } => *is_initialized = true,
-            _ => unreachable!("Unexpected non-function local state while compiling a function."),
+            // NOTE: The name has since been declared again as something other than a function.
+            _ => {
+                return Err(Error::new(FUNCTION_ALREADY_DECLARED)
+                    .with_span(fn_decl.name.span)
+                    .with_tags(tags! {
+                        name => fn_decl.name.identifier.clone()
+                    }));
+            }
         }
 
         let slot = local.slot as u8;
-- 
2.43.0


From cf5f55e01833c2a6cba5b59fa3c05571d726f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:40 +0000
Subject: [PATCH 13/27] fix: reject super calls outside of methods instead of
 panicking

---
 dice-compiler/src/visitor/expr_super_call.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 18788ec..c8d3300 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,20 +1,27 @@
 use dice_core::{
-    error::Error,
+    error::{codes::INVALID_SUPER_CALL, Error},
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
 
-use crate::compiler::Compiler;
+use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
 use super::NodeVisitor;
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
+        if !matches!(
+            self.context()?.kind(),
+            CompilerKind::Method { .. } | CompilerKind::Constructor
+        ) {
+            return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
             .local(SELF)
-            .expect("self should always be declared in constructors.")
+            .expect("self should always be declared in methods and constructors.")
             .slot as u8;
         self.assembler()?.load_local(local_slot, node.span);
 
-- 
2.43.0


From df97b39b9d78a081f0dcdc1ac70f051f82862ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:40 +0000
Subject: [PATCH 14/27] fix: export every variable of an exported destructuring
 declaration

It hit unreachable!() in the compiler.
---
 dice-compiler/src/visitor/decl_export.rs | 45 +++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index e10366e..c01078d 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -1,10 +1,11 @@
 use dice_core::{
     error::{
-        codes::INVALID_EXPORT_USAGE,
+        codes::{INTERNAL_COMPILER_ERROR, INVALID_EXPORT_USAGE},
         context::{Context, ContextKind, EXPORT_ONLY_ALLOWED_IN_MODULES, EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE},
         Error,
     },
     protocol::module::EXPORT,
+    span::Span,
     tags,
 };
 use dice_syntax::{ExportDecl, SyntaxNode, VarDecl, VarDeclKind};
@@ -40,6 +41,15 @@ impl NodeVisitor<&ExportDecl> for Compiler {
         self.assembler()?.load_local(export_slot, node.span);
         self.visit(node.export)?;
 
+        if let SyntaxNode::VarDecl(VarDecl {
+            kind: VarDeclKind::Destructured(names),
+            ..
+        }) = self.syntax_tree.get(node.export)
+        {
+            let names = names.clone();
+            return self.export_destructured(&names, node.span);
+        }
+
         let field_name = match self.syntax_tree.get(node.export) {
             SyntaxNode::VarDecl(VarDecl {
                 kind: VarDeclKind::Singular(name),
@@ -56,3 +66,36 @@ impl NodeVisitor<&ExportDecl> for Compiler {
         Ok(())
     }
 }
+
+impl Compiler {
+    // NOTE: The exports object and the value being destructured are already on top of the stack.
+    fn export_destructured(&mut self, names: &[String], span: Span) -> Result<(), Error> {
+        for name in names {
+            let slot = self
+                .context()?
+                .scope_stack()
+                .local(name.clone())
+                .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?
+                .slot as u8;
+
+            emit_bytecode! {
+                self.assembler()?, span => [
+                    DUP 1;
+                    LOAD_LOCAL slot;
+                    STORE_FIELD name.clone();
+                    POP;
+                ]
+            }
+        }
+
+        // NOTE: Only leave the destructured value on the stack, as any other variable declaration does.
+        emit_bytecode! {
+            self.assembler()?, span => [
+                SWAP;
+                POP;
+            ]
+        }
+
+        Ok(())
+    }
+}
-- 
2.43.0


From c1d500f75a0cbd58c26436ee9028426bb31aa1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:41 +0000
Subject: [PATCH 15/27] fix: evaluate the value of a nullable type test only
 once

---
 dice-compiler/src/visitor/expr_is.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_is.rs b/dice-compiler/src/visitor/expr_is.rs
index 13a1a10..21b4937 100644
--- a/dice-compiler/src/visitor/expr_is.rs
+++ b/dice-compiler/src/visitor/expr_is.rs
@@ -7,19 +7,27 @@ impl NodeVisitor<&Is> for Compiler {
     fn visit(&mut self, Is { value, type_, span }: &Is) -> Result<(), Error> {
         if type_.is_nullable {
             // TODO: Replace this with an IS_TYPE_OR_NULL instruction.
-            let type_check_jump;
+            let null_jump;
             emit_bytecode! {
                 self.assembler()?, *span => [
                     {self.visit(*value)?};
+                    DUP 0;
                     PUSH_NULL;
                     EQ;
-                    DUP 0;
-                    JUMP_IF_TRUE -> type_check_jump;
-                    POP;
-                    {self.visit(*value)?};
+                    JUMP_IF_TRUE -> null_jump;
                     {self.visit(&type_.name)?};
                     IS;
-                    PATCH_JUMP <- type_check_jump;
+                ]
+            }
+
+            // NOTE: If the value is null, replace it with true.
+            let end_jump = self.assembler()?.jump(*span);
+            emit_bytecode! {
+                self.assembler()?, *span => [
+                    PATCH_JUMP <- null_jump;
+                    POP;
+                    PUSH_BOOL true;
+                    PATCH_JUMP <- end_jump;
                 ]
             }
         } else {
-- 
2.43.0


From aa275e09b58f67c6a285ff524648de44fc0e2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 16/27] fix: keep null propagation inside the chain it belongs
 to

A chain nested in an operand of another chain's first expression jumped to the end of the outer chain,
e.g. (a?.b ?? 5).c or [a?.b].c.
---
 dice-compiler/src/visitor/syntax_node.rs | 27 ++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 39228bb..0331c61 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -10,6 +10,16 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
     fn visit(&mut self, node: SyntaxNodeId) -> Result<(), Error> {
         let node = self.syntax_tree.get(node).clone();
 
+        // NOTE: Only accesses, calls, and propagations continue the chain they're a part of. Anything else that's nested in a
+        // chain is evaluated in a call context of its own, so that any chains inside of it only short-circuit themselves.
+        let original_call_context = if Self::continues_chain(&node) {
+            None
+        } else {
+            Some(std::mem::take(
+                &mut self.context()?.scope_stack().top_mut()?.call_context,
+            ))
+        };
+
         match &node {
             SyntaxNode::LitIdent(literal) => self.visit(literal)?,
             SyntaxNode::LitUnit(literal) => self.visit(literal)?,
@@ -76,11 +86,28 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
             }
         }
 
+        if let Some(original_call_context) = original_call_context {
+            self.context()?.scope_stack().top_mut()?.call_context = original_call_context;
+        }
+
         Ok(())
     }
 }
 
 impl Compiler {
+    fn continues_chain(node: &SyntaxNode) -> bool {
+        matches!(
+            node,
+            SyntaxNode::NullPropagate(_)
+                | SyntaxNode::ErrorPropagate(_)
+                | SyntaxNode::FieldAccess(_)
+                | SyntaxNode::SuperAccess(_)
+                | SyntaxNode::FnCall(_)
+                | SyntaxNode::SuperCall(_)
+                | SyntaxNode::Index(_)
+        )
+    }
+
     fn enter_call(&mut self) -> Result<(), Error> {
         let context = &mut self.context()?.scope_stack().top_mut()?.call_context;
         context.depth += 1;
-- 
2.43.0


From fc9e99af7c7abb73bf86f1bac62ce74c14854018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 17/27] fix: discard every held temporary when returning from
 inside an expression

Only call arguments and indexes were counted: a return or !! inside an operand, list item, object value,
assigned value or for loop left values behind on the stack.
---
 dice-compiler/src/compiler.rs                | 12 +++++++++++-
 dice-compiler/src/visitor/expr_assignment.rs | 14 +++++++-------
 dice-compiler/src/visitor/expr_binary_op.rs  |  4 ++--
 dice-compiler/src/visitor/expr_for.rs        |  3 ++-
 dice-compiler/src/visitor/expr_range_loop.rs |  5 +++--
 dice-compiler/src/visitor/literal_list.rs    |  4 ++--
 dice-compiler/src/visitor/literal_object.rs  |  2 +-
 7 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index f288c45..c905ce9 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -5,7 +5,7 @@ use dice_core::{
     source::{Source, SourceKind},
     span::Span,
 };
-use dice_syntax::{Parser, SyntaxTree};
+use dice_syntax::{Parser, SyntaxNodeId, SyntaxTree};
 
 use crate::{
     assembler::Assembler,
@@ -71,6 +71,16 @@ impl Compiler {
         self.compiler_stack.top_mut()
     }
 
+    /// Visit a node while the specified number of temporaries, which would have to be discarded if the node transfers control
+    /// out of the enclosing expression, are held on the stack.
+    pub(super) fn visit_with_temporaries(&mut self, node: SyntaxNodeId, count: usize) -> Result<(), Error> {
+        *self.context()?.temporary_count() += count;
+        self.visit(node)?;
+        *self.context()?.temporary_count() -= count;
+
+        Ok(())
+    }
+
     pub(super) fn assembler(&mut self) -> Result<&mut Assembler, Error> {
         Ok(self.compiler_stack.top_mut()?.assembler())
     }
diff --git a/dice-compiler/src/visitor/expr_assignment.rs b/dice-compiler/src/visitor/expr_assignment.rs
index 9d1ea6b..3af8c2a 100644
--- a/dice-compiler/src/visitor/expr_assignment.rs
+++ b/dice-compiler/src/visitor/expr_assignment.rs
@@ -37,13 +37,13 @@ impl NodeVisitor<&Assignment> for Compiler {
 impl Compiler {
     fn assign_index(&mut self, target: Index, assignment: &Assignment) -> Result<(), Error> {
         self.visit(target.expression)?;
-        self.visit(target.index_expression)?;
+        self.visit_with_temporaries(target.index_expression, 1)?;
 
         match assignment.operator {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, assignment.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         ASSIGN_INDEX;
                     ]
                 }
@@ -54,7 +54,7 @@ impl Compiler {
                         DUP 1;
                         DUP 1;
                         LOAD_INDEX;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 3)?};
                         {self.visit_operator(operator, assignment.span)?};
                         ASSIGN_INDEX;
                     ]
@@ -72,7 +72,7 @@ impl Compiler {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, target.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 1)?};
                         STORE_FIELD target.field;
                     ]
                 }
@@ -82,7 +82,7 @@ impl Compiler {
                     self.assembler()?, target.span => [
                         DUP 0;
                         LOAD_FIELD &*target.field;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         {self.visit_operator(operator, target.span)?};
                         ASSIGN_FIELD target.field;
                     ]
@@ -150,7 +150,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_UPVALUE upvalue as u8;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_UPVALUE upvalue as u8;
                     ]
@@ -192,7 +192,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_LOCAL slot;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_LOCAL slot;
                     ]
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c800423..c9f2060 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -91,7 +91,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(rhs_expression)?;
-        self.visit(lhs_expression)?;
+        self.visit_with_temporaries(lhs_expression, 1)?;
         self.assembler()?.call(1, span);
 
         Ok(())
@@ -129,7 +129,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(lhs_expression)?;
-        self.visit(rhs_expression)?;
+        self.visit_with_temporaries(rhs_expression, 1)?;
 
         match operator {
             BinaryOperator::Multiply => self.assembler()?.mul(span),
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 917561c..9a72e4f 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -50,7 +50,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        self.visit(for_loop.body)?;
+        // NOTE: The iterator's next method stays on the stack for the duration of the loop.
+        self.visit_with_temporaries(for_loop.body, 1)?;
 
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index eb406a9..0df2b81 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -25,7 +25,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // NOTE: Evaluate the end of the range first as a temporary so that it doesn't have to be evaluated again.
         self.visit(range_loop.end)?;
         // NOTE: The start is then evaluated. It will get popped and re-pushed later when stored as a local.
-        self.visit(range_loop.start)?;
+        self.visit_with_temporaries(range_loop.start, 1)?;
 
         let context = self.context()?;
         let loop_start = context.assembler().current_position();
@@ -52,7 +52,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
             ]
         }
 
-        self.visit(range_loop.body)?;
+        // NOTE: The end of the range stays on the stack for the duration of the loop.
+        self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 5a8d988..b278674 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -5,8 +5,8 @@ use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
-        for item in value {
-            self.visit(*item)?;
+        for (index, item) in value.iter().enumerate() {
+            self.visit_with_temporaries(*item, index)?;
         }
 
         self.assembler()?.create_list(value.len() as u8, *span);
diff --git a/dice-compiler/src/visitor/literal_object.rs b/dice-compiler/src/visitor/literal_object.rs
index b9b82bc..b5376bb 100644
--- a/dice-compiler/src/visitor/literal_object.rs
+++ b/dice-compiler/src/visitor/literal_object.rs
@@ -9,7 +9,7 @@ impl NodeVisitor<&LitObject> for Compiler {
 
         for (field, value) in items {
             self.assembler()?.dup(0, *span);
-            self.visit(*value)?;
+            self.visit_with_temporaries(*value, 2)?;
             self.assembler()?.store_field(field.clone(), *span)?;
             self.assembler()?.pop(*span);
         }
-- 
2.43.0


From 1799aae41b02762aa418dfaf6d75fb197593b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:30 +0000
Subject: [PATCH 18/27] fix: discard held temporaries before leaving a loop
 iteration with break or continue

---
 dice-compiler/src/scope_stack.rs             | 22 +++++++++++++++++++
 dice-compiler/src/visitor/expr_break.rs      | 23 +++++++++++++++++++-
 dice-compiler/src/visitor/expr_continue.rs   |  4 ++++
 dice-compiler/src/visitor/expr_for.rs        | 10 ++++-----
 dice-compiler/src/visitor/expr_loop.rs       |  5 +++--
 dice-compiler/src/visitor/expr_range_loop.rs | 11 ++++------
 dice-compiler/src/visitor/expr_while.rs      |  5 +++--
 7 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 98504a3..d765f0c 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -58,6 +58,8 @@ pub struct ScopeContext {
     pub exit_points: Vec<usize>,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
+    /// The number of temporaries held on the stack at the start of each iteration, if the scope is that of a loop.
+    pub temporary_count: usize,
     slot_count: usize,
 }
 
@@ -70,6 +72,7 @@ impl Default for ScopeContext {
             exit_points: Vec::new(),
             variables: Vec::new(),
             call_context: Default::default(),
+            temporary_count: 0,
             slot_count: 0,
         }
     }
@@ -100,6 +103,16 @@ impl ScopeStack {
         });
     }
 
+    pub fn push_loop_scope(&mut self, entry_point: Option<usize>, temporary_count: usize) {
+        self.stack.push(ScopeContext {
+            kind: ScopeKind::Loop,
+            depth: self.stack.len(),
+            entry_point,
+            temporary_count,
+            ..Default::default()
+        });
+    }
+
     pub fn pop_scope(&mut self) -> Result<ScopeContext, Error> {
         self.stack.pop().ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
@@ -169,6 +182,15 @@ impl ScopeStack {
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
 
+    /// Get the number of temporaries held by the first scope to match the specified kind.
+    pub fn temporary_count(&self, kind: ScopeKind) -> Result<usize, Error> {
+        let scope = self
+            .first_of_kind(kind)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        Ok(scope.temporary_count)
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 5f82642..431be4c 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -1,6 +1,9 @@
 use super::NodeVisitor;
 use crate::{compiler::Compiler, scope_stack::ScopeKind};
-use dice_core::error::{codes::INVALID_BREAK_USAGE, Error};
+use dice_core::{
+    error::{codes::INVALID_BREAK_USAGE, Error},
+    span::Span,
+};
 use dice_syntax::Break;
 
 impl NodeVisitor<&Break> for Compiler {
@@ -11,9 +14,27 @@ impl NodeVisitor<&Break> for Compiler {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
+        // NOTE: Discard any temporaries created since the start of the iteration, as the loop is exited with none of them.
+        self.discard_loop_temporaries(*span)?;
+
+        let context = self.context()?;
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
         Ok(())
     }
 }
+
+impl Compiler {
+    pub(super) fn discard_loop_temporaries(&mut self, span: Span) -> Result<(), Error> {
+        let context = self.context()?;
+        let temporary_count = *context.temporary_count();
+        let loop_temporary_count = context.scope_stack().temporary_count(ScopeKind::Loop)?;
+
+        for _ in loop_temporary_count..temporary_count {
+            context.assembler().pop(span);
+        }
+
+        Ok(())
+    }
+}
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2a54861..2b4c136 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,6 +10,10 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
+        // NOTE: Discard any temporaries created since the start of the iteration, as the next one starts with none of them.
+        self.discard_loop_temporaries(*span)?;
+
+        let context = self.context()?;
         let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
         context.assembler().jump_back(loop_start as u64, *span);
 
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 9a72e4f..e3dac7d 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -4,10 +4,7 @@ use dice_core::{
 };
 use dice_syntax::ForLoop;
 
-use crate::{
-    compiler::Compiler,
-    scope_stack::{ScopeKind, State},
-};
+use crate::{compiler::Compiler, scope_stack::State};
 
 use super::NodeVisitor;
 
@@ -33,7 +30,9 @@ impl NodeVisitor<&ForLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // The iterator's next method stays on the stack for the duration of the loop.
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
@@ -50,7 +49,6 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        // NOTE: The iterator's next method stays on the stack for the duration of the loop.
         self.visit_with_temporaries(for_loop.body, 1)?;
 
         let context = self.context()?;
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index d05af6a..f942c15 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{Loop, SyntaxNode};
 
@@ -8,10 +8,11 @@ impl NodeVisitor<&Loop> for Compiler {
         if let SyntaxNode::Block(block) = self.syntax_tree.get(*body) {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
+            let temporary_count = *self.context()?.temporary_count();
 
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop_scope(Some(loop_start as usize), temporary_count);
 
             self.visit((&block, BlockKind::Loop))?;
             self.assembler()?.jump_back(loop_start, *span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 0df2b81..fabcd94 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,8 +1,4 @@
-use crate::{
-    compiler::Compiler,
-    scope_stack::{ScopeKind, State},
-    visitor::NodeVisitor,
-};
+use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
 use dice_core::{error::Error, span::Span};
 use dice_syntax::{BinaryOperator, ForLoop, SyntaxNode, SyntaxNodeId};
 
@@ -32,7 +28,9 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // The end of the range stays on the stack for the duration of the loop.
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
@@ -52,7 +50,6 @@ impl NodeVisitor<&RangeLoop> for Compiler {
             ]
         }
 
-        // NOTE: The end of the range stays on the stack for the duration of the loop.
         self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 8a48e63..3320005 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{SyntaxNode, WhileLoop};
 
@@ -8,10 +8,11 @@ impl NodeVisitor<&WhileLoop> for Compiler {
         if let SyntaxNode::Block(block) = self.syntax_tree.get(*body) {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
+            let temporary_count = *self.context()?.temporary_count();
 
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop_scope(Some(loop_start as usize), temporary_count);
             self.visit(*condition)?;
 
             let loop_end = self.assembler()?.jump_if_false(*span);
-- 
2.43.0


From d5fa59b42829023efdbcf0a6c8ea3d9358f69e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:00 +0000
Subject: [PATCH 19/27] fix: leave the stack balanced when breaking out of a
 loop over an iterator

---
 dice-compiler/src/visitor/expr_for.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index e3dac7d..f416bd6 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -63,16 +63,22 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
+        // NOTE: Once the iterator is exhausted, its last result is still on the stack.
+        emit_bytecode! {
+            context.assembler(), for_loop.span => [
+                PATCH_JUMP <- loop_exit;
+                POP;
+            ]
+        }
+
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
-        context.assembler().patch_jump(loop_exit);
         for exit_point in scope_context.exit_points {
             context.assembler().patch_jump(exit_point as u64);
         }
 
-        // NOTE: Clean up the temporaries stored on the stack and push a unit value.
+        // NOTE: Clean up the iterator's next method stored on the stack and push a unit value.
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 POP;
                 PUSH_UNIT;
             ]
-- 
2.43.0


From a36284fbdc05fc58dfeb590733194ec3c78dd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:07 +0000
Subject: [PATCH 20/27] fix: support continue in for loops

---
 dice-compiler/src/scope_stack.rs             | 22 ++++++++++++++------
 dice-compiler/src/visitor/expr_continue.rs   |  9 ++++++--
 dice-compiler/src/visitor/expr_for.rs        | 13 +++++++++++-
 dice-compiler/src/visitor/expr_range_loop.rs | 17 +++++++++------
 4 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index d765f0c..e4e5ba3 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -56,6 +56,7 @@ pub struct ScopeContext {
     pub kind: ScopeKind,
     pub entry_point: Option<usize>,
     pub exit_points: Vec<usize>,
+    pub continue_points: Vec<usize>,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
     /// The number of temporaries held on the stack at the start of each iteration, if the scope is that of a loop.
@@ -70,6 +71,7 @@ impl Default for ScopeContext {
             kind: ScopeKind::Block,
             entry_point: None,
             exit_points: Vec::new(),
+            continue_points: Vec::new(),
             variables: Vec::new(),
             call_context: Default::default(),
             temporary_count: 0,
@@ -170,16 +172,24 @@ impl ScopeStack {
         Ok(())
     }
 
-    /// Get the entry point of the first scope to match the specified kind.
-    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<usize, Error> {
+    /// Push the bytecode location of a continue point to the inner most loop's scope, to later be patched.
+    pub fn add_loop_continue_point(&mut self, continue_point: usize) -> Result<(), Error> {
+        let scope = self
+            .first_of_kind_mut(ScopeKind::Loop)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        scope.continue_points.push(continue_point);
+
+        Ok(())
+    }
+
+    /// Get the entry point of the first scope to match the specified kind, if its iterations start from their entry point.
+    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<Option<usize>, Error> {
         let scope = self
             .first_of_kind(kind)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        scope
-            .entry_point
-            .clone()
-            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
+        Ok(scope.entry_point)
     }
 
     /// Get the number of temporaries held by the first scope to match the specified kind.
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2b4c136..27d0442 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -14,8 +14,13 @@ impl NodeVisitor<&Continue> for Compiler {
         self.discard_loop_temporaries(*span)?;
 
         let context = self.context()?;
-        let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
-        context.assembler().jump_back(loop_start as u64, *span);
+        match context.scope_stack().entry_point(ScopeKind::Loop)? {
+            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
+            None => {
+                let patch_location = context.assembler().jump(*span);
+                context.scope_stack().add_loop_continue_point(patch_location as usize)?;
+            }
+        }
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index f416bd6..d769c12 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -53,11 +53,22 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         let context = self.context()?;
 
-        // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
+        // NOTE: Close the scope and pop off the value from evaluating the loop body.
         let scope_context = context.scope_stack().pop_scope()?;
         emit_bytecode! {
             context.assembler(), for_loop.span => [
                 POP;
+            ]
+        }
+
+        // NOTE: Patch all continue points from the loop to jump to the next iteration of the loop.
+        for continue_point in scope_context.continue_points {
+            context.assembler().patch_jump(continue_point as u64);
+        }
+
+        // NOTE: Close out any upvalues at the end of the loop scope, before jumping back.
+        emit_bytecode! {
+            context.assembler(), for_loop.span => [
                 CLOSE_UPVALUES scope_context.variables;
                 JUMP_BACK loop_start;
             ]
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index fabcd94..7167820 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -53,20 +53,25 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
-        // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
+        // NOTE: Close the scope and pop off the value from evaluating the loop body.
+        let scope_context = context.scope_stack().pop_scope()?;
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 POP;
-                LOAD_LOCAL variable_slot;
-                PUSH_I1;
-                ADD;
             ]
         }
 
-        // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
-        let scope_context = context.scope_stack().pop_scope()?;
+        // NOTE: Patch all continue points from the loop to jump to the next iteration of the loop.
+        for continue_point in scope_context.continue_points {
+            context.assembler().patch_jump(continue_point as u64);
+        }
+
+        // NOTE: Increment the loop variable by 1 and close out any upvalues at the end of the loop scope, before jumping back.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
+                LOAD_LOCAL variable_slot;
+                PUSH_I1;
+                ADD;
                 CLOSE_UPVALUES scope_context.variables;
                 JUMP_BACK loop_start;
             ]
-- 
2.43.0


From 280013efaa03c2882e4969283dc90cf31a14425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:49 +0000
Subject: [PATCH 21/27] fix: close captured variables on every way out of their
 scope

---
 dice-compiler/src/scope_stack.rs           | 37 ++++++++++++++++++++
 dice-compiler/src/visitor/expr_block.rs    | 40 +++++++++++-----------
 dice-compiler/src/visitor/expr_break.rs    |  4 +++
 dice-compiler/src/visitor/expr_continue.rs |  4 +++
 4 files changed, 65 insertions(+), 20 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index e4e5ba3..94f5ddc 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -201,6 +201,43 @@ impl ScopeStack {
         Ok(scope.temporary_count)
     }
 
+    /// Get the slots of the captured variables that go out of scope at the end of the inner most loop's current iteration,
+    /// including the variables of the loop itself if it's being exited.
+    pub fn captured_loop_slots(&self, is_exit: bool) -> Vec<usize> {
+        let loop_index = self.stack.iter().rposition(|scope| scope.kind == ScopeKind::Loop);
+        let start = match loop_index {
+            Some(index) if is_exit => index,
+            Some(index) => index + 1,
+            None => self.stack.len(),
+        };
+
+        self.stack[start..]
+            .iter()
+            .flat_map(|scope| scope.variables.iter())
+            .filter(|variable| variable.is_captured)
+            .map(|variable| variable.slot)
+            .collect()
+    }
+
+    /// Get the slots of all variables which may be captured at the time the current function returns. A variable declared
+    /// outside of an enclosing loop can have been captured in an earlier iteration, by an expression yet to be visited.
+    pub fn captured_slots(&self) -> Vec<usize> {
+        let inner_loop_index = self.stack.iter().rposition(|scope| scope.kind == ScopeKind::Loop);
+
+        self.stack
+            .iter()
+            .enumerate()
+            .flat_map(|(index, scope)| {
+                let is_outside_loop = inner_loop_index.map_or(false, |loop_index| index < loop_index);
+                scope
+                    .variables
+                    .iter()
+                    .filter(move |variable| variable.is_captured || is_outside_loop)
+            })
+            .map(|variable| variable.slot)
+            .collect()
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62df36f..f60e58f 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -81,7 +81,6 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         self.visit_args(&kind, kind.args())?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
-        self.visit_close_upvalues(block)?;
 
         if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
             self.visit_return(block.span)?
@@ -98,7 +97,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
                 self.assembler()?, block.span => [
                     POP;
                     LOAD_LOCAL local_slot;
-                    RET;
+                    {self.visit_return(block.span)?};
                 ]
             }
         }
@@ -174,25 +173,26 @@ impl Compiler {
     }
 
     pub(super) fn visit_return(&mut self, span: Span) -> Result<(), Error> {
-        if let CompilerKind::Function {
-            return_type: Some(return_type),
+        let return_type = match self.context()?.kind() {
+            CompilerKind::Function { return_type } | CompilerKind::Method { return_type } => return_type,
+            _ => None,
+        };
+
+        // NOTE: The return type is loaded first, in case it's a captured variable itself.
+        if let Some(return_type) = &return_type {
+            self.visit(&return_type.name)?;
         }
-        | CompilerKind::Method {
-            return_type: Some(return_type),
-        } = self.context()?.kind()
-        {
-            emit_bytecode! {
-                self.assembler()?, span => [
-                    {self.visit(&return_type.name)?};
-                    if return_type.is_nullable => [
-                        ASSERT_TYPE_OR_NULL_AND_RETURN;
-                    ] else [
-                        ASSERT_TYPE_AND_RETURN;
-                    ]
-                ]
-            }
-        } else {
-            self.assembler()?.ret(span)
+
+        // NOTE: Close out the upvalues of every scope in the function, as the function's locals are gone once it returns.
+        let context = self.context()?;
+        for slot in context.scope_stack().captured_slots() {
+            context.assembler().close_upvalue(slot as u8, span);
+        }
+
+        match return_type {
+            Some(return_type) if return_type.is_nullable => self.assembler()?.assert_type_or_null_and_return(span),
+            Some(_) => self.assembler()?.assert_type_and_return(span),
+            None => self.assembler()?.ret(span),
         }
 
         Ok(())
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 431be4c..ef85ed1 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -18,6 +18,10 @@ impl NodeVisitor<&Break> for Compiler {
         self.discard_loop_temporaries(*span)?;
 
         let context = self.context()?;
+        for slot in context.scope_stack().captured_loop_slots(true) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 27d0442..330a3ef 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -14,6 +14,10 @@ impl NodeVisitor<&Continue> for Compiler {
         self.discard_loop_temporaries(*span)?;
 
         let context = self.context()?;
+        for slot in context.scope_stack().captured_loop_slots(false) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
             Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
             None => {
-- 
2.43.0


From 18bdad10876ba60967cfb00ec10ac0f93aa0f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:44 +0000
Subject: [PATCH 22/27] fix: reject calls with more arguments than can be
 encoded

---
 dice-compiler/src/visitor/expr_fn_call.rs    | 18 +++++++++++++++---
 dice-compiler/src/visitor/expr_super_call.rs |  3 ++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_fn_call.rs b/dice-compiler/src/visitor/expr_fn_call.rs
index fab31b9..12c3ef9 100644
--- a/dice-compiler/src/visitor/expr_fn_call.rs
+++ b/dice-compiler/src/visitor/expr_fn_call.rs
@@ -1,10 +1,16 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
-use dice_syntax::FnCall;
+use dice_core::{
+    error::{codes::FUNCTION_HAS_TOO_MANY_ARGUMENTS, Error},
+    span::Span,
+};
+use dice_syntax::{FnCall, SyntaxNodeId};
+use std::convert::TryFrom;
 
 impl NodeVisitor<&FnCall> for Compiler {
     fn visit(&mut self, node: &FnCall) -> Result<(), Error> {
+        let arg_count = Self::assert_arg_count(&node.args, node.span)?;
+
         self.visit(node.target)?;
 
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
@@ -22,8 +28,14 @@ impl NodeVisitor<&FnCall> for Compiler {
         }
 
         *self.context()?.temporary_count() = original_temporary_count;
-        self.assembler()?.call(node.args.len() as u8, node.span);
+        self.assembler()?.call(arg_count, node.span);
 
         Ok(())
     }
 }
+
+impl Compiler {
+    pub(super) fn assert_arg_count(args: &[SyntaxNodeId], span: Span) -> Result<u8, Error> {
+        u8::try_from(args.len()).map_err(|_| Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS).with_span(span))
+    }
+}
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index c8d3300..66f362b 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -17,6 +17,7 @@ impl NodeVisitor<&SuperCall> for Compiler {
             return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
         }
 
+        let arg_count = Self::assert_arg_count(&node.args, node.span)?;
         let local_slot = self
             .context()?
             .scope_stack()
@@ -45,7 +46,7 @@ impl NodeVisitor<&SuperCall> for Compiler {
             identifier: SUPER.to_owned(),
             span: node.span,
         })?;
-        self.assembler()?.call_super(node.args.len() as u8, node.span);
+        self.assembler()?.call_super(arg_count, node.span);
 
         Ok(())
     }
-- 
2.43.0


From d7142744fd2fd9c6253a585dbbfeb4396a4d0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 23/27] fix: reject list literals with more items than can be
 encoded

---
 data/locales/en-US/errors.ftl             | 1 +
 dice-compiler/src/visitor/literal_list.rs | 7 +++++--
 dice-core/src/error/codes.rs              | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 57f5336..6c17dd7 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -15,6 +15,7 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
+E2102 = List has too many items (max: 255).
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index b278674..c243437 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -1,15 +1,18 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::LIST_HAS_TOO_MANY_ITEMS, Error};
 use dice_syntax::LitList;
+use std::convert::TryFrom;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
+        let length = u8::try_from(value.len()).map_err(|_| Error::new(LIST_HAS_TOO_MANY_ITEMS).with_span(*span))?;
+
         for (index, item) in value.iter().enumerate() {
             self.visit_with_temporaries(*item, index)?;
         }
 
-        self.assembler()?.create_list(value.len() as u8, *span);
+        self.assembler()?.create_list(length, *span);
 
         Ok(())
     }
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 4f4ee1a..95df2fb 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -17,6 +17,7 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
+pub static LIST_HAS_TOO_MANY_ITEMS: ErrorCode = "E2102";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 58a746f812029bf11994c3641e9ec440427256cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:46 +0000
Subject: [PATCH 24/27] fix: reject functions with more local variables than
 can be encoded

---
 data/locales/en-US/errors.ftl                |  1 +
 dice-compiler/src/compiler.rs                |  2 +-
 dice-compiler/src/decl_scan.rs               | 10 +++++-----
 dice-compiler/src/scope_stack.rs             | 20 ++++++++++++++++----
 dice-compiler/src/visitor/decl_class.rs      |  2 +-
 dice-compiler/src/visitor/decl_import.rs     | 16 ++++++++--------
 dice-compiler/src/visitor/decl_var.rs        | 17 +++++++++--------
 dice-compiler/src/visitor/expr_block.rs      |  6 ++++--
 dice-compiler/src/visitor/expr_for.rs        |  7 ++++---
 dice-compiler/src/visitor/expr_range_loop.rs |  7 ++++---
 dice-core/src/error/codes.rs                 |  1 +
 11 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 6c17dd7..ec271aa 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -16,6 +16,7 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
 E2102 = List has too many items (max: 255).
+E2103 = The maximum number of local variables (256) has been exceeded for this compilation unit.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index c905ce9..74a15ed 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -41,7 +41,7 @@ impl Compiler {
         if let CompilerKind::Module = kind {
             self.context()?
                 .scope_stack()
-                .add_local(EXPORT, State::initialized(false))?;
+                .add_local(EXPORT, State::initialized(false), Span::new(0..0))?;
         }
 
         self.visit(self.syntax_tree.root())?;
diff --git a/dice-compiler/src/decl_scan.rs b/dice-compiler/src/decl_scan.rs
index 07a16cf..9f1ddf4 100644
--- a/dice-compiler/src/decl_scan.rs
+++ b/dice-compiler/src/decl_scan.rs
@@ -1,6 +1,6 @@
 use crate::{compiler::Compiler, scope_stack::State};
 use dice_core::error::Error;
-use dice_syntax::{Block, ClassDecl, FnDecl, SyntaxNode, SyntaxNodeId};
+use dice_syntax::{Block, ClassDecl, FnDecl, LitIdent, SyntaxNode, SyntaxNodeId};
 
 impl Compiler {
     // NOTE: Scan through all the declared items in a block and add slots for any functions and classes ahead of time.
@@ -37,19 +37,19 @@ impl Compiler {
     }
 
     fn scan_fn_decl(&mut self, fn_decl: FnDecl) -> Result<(), Error> {
-        let name = fn_decl.name.identifier;
+        let LitIdent { identifier, span } = fn_decl.name;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Function { is_initialized: false })?;
+            .add_local(identifier, State::Function { is_initialized: false }, span)?;
 
         Ok(())
     }
 
     fn scan_class_decl(&mut self, class_decl: ClassDecl) -> Result<(), Error> {
-        let name = class_decl.name.identifier;
+        let LitIdent { identifier, span } = class_decl.name;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Class { is_initialized: false })?;
+            .add_local(identifier, State::Class { is_initialized: false }, span)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 94f5ddc..51923e3 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -1,4 +1,10 @@
-use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
+use dice_core::{
+    error::{
+        codes::{INTERNAL_COMPILER_ERROR, TOO_MANY_LOCALS},
+        Error,
+    },
+    span::Span,
+};
 
 #[derive(Clone)]
 pub struct ScopeVariable {
@@ -123,15 +129,21 @@ impl ScopeStack {
         self.first_of_kind(kind).is_some()
     }
 
-    pub fn add_local(&mut self, name: impl Into<String>, state: State) -> Result<usize, Error> {
-        self.add_local_impl(name.into(), state)
+    pub fn add_local(&mut self, name: impl Into<String>, state: State, span: Span) -> Result<usize, Error> {
+        self.add_local_impl(name.into(), state, span)
     }
 
-    fn add_local_impl(&mut self, name: String, state: State) -> Result<usize, Error> {
+    fn add_local_impl(&mut self, name: String, state: State, span: Span) -> Result<usize, Error> {
         self.top_mut()?.slot_count += 1;
 
         let slot_count = self.stack.iter().rev().map(|scope| scope.slot_count).sum();
         let slot = slot_count - 1;
+
+        // NOTE: Slots are encoded as a single byte.
+        if slot > 255 {
+            return Err(Error::new(TOO_MANY_LOCALS).with_span(span));
+        }
+
         let local = ScopeVariable {
             name,
             slot,
diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index e76b597..9d88b3d 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -38,7 +38,7 @@ impl NodeVisitor<&ClassDecl> for Compiler {
         let super_slot = self
             .context()?
             .scope_stack()
-            .add_local(SUPER, State::initialized(true))? as u8;
+            .add_local(SUPER, State::initialized(true), node.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, node.span => [
diff --git a/dice-compiler/src/visitor/decl_import.rs b/dice-compiler/src/visitor/decl_import.rs
index 236c333..94270d1 100644
--- a/dice-compiler/src/visitor/decl_import.rs
+++ b/dice-compiler/src/visitor/decl_import.rs
@@ -8,10 +8,10 @@ impl NodeVisitor<&ImportDecl> for Compiler {
             .item_imports
             .iter()
             .map(|item| {
-                let slot = self
-                    .context()?
-                    .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                let slot =
+                    self.context()?
+                        .scope_stack()
+                        .add_local(item.clone(), State::initialized(false), node.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
@@ -31,10 +31,10 @@ impl NodeVisitor<&ImportDecl> for Compiler {
         }
 
         if let Some(module_import) = &node.module_import {
-            let module_slot = self
-                .context()?
-                .scope_stack()
-                .add_local(module_import.clone(), State::initialized(false))?;
+            let module_slot =
+                self.context()?
+                    .scope_stack()
+                    .add_local(module_import.clone(), State::initialized(false), node.span)?;
 
             self.assembler()?.store_local(module_slot as u8, node.span);
         }
diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 087daeb..301c1b6 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -16,10 +16,10 @@ impl NodeVisitor<&VarDecl> for Compiler {
 
 impl Compiler {
     fn singular_var(&mut self, var_decl: &VarDecl, name: &str) -> Result<(), Error> {
-        let slot = self
-            .context()?
-            .scope_stack()
-            .add_local(name, State::initialized(var_decl.is_mutable))? as u8;
+        let slot =
+            self.context()?
+                .scope_stack()
+                .add_local(name, State::initialized(var_decl.is_mutable), var_decl.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, var_decl.span => [
@@ -49,10 +49,11 @@ impl Compiler {
         let imports: Vec<(&str, u8)> = variables
             .iter()
             .map(|item| {
-                let slot = self
-                    .context()?
-                    .scope_stack()
-                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
+                let slot = self.context()?.scope_stack().add_local(
+                    item.clone(),
+                    State::initialized(var_decl.is_mutable),
+                    var_decl.span,
+                )?;
 
                 Ok((item.as_str(), slot as u8))
             })
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index f60e58f..365fe6c 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -78,7 +78,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         }
 
         self.context()?.scope_stack().push_scope(ScopeKind::Block, None);
-        self.visit_args(&kind, kind.args())?;
+        self.visit_args(&kind, kind.args(), block.span)?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
 
@@ -120,7 +120,7 @@ impl Compiler {
         Err(Error::new(NEW_MUST_CALL_SUPER_FROM_SUBCLASS).with_span(block.span))
     }
 
-    fn visit_args(&mut self, kind: &FunctionBlockKind, args: &[FnArg]) -> Result<(), Error> {
+    fn visit_args(&mut self, kind: &FunctionBlockKind, args: &[FnArg], span: Span) -> Result<(), Error> {
         // NOTE: The calling convention uses the first parameter as self in methods, but for functions it's inaccessible.
         if let FunctionBlockKind::Function(_) = kind {
             self.context()?.scope_stack().add_local(
@@ -129,6 +129,7 @@ impl Compiler {
                     is_mutable: false,
                     is_initialized: true,
                 },
+                span,
             )?;
         }
 
@@ -139,6 +140,7 @@ impl Compiler {
                     is_mutable: false,
                     is_initialized: true,
                 },
+                arg.span,
             )? as u8;
 
             if let Some(type_) = &arg.type_ {
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index d769c12..621a895 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -33,9 +33,10 @@ impl NodeVisitor<&ForLoop> for Compiler {
         // The iterator's next method stays on the stack for the duration of the loop.
         let temporary_count = *context.temporary_count() + 1;
         context.scope_stack().push_loop_scope(None, temporary_count);
-        let variable_slot = context
-            .scope_stack()
-            .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
+        let variable_slot =
+            context
+                .scope_stack()
+                .add_local(for_loop.variable.clone(), State::initialized(false), for_loop.span)? as u8;
 
         emit_bytecode! {
             context.assembler(), for_loop.span => [
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 7167820..68e9539 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -31,9 +31,10 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // The end of the range stays on the stack for the duration of the loop.
         let temporary_count = *context.temporary_count() + 1;
         context.scope_stack().push_loop_scope(None, temporary_count);
-        let variable_slot = context
-            .scope_stack()
-            .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
+        let variable_slot =
+            context
+                .scope_stack()
+                .add_local(range_loop.variable.clone(), State::initialized(false), range_loop.span)? as u8;
 
         // NOTE: Store the start condition and duplicate the end condition, to be consumed by the loop condition.
         // This effectively reverses the order of the end and start conditions on the stack.
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 95df2fb..bf5a0a2 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -18,6 +18,7 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
 pub static LIST_HAS_TOO_MANY_ITEMS: ErrorCode = "E2102";
+pub static TOO_MANY_LOCALS: ErrorCode = "E2103";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 0a794fa5d9ec9d5c7323b69064b77bfbbf8057a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 25/27] fix: reject jumps that are too large to be encoded

---
 data/locales/en-US/errors.ftl                |  1 +
 dice-compiler/src/assembler.rs               | 29 +++++++++++++-------
 dice-compiler/src/visitor/expr_binary_op.rs  |  6 ++--
 dice-compiler/src/visitor/expr_continue.rs   |  2 +-
 dice-compiler/src/visitor/expr_for.rs        |  4 +--
 dice-compiler/src/visitor/expr_if.rs         |  4 +--
 dice-compiler/src/visitor/expr_loop.rs       |  4 +--
 dice-compiler/src/visitor/expr_range_loop.rs |  6 ++--
 dice-compiler/src/visitor/expr_while.rs      |  6 ++--
 dice-compiler/src/visitor/syntax_node.rs     |  2 +-
 dice-core/src/error/codes.rs                 |  1 +
 11 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index ec271aa..b7e96d9 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -17,6 +17,7 @@ E2100 = The maximum number of upvalues (256) has been exceeded for this compilat
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
 E2102 = List has too many items (max: 255).
 E2103 = The maximum number of local variables (256) has been exceeded for this compilation unit.
+E2104 = Code is too large to jump across (max: 32767 bytes).
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index b034ee5..65f30e8 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use bytes::BufMut as _;
 
@@ -6,7 +6,7 @@ use dice_bytecode::Instruction;
 use dice_bytecode::{Bytecode, ConstantValue};
 use dice_core::{
     error::{
-        codes::{TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
+        codes::{JUMP_TOO_LARGE, TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
         Error,
     },
     source::Source,
@@ -259,16 +259,25 @@ impl Assembler {
         patch_pos
     }
 
-    pub fn patch_jump(&mut self, jump_position: u64) {
-        let offset = (self.current_position() - jump_position - 2) as i16;
-        (&mut self.data[jump_position as usize..]).put_i16(offset)
+    pub fn patch_jump(&mut self, jump_position: u64) -> Result<(), Error> {
+        let offset = self.current_position() - jump_position - 2;
+        let offset = i16::try_from(offset).map_err(|_| {
+            let span = self.source_map.get(&(jump_position - 1)).copied();
+            Error::new(JUMP_TOO_LARGE).with_span(span.unwrap_or_else(Span::empty))
+        })?;
+        (&mut self.data[jump_position as usize..]).put_i16(offset);
+
+        Ok(())
     }
 
-    pub fn jump_back(&mut self, position: u64, span: Span) {
+    pub fn jump_back(&mut self, position: u64, span: Span) -> Result<(), Error> {
         self.source_map.insert(self.data.len() as u64, span);
         self.data.put_u8(Instruction::Jump.into());
-        let offset = -((self.current_position() - position + 2) as i16);
-        self.data.put_i16(offset);
+        let offset = self.current_position() - position + 2;
+        let offset = i16::try_from(offset).map_err(|_| Error::new(JUMP_TOO_LARGE).with_span(span))?;
+        self.data.put_i16(-offset);
+
+        Ok(())
     }
 
     pub fn current_position(&self) -> u64 {
@@ -636,7 +645,7 @@ macro_rules! emit_bytecode {
 
 
     ($assembler:expr, $span:expr => [JUMP_BACK $offset:expr; $($rest:tt)*] ) => {
-        $assembler.jump_back($offset, $span);
+        $assembler.jump_back($offset, $span)?;
         emit_bytecode! { $assembler, $span => [$($rest)*] }
     };
 
@@ -771,7 +780,7 @@ macro_rules! emit_bytecode {
     };
 
     ($assembler:expr, $span:expr => [PATCH_JUMP <- $into:expr; $($rest:tt)*] ) => {
-        $assembler.patch_jump($into);
+        $assembler.patch_jump($into)?;
         emit_bytecode! { $assembler, $span => [$($rest)*] }
     };
 
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c9f2060..8c6d58b 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -49,7 +49,7 @@ impl Compiler {
         self.compiler_stack
             .top_mut()?
             .assembler()
-            .patch_jump(short_circuit_jump);
+            .patch_jump(short_circuit_jump)?;
 
         Ok(())
     }
@@ -79,7 +79,7 @@ impl Compiler {
         self.compiler_stack
             .top_mut()?
             .assembler()
-            .patch_jump(short_circuit_jump);
+            .patch_jump(short_circuit_jump)?;
 
         Ok(())
     }
@@ -116,7 +116,7 @@ impl Compiler {
         }
 
         self.visit(rhs_expression)?;
-        self.assembler()?.patch_jump(coalesce_jump);
+        self.assembler()?.patch_jump(coalesce_jump)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 330a3ef..76f24fe 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -19,7 +19,7 @@ impl NodeVisitor<&Continue> for Compiler {
         }
 
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
-            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
+            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span)?,
             None => {
                 let patch_location = context.assembler().jump(*span);
                 context.scope_stack().add_loop_continue_point(patch_location as usize)?;
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 621a895..29ef677 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -64,7 +64,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         // NOTE: Patch all continue points from the loop to jump to the next iteration of the loop.
         for continue_point in scope_context.continue_points {
-            context.assembler().patch_jump(continue_point as u64);
+            context.assembler().patch_jump(continue_point as u64)?;
         }
 
         // NOTE: Close out any upvalues at the end of the loop scope, before jumping back.
@@ -85,7 +85,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
         for exit_point in scope_context.exit_points {
-            context.assembler().patch_jump(exit_point as u64);
+            context.assembler().patch_jump(exit_point as u64)?;
         }
 
         // NOTE: Clean up the iterator's next method stored on the stack and push a unit value.
diff --git a/dice-compiler/src/visitor/expr_if.rs b/dice-compiler/src/visitor/expr_if.rs
index 28ff3d7..fdd9b5b 100644
--- a/dice-compiler/src/visitor/expr_if.rs
+++ b/dice-compiler/src/visitor/expr_if.rs
@@ -19,7 +19,7 @@ impl NodeVisitor<&IfExpression> for Compiler {
 
         let else_jump = self.assembler()?.jump(*span);
 
-        self.assembler()?.patch_jump(if_jump);
+        self.assembler()?.patch_jump(if_jump)?;
 
         if let Some(secondary) = secondary {
             self.visit(*secondary)?;
@@ -27,7 +27,7 @@ impl NodeVisitor<&IfExpression> for Compiler {
             self.assembler()?.push_unit(*span);
         }
 
-        self.assembler()?.patch_jump(else_jump);
+        self.assembler()?.patch_jump(else_jump)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index f942c15..a40f23d 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -15,12 +15,12 @@ impl NodeVisitor<&Loop> for Compiler {
                 .push_loop_scope(Some(loop_start as usize), temporary_count);
 
             self.visit((&block, BlockKind::Loop))?;
-            self.assembler()?.jump_back(loop_start, *span);
+            self.assembler()?.jump_back(loop_start, *span)?;
 
             let scope_close = self.context()?.scope_stack().pop_scope()?;
 
             for location in scope_close.exit_points.iter() {
-                self.assembler()?.patch_jump(*location as u64);
+                self.assembler()?.patch_jump(*location as u64)?;
             }
 
             self.assembler()?.push_unit(*span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 68e9539..443dc4e 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -64,7 +64,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
 
         // NOTE: Patch all continue points from the loop to jump to the next iteration of the loop.
         for continue_point in scope_context.continue_points {
-            context.assembler().patch_jump(continue_point as u64);
+            context.assembler().patch_jump(continue_point as u64)?;
         }
 
         // NOTE: Increment the loop variable by 1 and close out any upvalues at the end of the loop scope, before jumping back.
@@ -79,9 +79,9 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         }
 
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
-        context.assembler().patch_jump(loop_exit);
+        context.assembler().patch_jump(loop_exit)?;
         for exit_point in scope_context.exit_points {
-            context.assembler().patch_jump(exit_point as u64);
+            context.assembler().patch_jump(exit_point as u64)?;
         }
 
         // NOTE: Clean up the temporaries stored on the stack and push a unit value.
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 3320005..c057b70 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -18,13 +18,13 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             let loop_end = self.assembler()?.jump_if_false(*span);
 
             self.visit((&block, BlockKind::Loop))?;
-            self.assembler()?.jump_back(loop_start, *span);
-            self.assembler()?.patch_jump(loop_end);
+            self.assembler()?.jump_back(loop_start, *span)?;
+            self.assembler()?.patch_jump(loop_end)?;
 
             let scope_close = self.context()?.scope_stack().pop_scope()?;
 
             for location in scope_close.exit_points.iter() {
-                self.assembler()?.patch_jump(*location as u64);
+                self.assembler()?.patch_jump(*location as u64)?;
             }
 
             self.assembler()?.push_unit(*span);
diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 0331c61..2f4bb17 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -122,7 +122,7 @@ impl Compiler {
         if context.depth == 0 {
             let exit_points = std::mem::take(&mut context.exit_points);
             for exit_point in exit_points.into_iter() {
-                self.assembler()?.patch_jump(exit_point as u64);
+                self.assembler()?.patch_jump(exit_point as u64)?;
             }
         }
 
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index bf5a0a2..153e7ed 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -19,6 +19,7 @@ pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
 pub static LIST_HAS_TOO_MANY_ITEMS: ErrorCode = "E2102";
 pub static TOO_MANY_LOCALS: ErrorCode = "E2103";
+pub static JUMP_TOO_LARGE: ErrorCode = "E2104";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 582b0de6f8052ccce7527cb819cdf5ed0eeec47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:19 +0000
Subject: [PATCH 26/27] fix: point at the offending token after super and op

---
 dice-syntax/src/parser/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index f2e1899..ba43bfb 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -435,8 +435,8 @@ impl<'a> Parser<'a> {
 
     fn op_decl(&mut self) -> ParseResult {
         let span_start = self.lexer.consume(TokenKind::Operator)?.span;
-        let operator_token = self.lexer.next()?;
-        let operator = match operator_token.kind.clone() {
+        let Token { kind, span, .. } = self.lexer.next()?.clone();
+        let operator = match kind {
             TokenKind::Star => OverloadedOperator::Multiply,
             TokenKind::Slash => OverloadedOperator::Divide,
             TokenKind::Remainder => OverloadedOperator::Remainder,
@@ -467,7 +467,7 @@ impl<'a> Parser<'a> {
                     TokenKind::RangeExclusive,
                     TokenKind::RangeInclusive,
                 ],
-                span_start,
+                span,
             )?,
         };
         let args = self.parse_args(TokenKind::LeftParen, TokenKind::RightParen)?;
@@ -824,7 +824,7 @@ impl<'a> Parser<'a> {
             kind => self.unexpected_token(
                 kind,
                 &[TokenKind::Dot, TokenKind::LeftSquare, TokenKind::LeftParen],
-                span_start,
+                next_token.span,
             ),
         }
     }
-- 
2.43.0


From 08f4440fe0e835c91827529b67f0109f3725b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 27/27] fix: show overloaded range operators as they are
 written

---
 dice-syntax/src/ast/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/ast/node.rs b/dice-syntax/src/ast/node.rs
index b3143c6..4c84fa1 100644
--- a/dice-syntax/src/ast/node.rs
+++ b/dice-syntax/src/ast/node.rs
@@ -277,8 +277,8 @@ impl Display for OverloadedOperator {
             OverloadedOperator::LessThanEquals => write!(f, "<="),
             OverloadedOperator::Equals => write!(f, "=="),
             OverloadedOperator::NotEquals => write!(f, "!="),
-            OverloadedOperator::RangeInclusive => write!(f, ".."),
-            OverloadedOperator::RangeExclusive => write!(f, "..="),
+            OverloadedOperator::RangeInclusive => write!(f, "..="),
+            OverloadedOperator::RangeExclusive => write!(f, ".."),
         }
     }
 }
-- 
2.43.0

