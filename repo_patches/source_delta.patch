From 7304945d35ee73112d0e5d35a215c5b5060d27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 01/21] fix: Keep parentheses of right operands of the same
 priority when formatting

---
 lib/format/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index e05ac8a..d4c3e60 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -823,12 +823,17 @@ fn compile_binary_operation<'a>(
 ) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-        compile_operand(context, operation.lhs(), operation.operator()),
+        compile_operand(context, operation.lhs(), |operator| {
+            operator_priority(operator) < operator_priority(operation.operator())
+        }),
         builder.indent(builder.sequence([
             line(),
             compile_binary_operator(operation.operator()),
             " ".into(),
-            compile_operand(context, operation.rhs(), operation.operator()),
+            // Binary operators are left-associative.
+            compile_operand(context, operation.rhs(), |operator| {
+                operator_priority(operator) <= operator_priority(operation.operator())
+            }),
         ])),
     ]);
 
@@ -841,7 +846,7 @@ fn compile_binary_operation<'a>(
 fn compile_operand<'a>(
     context: &mut Context<'a>,
     operand: &'a Expression,
-    parent_operator: BinaryOperator,
+    is_grouped: impl Fn(BinaryOperator) -> bool,
 ) -> Document<'a> {
     let document = compile_expression(context, operand);
 
@@ -849,7 +854,7 @@ fn compile_operand<'a>(
         Expression::BinaryOperation(operation) => Some(operation),
         _ => None,
     }
-    .map(|operand| operator_priority(operand.operator()) < operator_priority(parent_operator))
+    .map(|operand| is_grouped(operand.operator()))
     .unwrap_or_default()
     {
         context
-- 
2.43.0


From 9adb5f2fe3836349a359c4d1feb04eea62135f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 02/21] fix: Keep parentheses of operands of suffix operators
 when formatting

---
 lib/format/src/lib.rs | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index d4c3e60..67d86fe 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -475,7 +475,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         Expression::BinaryOperation(operation) => compile_binary_operation(context, operation),
         Expression::Call(call) => {
             let separator = builder.sequence([",".into(), line()]);
-            let function = compile_expression(context, call.function());
+            let function = compile_suffix_operand(context, call.function());
             let arguments = builder.sequence(
                 call.arguments()
                     .iter()
@@ -646,14 +646,26 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             ])
         }
         Expression::RecordDeconstruction(deconstruction) => builder.sequence([
-            compile_expression(context, deconstruction.expression()),
+            if let Expression::Number(_) = deconstruction.expression() {
+                // Do not let numbers take dots.
+                builder.sequence([
+                    "(".into(),
+                    compile_expression(context, deconstruction.expression()),
+                    ")".into(),
+                ])
+            } else {
+                compile_suffix_operand(context, deconstruction.expression())
+            },
             ".".into(),
             deconstruction.name().into(),
         ]),
         Expression::String(string) => builder.strings(["\"", string.value(), "\""]),
         Expression::UnaryOperation(operation) => {
             let operand = compile_expression(context, operation.expression());
-            let operand = if matches!(operation.expression(), Expression::BinaryOperation(_)) {
+            let operand = if matches!(operation.expression(), Expression::BinaryOperation(_))
+                || operation.operator() == UnaryOperator::Try
+                    && is_prefix_operation(operation.expression())
+            {
                 builder.sequence(["(".into(), operand, ")".into()])
             } else {
                 operand
@@ -668,6 +680,28 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
     }
 }
 
+fn compile_suffix_operand<'a>(
+    context: &mut Context<'a>,
+    operand: &'a Expression,
+) -> Document<'a> {
+    let document = compile_expression(context, operand);
+
+    if matches!(operand, Expression::BinaryOperation(_)) || is_prefix_operation(operand) {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
+fn is_prefix_operation(expression: &Expression) -> bool {
+    matches!(
+        expression,
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Not
+    )
+}
+
 fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-- 
2.43.0


From 889e47917c7e8492b0dd2c53c920555c942be40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 03/21] fix: Keep parentheses of the last function types in
 union types when formatting

---
 lib/format/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 67d86fe..ef52935 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -309,11 +309,10 @@ fn compile_type<'a>(context: &Context<'a>, type_: &'a Type) -> Document<'a> {
             let union = builder.sequence(
                 types
                     .iter()
-                    .enumerate()
-                    .map(|(index, type_)| {
+                    .map(|type_| {
                         let document = compile_type(context, type_);
 
-                        if index != types.len() - 1 && matches!(type_, Type::Function(_)) {
+                        if matches!(type_, Type::Function(_)) {
                             builder.sequence(["(".into(), document, ")".into()])
                         } else {
                             document
-- 
2.43.0


From ea42ee65ef8576235bb24ea950fbe197c43a21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 04/21] fix: Keep parentheses of statements that continue
 previous ones when formatting

---
 lib/format/src/lib.rs | 99 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 91 insertions(+), 8 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index ef52935..c9d6c0c 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -404,10 +404,17 @@ fn are_arguments_flat(arguments: &[Argument], position: &Position) -> bool {
 
 fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a> {
     let builder = context.builder();
+    let previous_expressions = [None].into_iter().chain(
+        block
+            .statements()
+            .iter()
+            .map(|statement| Some(statement.expression())),
+    );
     let statements = builder.sequence(
         block
             .statements()
             .iter()
+            .zip(previous_expressions.clone())
             .zip(
                 block
                     .statements()
@@ -416,12 +423,12 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .map(|statement| statement.position())
                     .chain([block.expression().position()]),
             )
-            .map(|(statement, next_position)| {
+            .map(|((statement, previous_expression), next_position)| {
                 let block_comment = compile_block_comment(context, statement.position());
                 // TODO Use end positions of spans when they are available.
                 let line_count = next_position.line_number() as isize
                     - statement.position().line_number() as isize;
-                let statement_document = compile_statement(context, statement);
+                let statement_document = compile_statement(context, statement, previous_expression);
 
                 let extra_line = if (count_lines(&statement_document)
                     + context
@@ -444,7 +451,11 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
             line(),
             statements,
             compile_line_comment(context, block.expression().position(), |context| {
-                compile_expression(context, block.expression())
+                compile_unnamed_expression(
+                    context,
+                    block.expression(),
+                    previous_expressions.clone().last().flatten(),
+                )
             }),
         ])),
         line(),
@@ -452,21 +463,89 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
     ])
 }
 
-fn compile_statement<'a>(context: &mut Context<'a>, statement: &'a Statement) -> Document<'a> {
+fn compile_statement<'a>(
+    context: &mut Context<'a>,
+    statement: &'a Statement,
+    previous_expression: Option<&Expression>,
+) -> Document<'a> {
     let builder = context.builder();
 
     builder.sequence([
         if let Some(name) = statement.name() {
-            builder.strings([name, " = "])
+            builder.sequence([
+                builder.strings([name, " = "]),
+                compile_expression(context, statement.expression()),
+            ])
         } else {
-            empty()
+            compile_unnamed_expression(context, statement.expression(), previous_expression)
         },
-        compile_expression(context, statement.expression()),
         compile_suffix_comment(context, statement.position()),
         builder.r#break(line()),
     ])
 }
 
+// Keep expressions in parentheses if they would be parsed as parts of previous
+// ones otherwise.
+fn compile_unnamed_expression<'a>(
+    context: &mut Context<'a>,
+    expression: &'a Expression,
+    previous_expression: Option<&Expression>,
+) -> Document<'a> {
+    let document = compile_expression(context, expression);
+
+    if previous_expression.is_some_and(|previous| match leftmost_operand(expression) {
+        Expression::Number(number) => matches!(
+            number.value(),
+            NumberRepresentation::FloatingPoint(string) if string.starts_with(['+', '-', '.'])
+        ),
+        Expression::Map(_) => is_variable_last(previous),
+        _ => false,
+    }) {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
+fn leftmost_operand(expression: &Expression) -> &Expression {
+    let operand = match expression {
+        Expression::BinaryOperation(operation) => match operation.lhs() {
+            Expression::BinaryOperation(lhs)
+                if operator_priority(lhs.operator()) < operator_priority(operation.operator()) =>
+            {
+                None
+            }
+            lhs => Some(lhs),
+        },
+        Expression::Call(call) => {
+            Some(call.function()).filter(|operand| !is_suffix_operand_grouped(operand))
+        }
+        Expression::RecordDeconstruction(deconstruction) => Some(deconstruction.expression())
+            .filter(|operand| {
+                !is_suffix_operand_grouped(operand) && !matches!(operand, Expression::Number(_))
+            }),
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Try => {
+            Some(operation.expression()).filter(|operand| !is_suffix_operand_grouped(operand))
+        }
+        _ => None,
+    };
+
+    operand.map_or(expression, leftmost_operand)
+}
+
+fn is_variable_last(expression: &Expression) -> bool {
+    match expression {
+        Expression::BinaryOperation(operation) => is_variable_last(operation.rhs()),
+        Expression::UnaryOperation(operation) => {
+            operation.operator() == UnaryOperator::Not && is_variable_last(operation.expression())
+        }
+        Expression::Variable(_) => true,
+        _ => false,
+    }
+}
+
 fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression) -> Document<'a> {
     let builder = context.builder();
 
@@ -685,7 +764,7 @@ fn compile_suffix_operand<'a>(
 ) -> Document<'a> {
     let document = compile_expression(context, operand);
 
-    if matches!(operand, Expression::BinaryOperation(_)) || is_prefix_operation(operand) {
+    if is_suffix_operand_grouped(operand) {
         context
             .builder()
             .sequence(["(".into(), document, ")".into()])
@@ -694,6 +773,10 @@ fn compile_suffix_operand<'a>(
     }
 }
 
+fn is_suffix_operand_grouped(operand: &Expression) -> bool {
+    matches!(operand, Expression::BinaryOperation(_)) || is_prefix_operation(operand)
+}
+
 fn is_prefix_operation(expression: &Expression) -> bool {
     matches!(
         expression,
-- 
2.43.0


From bc7e4ca98cdef0b38edbb2073621849bb4a6a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 05/21] fix: Keep parentheses of conditions that start with
 lists when formatting

---
 lib/format/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index c9d6c0c..62a216c 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -787,10 +787,22 @@ fn is_prefix_operation(expression: &Expression) -> bool {
 fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-        builder.sequence(if_.branches().iter().map(|branch| {
+        builder.sequence(if_.branches().iter().enumerate().map(|(index, branch)| {
+            let condition = compile_expression(context, branch.condition());
+
             builder.sequence([
                 "if ".into(),
-                compile_expression(context, branch.condition()),
+                // Do not let conditions be parsed as patterns of if-list expressions.
+                if index == 0
+                    && matches!(
+                        leftmost_operand(branch.condition()),
+                        Expression::List(_) | Expression::ListComprehension(_)
+                    )
+                {
+                    builder.sequence(["(".into(), condition, ")".into()])
+                } else {
+                    condition
+                },
                 " ".into(),
                 compile_block(context, branch.block()),
                 " else ".into(),
-- 
2.43.0


From 14c7e8afdd8749f70fd5f66ac713811eb76928d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 06/21] fix: Count lines in string literals when formatting
 blocks

---
 lib/format/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 62a216c..cedcfd0 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -431,6 +431,7 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                 let statement_document = compile_statement(context, statement, previous_expression);
 
                 let extra_line = if (count_lines(&statement_document)
+                    + count_string_lines(&statement_document)
                     + context
                         .peek_comments_before(next_position.line_number())
                         .count()) as isize
@@ -463,6 +464,18 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
     ])
 }
 
+// Counts line breaks inside string literals.
+fn count_string_lines(document: &Document) -> usize {
+    match document {
+        Document::Break { document, .. }
+        | Document::Indent(document)
+        | Document::Offside { document, .. } => count_string_lines(document),
+        Document::Sequence(documents) => documents.iter().map(count_string_lines).sum(),
+        Document::String(string) => string.matches('\n').count(),
+        Document::Line | Document::LineSuffix(_) => 0,
+    }
+}
+
 fn compile_statement<'a>(
     context: &mut Context<'a>,
     statement: &'a Statement,
-- 
2.43.0


From b0f4fd237789ba95fc7503e1d9e2327afce522e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 07/21] fix: Break arguments of functions broken into multiple
 lines when formatting

---
 lib/format/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index cedcfd0..3d752e2 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -579,7 +579,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             );
 
             builder.sequence([
-                function,
+                function.clone(),
                 "(".into(),
                 if call.arguments().is_empty()
                     || Some(call.function().position().line_number())
@@ -588,6 +588,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
                             .first()
                             .map(|expression| expression.position().line_number())
                         && !is_broken(&arguments)
+                        && !is_function_end_broken(call.function(), &function)
                 {
                     builder.flatten(arguments)
                 } else {
@@ -786,6 +787,20 @@ fn compile_suffix_operand<'a>(
     }
 }
 
+// Checks if a function is broken into multiple lines after its position.
+fn is_function_end_broken(function: &Expression, document: &Document) -> bool {
+    match function {
+        Expression::BinaryOperation(_)
+        | Expression::RecordDeconstruction(_)
+        | Expression::UnaryOperation(_) => false,
+        Expression::Call(_) => {
+            // Ignore line breaks in functions of function calls.
+            matches!(document, Document::Sequence([_, rest @ ..]) if rest.iter().any(is_broken))
+        }
+        _ => is_broken(document),
+    }
+}
+
 fn is_suffix_operand_grouped(operand: &Expression) -> bool {
     matches!(operand, Expression::BinaryOperation(_)) || is_prefix_operation(operand)
 }
-- 
2.43.0


From 90f4e3b35c3aadecfaa75f0da41db5a72cb36b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 08/21] fix: Parse comments of sources only with spaces

---
 lib/parse/src/parser.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/lib/parse/src/parser.rs b/lib/parse/src/parser.rs
index 138eb84..9a8c943 100644
--- a/lib/parse/src/parser.rs
+++ b/lib/parse/src/parser.rs
@@ -56,21 +56,18 @@ pub fn module(input: Input) -> IResult<Module> {
 
 pub fn comments(input: Input) -> IResult<Vec<Comment>> {
     map(
-        all_consuming(many0((
+        all_consuming(preceded(
             multispace0,
-            alt((
-                map(comment, Some),
-                map(raw_string_literal, |_| None),
-                map(none_of("\"#"), |_| None),
+            many0(terminated(
+                alt((
+                    map(comment, Some),
+                    map(raw_string_literal, |_| None),
+                    map(none_of("\"#"), |_| None),
+                )),
+                multispace0,
             )),
-            multispace0,
-        ))),
-        |comments| {
-            comments
-                .into_iter()
-                .flat_map(|(_, comment, _)| comment)
-                .collect()
-        },
+        )),
+        |comments| comments.into_iter().flatten().collect(),
     )
     .parse(input)
 }
-- 
2.43.0


From 615809ddb614a930ac732b2beb4f55906fff922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 09/21] fix: Push and pop over-aligned values on CPS stacks

---
 lib/ffi/src/cps/stack.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/ffi/src/cps/stack.rs b/lib/ffi/src/cps/stack.rs
index 2496edb..915e716 100644
--- a/lib/ffi/src/cps/stack.rs
+++ b/lib/ffi/src/cps/stack.rs
@@ -39,14 +39,15 @@ impl Stack {
             self.capacity = new_capacity;
         }
 
-        unsafe { ptr::write(self.get_pointer() as *mut T, value) }
+        // Values can have alignments larger than the one of the stack.
+        unsafe { ptr::write_unaligned(self.get_pointer() as *mut T, value) }
         self.size += type_size;
     }
 
     pub fn pop<T>(&mut self) -> T {
         self.size -= Self::get_type_size::<T>();
 
-        unsafe { ptr::read(self.get_pointer() as *const T) }
+        unsafe { ptr::read_unaligned(self.get_pointer() as *const T) }
     }
 
     fn get_pointer(&self) -> usize {
-- 
2.43.0


From 84d03a1dd83f0c6b93f306a3eefe3b060e7bc0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 10/21] fix: Grow CPS stacks created with no capacity

---
 lib/ffi/src/cps/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ffi/src/cps/stack.rs b/lib/ffi/src/cps/stack.rs
index 915e716..9698831 100644
--- a/lib/ffi/src/cps/stack.rs
+++ b/lib/ffi/src/cps/stack.rs
@@ -14,7 +14,7 @@ pub struct Stack {
 
 impl Stack {
     pub fn new(capacity: usize) -> Self {
-        let layout = Self::get_layout(capacity).pad_to_align();
+        let layout = Self::get_layout(capacity.max(1)).pad_to_align();
 
         Self {
             capacity: layout.size(),
-- 
2.43.0


From ca470b370e266e173c68c3cbc9d1dd10029d6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 11/21] fix: Keep next actions of async stacks on unexpected
 actions

---
 lib/ffi/src/cps/async_stack.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ffi/src/cps/async_stack.rs b/lib/ffi/src/cps/async_stack.rs
index afd441a..60d4fba 100644
--- a/lib/ffi/src/cps/async_stack.rs
+++ b/lib/ffi/src/cps/async_stack.rs
@@ -137,12 +137,14 @@ impl<V> AsyncStack<V> {
     }
 
     fn validate_action(&mut self, current_action: AsyncStackAction) -> Result<(), CpsError> {
-        let next_action = self.next_actions.pop();
+        let next_action = self.next_actions.last().copied();
 
         if next_action != Some(current_action) {
             return Err(CpsError::UnexpectedAsyncStackAction(next_action));
         }
 
+        self.next_actions.pop();
+
         Ok(())
     }
 
-- 
2.43.0


From db27dd96cdd6ce6fe1ab04b0bb28205226834eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 12/21] fix: Keep async stacks as they are on trampolines with
 no context

---
 lib/ffi/src/cps/async_stack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/ffi/src/cps/async_stack.rs b/lib/ffi/src/cps/async_stack.rs
index 60d4fba..1f93965 100644
--- a/lib/ffi/src/cps/async_stack.rs
+++ b/lib/ffi/src/cps/async_stack.rs
@@ -90,6 +90,10 @@ impl<V> AsyncStack<V> {
         continuation: ContinuationFunction<T, V>,
         value: T,
     ) -> Result<(), CpsError> {
+        if self.context.is_none() {
+            return Err(CpsError::MissingContext);
+        }
+
         self.validate_action(AsyncStackAction::Suspend)?;
         self.push_next_actions(&[AsyncStackAction::Resume, AsyncStackAction::Suspend]);
 
-- 
2.43.0


From aef523df196c2eb056267b8ae7128b2a139e1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 13/21] fix: Break arguments of functions with comments between
 them when formatting

---
 lib/format/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 3d752e2..7b1ea00 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -336,17 +336,19 @@ fn compile_type<'a>(context: &Context<'a>, type_: &'a Type) -> Document<'a> {
 
 fn compile_lambda<'a>(context: &mut Context<'a>, lambda: &'a Lambda) -> Document<'a> {
     let builder = context.builder();
+    let signature = compile_signature(
+        context,
+        lambda.arguments(),
+        lambda.result_type(),
+        lambda.position(),
+    );
+    let flat = !is_broken(&signature);
 
     builder.sequence([
-        compile_signature(
-            context,
-            lambda.arguments(),
-            lambda.result_type(),
-            lambda.position(),
-        ),
+        signature,
         " ".into(),
         flatten_if(
-            are_arguments_flat(lambda.arguments(), lambda.position())
+            flat && are_arguments_flat(lambda.arguments(), lambda.position())
                 && lambda.position().line_number()
                     == lambda.body().expression().position().line_number(),
             builder.allocate(compile_block(context, lambda.body())),
@@ -381,7 +383,7 @@ fn compile_signature<'a>(
 
     builder.sequence([
         "\\(".into(),
-        if flat {
+        if flat && !is_broken(&arguments) {
             builder.flatten(arguments)
         } else {
             builder.r#break(builder.sequence([
-- 
2.43.0


From cf48875128f2772604b2fdea08046017fab4b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 14/21] fix: Count lines of statements up to first operands of
 last expressions when formatting

---
 lib/format/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 7b1ea00..06c84c7 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -423,7 +423,7 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .iter()
                     .skip(1)
                     .map(|statement| statement.position())
-                    .chain([block.expression().position()]),
+                    .chain([first_position(block.expression())]),
             )
             .map(|((statement, previous_expression), next_position)| {
                 let block_comment = compile_block_comment(context, statement.position());
@@ -466,6 +466,21 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
     ])
 }
 
+// Operations are at positions of operators after their first operands.
+fn first_position(expression: &Expression) -> &Position {
+    match expression {
+        Expression::BinaryOperation(operation) => first_position(operation.lhs()),
+        Expression::Call(call) => first_position(call.function()),
+        Expression::RecordDeconstruction(deconstruction) => {
+            first_position(deconstruction.expression())
+        }
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Try => {
+            first_position(operation.expression())
+        }
+        _ => expression.position(),
+    }
+}
+
 // Counts line breaks inside string literals.
 fn count_string_lines(document: &Document) -> usize {
     match document {
-- 
2.43.0


From f0670223b089cd263a438a2ca764fae01929e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 15/21] fix: Break arguments of function calls by positions of
 their parentheses when formatting

---
 lib/format/src/lib.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 06c84c7..7fdb0fc 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -596,16 +596,15 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             );
 
             builder.sequence([
-                function.clone(),
+                function,
                 "(".into(),
                 if call.arguments().is_empty()
-                    || Some(call.function().position().line_number())
+                    || Some(call.position().line_number())
                         == call
                             .arguments()
                             .first()
                             .map(|expression| expression.position().line_number())
                         && !is_broken(&arguments)
-                        && !is_function_end_broken(call.function(), &function)
                 {
                     builder.flatten(arguments)
                 } else {
@@ -804,20 +803,6 @@ fn compile_suffix_operand<'a>(
     }
 }
 
-// Checks if a function is broken into multiple lines after its position.
-fn is_function_end_broken(function: &Expression, document: &Document) -> bool {
-    match function {
-        Expression::BinaryOperation(_)
-        | Expression::RecordDeconstruction(_)
-        | Expression::UnaryOperation(_) => false,
-        Expression::Call(_) => {
-            // Ignore line breaks in functions of function calls.
-            matches!(document, Document::Sequence([_, rest @ ..]) if rest.iter().any(is_broken))
-        }
-        _ => is_broken(document),
-    }
-}
-
 fn is_suffix_operand_grouped(operand: &Expression) -> bool {
     matches!(operand, Expression::BinaryOperation(_)) || is_prefix_operation(operand)
 }
-- 
2.43.0


From 9280bec0f7f3e72666b757a941c1acd6c0e5f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 16/21] fix: Slice bytes from positions before the first one

---
 packages/core/ffi/src/string/byte.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/ffi/src/string/byte.rs b/packages/core/ffi/src/string/byte.rs
index 28e6e25..ffeaa6d 100644
--- a/packages/core/ffi/src/string/byte.rs
+++ b/packages/core/ffi/src/string/byte.rs
@@ -9,7 +9,7 @@ fn _pen_core_byte_slice(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    let start = f64::from(start) as usize;
+    let start = f64::from(start).max(1.0) as usize;
     let end = f64::from(end).min(string.as_slice().len() as f64) as usize;
 
     if start > end || start > string.as_slice().len() || end == 0 {
-- 
2.43.0


From d61756196097b7b11aaaf465b902eeb6652b61aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 17/21] fix: Shift bits by counts of 64 and more

---
 packages/core/ffi/src/bit.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/core/ffi/src/bit.rs b/packages/core/ffi/src/bit.rs
index be91cfb..e13fafd 100644
--- a/packages/core/ffi/src/bit.rs
+++ b/packages/core/ffi/src/bit.rs
@@ -22,12 +22,24 @@ fn _pen_core_bit_not(x: ffi::Number) -> ffi::Number {
 
 #[ffi::bindgen]
 fn _pen_core_bit_left_shift(x: ffi::Number, count: ffi::Number) -> ffi::Number {
-    unsafe { transmute(transmute::<ffi::Number, u64>(x) << (f64::from(count) as u64)) }
+    unsafe {
+        transmute(
+            transmute::<ffi::Number, u64>(x)
+                .checked_shl(f64::from(count) as u32)
+                .unwrap_or(0),
+        )
+    }
 }
 
 #[ffi::bindgen]
 fn _pen_core_bit_right_shift(x: ffi::Number, count: ffi::Number) -> ffi::Number {
-    unsafe { transmute(transmute::<ffi::Number, u64>(x) >> (f64::from(count) as u64)) }
+    unsafe {
+        transmute(
+            transmute::<ffi::Number, u64>(x)
+                .checked_shr(f64::from(count) as u32)
+                .unwrap_or(0),
+        )
+    }
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 5702ae15b73ac9f351e74599229ef2f537bc970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 18/21] fix: Find patterns at the end of strings

---
 packages/core/ffi/src/string/utf8.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/packages/core/ffi/src/string/utf8.rs b/packages/core/ffi/src/string/utf8.rs
index ced9f91..afa51f1 100644
--- a/packages/core/ffi/src/string/utf8.rs
+++ b/packages/core/ffi/src/string/utf8.rs
@@ -41,13 +41,7 @@ fn find(string: ffi::ByteString, pattern: ffi::ByteString) -> Option<usize> {
     let pattern = str::from_utf8(pattern.as_slice()).ok()?;
     let index = string.find(pattern)?;
 
-    Some(
-        string
-            .char_indices()
-            .enumerate()
-            .find(|(_, (byte_index, _))| byte_index == &index)?
-            .0,
-    )
+    Some(string[..index].chars().count())
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From e2abc1b2822816fa9144d84e7a671f2e1715fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:58 +0000
Subject: [PATCH 19/21] fix: Wait for writes to files to finish

---
 packages/os/ffi/library/src/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/os/ffi/library/src/file.rs b/packages/os/ffi/library/src/file.rs
index cb9de6b..93d45fc 100644
--- a/packages/os/ffi/library/src/file.rs
+++ b/packages/os/ffi/library/src/file.rs
@@ -3,6 +3,7 @@ use crate::utilities;
 use std::{error::Error, ops::DerefMut, path::Path, sync::Arc};
 use tokio::{
     fs,
+    io::AsyncWriteExt,
     sync::{RwLock, RwLockWriteGuard},
 };
 
@@ -74,7 +75,13 @@ async fn _pen_os_write_file(
     file: File,
     bytes: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
-    utilities::write(file.lock().await.deref_mut(), bytes).await
+    let mut file = file.lock().await;
+    let count = utilities::write(file.deref_mut(), bytes).await?;
+
+    // Files of Tokio only buffer bytes on writes.
+    file.flush().await?;
+
+    Ok(count)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From c2f76b3d2679dcf8bcebbee68357b4a874d06f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:25 +0000
Subject: [PATCH 20/21] fix: Check list comprehension iteratees in the scope
 outside their branch

---
 lib/hir/src/analysis/type_checker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/hir/src/analysis/type_checker.rs b/lib/hir/src/analysis/type_checker.rs
index 231cbb1..f89e598 100644
--- a/lib/hir/src/analysis/type_checker.rs
+++ b/lib/hir/src/analysis/type_checker.rs
@@ -322,6 +322,8 @@ fn check_expression(
                     ));
                 }
 
+                let outer_variables = variables.clone();
+
                 for (name, iteratee) in branch.names().iter().zip(branch.iteratees()) {
                     let position = iteratee.position();
                     let type_ = iteratee
@@ -329,7 +331,7 @@ fn check_expression(
                         .ok_or_else(|| AnalysisError::TypeNotInferred(position.clone()))?;
 
                     check_subsumption(
-                        &check_expression(iteratee.expression(), &variables)?,
+                        &check_expression(iteratee.expression(), &outer_variables)?,
                         type_,
                         iteratee.expression().position(),
                         type_.position(),
-- 
2.43.0


From a0197786ca36647e4b2e3761c11c155b8f25a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:25 +0000
Subject: [PATCH 21/21] fix: Decode escape sequences in strings in a single
 pass

---
 lib/ast-hir/src/string.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/ast-hir/src/string.rs b/lib/ast-hir/src/string.rs
index 24ebad3..f14a524 100644
--- a/lib/ast-hir/src/string.rs
+++ b/lib/ast-hir/src/string.rs
@@ -1,23 +1,23 @@
 use regex::bytes::{Captures, Regex};
 use std::{str, sync::LazyLock};
 
-static HEX_CHARACTER_REGEX: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"\\x([0-9a-fA-F][0-9a-fA-F])").unwrap());
+static ESCAPE_REGEX: LazyLock<Regex> =
+    LazyLock::new(|| Regex::new(r#"\\(?:x([0-9a-fA-F][0-9a-fA-F])|([\\"nrt]))"#).unwrap());
 
 pub fn compile(string: &str) -> Vec<u8> {
-    HEX_CHARACTER_REGEX
-        .replace_all(
-            string
-                .replace("\\\\", "\\")
-                .replace("\\\"", "\"")
-                .replace("\\n", "\n")
-                .replace("\\r", "\r")
-                .replace("\\t", "\t")
-                .as_bytes(),
-            |captures: &Captures| {
-                vec![u8::from_str_radix(str::from_utf8(&captures[1]).unwrap(), 16).unwrap()]
-            },
-        )
+    ESCAPE_REGEX
+        .replace_all(string.as_bytes(), |captures: &Captures| {
+            vec![if let Some(code) = captures.get(1) {
+                u8::from_str_radix(str::from_utf8(code.as_bytes()).unwrap(), 16).unwrap()
+            } else {
+                match captures[2][0] {
+                    b'n' => b'\n',
+                    b'r' => b'\r',
+                    b't' => b'\t',
+                    character => character,
+                }
+            }]
+        })
         .into()
 }
 
-- 
2.43.0

