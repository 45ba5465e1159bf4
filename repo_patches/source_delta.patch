From 6bd6a41ba5fb253fbcf3c04025a8fa41b489c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 01/58] fix: classify an operator after another operator by the
 whole previous token
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

is_unary looked only at the first byte of the previous token: it panicked when
that token starts with a non-ASCII character (`π-2`), took the operator after a
prefix operator as binary (`~ ~ b1`) and could not see word operators.
---
 prexel/src/tokenizer.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..fdf01e0 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -232,13 +232,16 @@ where
                 }
 
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
-                {
+                if is_postfix_operator(prev_str, context) {
                     return false;
                 }
 
-                // +-, (-, !+
+                // +-, ~-, mod -
+                if context.is_unary_function(prev_str) || context.is_binary_function(prev_str) {
+                    return true;
+                }
+
+                // (-
                 if prev_str.chars().count() == 1 {
                     let c = prev_str.chars().last().unwrap();
                     c.is_ascii_punctuation()
@@ -255,6 +258,17 @@ where
     }
 }
 
+/// Checks if the given name is an operator that only can appear after its operand, eg: `10!`.
+fn is_postfix_operator<'a, N, C>(name: &str, context: &C) -> bool
+where
+    C: Context<'a, N>,
+{
+    context
+        .get_unary_function(name)
+        .map_or(false, |op| op.notation() == Notation::Postfix)
+        && !context.is_binary_function(name)
+}
+
 // TODO: remove
 #[allow(unused)]
 fn is_number(value: &str) -> bool {
-- 
2.43.0


From 9e566a50f8899bf52fbb9461781ef1c0b8d837db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 02/58] fix: accept a postfix operator applied to a postfix
 expression (`3! !`)

---
 prexel/src/tokenizer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index fdf01e0..d042a50 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -204,8 +204,11 @@ where
                         }
                     }
 
-                    // 10! , PI!, x!
-                    N::from_str(s).is_ok() || context.is_constant(s) || context.is_variable(s)
+                    // 10! , PI!, x!, 3! !
+                    N::from_str(s).is_ok()
+                        || context.is_constant(s)
+                        || context.is_variable(s)
+                        || is_postfix_operator(s, context)
                 }
                 None => false,
             }
-- 
2.43.0


From 5502c1c23131e1eb616a0a77b167046df9a9c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 03/58] fix: do not drop a second decimal point from the input
 (`1.2.*3`)

SplitNumeric consumed the second '.' before stopping, so it vanished from the
token stream and `1.2.*3` was evaluated as `1.2*3`.
---
 prexel/src/utils/splitter.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 6ef73e2..d6e9a2d 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -223,11 +223,6 @@ pub mod rules {
     pub struct SplitNumeric;
     impl SplitRule for SplitNumeric {
         fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
-            #[inline]
-            fn is_valid_char(c: &char) -> bool {
-                matches!(c, '0'..='9' | '.')
-            }
-
             match c {
                 '0'..='9' => {
                     let mut temp = String::new();
@@ -235,12 +230,11 @@ pub mod rules {
 
                     let mut has_decimal_point = false;
 
-                    while let Some(c) = rest.next_if(is_valid_char) {
+                    // A second decimal point is not part of the number, so is not consumed
+                    while let Some(c) = rest.next_if(|c| {
+                        c.is_ascii_digit() || (*c == '.' && !has_decimal_point)
+                    }) {
                         if c == '.' {
-                            if has_decimal_point {
-                                break;
-                            }
-
                             has_decimal_point = true;
                         }
 
-- 
2.43.0


From a5f2b4a3955a201218591017a4c56ae32c4ae851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 04/58] fix: whitespace kept by the splitter must not change
 how operators are classified

With SplitWhitespaceOption::None the token before an operator was a space, so
`5 + -3` took '-' as binary and any whitespace other than ' ' was unknown.
---
 prexel/src/tokenizer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index d042a50..9a7f1d0 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -68,14 +68,15 @@ where
 {
     pub fn tokenize(&self, context: &C, expression: &str) -> Result<Vec<Token<N>>> {
         const COMMA: &str = ",";
-        const WHITESPACE: &str = " ";
 
         if expression.trim().is_empty() {
             return Err(Error::new(ErrorKind::Empty, "Expression is empty"));
         }
 
         // `Vec` used for fast access indexing, Iterator.nth(..) could be O(N)
-        let raw_tokens = self.splitter.split_into_tokens(expression);
+        let mut raw_tokens = self.splitter.split_into_tokens(expression);
+        // Whitespaces are not tokens, and must not hide the previous token of an operator
+        raw_tokens.retain(|s| !s.trim().is_empty());
         // Actual iterator over the string tokens.
         let mut iter = raw_tokens.iter().enumerate().peekable();
         // Stores the tokens to return.
@@ -153,8 +154,6 @@ where
                 }
             } else if string == COMMA {
                 tokens.push(Token::Comma);
-            } else if string == WHITESPACE {
-                // Ignore whitespaces
             } else {
                 if string.len() == 1 {
                     // If string token length is 1 and its not considered a binary operator, unary operator
-- 
2.43.0


From 00e3c063ac11de50f57bd451872742e8fc383d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 05/58] fix: apply prefix operators to the group, call or
 signed operand that follows

Only one prefix operator in front of a bare number was applied: before a group,
a call or another sign it stayed below the next binary operator, so `-(2)+3`
was -5 and `- -2 + 3` was -1.
---
 prexel/src/evaluator.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..0ac373a 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -366,6 +366,7 @@ mod shunting_yard {
                 }
                 Token::GroupingClose(c) => {
                     push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    push_prefix_operators(context, &mut output, &mut operators);
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -487,10 +488,22 @@ mod shunting_yard {
         token: &Token<N>,
     ) {
         output.push(token.clone());
-        if let Some(Token::UnaryOperator(op)) = operators.last() {
-            if context.get_unary_function(op).is_some() {
-                output.push(operators.pop().unwrap());
+        push_prefix_operators(context, output, operators);
+    }
+
+    /// Pushes to the output the prefix operators waiting for the operand that was just completed:
+    /// a number, a group or a function call, eg: `-2`, `- -2`, `-(2)`, `-Sin(2)`.
+    fn push_prefix_operators<'a, N: Clone + Debug>(
+        context: &impl Context<'a, N>,
+        output: &mut Vec<Token<N>>,
+        operators: &mut Vec<Token<N>>,
+    ) {
+        while let Some(Token::UnaryOperator(op)) = operators.last() {
+            if context.get_unary_function(op).is_none() {
+                break;
             }
+
+            output.push(operators.pop().unwrap());
         }
     }
 
-- 
2.43.0


From afc70c5f953308ac222e199b68e422b3e6246f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 06/58] fix: a call without arguments takes no arguments

The argument count was always commas + 1, so `5 * Random()` took the 5 as the
argument of Random and failed, and `30 Sin()` was Sin(30).
---
 prexel/src/evaluator.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 0ac373a..8d9c94d 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -365,7 +365,16 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    // A call without arguments, eg: `Random()`
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
                     push_prefix_operators(context, &mut output, &mut operators);
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
@@ -596,6 +605,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -615,7 +625,8 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From 8f05d771dc140a83558f57db9816d82208707e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 07/58] fix: report missing function arguments

The error was built and dropped, so `Max(1 , , 2)` called Max with two arguments.
---
 prexel/src/evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8d9c94d..7256a5b 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
-- 
2.43.0


From 688324aec696c44dfca43f62201d3c652eadf566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 08/58] fix: infix_to_rpn rejects an unclosed grouping symbol

The final check tested grouping close twice and left the open symbol in the output.
---
 prexel/src/evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 7256a5b..67b810c 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -444,7 +444,7 @@ mod shunting_yard {
         }
 
         while let Some(t) = operators.pop() {
-            if t.is_grouping_close() || t.is_grouping_close() {
+            if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     "Misplace parentheses",
-- 
2.43.0


From 564b2dee30f1329b410237a2516b5376425153ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 09/58] fix: implicit multiplication follows the precedence of
 the multiplication operator

The operator was pushed without comparing it with the pending operators, so
`6/2(3)` was 1 and `2^3(4)` was 2^12.
---
 prexel/src/evaluator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 67b810c..3cf971e 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -425,7 +425,7 @@ mod shunting_yard {
                             | Token::Constant(_)
                             | Token::Variable(_)
                             | Token::GroupingOpen(_) => {
-                                operators.push(BinaryOperator('*'.to_string()));
+                                push_implicit_mul(context, &mut output, &mut operators)?;
                             }
                             _ => {}
                         }
@@ -435,7 +435,9 @@ mod shunting_yard {
                     if let Some(next_token) = token_iterator.peek() {
                         match next_token.1 {
                             Number(_) | Variable(_) | Constant(_) | Function(_)
-                            | GroupingOpen(_) => operators.push(BinaryOperator('*'.to_string())),
+                            | GroupingOpen(_) => {
+                                push_implicit_mul(context, &mut output, &mut operators)?
+                            }
                             _ => {}
                         }
                     }
@@ -602,6 +604,16 @@ mod shunting_yard {
         Ok(())
     }
 
+    /// Pushes a multiplication between two adjacent operands, eg: `2x`, `(2)(4)`.
+    fn push_implicit_mul<'a, N: Clone + Debug>(
+        context: &impl Context<'a, N>,
+        output: &mut Vec<Token<N>>,
+        operators: &mut Vec<Token<N>>,
+    ) -> Result<()> {
+        let token = BinaryOperator('*'.to_string());
+        push_binary_function(context, output, operators, &token, "*")
+    }
+
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
-- 
2.43.0


From 2c759ba4b7240147daa3b979bbce156ff30fd3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 10/58] fix: reject expressions whose operands and operators do
 not alternate

---
 prexel/src/evaluator.rs | 111 +++++++++++++++++++++++++++++++---------
 1 file changed, 86 insertions(+), 25 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 3cf971e..f4c7ed0 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -416,35 +416,15 @@ mod shunting_yard {
             }
 
             // If implicit multiplication
-            if context.config().implicit_mul {
-                if token.is_number() {
-                    // 2Max, 2PI, 2x, 2(4)
-                    if let Some(next_token) = token_iterator.peek() {
-                        match next_token.1 {
-                            Token::Function(_)
-                            | Token::Constant(_)
-                            | Token::Variable(_)
-                            | Token::GroupingOpen(_) => {
-                                push_implicit_mul(context, &mut output, &mut operators)?;
-                            }
-                            _ => {}
-                        }
-                    }
-                } else if token.is_grouping_close() {
-                    //(2)2, (2)PI, (2)x, (4)(2), Sin(30)Cos(30), Tan(45)2
-                    if let Some(next_token) = token_iterator.peek() {
-                        match next_token.1 {
-                            Number(_) | Variable(_) | Constant(_) | Function(_)
-                            | GroupingOpen(_) => {
-                                push_implicit_mul(context, &mut output, &mut operators)?
-                            }
-                            _ => {}
-                        }
-                    }
+            if let Some((_, next_token)) = token_iterator.peek() {
+                if is_implicit_mul(Some(token), next_token, context) {
+                    push_implicit_mul(context, &mut output, &mut operators)?;
                 }
             }
         }
 
+        check_tokens_order(tokens, context)?;
+
         while let Some(t) = operators.pop() {
             if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
@@ -459,6 +439,87 @@ mod shunting_yard {
         Ok(output)
     }
 
+    /// Checks that operands and operators alternate, so reordering the tokens cannot give a value to
+    /// an invalid expression, eg: `2 3 + * 4`, `() 5`, `Max(1 2, +)`.
+    fn check_tokens_order<'a, N, C>(tokens: &[Token<N>], context: &C) -> Result<()>
+    where
+        N: Clone + Debug,
+        C: Context<'a, N>,
+    {
+        // `true` if the next token must be an operand or start one.
+        let mut expect_operand = true;
+
+        for (pos, token) in tokens.iter().enumerate() {
+            let prev = pos.checked_sub(1).map(|i| &tokens[i]);
+
+            // If the token starts, or is an operator before, an operand
+            let (is_valid, expect_next) = match token {
+                Number(_) | Variable(_) | Constant(_) => (
+                    expect_operand || is_implicit_mul(prev, token, context),
+                    false,
+                ),
+                Function(_) | GroupingOpen(_) => (
+                    expect_operand || is_implicit_mul(prev, token, context),
+                    true,
+                ),
+                UnaryOperator(name) => match context.get_unary_function(name) {
+                    Some(op) if op.notation() == Notation::Postfix => (!expect_operand, false),
+                    _ => (expect_operand, true),
+                },
+                GroupingClose(_) => {
+                    // `Random()`
+                    let is_empty_call = pos > 1
+                        && tokens[pos - 1].is_grouping_open()
+                        && tokens[pos - 2].is_function();
+                    (!expect_operand || is_empty_call, false)
+                }
+                _ => (!expect_operand, true),
+            };
+
+            if !is_valid {
+                return Err(Error::new(
+                    ErrorKind::InvalidExpression,
+                    format!("Misplaced token: {:?}", token),
+                ));
+            }
+
+            expect_operand = expect_next;
+        }
+
+        if expect_operand {
+            return Err(Error::new(
+                ErrorKind::InvalidExpression,
+                "Expression is incomplete",
+            ));
+        }
+
+        Ok(())
+    }
+
+    /// Checks if there is an implicit multiplication between the given tokens.
+    fn is_implicit_mul<'a, N, C>(prev: Option<&Token<N>>, token: &Token<N>, context: &C) -> bool
+    where
+        C: Context<'a, N>,
+    {
+        if !context.config().implicit_mul {
+            return false;
+        }
+
+        match prev {
+            // 2Max, 2PI, 2x, 2(4)
+            Some(Number(_)) => matches!(
+                token,
+                Function(_) | Constant(_) | Variable(_) | GroupingOpen(_)
+            ),
+            //(2)2, (2)PI, (2)x, (4)(2), Sin(30)Cos(30), Tan(45)2
+            Some(GroupingClose(_)) => matches!(
+                token,
+                Number(_) | Variable(_) | Constant(_) | Function(_) | GroupingOpen(_)
+            ),
+            _ => false,
+        }
+    }
+
     fn check_comma_position<N>(
         tokens: &[Token<N>],
         grouping_count: &[usize],
-- 
2.43.0


From e6a9a8ec8a595c7e989681ecbf99871a18491dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 11/58] fix: a conflicting alias is an error and leaves the
 context unchanged

---
 prexel/src/context.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..b78284d 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -187,11 +187,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Checks all the aliases before add any, a failed registration must not change the context
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -216,11 +219,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Checks all the aliases before add any, a failed registration must not change the context
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -256,11 +262,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Checks all the aliases before add any, a failed registration must not change the context
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From 5627b93dc05ab5d587ff8499480dc84e38576d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 12/58] fix: names that are equal ignoring case must have the
 same hash

---
 prexel/src/utils/ignore_case_str.rs    | 5 +++--
 prexel/src/utils/ignore_case_string.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..77d035a 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,9 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Equal values must have the same hash, so this must match the comparison
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..8d66737 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,9 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Equal values must have the same hash, so this must match the comparison
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
-- 
2.43.0


From 21e9234492c29dcc83a2f0e5601e2a717d6b8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 13/58] fix: the `docs` feature must not rename the `truncate`
 and `sign` functions

---
 prexel/src/ops/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..23aea95 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -535,7 +535,7 @@ mod math_ops {
     forward_func_impl!(TruncateFunction, trunc, truncate);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(TruncateFunction, trunc, Description::Truncate);
+    forward_func_impl!(TruncateFunction, trunc, truncate, Description::Truncate);
 
     pub struct RoundFunction;
     #[cfg(not(feature = "docs"))]
@@ -549,7 +549,7 @@ mod math_ops {
     forward_func_impl!(SignFunction, signum, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, Description::Sign);
+    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From c97c259b3d4b6166af6f5e9e683f070171269131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 14/58] fix: the sign of zero is zero

---
 prexel/src/ops/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 23aea95..4b51d5b 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -545,11 +545,27 @@ mod math_ops {
     forward_func_impl!(RoundFunction, round, Description::Round);
 
     pub struct SignFunction;
-    #[cfg(not(feature = "docs"))]
-    forward_func_impl!(SignFunction, signum, sign);
+    impl<N: ToPrimitive + FromPrimitive> Function<N> for SignFunction {
+        fn name(&self) -> &str {
+            "sign"
+        }
 
-    #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
+        fn call(&self, args: &[N]) -> Result<N> {
+            if args.len() != 1 {
+                return Err(Error::from(ErrorKind::InvalidArgumentCount));
+            }
+
+            // `f64::signum` returns 1 or -1 for zero
+            let value = try_to_float(&args[0])?;
+            let result = if value == 0_f64 { 0_f64 } else { value.signum() };
+            N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
+        }
+
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::Sign.into())
+        }
+    }
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From bddbd4711af5a566f3573093f310cdb7adc323ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 15/58] fix: subtraction of types using
 `impl_unchecked_num_traits_with_field` added its operands

---
 prexel/src/numeric_traits/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 2542ae8..08858a4 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -22,7 +22,7 @@ macro_rules! impl_unchecked_num_traits_with_field {
             fn sub(self, other: Self) -> Self {
                 let x = self.$field;
                 let y = other.$field;
-                Self::from(x + y)
+                Self::from(x - y)
             }
         }
 
-- 
2.43.0


From 24734d54b4deced1dc6820adc43ace97314d81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 16/58] fix: checked average of more values than the number
 type can count is an error

---
 prexel/src/ops/checked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..7fbae1a 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -263,8 +263,8 @@ impl<N: CheckedAdd + CheckedDiv + FromPrimitive + Clone> Function<N> for AvgFunc
 
         match sum {
             Some(n) => {
-                let result = n
-                    .checked_div(&N::from_usize(args.len()).unwrap())
+                let result = N::from_usize(args.len())
+                    .and_then(|count| n.checked_div(&count))
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
 
                 Ok(result)
-- 
2.43.0


From fff7c5f051e3c382b99d37671571217fb355a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 17/58] fix: the factorial of the checked contexts reports
 overflow, and always ends

---
 prexel/src/context.rs     |  2 +-
 prexel/src/ops/checked.rs | 34 +++++++++++++++-
 prexel/src/ops/mod.rs     | 86 +++++++++++++++++++++++----------------
 3 files changed, 85 insertions(+), 37 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index b78284d..14c05ec 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -398,7 +398,7 @@ impl<'a, N: CheckedNum> DefaultContext<'a, N> {
         context.add_binary_function(ModOperator).unwrap();
         context.add_unary_function(UnaryPlus).unwrap();
         context.add_unary_function(UnaryMinus).unwrap();
-        context.add_unary_function(Factorial).unwrap();
+        context.add_unary_function(FactorialOperator).unwrap();
         context.add_function(SumFunction).unwrap();
         context.add_function(ProdFunction).unwrap();
         context.add_function(AvgFunction).unwrap();
diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 7fbae1a..9cced5b 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -1,9 +1,11 @@
-use num_traits::{FromPrimitive, Zero};
+use std::ops::Sub;
+use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
 use crate::error::*;
 use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
+use crate::ops::math_ops::factorial;
 use crate::Result;
 
 #[cfg(feature = "docs")]
@@ -162,6 +164,36 @@ impl<N: CheckedNeg> UnaryFunction<N> for UnaryMinus {
     }
 }
 
+pub struct FactorialOperator;
+impl<N> UnaryFunction<N> for FactorialOperator
+where
+    N: CheckedMul
+        + Sub<N, Output = N>
+        + Clone
+        + Zero
+        + One
+        + PartialOrd
+        + ToPrimitive
+        + FromPrimitive,
+{
+    fn name(&self) -> &str {
+        "!"
+    }
+
+    fn notation(&self) -> Notation {
+        Notation::Postfix
+    }
+
+    fn call(&self, value: N) -> Result<N> {
+        factorial(value, N::checked_mul)
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Factorial.into())
+    }
+}
+
 pub struct AbsFunction;
 impl<N: Zero + PartialOrd + CheckedNeg + Clone> Function<N> for AbsFunction {
     fn name(&self) -> &str {
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 4b51d5b..aae3e9f 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -376,49 +376,65 @@ mod math_ops {
         }
 
         fn call(&self, value: N) -> Result<N> {
-            if value < N::zero() {
-                return Err(Error::from(ErrorKind::NegativeValue));
-            }
-
-            // 0! = 1 and 1! = 1
-            if value.is_zero() || value.is_one() {
-                return Ok(N::one());
-            }
+            factorial(value, |x, y| Some(x.clone() * y.clone()))
+        }
 
-            // Quick path for: `x < 1`
-            if value < N::one() {
-                return if let Some(n) = value.to_f64() {
-                    let result = gamma(n + 1f64);
-                    N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
-                } else {
-                    Err(Error::from(ErrorKind::Overflow))
-                };
-            }
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::Factorial.into())
+        }
+    }
 
-            let mut total = value;
-            let mut next = total.clone() - N::one();
+    /// Computes the factorial of the value using the specified multiplication,
+    /// which returns `None` on overflow.
+    pub(crate) fn factorial<N, F>(value: N, mul: F) -> Result<N>
+    where
+        N: Clone + Zero + One + Sub<N, Output = N> + PartialOrd + ToPrimitive + FromPrimitive,
+        F: Fn(&N, &N) -> Option<N>,
+    {
+        if value < N::zero() {
+            return Err(Error::from(ErrorKind::NegativeValue));
+        }
 
-            while next >= N::one() {
-                total = total.clone() * next.clone();
-                next = next.clone() - N::one();
-            }
+        // 0! = 1 and 1! = 1
+        if value.is_zero() || value == N::one() {
+            return Ok(N::one());
+        }
 
-            // If next value is non-zero, apply `Gamma function`.
-            if !next.is_zero() {
-                if let (Some(mut total_f64), Some(n)) = (total.to_f64(), next.to_f64()) {
-                    total_f64 *= gamma(n + 1f64);
-                    N::from_f64(total_f64).ok_or_else(|| Error::from(ErrorKind::Overflow))
-                } else {
-                    Err(Error::from(ErrorKind::Overflow))
-                }
+        // Quick path for: `x < 1`
+        if value < N::one() {
+            return if let Some(n) = value.to_f64() {
+                let result = gamma(n + 1f64);
+                N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
             } else {
-                Ok(total)
+                Err(Error::from(ErrorKind::Overflow))
+            };
+        }
+
+        let mut total = value;
+        let mut next = total.clone() - N::one();
+
+        while next >= N::one() {
+            total = mul(&total, &next).ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+            // The total will not change anymore
+            if total.to_f64().map_or(false, f64::is_infinite) {
+                return Ok(total);
             }
+
+            next = next.clone() - N::one();
         }
 
-        #[cfg(feature = "docs")]
-        fn description(&self) -> Option<&str> {
-            Some(Description::Factorial.into())
+        // If next value is non-zero, apply `Gamma function`.
+        if !next.is_zero() {
+            if let (Some(mut total_f64), Some(n)) = (total.to_f64(), next.to_f64()) {
+                total_f64 *= gamma(n + 1f64);
+                N::from_f64(total_f64).ok_or_else(|| Error::from(ErrorKind::Overflow))
+            } else {
+                Err(Error::from(ErrorKind::Overflow))
+            }
+        } else {
+            Ok(total)
         }
     }
 
-- 
2.43.0


From 39461691e25b903934cf07db86ce6690fc88944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 18/58] fix: the power of integers is exact

---
 prexel/src/ops/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index aae3e9f..f599c06 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -454,6 +454,15 @@ mod math_ops {
 
         fn call(&self, left: N, right: N) -> Result<N> {
             if let (Some(base), Some(exp)) = (left.to_f64(), right.to_f64()) {
+                // `f64` cannot represent all the large integers, so the power of integers is computed exactly
+                if base.fract() == 0_f64 && exp.fract() == 0_f64 {
+                    if let (Some(base), Some(exp)) = (left.to_i128(), right.to_u32()) {
+                        if let Some(result) = base.checked_pow(exp) {
+                            return N::from_i128(result).ok_or_else(|| Error::from(ErrorKind::Overflow));
+                        }
+                    }
+                }
+
                 N::from_f64(f64::powf(base, exp)).ok_or_else(|| Error::from(ErrorKind::Overflow))
             } else {
                 Err(Error::from(ErrorKind::Overflow))
-- 
2.43.0


From dc821cf1b246f2b99ad8004c8c0a822668c7933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 19/58] fix: decimal factorial of two, of a negative value and
 on overflow

---
 prexel/src/decimal/decimal_ext.rs | 6 +++---
 prexel/src/decimal/mod.rs         | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..9ba2db3 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -263,11 +263,11 @@ impl DecimalExt for Decimal {
         // To reduce errors
         const MAX_DECIMAL_PLACES: u32 = 15;
 
-        if self.is_sign_negative() {
+        if self < Decimal::zero() {
             return None;
         }
 
-        if self == consts::TWO || self == consts::ONE || self == consts::ZERO {
+        if self == consts::ONE || self == consts::ZERO {
             return Some(Decimal::one());
         }
 
@@ -284,7 +284,7 @@ impl DecimalExt for Decimal {
         }
 
         if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..41014cb 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -515,6 +515,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, value: Decimal) -> Result<Decimal> {
+            if value < consts::ZERO {
+                return Err(Error::from(ErrorKind::NegativeValue));
+            }
+
             value
                 .checked_factorial()
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
-- 
2.43.0


From 8c599fe47ffb21bddcde22d521568e4f13f6e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 20/58] fix: decimal powers of zero, with large or negative
 exponents, and close to the limits

---
 prexel/src/decimal/decimal_ext.rs | 38 ++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 9ba2db3..3141854 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -58,26 +58,23 @@ impl DecimalExt for Decimal {
 
     #[inline]
     fn checked_inv(self) -> Option<Decimal> {
-        if self.is_zero() {
-            None
-        } else {
-            Some(self.inv())
-        }
+        consts::ONE.checked_div(self)
     }
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
-        if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
-        }
-
-        if self.is_zero() {
-            return Some(Decimal::one());
+        if self.is_zero() && !exponent.is_zero() {
+            // Division by zero if the exponent is negative
+            return if exponent > Decimal::zero() { Some(self) } else { None };
         }
 
         if self.is_one() {
             return Some(self);
         }
 
+        if exponent.is_integer() {
+            return self.checked_powi(exponent.to_i64()?);
+        }
+
         // If base is 'e', return e^x
         if self == consts::E {
             return exponent.checked_exp();
@@ -99,7 +96,18 @@ impl DecimalExt for Decimal {
         }
 
         if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
+            let exponent = exponent.checked_neg()?;
+
+            // Takes the inverse of the value that had lost less digits
+            return if self.abs() < Decimal::one() {
+                self.checked_inv()?.checked_powi(exponent)
+            } else {
+                match self.checked_powi(exponent) {
+                    Some(result) => result.checked_inv(),
+                    // The inverse of a value out of range is too close to zero
+                    None => Some(Decimal::zero()),
+                }
+            };
         }
 
         let mut result = Decimal::one();
@@ -112,8 +120,12 @@ impl DecimalExt for Decimal {
                 exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            // Avoids an overflow on a value that will not be used
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
-- 
2.43.0


From 6c1a702bc65f9bedcb881c29c6f3af712c14dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 21/58] fix: decimal cubic root of zero and large values,
 square root always ends

---
 prexel/src/decimal/decimal_ext.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 3141854..2fb165f 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -132,10 +132,14 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_sqrt(self) -> Option<Decimal> {
-        if self.is_sign_negative() {
+        if self < Decimal::zero() {
             return None;
         }
 
+        if self.is_zero() {
+            return Some(self);
+        }
+
         // Using Babylonian Method
         // See: https://en.wikipedia.org/wiki/Methods_of_computing_square_roots#Babylonian_method
 
@@ -143,7 +147,11 @@ impl DecimalExt for Decimal {
         let mut result = Decimal::from_f64(self.to_f64()?.sqrt())?;
         let mut x = Decimal::zero();
 
-        while x != result {
+        for _ in 0..consts::TAYLOR_SERIES_ITERATIONS {
+            if x == result {
+                break;
+            }
+
             x = result;
 
             // result = 0.5 * ( value / x + result )
@@ -157,11 +165,12 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_cbrt(self) -> Option<Decimal> {
-        if self.is_one() {
+        if self.is_zero() || self.is_one() {
             return Some(self);
         }
 
-        let mut x = Decimal::one();
+        // Initial approximation
+        let mut x = Decimal::from_f64(self.to_f64()?.cbrt())?;
 
         // Using Newton's Method
         // See: https://en.wikipedia.org/wiki/Cube_root#Numerical_methods
-- 
2.43.0


From 3d764694acd63fdb7b55810b7c43abfeed9661bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 22/58] fix: decimal natural logarithm of values close to zero

---
 prexel/src/decimal/decimal_ext.rs | 10 ++++++++--
 prexel/src/decimal/mod.rs         |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 2fb165f..b42a69f 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -207,8 +207,8 @@ impl DecimalExt for Decimal {
         }
 
         // See: https://en.wikipedia.org/wiki/Natural_logarithm#Numerical_value
-        if self >= Decimal::one() {
-            let mut n = 0u32;
+        if self > Decimal::one() || self < consts::ONE_FRACT_10 {
+            let mut n = 0i32;
             let mut a = self;
 
             while a > Decimal::one() {
@@ -216,6 +216,12 @@ impl DecimalExt for Decimal {
                 n += 1;
             }
 
+            // The power series converges too slow for values close to zero
+            while a < consts::ONE_FRACT_10 {
+                a = a.checked_mul(consts::TEN)?;
+                n -= 1;
+            }
+
             // ln(x) = log(a * 10^n) = ln(a) + n * log(10)
             // B = n * log(10)
             let lna = Self::checked_ln(a)?;
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 41014cb..2564f8e 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -50,6 +50,8 @@ pub mod consts {
     pub const HALF: Decimal = dec!(0.5);
     /// 1/3
     pub const ONE_FRACT_3: Decimal = dec!(0.3333333333333333333333333333);
+    /// 1/10
+    pub(crate) const ONE_FRACT_10: Decimal = dec!(0.1);
     /// -1
     pub const ONE_MINUS: Decimal = dec!(-1);
     /// 0
-- 
2.43.0


From f3d4ac3da026bdbe975d380121a396932d78257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 23/58] fix: decimal exponential and hyperbolic functions of
 large values

---
 prexel/src/decimal/decimal_ext.rs | 29 +++++++++++++++++++++++------
 prexel/src/decimal/mod.rs         |  2 ++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index b42a69f..0b45325 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -259,6 +259,21 @@ impl DecimalExt for Decimal {
             return Some(consts::E);
         }
 
+        if self < Decimal::zero() {
+            // e^-x = 1 / e^x
+            return match self.neg().checked_exp() {
+                Some(result) => result.checked_inv(),
+                // The inverse of a value out of range is too close to zero
+                None => Some(Decimal::zero()),
+            };
+        }
+
+        // The continued fraction is only accurate for small values: e^x = e^trunc(x) * e^fract(x)
+        if self > Decimal::one() {
+            let n = self.trunc().to_i64()?;
+            return consts::E.checked_powi(n)?.checked_mul(self.fract().checked_exp()?);
+        }
+
         debug_assert!(consts::TAYLOR_SERIES_ITERATIONS > 0);
 
         // Using Continued fraction
@@ -503,21 +518,23 @@ impl DecimalExt for Decimal {
         // formula: sinh(x) = (e^x - e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 - e1) / consts::TWO;
-        Some(result)
+        e0.checked_sub(e1)?.checked_div(consts::TWO)
     }
 
     fn cosh(self) -> Option<Decimal> {
         // formula: cosh(x) = (e^x + e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 + e1) / consts::TWO;
-        Some(result)
+        e0.checked_add(e1)?.checked_div(consts::TWO)
     }
 
     fn tanh(self) -> Option<Decimal> {
-        let result = self.sinh()? / self.cosh()?;
-        Some(result)
+        // The difference with 1 is lower than the precision of the decimal
+        if self.abs() > consts::TANH_LIMIT {
+            return Some(if self > Decimal::zero() { consts::ONE } else { consts::ONE_MINUS });
+        }
+
+        self.sinh()?.checked_div(self.cosh()?)
     }
 
     fn asinh(self) -> Decimal {
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2564f8e..2dc393c 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -52,6 +52,8 @@ pub mod consts {
     pub const ONE_FRACT_3: Decimal = dec!(0.3333333333333333333333333333);
     /// 1/10
     pub(crate) const ONE_FRACT_10: Decimal = dec!(0.1);
+    /// For larger values the hyperbolic tangent is 1
+    pub(crate) const TANH_LIMIT: Decimal = dec!(40);
     /// -1
     pub const ONE_MINUS: Decimal = dec!(-1);
     /// 0
-- 
2.43.0


From f6832196a03479b856b41d16ea0988971f496822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 24/58] fix: decimal csc, sec and cot return the reciprocal of
 sin, cos and tan

---
 prexel/src/decimal/mod.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2dc393c..2c87ced 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -755,7 +755,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -862,7 +862,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -910,10 +910,33 @@ mod trig_ops {
     impl_checked_trig_rec!(SecFunction, checked_cos, sec, Description::Sec);
 
     pub struct CotFunction;
-    #[cfg(not(feature = "docs"))]
-    impl_checked_trig_rec!(CotFunction, checked_tan, cot);
-    #[cfg(feature = "docs")]
-    impl_checked_trig_rec!(CotFunction, checked_tan, cot, Description::Cot);
+    impl Function<Decimal> for CotFunction {
+        #[inline]
+        fn name(&self) -> &str {
+            "cot"
+        }
+
+        #[inline]
+        fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+            match args.len() {
+                1 => {
+                    // The tangent is not defined where the cotangent is zero
+                    let radians = args[0].to_radians();
+                    radians
+                        .checked_cos()
+                        .zip(radians.checked_sin())
+                        .and_then(|(cos, sin)| cos.checked_div(sin))
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow))
+                }
+                _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+            }
+        }
+
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::Cot.into())
+        }
+    }
 
     //////////////////// Inverse Trigonometric ////////////////////
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From ffdd27031cba30bcf90bc9ba040430aa90d777f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 25/58] fix: decimal sum, product and average report overflow

---
 prexel/src/decimal/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2c87ced..86f5a13 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -547,7 +547,8 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(*n + *cur);
+                        result = Some(n.checked_add(*cur)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
@@ -574,7 +575,8 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(n * cur);
+                        result = Some(n.checked_mul(*cur)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
@@ -601,7 +603,8 @@ mod math_ops {
                 match sum {
                     None => sum = Some(*cur),
                     Some(ref n) => {
-                        sum = Some(*n + *cur);
+                        sum = Some(n.checked_add(*cur)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
-- 
2.43.0


From 08e4ac6413bd7596cb51f17a850770dfea8e2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 26/58] fix: decimal division and modulo by zero report a
 division by zero

---
 prexel/src/decimal/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 86f5a13..b70d23a 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -414,6 +414,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_div(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
@@ -443,6 +447,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_rem(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
-- 
2.43.0


From fee0f5f6525bfc86dae3f028963623fdea3142ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 27/58] fix: decimal to_degrees reports overflow

---
 prexel/src/decimal/decimal_ext.rs | 6 ++++++
 prexel/src/decimal/mod.rs         | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 0b45325..7908ac6 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -10,6 +10,7 @@ pub trait DecimalExt {
     fn is_integer(&self) -> bool;
     fn to_radians(&self) -> Decimal;
     fn to_degrees(&self) -> Decimal;
+    fn checked_to_degrees(&self) -> Option<Decimal>;
     fn inv(self) -> Decimal;
     fn checked_inv(self) -> Option<Decimal>;
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal>;
@@ -51,6 +52,11 @@ impl DecimalExt for Decimal {
         (self * (dec!(180) / consts::PI)).approx()
     }
 
+    #[inline]
+    fn checked_to_degrees(&self) -> Option<Decimal> {
+        self.checked_mul(dec!(180) / consts::PI).map(|d| d.approx())
+    }
+
     #[inline]
     fn inv(self) -> Decimal {
         consts::ONE / self
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index b70d23a..eeb9cf0 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -709,9 +709,9 @@ mod math_ops {
 
     pub struct ToDegreesFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees, Description::ToDegrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees, Description::ToDegrees);
 }
 
 mod trig_ops {
-- 
2.43.0


From c08ad2957d8c5a4156673c18e39b2680adb769b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 28/58] fix: decimal atan of two arguments when the second is
 or is close to zero

---
 prexel/src/decimal/decimal_ext.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 7908ac6..068be6d 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -502,14 +502,19 @@ impl DecimalExt for Decimal {
 
         if x.is_zero() {
             return if self > consts::ZERO {
-                consts::PI_2
+                consts::PI_FRACT_2
             } else {
-                consts::PI_2_MINUS
+                -consts::PI_FRACT_2
             };
         }
 
         // Θ = arctan(y / x)
-        let atan2 = Decimal::atan(self / x);
+        let atan2 = match self.checked_div(x) {
+            Some(ratio) => Decimal::atan(ratio),
+            // The ratio is too large
+            None if self.is_sign_negative() == x.is_sign_negative() => consts::PI_FRACT_2,
+            None => -consts::PI_FRACT_2,
+        };
 
         if x > consts::ZERO {
             atan2
-- 
2.43.0


From 09f1d39d992317d0c03b629c3ff5b9b78dbbb4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 29/58] fix: decimal inverse trigonometric functions return
 degrees and take the reciprocal when required

---
 prexel/src/decimal/mod.rs | 84 +++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index eeb9cf0..f49922d 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -715,6 +715,7 @@ mod math_ops {
 }
 
 mod trig_ops {
+    use crate::decimal::consts;
     use crate::decimal::decimal_ext::DecimalExt;
     use crate::error::*;
     use crate::function::Function;
@@ -951,27 +952,26 @@ mod trig_ops {
 
     //////////////////// Inverse Trigonometric ////////////////////
     #[cfg(not(feature = "docs"))]
-    macro_rules! impl_arc_trig_rec {
-        ($struct_name:ident, $method_name:ident, $name:ident) => {
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident) => {
             impl Function<Decimal> for $struct_name {
                 #[inline]
                 fn name(&self) -> &str {
-                    stringify!($name)
+                    stringify!($method_name)
                 }
 
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .$method_name()
+                            .map(|radians| radians.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
             }
         };
-
-        ($struct_name:ident, $method_name:ident) => {
-            impl_arc_trig_rec!($struct_name, $method_name, $method_name);
-        };
     }
 
     #[cfg(not(feature = "docs"))]
@@ -987,8 +987,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(Decimal::$method_name)
+                            .map(|radians| radians.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1002,18 +1003,21 @@ mod trig_ops {
     }
 
     #[cfg(feature = "docs")]
-    macro_rules! impl_arc_trig_rec {
-        ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident, $description:expr) => {
             impl Function<Decimal> for $struct_name {
                 #[inline]
                 fn name(&self) -> &str {
-                    stringify!($name)
+                    stringify!($method_name)
                 }
 
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .$method_name()
+                            .map(|radians| radians.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -1023,10 +1027,6 @@ mod trig_ops {
                 }
             }
         };
-
-        ($struct_name:ident, $method_name:ident, $description:expr) => {
-            impl_arc_trig_rec!($struct_name, $method_name, $method_name, $description);
-        };
     }
 
     #[cfg(feature = "docs")]
@@ -1042,8 +1042,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(Decimal::$method_name)
+                            .map(|radians| radians.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1062,15 +1063,15 @@ mod trig_ops {
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ASinFunction, asin);
+    impl_checked_arc_trig!(ASinFunction, asin);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ASinFunction, asin, Description::ASin);
+    impl_checked_arc_trig!(ASinFunction, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ACosFunction, acos);
+    impl_checked_arc_trig!(ACosFunction, acos);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ACosFunction, acos, Description::ACos);
+    impl_checked_arc_trig!(ACosFunction, acos, Description::ACos);
 
     pub struct ATanFunction;
     impl Function<Decimal> for ATanFunction {
@@ -1082,8 +1083,8 @@ mod trig_ops {
         #[inline]
         fn call(&self, args: &[Decimal]) -> Result<Decimal> {
             match args.len() {
-                1 => Ok(args[0].atan()),
-                2 => Ok(args[0].atan2(args[1])),
+                1 => Ok(args[0].atan().to_degrees()),
+                2 => Ok(args[0].atan2(args[1]).to_degrees()),
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
@@ -1107,10 +1108,33 @@ mod trig_ops {
     impl_checked_arc_trig_rec!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
-    #[cfg(not(feature = "docs"))]
-    impl_arc_trig_rec!(ACotFunction, atan, acot);
-    #[cfg(feature = "docs")]
-    impl_arc_trig_rec!(ACotFunction, atan, acot, Description::ACot);
+    impl Function<Decimal> for ACotFunction {
+        #[inline]
+        fn name(&self) -> &str {
+            "acot"
+        }
+
+        #[inline]
+        fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+            match args.len() {
+                1 => {
+                    // The inverse of zero is infinite
+                    let radians = match args[0].checked_inv() {
+                        Some(value) => value.atan(),
+                        None => consts::PI_FRACT_2,
+                    };
+
+                    Ok(radians.to_degrees())
+                }
+                _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+            }
+        }
+
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::ACot.into())
+        }
+    }
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
     pub struct SinhFunction;
-- 
2.43.0


From 91b8fc56d3a82beb994c249a3d3b18ef5416c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 30/58] fix: decimal inverse hyperbolic functions of large,
 negative and limit values, and of the reciprocals

---
 prexel/src/decimal/decimal_ext.rs | 32 +++++++++++++++++++++------
 prexel/src/decimal/mod.rs         | 36 +++++++++++++++----------------
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 068be6d..2638925 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -32,6 +32,7 @@ pub trait DecimalExt {
     fn cosh(self) -> Option<Decimal>;
     fn tanh(self) -> Option<Decimal>;
     fn asinh(self) -> Decimal;
+    fn checked_asinh(self) -> Option<Decimal>;
     fn acosh(self) -> Option<Decimal>;
     fn atanh(self) -> Option<Decimal>;
 }
@@ -549,9 +550,18 @@ impl DecimalExt for Decimal {
     }
 
     fn asinh(self) -> Decimal {
+        // asinh(-x) = -asinh(x), the formula is not accurate for negative values
+        if self < Decimal::zero() {
+            return -Decimal::asinh(-self);
+        }
+
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 + consts::ONE).unwrap()).unwrap()
+        ln_sum_sqrt(self, consts::ONE).unwrap()
+    }
+
+    #[inline]
+    fn checked_asinh(self) -> Option<Decimal> {
+        Some(self.asinh())
     }
 
     fn acosh(self) -> Option<Decimal> {
@@ -560,19 +570,18 @@ impl DecimalExt for Decimal {
         }
 
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
+        ln_sum_sqrt(self, consts::ONE_MINUS)
     }
 
     fn atanh(self) -> Option<Decimal> {
-        if self < consts::ONE_MINUS || self > consts::ONE {
+        if self <= consts::ONE_MINUS || self >= consts::ONE {
             return None;
         }
 
         // formula: atanh(x) = 0.5 * ln((1 + x)/(1 - x))
         let x0 = consts::ONE + self;
         let x1 = consts::ONE - self;
-        Decimal::checked_ln(x0 / x1)?.checked_mul(consts::HALF)
+        Decimal::checked_ln(x0.checked_div(x1)?)?.checked_mul(consts::HALF)
     }
 }
 
@@ -599,6 +608,17 @@ impl Approx for Decimal {
     }
 }
 
+/// Computes `ln(x + sqrt(x^2 + c))` where `c` is 1 or -1.
+fn ln_sum_sqrt(x: Decimal, c: Decimal) -> Option<Decimal> {
+    // `c` is negligible: ln(2x)
+    if x > consts::HYPERBOLIC_LIMIT {
+        return x.checked_ln()?.checked_add(consts::LN_2);
+    }
+
+    let root = x.checked_mul(x)?.checked_add(c)?.checked_sqrt()?;
+    x.checked_add(root)?.checked_ln()
+}
+
 fn gamma(mut x: Decimal) -> Option<Decimal> {
     //Using Coefficients from: https://mrob.com/pub/ries/lanczos-gamma.html
     const G: Decimal = dec!(4.7421875);
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index f49922d..b8b9f1b 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -54,6 +54,8 @@ pub mod consts {
     pub(crate) const ONE_FRACT_10: Decimal = dec!(0.1);
     /// For larger values the hyperbolic tangent is 1
     pub(crate) const TANH_LIMIT: Decimal = dec!(40);
+    /// For larger values `x^2 + 1` is not different to `x^2`
+    pub(crate) const HYPERBOLIC_LIMIT: Decimal = dec!(100000000000000);
     /// -1
     pub const ONE_MINUS: Decimal = dec!(-1);
     /// 0
@@ -147,7 +149,7 @@ macro_rules! forward_func_impl {
 }
 
 #[cfg(not(feature = "docs"))]
-macro_rules! forward_func_inv_impl {
+macro_rules! forward_inv_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident) => {
         impl Function<Decimal> for $struct_name {
             #[inline]
@@ -158,16 +160,15 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .and_then(Decimal::$method_name)
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
         }
     };
-
-    ($struct_name:ident, $method_name:ident) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name);
-    };
 }
 
 #[cfg(feature = "docs")]
@@ -261,7 +262,7 @@ macro_rules! forward_func_impl {
 }
 
 #[cfg(feature = "docs")]
-macro_rules! forward_func_inv_impl {
+macro_rules! forward_inv_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
         impl Function<Decimal> for $struct_name {
             #[inline]
@@ -272,7 +273,10 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .and_then(Decimal::$method_name)
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
@@ -282,10 +286,6 @@ macro_rules! forward_func_inv_impl {
             }
         }
     };
-
-    ($struct_name:ident, $method_name:ident, $description:expr) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name, $description);
-    };
 }
 
 pub mod ops {
@@ -1194,21 +1194,21 @@ mod trig_ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch);
+    forward_inv_func_impl!(ACschFunction, checked_asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_inv_func_impl!(ACschFunction, checked_asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech);
+    forward_inv_func_impl!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech, Description::ASech);
+    forward_inv_func_impl!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth);
+    forward_inv_func_impl!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_inv_func_impl!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From a9bcc7ea645102950eaf40f1a9da55b4d2d09b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 31/58] fix: decimal trigonometric functions of large angles

---
 prexel/src/decimal/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index b8b9f1b..9601e99 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -58,6 +58,8 @@ pub mod consts {
     pub(crate) const HYPERBOLIC_LIMIT: Decimal = dec!(100000000000000);
     /// -1
     pub const ONE_MINUS: Decimal = dec!(-1);
+    /// 360
+    pub(crate) const DEGREES_TURN: Decimal = dec!(360);
     /// 0
     pub const ZERO: Decimal = dec!(0);
     /// 1
@@ -737,7 +739,7 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => args[0]
+                        1 => reduce_degrees(args[0])
                             .to_radians()
                             .$method_name()
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
@@ -764,7 +766,7 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => args[0]
+                        1 => reduce_degrees(args[0])
                             .to_radians()
                             .$method_name()
                             .and_then(Decimal::checked_inv)
@@ -840,7 +842,7 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => args[0]
+                        1 => reduce_degrees(args[0])
                             .to_radians()
                             .$method_name()
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
@@ -871,7 +873,7 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => args[0]
+                        1 => reduce_degrees(args[0])
                             .to_radians()
                             .$method_name()
                             .and_then(Decimal::checked_inv)
@@ -891,6 +893,12 @@ mod trig_ops {
         };
     }
 
+    // A whole number of turns is removed before the conversion to radians, which is not exact
+    #[inline]
+    fn reduce_degrees(degrees: Decimal) -> Decimal {
+        degrees % consts::DEGREES_TURN
+    }
+
     pub struct SinFunction;
     #[cfg(not(feature = "docs"))]
     impl_checked_trig!(SinFunction, checked_sin, sin);
@@ -933,7 +941,7 @@ mod trig_ops {
             match args.len() {
                 1 => {
                     // The tangent is not defined where the cotangent is zero
-                    let radians = args[0].to_radians();
+                    let radians = reduce_degrees(args[0]).to_radians();
                     radians
                         .checked_cos()
                         .zip(radians.checked_sin())
-- 
2.43.0


From 944b9081f34fd1b116889419def9facc4409dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 32/58] fix: complex log with a real base

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..1cc4b59 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -51,7 +51,7 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
-                    n if !n.is_zero() => {
+                    n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From 8cbf8a212c775fdbd95abe38ffca28d4076bf29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 33/58] fix: complex random accepts any range but those where
 min > max

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 1cc4b59..3a7a928 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -110,7 +110,7 @@ pub mod ops {
                 2 => {
                     let min = try_get_real(&args[0])?;
                     let max = try_get_real(&args[1])?;
-                    if min.is_sign_negative() || max.is_sign_negative(){
+                    if min > max {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid `Random` arguments: `min > max`, {} > {}", min, max)
-- 
2.43.0


From 5e814062ed4bf12e34f56e533b35f5ba9b2d2251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 34/58] fix: complex power of zero

---
 prexel/src/complex/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 3a7a928..1702984 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -2,7 +2,7 @@ pub type Complex<T> = num_complex::Complex<T>;
 
 pub mod ops {
     use num_complex::Complex;
-    use num_traits::{Float, FromPrimitive};
+    use num_traits::{Float, FromPrimitive, Zero};
     use rand::random;
     use std::fmt::{Display, Debug};
 
@@ -28,6 +28,11 @@ pub mod ops {
         }
 
         fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> {
+            // The polar form used by `powc` is not defined for zero
+            if left.is_zero() && right.re > T::zero() {
+                return Ok(left);
+            }
+
             Ok(Complex::powc(&left, right))
         }
 
-- 
2.43.0


From 022e3e2498164aa318c5f2ecfcce98d2cfdd5d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 35/58] fix: complex inverse functions of the reciprocals take
 the reciprocal of the argument

---
 prexel/src/complex/mod.rs | 64 +++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 1702984..b1d7c63 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -180,6 +180,24 @@ pub mod ops {
         };
     }
 
+    #[cfg(not(feature = "docs"))]
+    macro_rules! forward_impl_inv_func {
+        ($t:ty, $method_name:ident, $name:ident) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
     #[cfg(feature = "docs")]
     macro_rules! forward_impl_func {
         ($t:ty, $method_name:ident, $description:expr) => {
@@ -232,6 +250,28 @@ pub mod ops {
         };
     }
 
+    #[cfg(feature = "docs")]
+    macro_rules! forward_impl_inv_func {
+        ($t:ty, $method_name:ident, $name:ident, $description:expr) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -310,21 +350,21 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACscFunction, asin, acsc);
+    forward_impl_inv_func!(ACscFunction, asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_inv_func!(ACscFunction, asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASecFunction, acos, asec);
+    forward_impl_inv_func!(ASecFunction, acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_inv_func!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACotFunction, atan, acot);
+    forward_impl_inv_func!(ACotFunction, atan, acot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACotFunction, atan, acot, Description::ACot);
+    forward_impl_inv_func!(ACotFunction, atan, acot, Description::ACot);
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
 
@@ -386,21 +426,21 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch);
+    forward_impl_inv_func!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_inv_func!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASechFunction, acosh, asech);
+    forward_impl_inv_func!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASechFunction, acosh, asech, Description::ASech);
+    forward_impl_inv_func!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth);
+    forward_impl_inv_func!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_impl_inv_func!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From e3cd4e991eeb189c469302a088bead3d2b33f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 36/58] fix: shifting bits out of the range of the binary
 number is an error

---
 prexel/src/binary/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..ff14242 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,7 +102,9 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use crate::error::{Error, ErrorKind};
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
+    use num_traits::ToPrimitive;
 
     pub struct NotFunction;
     impl UnaryFunction<Binary> for NotFunction {
@@ -395,7 +397,12 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            // The number of bits to shift must be in the range 0..128
+            right.0
+                .to_u32()
+                .and_then(|bits| left.0.checked_shr(bits))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
@@ -422,7 +429,12 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            // The number of bits to shift must be in the range 0..128
+            right.0
+                .to_u32()
+                .and_then(|bits| left.0.checked_shl(bits))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
-- 
2.43.0


From 861f2ebf537370aa4305488fabe14a26a14b4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 37/58] fix: read back the negative binary numbers as they are
 displayed

---
 prexel/src/binary/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ff14242..1205640 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -34,7 +34,10 @@ impl FromStr for Binary {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = s.strip_prefix('b') {
-            return i128::from_str_radix(stripped, 2).map(Binary);
+            // Negative values are written as its 128 bits
+            return i128::from_str_radix(stripped, 2)
+                .or_else(|_| u128::from_str_radix(stripped, 2).map(|n| n as i128))
+                .map(Binary);
         }
 
         i128::from_str(s).map(Binary)
-- 
2.43.0


From 8e42db954598ed0a09db6b11ba7a9a01f01f2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 38/58] fix: a circular array without capacity discards pushed
 items

'repl --history 0' panicked when the first line was added to the history.
---
 eval/src/collections/carray.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..f5d7139 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -18,6 +18,10 @@ impl<T> CircularArray<T> {
     }
 
     pub fn push(&mut self, item: T) {
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From e8805e767840ca9644851ab9f42c11fbcf814c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 39/58] fix: the float metadata endpoints describe the float
 context

They listed the operators, constants and functions of the decimal context.
---
 prexel-server/src/endpoints/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index aac1cb1..046f4ed 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -66,7 +66,7 @@ pub async fn get_operators(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(operators))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let operators = services::get_operators(&context);
             Ok(HttpResponse::Ok().json(operators))
         }
@@ -100,7 +100,7 @@ pub async fn get_constants(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(constants))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let constants = services::get_constants(&context);
             Ok(HttpResponse::Ok().json(constants))
         }
@@ -134,7 +134,7 @@ pub async fn get_functions(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(functions))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let functions = services::get_functions(&context);
             Ok(HttpResponse::Ok().json(functions))
         }
-- 
2.43.0


From e36822b0580825c5268a2846a4f10bc89c3910ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 40/58] fix: the binary REPL evaluates comparisons instead of
 assigning

The operators ==, !=, >= and <= were read as assignments.
---
 eval/src/repl/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eval/src/repl/mod.rs b/eval/src/repl/mod.rs
index 1bfde3f..282ab47 100644
--- a/eval/src/repl/mod.rs
+++ b/eval/src/repl/mod.rs
@@ -88,7 +88,7 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
             }
 
             // Assign a variable
-            _ if expression.contains('=') => {
+            _ if expression.contains('=') && !(is_binary && has_comparison(expression)) => {
                 let parts = expression
                     .split('=')
                     .map(|s| s.trim().to_owned())
@@ -130,6 +130,11 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
     });
 }
 
+// Checks if the '=' in the expression belongs to a comparison operator: ==, !=, >=, <=
+fn has_comparison(expression: &str) -> bool {
+    ["==", "!=", ">=", "<="].iter().any(|op| expression.contains(op))
+}
+
 fn repl_tokenizer<'a, N>(is_binary: bool) -> Tokenizer<'a, N>
     where
         N: FromStr + Clone + Display + Debug + 'a,
-- 
2.43.0


From a9294f50c4167685bb82e7e9d7c5684c77514ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 41/58] fix: adjacent operators and commas do not need
 whitespace between them

A run of symbols was always a single unit, so '3!+2', '2*-3' and 'Max(1,-2)'
were rejected as unknown tokens.
---
 prexel/src/tokenizer.rs | 49 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 9a7f1d0..5af7308 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -77,6 +77,11 @@ where
         let mut raw_tokens = self.splitter.split_into_tokens(expression);
         // Whitespaces are not tokens, and must not hide the previous token of an operator
         raw_tokens.retain(|s| !s.trim().is_empty());
+        // A run of symbols may contain several operators or commas, eg: `3!+2`, `Max(1,-2)`
+        let raw_tokens = raw_tokens
+            .into_iter()
+            .flat_map(|s| split_symbols(s, context))
+            .collect::<Vec<String>>();
         // Actual iterator over the string tokens.
         let mut iter = raw_tokens.iter().enumerate().peekable();
         // Stores the tokens to return.
@@ -260,6 +265,50 @@ where
     }
 }
 
+/// Splits a run of symbols that is not an operator itself into the operators and commas it is made
+/// of, taking always the longest. If that is not possible the string is returned as is.
+fn split_symbols<'a, N, C>(string: String, context: &C) -> Vec<String>
+where
+    C: Context<'a, N>,
+{
+    /// Max number of symbols of an operator that is not separated from others.
+    const MAX_LEN: usize = 16;
+
+    let is_symbol = |s: &str| s == "," || context.is_binary_function(s) || context.is_unary_function(s);
+    let chars = string.chars().collect::<Vec<char>>();
+
+    if chars.len() == 1
+        || chars.iter().any(|c| c.is_alphanumeric())
+        || is_symbol(&string)
+        || context.is_variable(&string)
+        || context.is_constant(&string)
+        || context.is_function(&string)
+    {
+        return vec![string];
+    }
+
+    let mut symbols = Vec::new();
+    let mut pos = 0;
+
+    while pos < chars.len() {
+        let max_len = MAX_LEN.min(chars.len() - pos);
+        let symbol = (1..=max_len)
+            .rev()
+            .map(|len| chars[pos..pos + len].iter().collect::<String>())
+            .find(|s| is_symbol(s));
+
+        match symbol {
+            Some(s) => {
+                pos += s.chars().count();
+                symbols.push(s);
+            }
+            None => return vec![string],
+        }
+    }
+
+    symbols
+}
+
 /// Checks if the given name is an operator that only can appear after its operand, eg: `10!`.
 fn is_postfix_operator<'a, N, C>(name: &str, context: &C) -> bool
 where
-- 
2.43.0


From 1c3077edc2afde59942af1081eec43a70df41658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 42/58] fix: functions without arguments are rejected when
 custom calls are allowed too

'f 2' was converted to a postfix expression without the argument count of 'f'.
---
 prexel/src/evaluator.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index f4c7ed0..618be9c 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -337,22 +337,22 @@ mod shunting_yard {
                     push_unary_function(context, &mut output, &mut operators, token, name)?
                 }
                 Token::Function(name) => {
-                    if !context.config().custom_function_call {
-                        // Checks the function call starts with a parentheses open
-                        // We only allow function arguments in a parentheses, so function calls
-                        // with custom grouping symbols are invalid eg: Max[1,2,3], Sum<2,4,6>
-                        if !token_iterator
-                            .peek()
-                            .map_or(false, |t| t.1.contains_symbol('('))
-                        {
-                            return Err(Error::new(
-                                ErrorKind::InvalidInput,
-                                format!(
-                                    "Function arguments of `{}` are not within a parentheses",
-                                    name
-                                ),
-                            ));
-                        }
+                    // The arguments of a function must be within grouping symbols.
+                    // Unless the context allows it, function calls with custom grouping symbols
+                    // are invalid eg: Max[1,2,3], Sum<2,4,6>
+                    let custom_function_call = context.config().custom_function_call;
+                    let has_arguments = token_iterator.peek().map_or(false, |t| {
+                        t.1.contains_symbol('(') || (custom_function_call && t.1.is_grouping_open())
+                    });
+
+                    if !has_arguments {
+                        return Err(Error::new(
+                            ErrorKind::InvalidInput,
+                            format!(
+                                "Function arguments of `{}` are not within a parentheses",
+                                name
+                            ),
+                        ));
                     }
 
                     arg_count.push(0);
-- 
2.43.0


From 935f890706949fb1b05c15314d5162051ad7f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 43/58] fix: random of a range whose size overflows

---
 prexel/src/complex/mod.rs | 14 ++++++++++++--
 prexel/src/ops/mod.rs     |  9 ++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index b1d7c63..0c9c98f 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -122,8 +122,18 @@ pub mod ops {
                         ));
                     }
 
-                    let re = min + ((max - min) * random_t::<T>()?);
-                    let im = min + ((max - min) * random_t::<T>()?);
+                    let range = max - min;
+                    let random_in_range = |n: T| {
+                        // The size of the range may overflow
+                        if range.is_finite() {
+                            min + (range * n)
+                        } else {
+                            (min * (T::one() - n)) + (max * n)
+                        }
+                    };
+
+                    let re = random_in_range(random_t::<T>()?);
+                    let im = random_in_range(random_t::<T>()?);
                     Ok(Complex::new(re, im))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index f599c06..78680a5 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -686,7 +686,14 @@ mod math_ops {
                         )
                     }
 
-                    let value = min + ((max - min) * random::<f64>());
+                    let n = random::<f64>();
+                    let range = max - min;
+                    // The size of the range may overflow
+                    let value = if range.is_finite() {
+                        min + (range * n)
+                    } else {
+                        (min * (1.0 - n)) + (max * n)
+                    };
                     N::from_f64(value).ok_or_else(|| Error::from(ErrorKind::Overflow))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-- 
2.43.0


From 6b89efcafa65d0cf74f9912b957bb1a78ad30e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 44/58] fix: square root and logarithm of negative real numbers
 in the complex context

---
 prexel/src/complex/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 0c9c98f..7d2c511 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -7,7 +7,7 @@ pub mod ops {
     use std::fmt::{Display, Debug};
 
     use crate::error::*;
-    use crate::function::{Associativity, BinaryFunction, Function, Precedence};
+    use crate::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
     use crate::Result;
 
     #[cfg(feature = "docs")]
@@ -42,6 +42,28 @@ pub mod ops {
         }
     }
 
+    pub struct UnaryMinus;
+    impl<T> UnaryFunction<Complex<T>> for UnaryMinus where T: Float{
+        fn name(&self) -> &str {
+            "-"
+        }
+
+        fn notation(&self) -> Notation {
+            Notation::Prefix
+        }
+
+        fn call(&self, value: Complex<T>) -> Result<Complex<T>> {
+            // A negative zero imaginary part moves the negative real numbers to the other side
+            // of the branch cut, eg: `sqrt(-1)` would be `-i`
+            Ok(Complex::new(T::zero() - value.re, T::zero() - value.im))
+        }
+
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::Neg.into())
+        }
+    }
+
     pub struct LogFunction;
     impl<T> Function<Complex<T>> for LogFunction where T: Float + FromPrimitive{
         fn name(&self) -> &str {
@@ -457,7 +479,7 @@ pub mod context {
     use num_complex::Complex;
     use num_traits::{FromPrimitive, Float};
 
-    use crate::complex::ops::PowOperator;
+    use crate::complex::ops::{PowOperator, UnaryMinus};
     use crate::context::{Config, Context, DefaultContext};
     use crate::ops::unchecked::*;
     use crate::ops::math::UnaryPlus;
-- 
2.43.0


From 29efbe7450e0b37748d00031e2716b43f3fb50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 45/58] fix: decimal factorial of values slightly over an
 integer

---
 prexel/src/decimal/decimal_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 2638925..f869e92 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -327,7 +327,8 @@ impl DecimalExt for Decimal {
         let mut result = self;
         let mut n = self - Decimal::one();
 
-        while n > Decimal::zero() {
+        // The remaining fraction is left to `gamma`, which is not defined for 0
+        while n >= Decimal::one() {
             result = result.checked_mul(n)?;
             n -= Decimal::one();
         }
-- 
2.43.0


From b586e5ee1f5d02759a1ccb72a1b83953bd013e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 46/58] fix: powers of -1 with large odd exponents

---
 prexel/src/ops/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 78680a5..7d661d1 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -461,6 +461,12 @@ mod math_ops {
                             return N::from_i128(result).ok_or_else(|| Error::from(ErrorKind::Overflow));
                         }
                     }
+
+                    // Whether a large exponent is odd is lost when converted to `f64`
+                    if let (-1_f64, Some(exp)) = (base, right.to_i128()) {
+                        let result = if exp % 2 == 0 { 1 } else { -1 };
+                        return N::from_i128(result).ok_or_else(|| Error::from(ErrorKind::Overflow));
+                    }
                 }
 
                 N::from_f64(f64::powf(base, exp)).ok_or_else(|| Error::from(ErrorKind::Overflow))
-- 
2.43.0


From 27cfa6cdc5ec245d6e9fc3b4aba467f1ea97aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 47/58] fix: powers of number types that only convert from 64
 bits integers

---
 prexel/src/ops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 7d661d1..89715b0 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -457,8 +457,9 @@ mod math_ops {
                 // `f64` cannot represent all the large integers, so the power of integers is computed exactly
                 if base.fract() == 0_f64 && exp.fract() == 0_f64 {
                     if let (Some(base), Some(exp)) = (left.to_i128(), right.to_u32()) {
-                        if let Some(result) = base.checked_pow(exp) {
-                            return N::from_i128(result).ok_or_else(|| Error::from(ErrorKind::Overflow));
+                        // `from_i128` may not be available for values that do not fit in an `i64`
+                        if let Some(result) = base.checked_pow(exp).and_then(N::from_i128) {
+                            return Ok(result);
                         }
                     }
 
-- 
2.43.0


From defa40a595526334ecef96bc22d18bd4cbd47ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 48/58] fix: wrapper number types keep the 128 bits conversions
 of their field

---
 prexel/src/numeric_traits/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 08858a4..b76c1c9 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -117,6 +117,16 @@ macro_rules! impl_unchecked_num_traits_with_field {
                 self.$field.to_u64()
             }
 
+            #[inline]
+            fn to_i128(&self) -> Option<i128> {
+                self.$field.to_i128()
+            }
+
+            #[inline]
+            fn to_u128(&self) -> Option<u128> {
+                self.$field.to_u128()
+            }
+
             #[inline]
             fn to_f64(&self) -> Option<f64> {
                 self.$field.to_f64()
@@ -134,6 +144,16 @@ macro_rules! impl_unchecked_num_traits_with_field {
                 <$field_type>::from_u64(n).map(|x| Self::from(x))
             }
 
+            #[inline]
+            fn from_i128(n: i128) -> Option<Self> {
+                <$field_type>::from_i128(n).map(|x| Self::from(x))
+            }
+
+            #[inline]
+            fn from_u128(n: u128) -> Option<Self> {
+                <$field_type>::from_u128(n).map(|x| Self::from(x))
+            }
+
             #[inline]
             fn from_f64(n: f64) -> Option<Self> {
                 <$field_type>::from_f64(n).map(|x| Self::from(x))
-- 
2.43.0


From 8d566af5098694024351dfb507f37ede1f398292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 49/58] fix: square root, logarithm and reciprocal hyperbolic
 functions of values close to zero

---
 prexel/src/ops/mod.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 89715b0..0ff3bac 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -13,6 +13,10 @@ macro_rules! forward_func_impl {
         };
 
         ($func_name:ident, $method_name:ident, $name:ident) => {
+            forward_func_impl!($func_name, $method_name, $name, Approx::approx);
+        };
+
+        ($func_name:ident, $method_name:ident, $name:ident, $approx:expr) => {
             impl<N: ToPrimitive + FromPrimitive> Function<N> for $func_name {
                 fn name(&self) -> &str {
                     stringify!($name)
@@ -23,7 +27,7 @@ macro_rules! forward_func_impl {
                         Err(Error::from(ErrorKind::InvalidArgumentCount))
                     } else {
                         let result = try_to_float(&args[0])
-                            .map(|n| n.approx())?
+                            .map(|n| $approx(&n))?
                             .$method_name();
 
                         N::from_f64(result)
@@ -50,8 +54,7 @@ macro_rules! forward_func_inv_impl {
                     if args.len() != 1 {
                         Err(Error::from(ErrorKind::InvalidArgumentCount))
                     } else {
-                        let result = try_to_float(&args[0])
-                            .map(|n| n.approx())?
+                        let result = try_to_float(&args[0])?
                             .$method_name()
                             .inv();
 
@@ -70,6 +73,10 @@ macro_rules! forward_func_impl {
         };
 
         ($func_name:ident, $method_name:ident, $name:ident, $description:expr) => {
+            forward_func_impl!($func_name, $method_name, $name, $description, Approx::approx);
+        };
+
+        ($func_name:ident, $method_name:ident, $name:ident, $description:expr, $approx:expr) => {
             impl<N: ToPrimitive + FromPrimitive> Function<N> for $func_name {
                 fn name(&self) -> &str {
                     stringify!($name)
@@ -80,7 +87,7 @@ macro_rules! forward_func_impl {
                         Err(Error::from(ErrorKind::InvalidArgumentCount))
                     } else {
                         let result = try_to_float(&args[0])
-                            .map(|n| n.approx())?
+                            .map(|n| $approx(&n))?
                             .$method_name();
 
                         N::from_f64(result)
@@ -111,8 +118,7 @@ macro_rules! forward_func_inv_impl {
                     if args.len() != 1 {
                         Err(Error::from(ErrorKind::InvalidArgumentCount))
                     } else {
-                        let result = try_to_float(&args[0])
-                            .map(|n| n.approx())?
+                        let result = try_to_float(&args[0])?
                             .$method_name()
                             .inv();
 
@@ -292,6 +298,19 @@ pub(crate) fn try_to_float<N: num_traits::ToPrimitive>(n: &N) -> crate::Result<f
     }
 }
 
+// Approximates the argument of a function that changes too fast near to zero
+// to take a small positive value as zero.
+#[inline]
+pub(crate) fn approx_not_zero(n: &f64) -> f64 {
+    let r = crate::utils::approx::Approx::approx(n);
+
+    if r == 0.0 && *n > 0.0 {
+        *n
+    } else {
+        r
+    }
+}
+
 /// For reduce errors as: `0.1 + 0.2 ≠ 0.3`.
 impl crate::utils::approx::Approx for f64{
     #[inline]
@@ -326,7 +345,7 @@ mod math_ops {
     use crate::error::*;
     pub use crate::function::{BinaryFunction, Function, UnaryFunction};
     use crate::function::{Associativity, Notation, Precedence};
-    use crate::ops::try_to_float;
+    use crate::ops::{approx_not_zero, try_to_float};
     use crate::utils::gamma::gamma;
     use crate::Result;
     use crate::utils::approx::Approx;
@@ -601,10 +620,10 @@ mod math_ops {
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(SqrtFunction, sqrt);
+    forward_func_impl!(SqrtFunction, sqrt, sqrt, approx_not_zero);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SqrtFunction, sqrt, Description::Sqrt);
+    forward_func_impl!(SqrtFunction, sqrt, sqrt, Description::Sqrt, approx_not_zero);
 
     pub struct ExpFunction;
     #[cfg(not(feature = "docs"))]
@@ -615,10 +634,10 @@ mod math_ops {
 
     pub struct LnFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(LnFunction, ln);
+    forward_func_impl!(LnFunction, ln, ln, approx_not_zero);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(LnFunction, ln, Description::Ln);
+    forward_func_impl!(LnFunction, ln, ln, Description::Ln, approx_not_zero);
 
     pub struct LogFunction;
     impl<N: ToPrimitive + FromPrimitive> Function<N> for LogFunction {
-- 
2.43.0


From a04081216b2fb2a4ea5f537f38b9796c9dcf9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 50/58] fix: exact remainder of decimals of very different
 scales

---
 prexel/src/decimal/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 9601e99..0889fec 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -453,7 +453,27 @@ mod math_ops {
                 return Err(Error::from(ErrorKind::DivisionByZero));
             }
 
-            left.checked_rem(right)
+            // The remainder is not exact when the scale of the divisor is much larger, so takes first
+            // the remainder of multiples of the divisor: `x mod y = (x mod (y * 10^n)) mod y`
+            const MAX_SCALE_STEP: u32 = 9;
+            let mut result = left;
+            let mut scale = left.scale() + MAX_SCALE_STEP;
+
+            while scale < right.scale() {
+                let mut divisor = right;
+                divisor
+                    .set_scale(scale)
+                    .map_err(|_| Error::from(ErrorKind::Overflow))?;
+
+                result = result
+                    .checked_rem(divisor)
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+                scale += MAX_SCALE_STEP;
+            }
+
+            result
+                .checked_rem(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
-- 
2.43.0


From 45a1834f9d83b89459557ab25b41b29e3de9f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 51/58] fix: complex hyperbolic tangent and inverse functions
 of large arguments

---
 prexel/src/complex/mod.rs | 97 +++++++++++++++++++++++++++++++--------
 1 file changed, 77 insertions(+), 20 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 7d2c511..cdb4073 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -304,6 +304,63 @@ pub mod ops {
         };
     }
 
+    // The formulas used by `num_complex` overflow or lose all the digits with large arguments
+    trait StableFunctions {
+        fn stable_tan(&self) -> Self;
+        fn stable_tanh(&self) -> Self;
+        fn stable_asin(&self) -> Self;
+        fn stable_acos(&self) -> Self;
+        fn stable_asinh(&self) -> Self;
+    }
+
+    impl<T: Float> StableFunctions for Complex<T> {
+        fn stable_tan(&self) -> Self {
+            // tan(z) = -i * tanh(iz)
+            let result = Complex::new(T::zero() - self.im, self.re).stable_tanh();
+            Complex::new(result.im, T::zero() - result.re)
+        }
+
+        fn stable_tanh(&self) -> Self {
+            // The difference with 1 is lower than the precision of the float
+            if self.re.abs() > T::max_value().ln() / (T::one() + T::one() + T::one()) {
+                Complex::new(self.re.signum(), T::zero())
+            } else {
+                self.tanh()
+            }
+        }
+
+        fn stable_asin(&self) -> Self {
+            // asin(-z) = -asin(z)
+            if self.im > T::zero() {
+                let result = Complex::asin(&-self);
+                Complex::new(T::zero() - result.re, T::zero() - result.im)
+            } else {
+                self.asin()
+            }
+        }
+
+        fn stable_acos(&self) -> Self {
+            // acos(-z) = PI - acos(z)
+            if self.im < T::zero() {
+                let pi = T::acos(T::zero() - T::one());
+                let result = Complex::acos(&-self);
+                Complex::new(pi - result.re, T::zero() - result.im)
+            } else {
+                self.acos()
+            }
+        }
+
+        fn stable_asinh(&self) -> Self {
+            // asinh(-z) = -asinh(z)
+            if self.re < T::zero() {
+                let result = Complex::asinh(&-self);
+                Complex::new(T::zero() - result.re, T::zero() - result.im)
+            } else {
+                self.asinh()
+            }
+        }
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -338,9 +395,9 @@ pub mod ops {
 
     pub struct TanFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(TanFunction, tan);
+    forward_impl_func!(TanFunction, stable_tan, tan);
     #[cfg(feature = "docs")]
-    forward_impl_func!(TanFunction, tan, Description::Tan);
+    forward_impl_func!(TanFunction, stable_tan, tan, Description::Tan);
 
     pub struct CscFunction;
     #[cfg(not(feature = "docs"))]
@@ -356,23 +413,23 @@ pub mod ops {
 
     pub struct CotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(CotFunction, tan, cot);
+    forward_impl_func_inv!(CotFunction, stable_tan, cot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(CotFunction, tan, cot, Description::Cot);
+    forward_impl_func_inv!(CotFunction, stable_tan, cot, Description::Cot);
 
     //////////////////// Inverse Trigonometric ////////////////////
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(ASinFunction, asin);
+    forward_impl_func!(ASinFunction, stable_asin, asin);
     #[cfg(feature = "docs")]
-    forward_impl_func!(ASinFunction, asin, Description::ASin);
+    forward_impl_func!(ASinFunction, stable_asin, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(ACosFunction, acos);
+    forward_impl_func!(ACosFunction, stable_acos, acos);
     #[cfg(feature = "docs")]
-    forward_impl_func!(ACosFunction, acos, Description::ACos);
+    forward_impl_func!(ACosFunction, stable_acos, acos, Description::ACos);
 
     pub struct ATanFunction;
     #[cfg(not(feature = "docs"))]
@@ -382,15 +439,15 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_inv_func!(ACscFunction, asin, acsc);
+    forward_impl_inv_func!(ACscFunction, stable_asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_inv_func!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_inv_func!(ACscFunction, stable_asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_inv_func!(ASecFunction, acos, asec);
+    forward_impl_inv_func!(ASecFunction, stable_acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_inv_func!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_inv_func!(ASecFunction, stable_acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
@@ -414,9 +471,9 @@ pub mod ops {
 
     pub struct TanhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(TanhFunction, tanh);
+    forward_impl_func!(TanhFunction, stable_tanh, tanh);
     #[cfg(feature = "docs")]
-    forward_impl_func!(TanhFunction, tanh, Description::Tanh);
+    forward_impl_func!(TanhFunction, stable_tanh, tanh, Description::Tanh);
 
     pub struct CschFunction;
     #[cfg(not(feature = "docs"))]
@@ -432,17 +489,17 @@ pub mod ops {
 
     pub struct CothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(CothFunction, tanh, coth);
+    forward_impl_func_inv!(CothFunction, stable_tanh, coth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(CothFunction, tanh, coth, Description::Coth);
+    forward_impl_func_inv!(CothFunction, stable_tanh, coth, Description::Coth);
 
     //////////////////// Hyperbolic Inverse Trigonometric ////////////////////
 
     pub struct ASinhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(ASinhFunction, asinh);
+    forward_impl_func!(ASinhFunction, stable_asinh, asinh);
     #[cfg(feature = "docs")]
-    forward_impl_func!(ASinhFunction, asinh, Description::ASinh);
+    forward_impl_func!(ASinhFunction, stable_asinh, asinh, Description::ASinh);
 
     pub struct ACoshFunction;
     #[cfg(not(feature = "docs"))]
@@ -458,9 +515,9 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_inv_func!(ACschFunction, asinh, acsch);
+    forward_impl_inv_func!(ACschFunction, stable_asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_inv_func!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_inv_func!(ACschFunction, stable_asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From f2202cf9231db712b92943e9ae687d2738d3cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 52/58] fix: a panic or delay evaluating an expression does not
 stop the server worker

---
 prexel-server/src/endpoints/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index 046f4ed..8f3d7e0 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -1,5 +1,6 @@
 use crate::models::{EvaluatedExpression, NumberType};
 use crate::{ApiResponse, services};
+use actix_web::error::BlockingError;
 use actix_web::web::Query;
 use actix_web::{get, post, web, HttpRequest, HttpResponse, Responder, Result};
 use prexel::complex::Complex;
@@ -42,7 +43,14 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
     };
 
     let expression = expr;
-    let eval_result = services::eval_expression(expression);
+
+    // A failure or delay evaluating an expression should not affect the other requests of this worker
+    let eval_result = web::block(move || services::eval_expression(expression))
+        .await
+        .map_err(|err| match err {
+            BlockingError::Error(error) => error,
+            BlockingError::Canceled => "Failed to evaluate the expression".to_string(),
+        });
     let query = Query::<EvalParams>::from_query(req.query_string()).ok();
     let only_result = query.and_then(|q| q.only_result).unwrap_or(false);
 
-- 
2.43.0


From ddb08dd4caec8cb14905994b5bbbbe00580c3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 53/58] fix: a request body with anything after its JSON is
 malformed

---
 prexel-server/src/endpoints/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index 8f3d7e0..dcc0d88 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -28,7 +28,11 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
     };
 
     let deserializer = &mut serde_json::Deserializer::from_str(&body);
-    let expr = match serde_path_to_error::deserialize(deserializer) {
+    let expr = match serde_path_to_error::deserialize(&mut *deserializer) {
+        Ok(_) if deserializer.end().is_err() => {
+            return Ok(HttpResponse::BadRequest()
+                .json(EvaluatedExpression::with_error("Invalid json".to_string())));
+        }
         Ok(expr) => expr,
         Err(err) => {
             let path = err.path().to_string();
-- 
2.43.0


From 1e919cd9edf8fb595ce6b9f4fe894802b41c2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 54/58] fix: the history of the REPL is not allocated in
 advance

---
 eval/src/collections/carray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index f5d7139..3303c16 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -12,7 +12,7 @@ pub struct CircularArray<T> {
 impl<T> CircularArray<T> {
     pub fn new(capacity: usize) -> CircularArray<T> {
         CircularArray {
-            data: Vec::with_capacity(capacity),
+            data: Vec::new(),
             cap: capacity
         }
     }
-- 
2.43.0


From e563f40a39405d863450c74a208d51b478b576b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 55/58] fix: the binary module builds without the docs feature

---
 prexel/src/binary/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index 1205640..33ea51b 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -127,6 +127,7 @@ pub mod math {
             Ok(Binary(!value.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise NOT of the given value.")
         }
@@ -154,6 +155,7 @@ pub mod math {
             Ok(Binary(left.0 & right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise AND of the given values.")
         }
@@ -181,6 +183,7 @@ pub mod math {
             Ok(Binary(left.0 | right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise OR of the given values.")
         }
@@ -208,6 +211,7 @@ pub mod math {
             Ok(Binary(left.0 ^ right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise XOR of the given values.")
         }
@@ -236,6 +240,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are equal, 0 otherwise.")
         }
@@ -264,6 +269,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are not equal, 0 otherwise.")
         }
@@ -292,6 +298,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than the right value, 0 otherwise.")
         }
@@ -320,6 +327,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than the right value, 0 otherwise.")
         }
@@ -348,6 +356,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than or equal to the right value, 0 otherwise.")
         }
@@ -376,6 +385,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than or equal to the right value, 0 otherwise.")
         }
@@ -408,6 +418,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted right by the right value.")
         }
@@ -440,6 +451,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted left by the right value.")
         }
-- 
2.43.0


From 196918d3bc358850becea1a8d1a2d08c8457a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:45 +0000
Subject: [PATCH 56/58] fix: the complex logarithm of a negative base is not
 NaN

---
 prexel/src/complex/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index cdb4073..4afacdb 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -79,6 +79,12 @@ pub mod ops {
                 },
                 2 => match args[1].im {
                     n if n.is_zero() => {
+                        // The logarithm of a negative base is not real
+                        if args[1].re < T::zero() {
+                            let base = Complex::new(args[1].re, T::zero());
+                            return Ok(args[0].ln() / base.ln());
+                        }
+
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From 7c6c9f898bf2bcca1165988c020e355c7b4c28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:38 +0000
Subject: [PATCH 57/58] fix: the complex division and reciprocals of large or
 small values

---
 prexel/src/complex/mod.rs | 67 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 4afacdb..a5ddd11 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -42,6 +42,63 @@ pub mod ops {
         }
     }
 
+    // The square of the modulus used by the division of `num_complex` overflows or underflows
+    // with large or small values
+    trait StableDivision {
+        fn stable_div(&self, other: &Self) -> Self;
+        fn stable_inv(&self) -> Self;
+    }
+
+    /// Gets the power of 2 next to the larger part of the number, dividing by it doesn't round.
+    fn scale_of<T: Float>(value: &Complex<T>) -> T {
+        let scale = value.re.abs().max(value.im.abs()).log2().floor().exp2();
+        if scale > T::zero() && scale.is_finite() {
+            scale
+        } else {
+            T::one()
+        }
+    }
+
+    impl<T: Float> StableDivision for Complex<T> {
+        fn stable_div(&self, other: &Self) -> Self {
+            let scale = scale_of(other);
+            self.unscale(scale) / other.unscale(scale)
+        }
+
+        fn stable_inv(&self) -> Self {
+            let scale = scale_of(self);
+            self.unscale(scale).inv().unscale(scale)
+        }
+    }
+
+    pub struct DivOperator;
+    impl<T> BinaryFunction<Complex<T>> for DivOperator where T: Float{
+        fn name(&self) -> &str {
+            "/"
+        }
+
+        fn precedence(&self) -> Precedence {
+            Precedence::MEDIUM
+        }
+
+        fn associativity(&self) -> Associativity {
+            Associativity::Left
+        }
+
+        fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
+            Ok(left.stable_div(&right))
+        }
+
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::Div.into())
+        }
+    }
+
     pub struct UnaryMinus;
     impl<T> UnaryFunction<Complex<T>> for UnaryMinus where T: Float{
         fn name(&self) -> &str {
@@ -210,7 +267,7 @@ pub mod ops {
 
                 fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name().inv()),
+                        1 => Ok(args[0].$method_name().stable_inv()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -228,7 +285,7 @@ pub mod ops {
 
                 fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
                     match args.len() {
-                        1 => Ok(args[0].inv().$method_name()),
+                        1 => Ok(args[0].stable_inv().$method_name()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -276,7 +333,7 @@ pub mod ops {
 
                 fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name().inv()),
+                        1 => Ok(args[0].$method_name().stable_inv()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -298,7 +355,7 @@ pub mod ops {
 
                 fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
                     match args.len() {
-                        1 => Ok(args[0].inv().$method_name()),
+                        1 => Ok(args[0].stable_inv().$method_name()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -542,7 +599,7 @@ pub mod context {
     use num_complex::Complex;
     use num_traits::{FromPrimitive, Float};
 
-    use crate::complex::ops::{PowOperator, UnaryMinus};
+    use crate::complex::ops::{DivOperator, PowOperator, UnaryMinus};
     use crate::context::{Config, Context, DefaultContext};
     use crate::ops::unchecked::*;
     use crate::ops::math::UnaryPlus;
-- 
2.43.0


From 9770ec8e5884599caddacd1301bf80fbd6658885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:42 +0000
Subject: [PATCH 58/58] fix: the complex inverse functions of values whose
 square overflows

---
 prexel/src/complex/mod.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index a5ddd11..bd0392e 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -2,7 +2,7 @@ pub type Complex<T> = num_complex::Complex<T>;
 
 pub mod ops {
     use num_complex::Complex;
-    use num_traits::{Float, FromPrimitive, Zero};
+    use num_traits::{Float, FromPrimitive, One, Zero};
     use rand::random;
     use std::fmt::{Display, Debug};
 
@@ -394,32 +394,38 @@ pub mod ops {
 
         fn stable_asin(&self) -> Self {
             // asin(-z) = -asin(z)
-            if self.im > T::zero() {
-                let result = Complex::asin(&-self);
+            if self.im > T::zero() || (self.im.is_zero() && self.re < -T::one()) {
+                let result = (-self).stable_asin();
                 Complex::new(T::zero() - result.re, T::zero() - result.im)
             } else {
-                self.asin()
+                // asin(z) = -i * ln(iz + sqrt(1 - z) * sqrt(1 + z))
+                let (i, one) = (Self::i(), Self::one());
+                -i * ((one - self).sqrt() * (one + self).sqrt() + i * self).ln()
             }
         }
 
         fn stable_acos(&self) -> Self {
             // acos(-z) = PI - acos(z)
-            if self.im < T::zero() {
+            if self.im < T::zero() || (self.im.is_zero() && self.re > T::one()) {
                 let pi = T::acos(T::zero() - T::one());
-                let result = Complex::acos(&-self);
+                let result = (-self).stable_acos();
                 Complex::new(pi - result.re, T::zero() - result.im)
             } else {
-                self.acos()
+                // acos(z) = -i * ln(z + i * sqrt(1 - z) * sqrt(1 + z))
+                let (i, one) = (Self::i(), Self::one());
+                -i * (i * ((one - self).sqrt() * (one + self).sqrt()) + self).ln()
             }
         }
 
         fn stable_asinh(&self) -> Self {
             // asinh(-z) = -asinh(z)
-            if self.re < T::zero() {
-                let result = Complex::asinh(&-self);
+            if self.re < T::zero() || (self.re.is_zero() && self.im < -T::one()) {
+                let result = (-self).stable_asinh();
                 Complex::new(T::zero() - result.re, T::zero() - result.im)
             } else {
-                self.asinh()
+                // asinh(z) = ln(z + sqrt(1 + iz) * sqrt(1 - iz))
+                let (i, one) = (Self::i(), Self::one());
+                (self + (one + i * self).sqrt() * (one - i * self).sqrt()).ln()
             }
         }
     }
-- 
2.43.0

