From 53734f2ca458c824b0caa1447913e3b9e18b7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 01/54] fix: number conversions and arithmetic at the integer
 boundaries

Integral floats outside of the integer range were saturated to i64::MAX or
i64::MIN, integer arithmetic overflowed, panicked or lost precision when
mixing signs, and negating 0 or i64::MIN broke the number representation.
---
 crates/hcl-primitives/src/number.rs | 117 ++++++++++++++++++----------
 1 file changed, 78 insertions(+), 39 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 93b1372..80b6a89 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -8,21 +8,24 @@ use core::ops::{Add, Div, Mul, Neg, Rem, Sub};
 use serde::de::Unexpected;
 
 enum CoerceResult {
-    PosInt(u64, u64),
-    NegInt(i64, i64),
+    Int(i128, i128),
     Float(f64, f64),
 }
 
 // Coerce two numbers to a common type suitable for binary operations.
+//
+// Integers are widened so that operations on them can neither lose precision nor overflow.
 fn coerce(a: N, b: N) -> CoerceResult {
-    match (a, b) {
-        (N::PosInt(a), N::PosInt(b)) => CoerceResult::PosInt(a, b),
-        (N::NegInt(a), N::NegInt(b)) => CoerceResult::NegInt(a, b),
-        (N::Float(a), N::Float(b)) => CoerceResult::Float(a, b),
-        (a, b) => CoerceResult::Float(a.to_f64(), b.to_f64()),
+    match (a.as_i128(), b.as_i128()) {
+        (Some(a), Some(b)) => CoerceResult::Int(a, b),
+        _ => CoerceResult::Float(a.to_f64(), b.to_f64()),
     }
 }
 
+// The smallest floats that do not fit into `i64` and `u64` anymore.
+const TWO_POW_63: f64 = 9_223_372_036_854_775_808.0;
+const TWO_POW_64: f64 = 18_446_744_073_709_551_616.0;
+
 /// Represents an HCL number.
 #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd)]
 pub struct Number {
@@ -47,17 +50,49 @@ impl N {
 
         // `core::f64` does not have the `fract()` method.
         #[cfg(not(feature = "std"))]
-        #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
-        let no_fraction = value - (value as i64 as f64) == 0.0;
-
-        if no_fraction {
-            #[allow(clippy::cast_possible_truncation)]
+        #[allow(
+            clippy::cast_possible_truncation,
+            clippy::cast_precision_loss,
+            clippy::cast_sign_loss
+        )]
+        let no_fraction =
+            value - (value as i64 as f64) == 0.0 || value - (value as u64 as f64) == 0.0;
+
+        // Only floats which are representable as `i64` or `u64` can be converted without changing
+        // their value.
+        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+        if no_fraction && value >= -TWO_POW_63 && value < TWO_POW_63 {
             N::from(value as i64)
+        } else if no_fraction && value >= TWO_POW_63 && value < TWO_POW_64 {
+            N::PosInt(value as u64)
         } else {
             N::Float(value)
         }
     }
 
+    // Creates an integer if `exact` is representable as one and falls back to `float` otherwise.
+    fn from_exact(exact: Option<i128>, float: f64) -> N {
+        exact
+            .and_then(N::from_i128)
+            .unwrap_or_else(|| N::from_finite_f64(float))
+    }
+
+    fn from_i128(value: i128) -> Option<N> {
+        match (u64::try_from(value), i64::try_from(value)) {
+            (Ok(value), _) => Some(N::PosInt(value)),
+            (_, Ok(value)) => Some(N::NegInt(value)),
+            _ => None,
+        }
+    }
+
+    fn as_i128(&self) -> Option<i128> {
+        match *self {
+            N::PosInt(n) => Some(i128::from(n)),
+            N::NegInt(n) => Some(i128::from(n)),
+            N::Float(_) => None,
+        }
+    }
+
     fn as_i64(&self) -> Option<i64> {
         match *self {
             N::PosInt(n) => i64::try_from(n).ok(),
@@ -107,10 +142,12 @@ impl N {
 
 impl PartialEq for N {
     fn eq(&self, other: &Self) -> bool {
-        match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a == b,
-            CoerceResult::NegInt(a, b) => a == b,
-            CoerceResult::Float(a, b) => a == b,
+        match (*self, *other) {
+            (N::PosInt(a), N::PosInt(b)) => a == b,
+            (N::NegInt(a), N::NegInt(b)) => a == b,
+            (N::Float(a), N::Float(b)) => a == b,
+            // The value of a float is never representable as integer.
+            _ => false,
         }
     }
 }
@@ -121,8 +158,13 @@ impl Eq for N {}
 impl PartialOrd for N {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a.partial_cmp(&b),
-            CoerceResult::NegInt(a, b) => a.partial_cmp(&b),
+            CoerceResult::Int(a, b) => a.partial_cmp(&b),
+            // The conversion of an integer may round it to the value of the float, which can only
+            // happen to floats beyond the integer range.
+            CoerceResult::Float(a, b) if a == b && self != other => match self {
+                N::Float(a) => a.partial_cmp(&0.0),
+                _ => 0.0.partial_cmp(&b),
+            },
             CoerceResult::Float(a, b) => a.partial_cmp(&b),
         }
     }
@@ -165,12 +207,7 @@ impl Neg for N {
     type Output = N;
 
     fn neg(self) -> Self::Output {
-        match self {
-            #[allow(clippy::cast_possible_wrap)]
-            N::PosInt(value) => N::NegInt(-(value as i64)),
-            N::NegInt(value) => N::from(-value),
-            N::Float(value) => N::Float(-value),
-        }
+        N::from_exact(self.as_i128().map(Neg::neg), -self.to_f64())
     }
 }
 
@@ -179,8 +216,9 @@ impl Add for N {
 
     fn add(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a + b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a + b),
+            CoerceResult::Int(a, b) => {
+                N::from_exact(a.checked_add(b), self.to_f64() + rhs.to_f64())
+            }
             CoerceResult::Float(a, b) => N::from_finite_f64(a + b),
         }
     }
@@ -191,15 +229,9 @@ impl Sub for N {
 
     fn sub(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => {
-                if b > a {
-                    #[allow(clippy::cast_possible_wrap)]
-                    N::NegInt(a as i64 - b as i64)
-                } else {
-                    N::PosInt(a - b)
-                }
+            CoerceResult::Int(a, b) => {
+                N::from_exact(a.checked_sub(b), self.to_f64() - rhs.to_f64())
             }
-            CoerceResult::NegInt(a, b) => N::from(a - b),
             CoerceResult::Float(a, b) => N::from_finite_f64(a - b),
         }
     }
@@ -210,8 +242,9 @@ impl Mul for N {
 
     fn mul(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a * b),
-            CoerceResult::NegInt(a, b) => N::from(a * b),
+            CoerceResult::Int(a, b) => {
+                N::from_exact(a.checked_mul(b), self.to_f64() * rhs.to_f64())
+            }
             CoerceResult::Float(a, b) => N::from_finite_f64(a * b),
         }
     }
@@ -221,7 +254,12 @@ impl Div for N {
     type Output = N;
 
     fn div(self, rhs: Self) -> Self::Output {
-        N::from_finite_f64(self.to_f64() / rhs.to_f64())
+        match coerce(self, rhs) {
+            CoerceResult::Int(a, b) if a.checked_rem(b) == Some(0) => {
+                N::from_exact(a.checked_div(b), self.to_f64() / rhs.to_f64())
+            }
+            _ => N::from_finite_f64(self.to_f64() / rhs.to_f64()),
+        }
     }
 }
 
@@ -230,8 +268,9 @@ impl Rem for N {
 
     fn rem(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a % b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a % b),
+            CoerceResult::Int(a, b) => {
+                N::from_exact(a.checked_rem(b), self.to_f64() % rhs.to_f64())
+            }
             CoerceResult::Float(a, b) => N::from_finite_f64(a % b),
         }
     }
-- 
2.43.0


From fc49986e1de8c6dcd5f765087d1cecbb6f6e1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 02/54] fix: evaluation of arithmetic without finite result
 reports an error

A division by zero or an overflowing operation panicked or produced a
non-finite number.
---
 crates/hcl-rs/src/eval/expr.rs  | 20 ++++++++++++++++++++
 crates/hcl-rs/src/eval/impls.rs |  5 +++++
 2 files changed, 25 insertions(+)

diff --git a/crates/hcl-rs/src/eval/expr.rs b/crates/hcl-rs/src/eval/expr.rs
index ff18d5e..7d44269 100644
--- a/crates/hcl-rs/src/eval/expr.rs
+++ b/crates/hcl-rs/src/eval/expr.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::Number;
 use std::collections::VecDeque;
 
 pub(super) fn evaluate_bool(expr: &Expression, ctx: &Context) -> EvalResult<bool> {
@@ -20,6 +21,25 @@ pub(super) fn evaluate_object_key(expr: &Expression, ctx: &Context) -> EvalResul
     }
 }
 
+// Arithmetic operations that do not have a finite result, e.g. a division by zero, are not defined
+// because numbers are always finite.
+pub(super) fn is_defined_operation(lhs: Number, operator: BinaryOperator, rhs: Number) -> bool {
+    let (Some(lhs), Some(rhs)) = (lhs.as_f64(), rhs.as_f64()) else {
+        return false;
+    };
+
+    let result = match operator {
+        BinaryOperator::Plus => lhs + rhs,
+        BinaryOperator::Minus => lhs - rhs,
+        BinaryOperator::Mul => lhs * rhs,
+        BinaryOperator::Div => lhs / rhs,
+        BinaryOperator::Mod => lhs % rhs,
+        _ => return true,
+    };
+
+    result.is_finite()
+}
+
 pub(super) fn evaluate_array(expr: &Expression, ctx: &Context) -> EvalResult<Vec<Value>> {
     match expr.evaluate(ctx)? {
         Value::Array(array) => Ok(array),
diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index f318e1c..600d5f3 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -418,6 +418,11 @@ impl Evaluate for BinaryOp {
             (Number(lhs), GreaterEq, Number(rhs)) => Bool(lhs >= rhs),
             (Number(lhs), Less, Number(rhs)) => Bool(lhs < rhs),
             (Number(lhs), Greater, Number(rhs)) => Bool(lhs > rhs),
+            (Number(lhs), operator @ (Plus | Minus | Mul | Div | Mod), Number(rhs))
+                if !expr::is_defined_operation(lhs, operator, rhs) =>
+            {
+                return Err(ctx.error(ErrorKind::BinaryOp(Number(lhs), operator, Number(rhs))))
+            }
             (Number(lhs), Plus, Number(rhs)) => Number(lhs + rhs),
             (Number(lhs), Minus, Number(rhs)) => Number(lhs - rhs),
             (Number(lhs), Mul, Number(rhs)) => Number(lhs * rhs),
-- 
2.43.0


From ad5893c630dc7be67a225bca05762f3a1fc290fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 03/54] fix: escape and unescape every template marker

Markers directly following another dollar or percent sign, e.g. the second
one in `a%${b`, were skipped.
---
 crates/hcl-primitives/src/template.rs | 41 +++++++--------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/crates/hcl-primitives/src/template.rs b/crates/hcl-primitives/src/template.rs
index 9302ce4..cdbdea9 100644
--- a/crates/hcl-primitives/src/template.rs
+++ b/crates/hcl-primitives/src/template.rs
@@ -109,25 +109,14 @@ pub fn escape_markers(literal: &str) -> Cow<'_, str> {
 
 fn escape_markers_owned(literal: &str, idx: usize) -> String {
     let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let mut chars = rest.chars().peekable();
 
     while let Some(ch) = chars.next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match chars.next() {
-            Some(ch2) => {
-                if ch2 == '{' {
-                    // Escape the start marker by doubling `ch`.
-                    buf.push(ch);
-                }
-
-                buf.push(ch2);
-            }
-            None => break,
+        if (ch == '$' || ch == '%') && chars.peek() == Some(&'{') {
+            // Escape the start marker by doubling `ch`.
+            buf.push(ch);
         }
     }
 
@@ -169,25 +158,15 @@ fn unescape_markers_owned(literal: &str, idx: usize) -> String {
     while let Some(ch) = chars.next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
+        let mut lookahead = chars.clone();
 
-        match (chars.next(), chars.next()) {
-            (Some(ch2), Some('{')) if ch2 == ch => {
-                // Unescape by not pushing `ch2` to the output buffer.
-                buf.push('{');
-            }
-            (Some(ch2), ch3) => {
-                buf.push(ch2);
-
-                if let Some(ch) = ch3 {
-                    buf.push(ch);
-                }
-            }
-            (_, _) => break,
+        if (ch == '$' || ch == '%') && lookahead.next() == Some(ch) && lookahead.next() == Some('{')
+        {
+            // Unescape by not pushing the second `ch` to the output buffer.
+            chars.next();
         }
     }
+
     buf
 }
 
-- 
2.43.0


From 4a44ae25f08c7d1141f1a11cb261dc0db7f0335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 04/54] fix: do not drop operands of chained comparison
 operators

Comparison and equality operators were declared non-associative, which makes
the precedence resolution silently stop at the second one.
---
 crates/hcl-edit/src/parser/pratt.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/crates/hcl-edit/src/parser/pratt.rs b/crates/hcl-edit/src/parser/pratt.rs
index c96e841..1861027 100644
--- a/crates/hcl-edit/src/parser/pratt.rs
+++ b/crates/hcl-edit/src/parser/pratt.rs
@@ -32,23 +32,8 @@ where
         match token {
             BinaryOpToken::Operator(operator) => {
                 let precedence = u32::from(operator.precedence());
-                let associativity = match **operator {
-                    BinaryOperator::Eq
-                    | BinaryOperator::NotEq
-                    | BinaryOperator::LessEq
-                    | BinaryOperator::GreaterEq
-                    | BinaryOperator::Less
-                    | BinaryOperator::Greater => Associativity::Neither,
-                    BinaryOperator::Plus
-                    | BinaryOperator::Minus
-                    | BinaryOperator::Mul
-                    | BinaryOperator::Div
-                    | BinaryOperator::Mod
-                    | BinaryOperator::And
-                    | BinaryOperator::Or => Associativity::Left,
-                };
-
-                Ok(Affix::Infix(Precedence(precedence), associativity))
+                // All binary operators associate to the left.
+                Ok(Affix::Infix(Precedence(precedence), Associativity::Left))
             }
             BinaryOpToken::Expression(_) => Ok(Affix::Nilfix),
         }
-- 
2.43.0


From 4cf50030ce30f3260f5bffedc4c94ce392cd0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 05/54] fix: visit the collection expression of template for
 directives

---
 crates/hcl-edit/src/visit.rs     | 1 +
 crates/hcl-edit/src/visit_mut.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/hcl-edit/src/visit.rs b/crates/hcl-edit/src/visit.rs
index 12bd95b..9b1a8d7 100644
--- a/crates/hcl-edit/src/visit.rs
+++ b/crates/hcl-edit/src/visit.rs
@@ -479,5 +479,6 @@ where
         v.visit_ident(key_var);
     }
     v.visit_ident(&node.value_var);
+    v.visit_expr(&node.collection_expr);
     v.visit_template(&node.template);
 }
diff --git a/crates/hcl-edit/src/visit_mut.rs b/crates/hcl-edit/src/visit_mut.rs
index ab7a249..02b57bd 100644
--- a/crates/hcl-edit/src/visit_mut.rs
+++ b/crates/hcl-edit/src/visit_mut.rs
@@ -495,5 +495,6 @@ where
         v.visit_ident_mut(key_var);
     }
     v.visit_ident_mut(&mut node.value_var);
+    v.visit_expr_mut(&mut node.collection_expr);
     v.visit_template_mut(&mut node.template);
 }
-- 
2.43.0


From 9219ed6fa862b2fe9c1b5adbee9e3d766fbd16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 06/54] fix: keep escaping literals after a nested template

---
 crates/hcl-edit/src/encode/mod.rs      | 19 +++++++++++++++++--
 crates/hcl-edit/src/encode/template.rs |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 28c0779..c6153ad 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -33,9 +33,24 @@ impl<'a> EncodeState<'a> {
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.escape = true;
+        self.with_escape(true, f)
+    }
+
+    pub fn unescaped<F>(&mut self, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        self.with_escape(false, f)
+    }
+
+    // Templates may be nested, so the surrounding state needs to be restored.
+    fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        let prev = std::mem::replace(&mut self.escape, escape);
         let result = f(self);
-        self.escape = false;
+        self.escape = prev;
         result
     }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index fc87d25..5970ed6 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -46,7 +46,7 @@ impl Encode for HeredocTemplate {
                 let indented = indent_by(&indent_buf, n, false);
                 buf.write_str(&indented)?;
             }
-            None => self.template.encode(buf)?,
+            None => buf.unescaped(|buf| self.template.encode(buf))?,
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 80762b84d3b04a9a6f317671a8bbf353d02850b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 07/54] fix: parse escape sequences within the directives of
 quoted templates

The literals nested in directives were read verbatim although they are part of
a quoted string.
---
 crates/hcl-edit/src/parser/template.rs | 35 +++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 93d1572..32710ef 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -22,15 +22,24 @@ use winnow::token::one_of;
 use hcl_primitives::ident::is_id_continue;
 
 pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate> {
-    delimited('"', elements(build_string(quoted_string_fragment)), '"')
+    delimited('"', quoted_elements, '"')
         .output_into()
         .parse_next(input)
 }
 
+// The templates nested within the directives of a quoted template are quoted as well.
+fn quoted_elements(input: &mut Input) -> ModalResult<Vec<Element>> {
+    elements(build_string(quoted_string_fragment), quoted_template).parse_next(input)
+}
+
+fn quoted_template(input: &mut Input) -> ModalResult<Template> {
+    quoted_elements.output_into().parse_next(input)
+}
+
 pub(super) fn template(input: &mut Input) -> ModalResult<Template> {
     let literal_end = alt(("${", "%{"));
     let literal = template_literal(literal_end);
-    elements(literal).output_into().parse_next(input)
+    elements(literal, template).output_into().parse_next(input)
 }
 
 pub(super) fn heredoc_template<'a>(
@@ -52,7 +61,7 @@ pub(super) fn heredoc_template<'a>(
         let literal = template_literal(literal_end);
 
         // Use `opt` to handle an empty template.
-        opt((elements(literal), line_ending.with_span()).map(
+        opt((elements(literal, template), line_ending.with_span()).map(
             |(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
@@ -84,10 +93,18 @@ where
     build_string(template_string_fragment(literal_end))
 }
 
-fn elements<'a, P>(literal: P) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
+// Parser for the templates nested within directives.
+type NestedTemplateParser = fn(&mut Input) -> ModalResult<Template>;
+
+fn elements<'a, P>(
+    literal: P,
+    template: NestedTemplateParser,
+) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
 where
     P: ModalParser<Input<'a>, Cow<'a, str>, ContextError>,
 {
+    let directive = move |input: &mut Input<'a>| directive(input, template);
+
     repeat(
         0..,
         spanned(alt((
@@ -108,15 +125,15 @@ fn interpolation(input: &mut Input) -> ModalResult<Interpolation> {
         .parse_next(input)
 }
 
-fn directive(input: &mut Input) -> ModalResult<Directive> {
+fn directive(input: &mut Input, template: NestedTemplateParser) -> ModalResult<Directive> {
     alt((
-        if_directive.map(Directive::If),
-        for_directive.map(Directive::For),
+        (|input: &mut _| if_directive(input, template)).map(Directive::If),
+        (|input: &mut _| for_directive(input, template)).map(Directive::For),
     ))
     .parse_next(input)
 }
 
-fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
+fn if_directive(input: &mut Input, template: NestedTemplateParser) -> ModalResult<IfDirective> {
     let if_expr = (
         control(
             "%{",
@@ -160,7 +177,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
         .parse_next(input)
 }
 
-fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
+fn for_directive(input: &mut Input, template: NestedTemplateParser) -> ModalResult<ForDirective> {
     let for_expr = (
         control(
             "%{",
-- 
2.43.0


From 93e9f29b00101b4dedc7e630fe5b326b3a8ce5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 08/54] fix: dedent flush heredocs consistently

A line without indentation did not prevent other lines from being stripped,
which removed non-whitespace characters. Lines within template directives were
not considered, and encoding added indentation within interpolations.
---
 crates/hcl-edit/src/encode/template.rs |   9 +-
 crates/hcl-edit/src/parser/expr.rs     |   4 +
 crates/hcl-edit/src/template/mod.rs    | 123 ++++++++++++++++++++-----
 crates/hcl-edit/src/util.rs            |  74 +++++----------
 4 files changed, 134 insertions(+), 76 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 5970ed6..b57dc80 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -7,7 +7,6 @@ use crate::template::{
     ForTemplateExpr, HeredocTemplate, IfDirective, IfTemplateExpr, Interpolation, StringTemplate,
     Strip, Template,
 };
-use crate::util::indent_by;
 use hcl_primitives::template::escape_markers;
 use std::fmt::{self, Write};
 
@@ -40,11 +39,9 @@ impl Encode for HeredocTemplate {
 
         match self.indent() {
             Some(n) => {
-                let mut indent_buf = String::new();
-                let mut indent_state = EncodeState::new(&mut indent_buf);
-                self.template.encode(&mut indent_state)?;
-                let indented = indent_by(&indent_buf, n, false);
-                buf.write_str(&indented)?;
+                let mut template = self.template.clone();
+                template.indent_by(n, &mut true);
+                buf.unescaped(|buf| template.encode(buf))?;
             }
             None => buf.unescaped(|buf| self.template.encode(buf))?,
         }
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 77ea970..5a1343d 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -690,6 +690,10 @@ fn heredoc<'i>(
 
         if indented {
             heredoc.dedent();
+
+            if heredoc.indent().is_none() {
+                heredoc.set_indent(0);
+            }
         }
 
         heredoc.set_trailing(trailing);
diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 5c68527..9b75fab 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -5,7 +5,7 @@ mod tests;
 
 use crate::encode::{Encode, EncodeState};
 use crate::expr::Expression;
-use crate::util::{dedent_by, min_leading_whitespace};
+use crate::util::{dedent_by, indent_by, min_leading_whitespace};
 use crate::{parser, Decor, Decorate, Decorated, Ident, RawString, Spanned};
 use std::fmt;
 use std::ops::{Deref, DerefMut, Range};
@@ -402,40 +402,103 @@ impl Template {
     /// Dedents string literals in the template, returning the maximum indent that was stripped,
     /// if any.
     pub(crate) fn dedent(&mut self) -> Option<usize> {
-        let mut indent: Option<usize> = None;
-        let mut skip_first_line = false;
+        let indent = self.min_indent(&mut true).filter(|indent| *indent > 0)?;
+        self.dedent_by(indent, &mut true);
+        Some(indent)
+    }
+
+    /// Finds the minimum indent of all lines in the template and its nested templates.
+    fn min_indent(&self, line_start: &mut bool) -> Option<usize> {
+        let mut indents = Vec::new();
 
         for element in &self.elements {
-            if let Element::Literal(literal) = element {
-                if let Some(leading_ws) = min_leading_whitespace(literal, skip_first_line) {
-                    indent = Some(indent.map_or(leading_ws, |indent| indent.min(leading_ws)));
+            match element {
+                Element::Literal(literal) => {
+                    indents.extend(min_leading_whitespace(literal, !*line_start));
+                    *line_start = is_line_start_after(literal, *line_start);
+                }
+                Element::Interpolation(_) => {
+                    // Directive or interpolation at line start always mean that no indent can be
+                    // stripped.
+                    indents.extend(line_start.then_some(0));
+                    *line_start = false;
+                }
+                Element::Directive(directive) => {
+                    indents.extend(line_start.then_some(0));
+
+                    for template in directive.templates() {
+                        *line_start = false;
+                        indents.extend(template.min_indent(line_start));
+                        indents.extend(line_start.then_some(0));
+                    }
+
+                    *line_start = false;
                 }
-                skip_first_line = !literal.ends_with('\n');
-            } else if !skip_first_line {
-                // Directive or interpolation at line start always mean that no indent can be
-                // stripped.
-                return None;
             }
         }
 
-        if let Some(indent) = indent {
-            skip_first_line = false;
+        indents.into_iter().min()
+    }
 
-            for element in &mut self.elements {
-                if let Element::Literal(literal) = element {
-                    let dedented = dedent_by(literal, indent, skip_first_line);
-                    *literal.as_mut() = dedented.into_owned();
-                    skip_first_line = !literal.ends_with('\n');
-                } else if !skip_first_line {
-                    skip_first_line = true;
+    fn dedent_by(&mut self, n: usize, line_start: &mut bool) {
+        for element in &mut self.elements {
+            match element {
+                Element::Literal(literal) => {
+                    let dedented = dedent_by(literal, n, !*line_start).into_owned();
+                    *line_start = is_line_start_after(literal, *line_start);
+                    *literal.as_mut() = dedented;
+                }
+                Element::Interpolation(_) => *line_start = false,
+                Element::Directive(directive) => {
+                    for template in directive.templates_mut() {
+                        *line_start = false;
+                        template.dedent_by(n, line_start);
+                    }
+
+                    *line_start = false;
                 }
             }
         }
+    }
 
-        indent
+    /// Indents the lines of the template and its nested templates, which is the inverse of
+    /// dedenting.
+    pub(crate) fn indent_by(&mut self, n: usize, line_start: &mut bool) {
+        for mut element in std::mem::take(&mut self.elements) {
+            if *line_start && !matches!(element, Element::Literal(_)) {
+                self.push(" ".repeat(n));
+            }
+
+            match &mut element {
+                Element::Literal(literal) => {
+                    let indented = indent_by(literal, n, !*line_start);
+                    *line_start = is_line_start_after(literal, *line_start);
+                    *literal.as_mut() = indented;
+                }
+                Element::Interpolation(_) => *line_start = false,
+                Element::Directive(directive) => {
+                    for template in directive.templates_mut() {
+                        *line_start = false;
+                        template.indent_by(n, line_start);
+
+                        if *line_start {
+                            template.push(" ".repeat(n));
+                        }
+                    }
+
+                    *line_start = false;
+                }
+            }
+
+            self.elements.push(element);
+        }
     }
 }
 
+fn is_line_start_after(literal: &str, line_start: bool) -> bool {
+    literal.ends_with('\n') || (literal.is_empty() && line_start)
+}
+
 impl PartialEq for Template {
     fn eq(&self, other: &Self) -> bool {
         self.elements == other.elements
@@ -678,6 +741,24 @@ pub enum Directive {
 }
 
 impl Directive {
+    fn templates(&self) -> Vec<&Template> {
+        match self {
+            Directive::If(dir) => std::iter::once(&dir.if_expr.template)
+                .chain(dir.else_expr.as_ref().map(|expr| &expr.template))
+                .collect(),
+            Directive::For(dir) => vec![&dir.for_expr.template],
+        }
+    }
+
+    fn templates_mut(&mut self) -> Vec<&mut Template> {
+        match self {
+            Directive::If(dir) => std::iter::once(&mut dir.if_expr.template)
+                .chain(dir.else_expr.as_mut().map(|expr| &mut expr.template))
+                .collect(),
+            Directive::For(dir) => vec![&mut dir.for_expr.template],
+        }
+    }
+
     pub(crate) fn despan(&mut self, input: &str) {
         match self {
             Directive::If(dir) => dir.despan(input),
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index 8950b9c..de8aabe 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -1,21 +1,23 @@
 use std::borrow::Cow;
 
+// Iterates over the lines of `s` including their line endings.
+fn lines(s: &str) -> impl Iterator<Item = (usize, &str)> {
+    s.split_inclusive('\n').enumerate()
+}
+
+fn is_empty_line(line: &str) -> bool {
+    matches!(line, "" | "\n" | "\r\n")
+}
+
 pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool) -> Cow<'_, str> {
     let mut dedented = String::with_capacity(s.len());
 
-    for (i, line) in s.lines().enumerate() {
-        if i == 0 && skip_first {
+    for (i, line) in lines(s) {
+        if (i == 0 && skip_first) || is_empty_line(line) {
             dedented.push_str(line);
-        } else if !line.is_empty() {
+        } else {
             dedented.extend(line.chars().skip(n));
         }
-
-        dedented.push('\n');
-    }
-
-    if dedented.ends_with('\n') && !s.ends_with('\n') {
-        let new_len = dedented.len() - 1;
-        dedented.truncate(new_len);
     }
 
     dedented.shrink_to_fit();
@@ -23,34 +25,18 @@ pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool) -> Cow<'_, str> {
     Cow::Owned(dedented)
 }
 
+// Finds the minimum number of units of whitespace that can be be stripped off of each non-empty
+// line.
 pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize> {
-    if s.is_empty() {
-        return None;
-    }
-
-    let mut leading_ws: Option<usize> = None;
-
-    // Find the minimum number of possible leading units of whitespace that can be be stripped off
-    // of each non-empty line.
-    for (i, line) in s.lines().enumerate() {
-        if (i == 0 && skip_first) || line.is_empty() {
-            continue;
-        }
-
-        let line_leading_ws = line.chars().take_while(|ch| ch.is_whitespace()).count();
-
-        if line_leading_ws == 0 {
-            // Fast path: no dedent needed if we encounter a non-empty line which starts with a
-            // non-whitespace character.
-            return None;
-        }
-
-        leading_ws = Some(leading_ws.map_or(line_leading_ws, |leading_ws| {
-            leading_ws.min(line_leading_ws)
-        }));
-    }
-
-    leading_ws
+    lines(s)
+        .filter(|(i, line)| !((*i == 0 && skip_first) || is_empty_line(line)))
+        .map(|(_, line)| {
+            line.trim_end_matches(['\r', '\n'])
+                .chars()
+                .take_while(|ch| ch.is_whitespace())
+                .count()
+        })
+        .min()
 }
 
 pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
@@ -58,23 +44,13 @@ pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
     let length = s.len();
     let mut output = String::with_capacity(length + length / 2);
 
-    for (i, line) in s.lines().enumerate() {
-        if i > 0 {
-            output.push('\n');
-
-            if !line.is_empty() {
-                output.push_str(&prefix);
-            }
-        } else if !skip_first && !line.is_empty() {
+    for (i, line) in lines(s) {
+        if !((i == 0 && skip_first) || is_empty_line(line)) {
             output.push_str(&prefix);
         }
 
         output.push_str(line);
     }
 
-    if s.ends_with('\n') {
-        output.push('\n');
-    }
-
     output
 }
-- 
2.43.0


From 91bd2d09356dc2933097258c4aa06502d2371460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 09/54] fix: keep the strip mode when converting heredocs to
 the editing model

Converting a data model heredoc with indent strip mode to
hcl_edit::HeredocTemplate lost the strip mode and the dedentation.
---
 crates/hcl-rs/src/expr/edit.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index becf377..3a74630 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -222,7 +222,20 @@ impl From<template::HeredocTemplate> for Heredoc {
 
 impl From<Heredoc> for template::HeredocTemplate {
     fn from(value: Heredoc) -> Self {
-        template::HeredocTemplate::new(value.delimiter.into(), template_or_default(value.template))
+        let mut heredoc = template::HeredocTemplate::new(
+            value.delimiter.into(),
+            template_or_default(value.template),
+        );
+
+        if value.strip == HeredocStripMode::Indent {
+            heredoc.dedent();
+
+            if heredoc.indent().is_none() {
+                heredoc.set_indent(0);
+            }
+        }
+
+        heredoc
     }
 }
 
-- 
2.43.0


From 05a5b24578d9324fa4d466f085e428837523515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 10/54] fix: do not add a line to empty heredocs when
 formatting

---
 crates/hcl-rs/src/format/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 54e24eb..6d44037 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -229,7 +229,7 @@ impl Format for Heredoc {
         fmt.write_bytes(b"\n")?;
         fmt.write_string_fragment(&self.template)?;
 
-        if !self.template.ends_with('\n') {
+        if !self.template.is_empty() && !self.template.ends_with('\n') {
             fmt.write_bytes(b"\n")?;
         }
 
-- 
2.43.0


From d50905de56051992bbbf3b21c1b69aeeffbfa23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 11/54] fix: end empty heredocs at their delimiter

An empty heredoc which was followed by another heredoc with the same
delimiter swallowed everything up to the end of the second one.
---
 crates/hcl-edit/src/parser/template.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 32710ef..cd85d10 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -16,7 +16,9 @@ use crate::{SetSpan, Span, Spanned};
 
 use std::borrow::Cow;
 use winnow::ascii::{line_ending, space0};
-use winnow::combinator::{alt, delimited, not, opt, preceded, repeat, separated_pair, terminated};
+use winnow::combinator::{
+    alt, delimited, not, opt, peek, preceded, repeat, separated_pair, terminated,
+};
 use winnow::token::one_of;
 
 use hcl_primitives::ident::is_id_continue;
@@ -60,8 +62,11 @@ pub(super) fn heredoc_template<'a>(
         let literal_end = alt(("${", "%{", heredoc_end));
         let literal = template_literal(literal_end);
 
-        // Use `opt` to handle an empty template.
-        opt((elements(literal, template), line_ending.with_span()).map(
+        // An empty template: the delimiter follows immediately. This needs to be checked first as
+        // another heredoc with the same delimiter might follow later.
+        let empty = peek((space0, delim, not(one_of(is_id_continue)))).value(None);
+
+        let nonempty = opt((elements(literal, template), line_ending.with_span()).map(
             |(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
@@ -77,9 +82,11 @@ pub(super) fn heredoc_template<'a>(
 
                 Template::from(elements)
             },
-        ))
-        .map(Option::unwrap_or_default)
-        .parse_next(input)
+        ));
+
+        alt((empty, nonempty))
+            .map(Option::unwrap_or_default)
+            .parse_next(input)
     }
 }
 
-- 
2.43.0


From f0ef394544abd8acb1e78e1268357c1461c47936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 12/54] fix: allow newlines only within the enclosing brackets

Operators following an array, for expression or function call on the
next line were parsed as part of the expression, e.g. the key -1 in

    {
      a = [1]
      -1 = 2
    }
---
 crates/hcl-edit/src/parser/expr.rs  | 24 +++++++++++++++---------
 crates/hcl-edit/src/parser/state.rs |  6 ++++--
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 5a1343d..1fdd80a 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -43,7 +43,7 @@ pub(super) fn expr(input: &mut Input) -> ModalResult<Expression> {
 
 pub(super) fn multiline_expr(input: &mut Input) -> ModalResult<Expression> {
     let mut state = ExprParseState::default();
-    state.allow_newlines();
+    state.allow_newlines(true);
     parse_expr(RefCell::new(state), input)
 }
 
@@ -380,13 +380,16 @@ fn array<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
+        // Newlines are only allowed until the closing bracket.
+        let newlines_allowed = state.borrow_mut().allow_newlines(true);
         delimited(
             '[',
             for_expr_or_items(for_list_expr(state), array_items(state)),
             cut_char(']'),
         )
-        .parse_next(input)
+        .parse_next(input)?;
+        state.borrow_mut().allow_newlines(newlines_allowed);
+        Ok(())
     }
 }
 
@@ -452,7 +455,8 @@ fn for_object_expr<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
+        // Newlines are only allowed until the closing brace.
+        let newlines_allowed = state.borrow_mut().allow_newlines(true);
         (
             for_intro,
             separated_pair(
@@ -476,9 +480,9 @@ fn for_object_expr<'i>(
                     }
                 }
 
-                state
-                    .borrow_mut()
-                    .on_expr_term(Expression::ForExpr(Box::new(expr)));
+                let mut state = state.borrow_mut();
+                state.on_expr_term(Expression::ForExpr(Box::new(expr)));
+                state.allow_newlines(newlines_allowed);
             })
             .parse_next(input)
     }
@@ -805,7 +809,8 @@ fn func_args<'i>(
             Ellipsis,
         }
 
-        state.borrow_mut().allow_newlines();
+        // Newlines are only allowed until the closing parenthesis.
+        let newlines_allowed = state.borrow_mut().allow_newlines(true);
 
         let args = separated(
             1..,
@@ -825,7 +830,7 @@ fn func_args<'i>(
 
         delimited(
             cut_char('('),
-            (opt((args, opt(trailer))), raw_string(ws)).map(|(args, trailing)| {
+            (opt((args, opt(trailer))), raw_string(ws)).map(move |(args, trailing)| {
                 let mut args = match args {
                     Some((args, Some(trailer))) => {
                         let args: Vec<_> = args;
@@ -842,6 +847,7 @@ fn func_args<'i>(
                 };
 
                 args.set_trailing(trailing);
+                state.borrow_mut().allow_newlines(newlines_allowed);
                 args
             }),
             cut_char(')').context(StrContext::Expected(StrContextValue::Description(
diff --git a/crates/hcl-edit/src/parser/state.rs b/crates/hcl-edit/src/parser/state.rs
index ddc3a69..93e83b9 100644
--- a/crates/hcl-edit/src/parser/state.rs
+++ b/crates/hcl-edit/src/parser/state.rs
@@ -139,8 +139,10 @@ impl ExprParseState {
         self.current = Some(parse_binary_op(tokens));
     }
 
-    pub(super) fn allow_newlines(&mut self) {
-        self.allow_newlines = true;
+    /// Allows (or disallows) newlines between the tokens of an expression and returns the previous
+    /// setting, so that it can be restored after leaving an enclosed expression.
+    pub(super) fn allow_newlines(&mut self, allow: bool) -> bool {
+        std::mem::replace(&mut self.allow_newlines, allow)
     }
 
     pub(super) fn newlines_allowed(&self) -> bool {
-- 
2.43.0


From c8505dc9e2b3f724a2a58cc4486ca034a177d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 13/54] fix: keep the trivia between the grouping ellipsis and
 the closing brace in place

---
 crates/hcl-edit/src/encode/expr.rs   |  2 ++
 crates/hcl-edit/src/expr/for_expr.rs | 16 +++++++++++++++-
 crates/hcl-edit/src/parser/expr.rs   |  2 +-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 61953a4..2ce0517 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -135,6 +135,8 @@ impl Encode for ForExpr {
             }
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
+            } else if self.grouping {
+                self.trailing().encode_with_default(buf, "")?;
             }
             buf.write_char('}')
         } else {
diff --git a/crates/hcl-edit/src/expr/for_expr.rs b/crates/hcl-edit/src/expr/for_expr.rs
index 858e6d2..10a724b 100644
--- a/crates/hcl-edit/src/expr/for_expr.rs
+++ b/crates/hcl-edit/src/expr/for_expr.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorate, Decorated, Ident};
+use crate::{Decor, Decorate, Decorated, Ident, RawString};
 use std::ops::Range;
 
 /// A for expression is a construct for constructing a collection by projecting the items from
@@ -22,6 +22,7 @@ pub struct ForExpr {
     /// be evaluated as normal, while if `false` the element will be skipped.
     pub cond: Option<ForCond>,
 
+    trailing: RawString,
     decor: Decor,
     span: Option<Range<usize>>,
 }
@@ -36,13 +37,26 @@ impl ForExpr {
             value_expr: value_expr.into(),
             grouping: false,
             cond: None,
+            trailing: RawString::default(),
             decor: Decor::default(),
             span: None,
         }
     }
 
+    /// Return a reference to the raw trailing decor between the `...` of the grouping mode and the
+    /// closing `}`.
+    pub(crate) fn trailing(&self) -> &RawString {
+        &self.trailing
+    }
+
+    /// Set the raw trailing decor between the `...` of the grouping mode and the closing `}`.
+    pub(crate) fn set_trailing(&mut self, trailing: impl Into<RawString>) {
+        self.trailing = trailing.into();
+    }
+
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
+        self.trailing.despan(input);
         self.intro.despan(input);
 
         if let Some(key_expr) = &mut self.key_expr {
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 1fdd80a..5741ba7 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -476,7 +476,7 @@ fn for_object_expr<'i>(
                     if let Some(ref mut cond) = expr.cond {
                         cond.decor_mut().set_prefix(trailing);
                     } else {
-                        expr.decor_mut().set_suffix(trailing);
+                        expr.set_trailing(trailing);
                     }
                 }
 
-- 
2.43.0


From 37d73988b75f5e660a89bb2c46e967ad37e46ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 14/54] fix: separate keywords from their operands by default

The default decor for built if directives and for expressions did not
contain the whitespace that keeps apart the keyword and the operand
('%{ iffoo }', '[for vin list : v]').
---
 crates/hcl-edit/src/encode/expr.rs     | 2 +-
 crates/hcl-edit/src/encode/template.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 2ce0517..b8927f3 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -159,7 +159,7 @@ impl Encode for ForIntro {
             key_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             buf.write_char(',')?;
         }
-        self.value_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
+        self.value_var.encode_decorated(buf, BOTH_SPACE_DECOR)?;
         buf.write_str("in")?;
         self.collection_expr
             .encode_decorated(buf, BOTH_SPACE_DECOR)?;
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index b57dc80..0236ef8 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -1,6 +1,5 @@
 use super::{
     encode_escaped, Encode, EncodeDecorated, EncodeState, BOTH_SPACE_DECOR, LEADING_SPACE_DECOR,
-    TRAILING_SPACE_DECOR,
 };
 use crate::template::{
     Directive, Element, ElseTemplateExpr, EndforTemplateExpr, EndifTemplateExpr, ForDirective,
@@ -111,7 +110,7 @@ impl Encode for IfTemplateExpr {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
             buf.write_str("if")?;
-            self.cond_expr.encode_decorated(buf, TRAILING_SPACE_DECOR)
+            self.cond_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
         self.template.encode(buf)
     }
-- 
2.43.0


From aa0a172316b51f4358fe96a8e46bc5c6191861c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 15/54] fix: print the trivia around binary and traversal
 operators

The decor of operators was never resolved to the source text, so that
line breaks and comments around them were lost.
---
 crates/hcl-edit/src/expr/operation.rs | 3 ++-
 crates/hcl-edit/src/expr/traversal.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/expr/operation.rs b/crates/hcl-edit/src/expr/operation.rs
index 5db2af3..a260dbe 100644
--- a/crates/hcl-edit/src/expr/operation.rs
+++ b/crates/hcl-edit/src/expr/operation.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorated, Spanned};
+use crate::{Decor, Decorate, Decorated, Spanned};
 use std::ops::Range;
 
 // Re-exported for convenience.
@@ -77,6 +77,7 @@ impl BinaryOp {
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
         self.lhs_expr.despan(input);
+        self.operator.decor_mut().despan(input);
         self.rhs_expr.despan(input);
     }
 }
diff --git a/crates/hcl-edit/src/expr/traversal.rs b/crates/hcl-edit/src/expr/traversal.rs
index 6c28a28..90e055c 100644
--- a/crates/hcl-edit/src/expr/traversal.rs
+++ b/crates/hcl-edit/src/expr/traversal.rs
@@ -35,6 +35,7 @@ impl Traversal {
         self.expr.despan(input);
 
         for operator in &mut self.operators {
+            operator.decor_mut().despan(input);
             operator.despan(input);
         }
     }
-- 
2.43.0


From 42dd8a11b7563f8fafda7ff26b7ac23efe69eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 16/54] fix: report the column of unexpected multi-byte
 characters

The column was counted in bytes if the unexpected character itself was
not ASCII.
---
 crates/hcl-edit/src/parser/error.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index 976f2a6..d947b44 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -128,7 +128,6 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
         );
     }
     let offset = err.offset().min(input.len() - 1);
-    let column_offset = err.offset() - offset;
 
     // Find the start of the line containing the error.
     let line_begin = input[..offset]
@@ -151,9 +150,9 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
 
     // The (1-indexed) column number is the offset of the remaining input into that line.
     // This also takes multi-byte unicode characters into account.
-    let column = std::str::from_utf8(&input[line_begin..=offset])
-        .map_or_else(|_| offset - line_begin + 1, |s| s.chars().count())
-        + column_offset;
+    let column = std::str::from_utf8(&input[line_begin..err.offset()])
+        .map_or_else(|_| err.offset() - line_begin, |s| s.chars().count())
+        + 1;
 
     (
         line_context,
-- 
2.43.0


From 179277e383b2829777a47e53afee41e475862eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 17/54] fix: reject invalid escape sequences anywhere in a
 string

Only an invalid escape sequence at the very beginning of a string literal was
reported, others were silently dropped.
---
 crates/hcl-edit/src/parser/mod.rs    | 2 +-
 crates/hcl-edit/src/parser/string.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/parser/mod.rs b/crates/hcl-edit/src/parser/mod.rs
index b33687d..80d8d43 100644
--- a/crates/hcl-edit/src/parser/mod.rs
+++ b/crates/hcl-edit/src/parser/mod.rs
@@ -22,7 +22,7 @@ use crate::structure::Body;
 use crate::template::Template;
 
 mod prelude {
-    pub(super) use winnow::error::{ContextError, StrContext, StrContextValue};
+    pub(super) use winnow::error::{ContextError, ErrMode, StrContext, StrContextValue};
     pub(super) use winnow::stream::Stream;
     pub(super) use winnow::{dispatch, ModalParser, ModalResult, Parser};
 
diff --git a/crates/hcl-edit/src/parser/string.rs b/crates/hcl-edit/src/parser/string.rs
index 74b89c3..4e57b01 100644
--- a/crates/hcl-edit/src/parser/string.rs
+++ b/crates/hcl-edit/src/parser/string.rs
@@ -33,13 +33,19 @@ where
         };
 
         loop {
+            let checkpoint = input.checkpoint();
+
             match fragment_parser.parse_next(input) {
                 Ok(fragment) => match fragment {
                     StringFragment::Literal(s) => string.to_mut().push_str(s),
                     StringFragment::EscapedChar(c) => string.to_mut().push(c),
                     StringFragment::EscapedMarker(m) => string.to_mut().push_str(m.unescape()),
                 },
-                Err(_) => return Ok(string),
+                Err(ErrMode::Backtrack(_)) => {
+                    input.reset(&checkpoint);
+                    return Ok(string);
+                }
+                Err(err) => return Err(err),
             }
         }
     }
-- 
2.43.0


From fa360493e94927e42062dcc32090df1574e1817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 18/54] fix: deserialize boolean and number object keys as
 strings

Objects with such keys are valid, but could not be deserialized into a Value
(or any other map with string keys).
---
 crates/hcl-rs/src/expr/de.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 55ab0c3..a439037 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1089,6 +1089,32 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
         }
     }
 
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.deserialize_string(visitor)
+    }
+
+    fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        let mut key = self;
+
+        while let ObjectKey::Expression(Expression::Parenthesis(expr)) = key {
+            key = ObjectKey::Expression(*expr);
+        }
+
+        match key {
+            // Boolean and number keys are convertible to a string.
+            ObjectKey::Expression(expr @ (Expression::Bool(_) | Expression::Number(_))) => {
+                visitor.visit_string(expr.to_string())
+            }
+            key => key.deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -1102,8 +1128,8 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     }
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str
-        string bytes byte_buf option unit unit_struct newtype_struct seq
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
+        bytes byte_buf option unit unit_struct newtype_struct seq
         tuple tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 0009ebf33cc60f2808976c492afacd7de4f11242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 19/54] fix: require a boundary after the keywords of for
 expressions and directives

`[for x iny : 1]` was accepted as `[for x in y : 1]`, whereas a carriage return
after `for` made the parser take it for a variable.
---
 crates/hcl-edit/src/parser/expr.rs     | 10 ++++++----
 crates/hcl-edit/src/parser/string.rs   | 15 ++++++++++++++-
 crates/hcl-edit/src/parser/template.rs | 13 ++++++++-----
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 5741ba7..e3183d3 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -3,7 +3,9 @@ use super::prelude::*;
 use super::number::number as num;
 use super::repr::{decorated, prefix_decorated, spanned, suffix_decorated};
 use super::state::ExprParseState;
-use super::string::{cut_char, cut_ident, cut_tag, ident, raw_string, str_ident, string};
+use super::string::{
+    cut_char, cut_ident, cut_keyword, cut_tag, ident, keyword, raw_string, str_ident, string,
+};
 use super::template::{heredoc_template, string_template};
 use super::trivia::{line_comment, sp, ws};
 
@@ -616,7 +618,7 @@ where
         // disambiguate. Otherwise an identifier like `format` will match both the `for` tag
         // and the following identifier which would fail parsing of arrays with identifier/func
         // call elements and objects with those as keys.
-        match peek((ws, "for", one_of(b" \t#/\n"))).parse_next(input) {
+        match peek((ws, "for", one_of(b" \t#/\r\n"))).parse_next(input) {
             Ok(_) => for_expr_parser.parse_next(input),
             Err(_) => items_parser.parse_next(input),
         }
@@ -631,7 +633,7 @@ fn for_intro(input: &mut Input) -> ModalResult<ForIntro> {
             (
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_tag("in"), decorated(ws, expr, ws)),
+                preceded(cut_keyword("in"), decorated(ws, expr, ws)),
             ),
             cut_char(':'),
         )
@@ -653,7 +655,7 @@ fn for_cond<'i>(
     move |input: &mut Input| {
         prefix_decorated(
             ws,
-            preceded("if", decorated(ws, expr_with_state(state), ws)).map(ForCond::new),
+            preceded(keyword("if"), decorated(ws, expr_with_state(state), ws)).map(ForCond::new),
         )
         .parse_next(input)
     }
diff --git a/crates/hcl-edit/src/parser/string.rs b/crates/hcl-edit/src/parser/string.rs
index 4e57b01..bf0523a 100644
--- a/crates/hcl-edit/src/parser/string.rs
+++ b/crates/hcl-edit/src/parser/string.rs
@@ -6,7 +6,9 @@ use crate::{Decorated, Ident, RawString};
 
 use hcl_primitives::ident::{is_id_continue, is_id_start};
 use std::borrow::Cow;
-use winnow::combinator::{alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat};
+use winnow::combinator::{
+    alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat, terminated,
+};
 use winnow::token::{any, one_of, take, take_while};
 
 pub(super) fn string(input: &mut Input) -> ModalResult<String> {
@@ -202,6 +204,17 @@ pub(super) fn cut_tag<'a>(tag: &'static str) -> impl ModalParser<Input<'a>, &'a
     cut_err(tag).context(StrContext::Expected(StrContextValue::StringLiteral(tag)))
 }
 
+/// Parses a keyword which must not be directly followed by more identifier characters.
+pub(super) fn keyword<'a>(tag: &'static str) -> impl ModalParser<Input<'a>, &'a str, ContextError> {
+    terminated(tag, not(one_of(is_id_continue)))
+}
+
+pub(super) fn cut_keyword<'a>(
+    tag: &'static str,
+) -> impl ModalParser<Input<'a>, &'a str, ContextError> {
+    cut_err(keyword(tag)).context(StrContext::Expected(StrContextValue::StringLiteral(tag)))
+}
+
 pub(super) fn cut_ident(input: &mut Input) -> ModalResult<Decorated<Ident>> {
     cut_err(ident)
         .context(StrContext::Expected(StrContextValue::Description(
diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index cd85d10..45d4660 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -3,8 +3,8 @@ use super::prelude::*;
 use super::expr::{expr, multiline_expr};
 use super::repr::{decorated, spanned};
 use super::string::{
-    build_string, cut_char, cut_ident, cut_tag, quoted_string_fragment, raw_string,
-    template_string_fragment,
+    build_string, cut_char, cut_ident, cut_keyword, cut_tag, keyword, quoted_string_fragment,
+    raw_string, template_string_fragment,
 };
 use super::trivia::ws;
 
@@ -144,7 +144,10 @@ fn if_directive(input: &mut Input, template: NestedTemplateParser) -> ModalResul
     let if_expr = (
         control(
             "%{",
-            (terminated(raw_string(ws), "if"), decorated(ws, expr, ws)),
+            (
+                terminated(raw_string(ws), keyword("if")),
+                decorated(ws, expr, ws),
+            ),
         ),
         spanned(template),
     )
@@ -189,10 +192,10 @@ fn for_directive(input: &mut Input, template: NestedTemplateParser) -> ModalResu
         control(
             "%{",
             (
-                terminated(raw_string(ws), "for"),
+                terminated(raw_string(ws), keyword("for")),
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_tag("in"), decorated(ws, expr, ws)),
+                preceded(cut_keyword("in"), decorated(ws, expr, ws)),
             ),
         ),
         spanned(template),
-- 
2.43.0


From 604c20713b9b596670d3918a517d3639dfb08aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 20/54] fix: report small non-negative integers as signed
 integers

According to its documentation, `is_i64` returns true for every integer between
`i64::MIN` and `i64::MAX`.
---
 crates/hcl-primitives/src/number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 80b6a89..6ba0a0e 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -127,8 +127,9 @@ impl N {
 
     fn is_i64(&self) -> bool {
         match self {
+            N::PosInt(n) => i64::try_from(*n).is_ok(),
             N::NegInt(_) => true,
-            N::PosInt(_) | N::Float(_) => false,
+            N::Float(_) => false,
         }
     }
 
-- 
2.43.0


From 29f326b8a92228cb9a600edd53f0898fd1efeb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 21/54] fix: keep literals apart from the markers of the next
 template element

A literal ending with `$` in front of an interpolation, or with `%` in
front of a directive, was printed as an escaped marker, and adjacent
literals could add up to a marker.
---
 crates/hcl-edit/src/encode/template.rs | 92 +++++++++++++++++++-------
 1 file changed, 69 insertions(+), 23 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 0236ef8..5bbb241 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -7,6 +7,7 @@ use crate::template::{
     Strip, Template,
 };
 use hcl_primitives::template::escape_markers;
+use std::borrow::Cow;
 use std::fmt::{self, Write};
 
 const INTERPOLATION_START: &str = "${";
@@ -15,13 +16,7 @@ const DIRECTIVE_START: &str = "%{";
 impl Encode for StringTemplate {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('"')?;
-        buf.escaped(|buf| {
-            for element in self {
-                element.encode(buf)?;
-            }
-
-            Ok(())
-        })?;
+        buf.escaped(|buf| encode_elements(buf, self, None))?;
         buf.write_char('"')
     }
 }
@@ -53,25 +48,14 @@ impl Encode for HeredocTemplate {
 
 impl Encode for Template {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        for element in self {
-            element.encode(buf)?;
-        }
-
-        Ok(())
+        encode_elements(buf, self, None)
     }
 }
 
 impl Encode for Element {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         match self {
-            Element::Literal(lit) => {
-                let escaped = escape_markers(lit);
-                if buf.escape() {
-                    encode_escaped(buf, &escaped)
-                } else {
-                    buf.write_str(&escaped)
-                }
-            }
+            Element::Literal(lit) => encode_literal(buf, lit, None),
             Element::Interpolation(interp) => interp.encode(buf),
             Element::Directive(dir) => dir.encode(buf),
         }
@@ -112,7 +96,7 @@ impl Encode for IfTemplateExpr {
             buf.write_str("if")?;
             self.cond_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
-        self.template.encode(buf)
+        encode_elements(buf, &self.template, Some('%'))
     }
 }
 
@@ -123,7 +107,7 @@ impl Encode for ElseTemplateExpr {
             buf.write_str("else")?;
             self.trailing().encode_with_default(buf, " ")
         })?;
-        self.template.encode(buf)
+        encode_elements(buf, &self.template, Some('%'))
     }
 }
 
@@ -159,7 +143,7 @@ impl Encode for ForTemplateExpr {
             buf.write_str("in")?;
             self.collection_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
-        self.template.encode(buf)
+        encode_elements(buf, &self.template, Some('%'))
     }
 }
 
@@ -173,6 +157,68 @@ impl Encode for EndforTemplateExpr {
     }
 }
 
+/// Encodes template elements.
+///
+/// `end` is the first character of the marker that follows the elements, if any.
+fn encode_elements<'a>(
+    buf: &mut EncodeState,
+    elements: impl IntoIterator<Item = &'a Element>,
+    end: Option<char>,
+) -> fmt::Result {
+    // Adjacent literals are one literal in the output, so that markers may span several of them.
+    let mut literal = Cow::Borrowed("");
+
+    for element in elements {
+        let marker = match element {
+            Element::Literal(lit) => {
+                if literal.is_empty() {
+                    literal = Cow::Borrowed(lit.as_str());
+                } else {
+                    literal.to_mut().push_str(lit);
+                }
+                continue;
+            }
+            Element::Interpolation(_) => '$',
+            Element::Directive(_) => '%',
+        };
+
+        encode_literal(buf, &literal, Some(marker))?;
+        literal = Cow::Borrowed("");
+        element.encode(buf)?;
+    }
+
+    encode_literal(buf, &literal, end)
+}
+
+/// Encodes a template literal that is followed by a marker starting with the character `next`.
+fn encode_literal(buf: &mut EncodeState, literal: &str, next: Option<char>) -> fmt::Result {
+    // A literal `$` in front of `${` (or `%` in front of `%{`) would be read as an escaped marker.
+    let (literal, signs) = match next {
+        Some(next) if literal.ends_with(next) => {
+            literal.split_at(literal.trim_end_matches(['$', '%']).len())
+        }
+        _ => (literal, ""),
+    };
+
+    let escaped = escape_markers(literal);
+
+    if buf.escape() {
+        encode_escaped(buf, &escaped)?;
+        signs
+            .chars()
+            .try_for_each(|ch| write!(buf, "\\u{:04X}", ch as u32))
+    } else {
+        buf.write_str(&escaped)?;
+
+        if signs.is_empty() {
+            return Ok(());
+        }
+
+        // There are no escape sequences outside of quotes.
+        write!(buf, "{INTERPOLATION_START}\"{signs}\"}}")
+    }
+}
+
 fn encode_strip<F>(buf: &mut EncodeState, start_marker: &str, strip: Strip, f: F) -> fmt::Result
 where
     F: FnOnce(&mut EncodeState) -> fmt::Result,
-- 
2.43.0


From 6f397d2271586b9720adb526ef40a79c27caa83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 22/54] fix: escape the literals of quoted templates when
 formatting

The raw template was written as is, although it may contain quotes,
backslashes and line breaks.
---
 crates/hcl-rs/src/format/impls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 6d44037..e22c4c3 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -211,7 +211,17 @@ impl Format for TemplateExpr {
         W: io::Write,
     {
         match self {
-            TemplateExpr::QuotedString(string) => fmt.write_quoted_string(string),
+            TemplateExpr::QuotedString(string) => {
+                // The literal parts of the template have to be escaped within quotes.
+                match string.parse::<hcl_edit::template::Template>() {
+                    Ok(template) => {
+                        let template = hcl_edit::template::StringTemplate::from(template);
+                        let expr = hcl_edit::expr::Expression::from(template);
+                        fmt.write_string_fragment(&expr.to_string())
+                    }
+                    Err(_) => fmt.write_quoted_string(string),
+                }
+            }
             TemplateExpr::Heredoc(heredoc) => heredoc.format(fmt),
         }
     }
-- 
2.43.0


From 74195ee8509de50cf9bfd6181e7701b2cf05cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 23/54] fix: keep literals apart from the markers of the next
 element when formatting templates

---
 crates/hcl-rs/src/format/impls.rs | 65 +++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index e22c4c3..6187140 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -11,6 +11,7 @@ use crate::util::is_templated;
 use crate::{Identifier, Number, Result, Value};
 use hcl_primitives::ident::is_ident;
 use hcl_primitives::template::escape_markers;
+use std::borrow::Cow;
 use std::io;
 
 impl<T> private::Sealed for &T where T: Format {}
@@ -471,11 +472,7 @@ impl Format for Template {
     where
         W: io::Write,
     {
-        for element in self.elements() {
-            element.format(fmt)?;
-        }
-
-        Ok(())
+        format_elements(fmt, self, None)
     }
 }
 
@@ -487,10 +484,7 @@ impl Format for Element {
         W: io::Write,
     {
         match self {
-            Element::Literal(lit) => {
-                let escaped = escape_markers(lit);
-                fmt.write_string_fragment(&escaped)
-            }
+            Element::Literal(lit) => format_literal(fmt, lit, None),
             Element::Interpolation(interp) => interp.format(fmt),
             Element::Directive(dir) => dir.format(fmt),
         }
@@ -533,11 +527,11 @@ impl Format for IfDirective {
             fmt.write_bytes(b"if ")?;
             self.cond_expr.format(fmt)
         })?;
-        self.true_template.format(fmt)?;
+        format_elements(fmt, &self.true_template, Some('%'))?;
 
         if let Some(false_template) = &self.false_template {
             format_directive(fmt, self.else_strip, |fmt| fmt.write_bytes(b"else"))?;
-            false_template.format(fmt)?;
+            format_elements(fmt, false_template, Some('%'))?;
         }
 
         format_directive(fmt, self.endif_strip, |fmt| fmt.write_bytes(b"endif"))
@@ -564,7 +558,7 @@ impl Format for ForDirective {
             self.collection_expr.format(fmt)
         })?;
 
-        self.template.format(fmt)?;
+        format_elements(fmt, &self.template, Some('%'))?;
         format_directive(fmt, self.endfor_strip, |fmt| fmt.write_bytes(b"endfor"))
     }
 }
@@ -618,6 +612,53 @@ where
     fmt.end_object()
 }
 
+/// Formats the elements of a template.
+///
+/// `end` is the first character of the marker that follows the elements, if any.
+fn format_elements<W>(fmt: &mut Formatter<W>, template: &Template, end: Option<char>) -> Result<()>
+where
+    W: io::Write,
+{
+    // Adjacent literals are one literal in the output, so that markers may span several of them.
+    let mut literal = Cow::Borrowed("");
+
+    for element in template.elements() {
+        let marker = match element {
+            Element::Literal(lit) => {
+                if literal.is_empty() {
+                    literal = Cow::Borrowed(lit.as_str());
+                } else {
+                    literal.to_mut().push_str(lit);
+                }
+                continue;
+            }
+            Element::Interpolation(_) => '$',
+            Element::Directive(_) => '%',
+        };
+
+        format_literal(fmt, &literal, Some(marker))?;
+        literal = Cow::Borrowed("");
+        element.format(fmt)?;
+    }
+
+    format_literal(fmt, &literal, end)
+}
+
+/// Formats a template literal that is followed by a marker starting with the character `next`.
+fn format_literal<W>(fmt: &mut Formatter<W>, literal: &str, next: Option<char>) -> Result<()>
+where
+    W: io::Write,
+{
+    // A literal `$` in front of `${` (or `%` in front of `%{`) would be read as an escaped marker.
+    if next.is_some_and(|next| literal.ends_with(next)) {
+        let (literal, signs) = literal.split_at(literal.trim_end_matches(['$', '%']).len());
+        fmt.write_string_fragment(&escape_markers(literal))?;
+        return fmt.write_string_fragment(&format!("${{\"{signs}\"}}"));
+    }
+
+    fmt.write_string_fragment(&escape_markers(literal))
+}
+
 fn format_strip<W, F>(fmt: &mut Formatter<W>, strip: Strip, f: F) -> Result<()>
 where
     W: io::Write,
-- 
2.43.0


From 4c88758187519194682f4dc67c2448524ec545de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 24/54] fix: dedent heredocs with strip mode when expanding
 template expressions

Template::from_expr, and thus the evaluation of heredocs that were not
produced by the parser, ignored HeredocStripMode::Indent.
---
 crates/hcl-rs/src/template/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/template/mod.rs b/crates/hcl-rs/src/template/mod.rs
index 8ef9717..32ace2c 100644
--- a/crates/hcl-rs/src/template/mod.rs
+++ b/crates/hcl-rs/src/template/mod.rs
@@ -85,8 +85,9 @@
 mod edit;
 
 use crate::de::FromStrVisitor;
-use crate::expr::{Expression, TemplateExpr};
+use crate::expr::{Expression, HeredocStripMode, TemplateExpr};
 use crate::{format, Error, Identifier, Result};
+use hcl_edit::template::HeredocTemplate;
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display};
 use std::str::FromStr;
@@ -116,12 +117,24 @@ impl Template {
 
     /// Expands a raw template expression to a template.
     ///
+    /// The common indentation is removed from heredocs with strip mode `HeredocStripMode::Indent`.
+    ///
     /// ## Errors
     ///
     /// Returns an error if the parsing of raw string templates fails or if the template expression
     /// contains string literals with invalid escape sequences.
     pub fn from_expr(expr: &TemplateExpr) -> Result<Self> {
-        Template::from_str(expr.as_str())
+        let template: hcl_edit::template::Template = expr.as_str().parse()?;
+
+        match expr {
+            TemplateExpr::Heredoc(heredoc) if heredoc.strip == HeredocStripMode::Indent => {
+                let delimiter = heredoc.delimiter.clone().into();
+                let mut heredoc = HeredocTemplate::new(delimiter, template);
+                heredoc.dedent();
+                Ok(heredoc.template.into())
+            }
+            _ => Ok(template.into()),
+        }
     }
 
     /// Returns a reference to the template elements.
-- 
2.43.0


From 23e46f39474cb32537406d00691c885194adb4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 25/54] fix: restore whitespace lines of dedented heredocs
 whose meaning depends on them

Lines that consist of nothing but the common indentation are empty after
dedenting. If all other lines are indented further, leaving them empty when
printing strips more indentation when the text is parsed again.
---
 crates/hcl-edit/src/encode/template.rs |  2 +-
 crates/hcl-edit/src/template/mod.rs    | 14 +++++++++++---
 crates/hcl-edit/src/util.rs            |  5 +++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 5bbb241..24a1e3e 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -34,7 +34,7 @@ impl Encode for HeredocTemplate {
         match self.indent() {
             Some(n) => {
                 let mut template = self.template.clone();
-                template.indent_by(n, &mut true);
+                template.indent(n);
                 buf.unescaped(|buf| template.encode(buf))?;
             }
             None => buf.unescaped(|buf| self.template.encode(buf))?,
diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 9b75fab..1b58091 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -463,7 +463,15 @@ impl Template {
 
     /// Indents the lines of the template and its nested templates, which is the inverse of
     /// dedenting.
-    pub(crate) fn indent_by(&mut self, n: usize, line_start: &mut bool) {
+    pub(crate) fn indent(&mut self, n: usize) {
+        // If the template is still indented after it was dedented, then there were lines which
+        // consisted of nothing but the common indentation. These need to be restored because more
+        // than the original indentation would be stripped when dedenting again otherwise.
+        let pad_empty = self.min_indent(&mut true).is_some_and(|indent| indent > 0);
+        self.indent_by(n, &mut true, pad_empty);
+    }
+
+    fn indent_by(&mut self, n: usize, line_start: &mut bool, pad_empty: bool) {
         for mut element in std::mem::take(&mut self.elements) {
             if *line_start && !matches!(element, Element::Literal(_)) {
                 self.push(" ".repeat(n));
@@ -471,7 +479,7 @@ impl Template {
 
             match &mut element {
                 Element::Literal(literal) => {
-                    let indented = indent_by(literal, n, !*line_start);
+                    let indented = indent_by(literal, n, !*line_start, pad_empty);
                     *line_start = is_line_start_after(literal, *line_start);
                     *literal.as_mut() = indented;
                 }
@@ -479,7 +487,7 @@ impl Template {
                 Element::Directive(directive) => {
                     for template in directive.templates_mut() {
                         *line_start = false;
-                        template.indent_by(n, line_start);
+                        template.indent_by(n, line_start, pad_empty);
 
                         if *line_start {
                             template.push(" ".repeat(n));
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index de8aabe..a850fd2 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -39,13 +39,14 @@ pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize>
         .min()
 }
 
-pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
+// Indents the lines of `s`. Empty lines are left alone unless `pad_empty` is set.
+pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool, pad_empty: bool) -> String {
     let prefix = " ".repeat(n);
     let length = s.len();
     let mut output = String::with_capacity(length + length / 2);
 
     for (i, line) in lines(s) {
-        if !((i == 0 && skip_first) || is_empty_line(line)) {
+        if !((i == 0 && skip_first) || (is_empty_line(line) && !pad_empty)) {
             output.push_str(&prefix);
         }
 
-- 
2.43.0


From ae935a7b1fac1421d4dd7cad6bb46cb62945f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 26/54] fix: keep the text of flush heredocs that are still
 indented after dedenting

The template of such a heredoc was dedented once more when the data model
representation was formatted and parsed again.
---
 crates/hcl-rs/src/expr/edit.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index 3a74630..988349b 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -208,9 +208,16 @@ impl From<template::StringTemplate> for TemplateExpr {
 
 impl From<template::HeredocTemplate> for Heredoc {
     fn from(value: template::HeredocTemplate) -> Self {
-        let strip = value
-            .indent()
-            .map_or(HeredocStripMode::None, |_| HeredocStripMode::Indent);
+        // The template is already dedented. If it is still indented, e.g. because a line that
+        // consisted of nothing but the common indentation is empty now, even more would be stripped
+        // off when dedenting it again.
+        let mut dedented = value.clone();
+        dedented.dedent();
+
+        let strip = match (value.indent(), dedented.indent()) {
+            (Some(_), None) => HeredocStripMode::Indent,
+            _ => HeredocStripMode::None,
+        };
 
         Heredoc {
             delimiter: value.delimiter.into(),
-- 
2.43.0


From 4c2e66a92bf146a89a1a0104d1027e12838ecc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 27/54] fix: evaluate the template of for directives only with
 the loop variables bound

---
 crates/hcl-rs/src/eval/impls.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 600d5f3..518474a 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -270,9 +270,11 @@ impl Evaluate for Template {
                             None => res,
                         }
                     }
-                    Directive::For(dir) => res
-                        .add_errors(dir.collection_expr.evaluate_in_place(ctx))
-                        .add_errors(dir.template.evaluate_in_place(ctx)),
+                    // The template depends on the loop variables, which are only bound while the
+                    // directive itself is evaluated.
+                    Directive::For(dir) => {
+                        res.add_errors(dir.collection_expr.evaluate_in_place(ctx))
+                    }
                 },
             })
     }
-- 
2.43.0


From bfbd16b4651020e901b5869a5739d55bcce93650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 28/54] fix: allow line breaks within for expressions,
 directives and after unary operators

---
 crates/hcl-edit/src/parser/expr.rs     | 8 ++++----
 crates/hcl-edit/src/parser/template.rs | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index e3183d3..25aa6e9 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -295,7 +295,7 @@ fn unary_op<'i>(
     move |input: &mut Input<'i>| {
         (
             spanned(unary_operator.map(Spanned::new)),
-            prefix_decorated(sp, expr_term_with_state(state)),
+            prefix_decorated(ws_or_sp(state), expr_term_with_state(state)),
         )
             .map(|(operator, expr)| {
                 state
@@ -462,9 +462,9 @@ fn for_object_expr<'i>(
         (
             for_intro,
             separated_pair(
-                decorated(ws, expr, ws),
+                decorated(ws, multiline_expr, ws),
                 cut_tag("=>"),
-                decorated(ws, expr, ws),
+                decorated(ws, multiline_expr, ws),
             ),
             opt(("...", raw_string(ws))),
             opt(for_cond(state)),
@@ -633,7 +633,7 @@ fn for_intro(input: &mut Input) -> ModalResult<ForIntro> {
             (
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_keyword("in"), decorated(ws, expr, ws)),
+                preceded(cut_keyword("in"), decorated(ws, multiline_expr, ws)),
             ),
             cut_char(':'),
         )
diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 45d4660..adf876e 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -1,6 +1,6 @@
 use super::prelude::*;
 
-use super::expr::{expr, multiline_expr};
+use super::expr::multiline_expr;
 use super::repr::{decorated, spanned};
 use super::string::{
     build_string, cut_char, cut_ident, cut_keyword, cut_tag, keyword, quoted_string_fragment,
@@ -146,7 +146,7 @@ fn if_directive(input: &mut Input, template: NestedTemplateParser) -> ModalResul
             "%{",
             (
                 terminated(raw_string(ws), keyword("if")),
-                decorated(ws, expr, ws),
+                decorated(ws, multiline_expr, ws),
             ),
         ),
         spanned(template),
@@ -195,7 +195,7 @@ fn for_directive(input: &mut Input, template: NestedTemplateParser) -> ModalResu
                 terminated(raw_string(ws), keyword("for")),
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_keyword("in"), decorated(ws, expr, ws)),
+                preceded(cut_keyword("in"), decorated(ws, multiline_expr, ws)),
             ),
         ),
         spanned(template),
-- 
2.43.0


From 5aa7f42e5c0e3b2a3dde2a1080a42131ddccf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 29/54] fix: use the text of template expressions as object
 keys when converting expressions to values

---
 crates/hcl-rs/src/expr/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index 6e76fe1..fd1ca11 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -99,7 +99,13 @@ impl From<Expression> for Value {
             Expression::Number(n) => Value::Number(n),
             Expression::String(s) => Value::String(s),
             Expression::Array(array) => array.into_iter().collect(),
-            Expression::Object(object) => object.into_iter().collect(),
+            Expression::Object(object) => object
+                .into_iter()
+                .map(|(key, value)| match Value::from(key) {
+                    Value::String(key) => (key, value),
+                    key => (key.to_string(), value),
+                })
+                .collect(),
             Expression::TemplateExpr(expr) => Value::String(expr.to_string()),
             Expression::Parenthesis(expr) => Value::from(*expr),
             other => Value::String(format::to_interpolated_string(&other).unwrap()),
-- 
2.43.0


From 96d9b2e381c8822893ff231e9e255cb7b19e4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 30/54] fix: deserialize newtype structs from values

---
 crates/hcl-rs/src/value/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 118d682..8d7bbcc 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -137,6 +137,13 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
         }
     }
 
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -155,7 +162,7 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct newtype_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From cccad22fd9c32c8a615194b3cc571e7f8c9616bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 31/54] fix: deserialize parenthesized expressions like their
 inner expression

---
 crates/hcl-rs/src/expr/de.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index a439037..1e89094 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -286,6 +286,7 @@ macro_rules! impl_deserialize_number {
             {
                 match self {
                     Expression::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
+                    Expression::Parenthesis(v) => v.$method(visitor),
                     _ => Err(self.invalid_type(&visitor)),
                 }
             }
@@ -321,7 +322,13 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        let mut expr = &self;
+
+        while let Expression::Parenthesis(inner) = expr {
+            expr = inner;
+        }
+
+        match expr {
             Expression::Null => visitor.visit_none(),
             _ => visitor.visit_some(self),
         }
@@ -330,7 +337,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     fn deserialize_enum<V>(
         self,
         name: &'static str,
-        _variants: &'static [&'static str],
+        variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
@@ -347,6 +354,7 @@ impl<'de> de::Deserializer<'de> for Expression {
             }
             Expression::Operation(v) => visitor.visit_enum(EnumAccess::new(*v)),
             Expression::TemplateExpr(v) => visitor.visit_enum(EnumAccess::new(*v)),
+            Expression::Parenthesis(v) => v.deserialize_enum(name, variants, visitor),
             _ => Err(self.invalid_type(&"string, object, operation or template expression")),
         }
     }
@@ -369,6 +377,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Bool(v) => visitor.visit_bool(v),
+            Expression::Parenthesis(v) => v.deserialize_bool(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -394,6 +403,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         match self {
             Expression::String(v) => visitor.visit_string(v),
             Expression::TemplateExpr(v) => visitor.visit_string(v.to_string()),
+            Expression::Parenthesis(v) => v.deserialize_string(visitor),
             other => {
                 let formatted = format::to_interpolated_string(&other)?;
                 visitor.visit_string(formatted)
@@ -415,6 +425,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         match self {
             Expression::String(v) => visitor.visit_string(v),
             Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Parenthesis(v) => v.deserialize_byte_buf(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -425,6 +436,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Null => visitor.visit_unit(),
+            Expression::Parenthesis(v) => v.deserialize_unit(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -446,6 +458,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Parenthesis(v) => v.deserialize_seq(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -481,14 +494,15 @@ impl<'de> de::Deserializer<'de> for Expression {
             Expression::Traversal(v) => visitor.visit_map(TraversalAccess::new(*v)),
             Expression::Operation(v) => v.deserialize_any(visitor),
             Expression::TemplateExpr(v) => v.deserialize_any(visitor),
+            Expression::Parenthesis(v) => v.deserialize_map(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
 
     fn deserialize_struct<V>(
         self,
-        _name: &'static str,
-        _fields: &'static [&'static str],
+        name: &'static str,
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
@@ -496,6 +510,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Parenthesis(v) => v.deserialize_struct(name, fields, visitor),
             other => other.deserialize_map(visitor),
         }
     }
-- 
2.43.0


From 84fc1d4f5f6c85ca12a2c68450a9aa58a118f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 32/54] fix: deserialize documents as optional types

---
 crates/hcl-rs/src/de/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/de/mod.rs b/crates/hcl-rs/src/de/mod.rs
index 0058ee4..fb23cac 100644
--- a/crates/hcl-rs/src/de/mod.rs
+++ b/crates/hcl-rs/src/de/mod.rs
@@ -223,6 +223,13 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         self.body.into_json_spec().deserialize_any(visitor)
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V>(
         self,
         name: &'static str,
@@ -258,7 +265,7 @@ impl<'de> de::Deserializer<'de> for Deserializer {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From cb583f7c63eea511c82628796ac2fa0cdcb48964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 33/54] fix: deserialize object keys as types other than plain
 strings

Keys of objects were deserialized like any other expression, so that unit
variants, newtype structs and options used as map keys could be serialized, but
not be deserialized again, and number keys were taken for field indices.
---
 crates/hcl-rs/src/expr/de.rs  | 78 +++++++++++++++++++++++++++--------
 crates/hcl-rs/src/expr/mod.rs |  1 +
 2 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 1e89094..9293f6b 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1091,6 +1091,22 @@ impl IntoDeserializer<'_, Error> for ObjectKey {
     }
 }
 
+impl ObjectKey {
+    // Identifier, boolean and number keys are convertible to a string.
+    fn into_string_key(self) -> Expression {
+        match self {
+            ObjectKey::Identifier(ident) => Expression::String(ident.into_inner()),
+            ObjectKey::Expression(Expression::Parenthesis(expr)) => {
+                ObjectKey::Expression(*expr).into_string_key()
+            }
+            ObjectKey::Expression(expr @ (Expression::Bool(_) | Expression::Number(_))) => {
+                Expression::String(expr.to_string())
+            }
+            ObjectKey::Expression(expr) => expr,
+        }
+    }
+}
+
 impl<'de> de::Deserializer<'de> for ObjectKey {
     type Error = Error;
 
@@ -1104,6 +1120,13 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
         }
     }
 
+    fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.deserialize_string(visitor)
+    }
+
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
@@ -1115,37 +1138,58 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     where
         V: de::Visitor<'de>,
     {
-        let mut key = self;
-
-        while let ObjectKey::Expression(Expression::Parenthesis(expr)) = key {
-            key = ObjectKey::Expression(*expr);
+        match self.into_string_key() {
+            Expression::String(string) => visitor.visit_string(string),
+            expr => expr.deserialize_any(visitor),
         }
+    }
 
-        match key {
-            // Boolean and number keys are convertible to a string.
-            ObjectKey::Expression(expr @ (Expression::Bool(_) | Expression::Number(_))) => {
-                visitor.visit_string(expr.to_string())
-            }
-            key => key.deserialize_any(visitor),
-        }
+    fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.deserialize_string(visitor)
     }
 
-    fn deserialize_enum<V>(
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
         self,
         _name: &'static str,
-        _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_enum(self)
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        if name == "$hcl::ObjectKey" {
+            return visitor.visit_enum(self);
+        }
+
+        self.into_string_key()
+            .deserialize_enum(name, variants, visitor)
     }
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
-        bytes byte_buf option unit unit_struct newtype_struct seq
-        tuple tuple_struct map struct identifier ignored_any
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64
+        bytes byte_buf unit unit_struct seq
+        tuple tuple_struct map struct ignored_any
     }
 }
 
diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index fd1ca11..4fd6452 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -294,6 +294,7 @@ impl Display for Expression {
 
 /// Represents an object key.
 #[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq)]
+#[serde(rename = "$hcl::ObjectKey")]
 #[non_exhaustive]
 pub enum ObjectKey {
     /// Represents an unquoted identifier used as object key.
-- 
2.43.0


From ed14ee8020e9ffd21ffcca617baf3cf2800b5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 34/54] fix: quote object keys that are keywords

A leading for was read as the start of a for expression and null was read as
null expression, which is no valid key.
---
 crates/hcl-rs/src/format/impls.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 6187140..41fc028 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -180,6 +180,10 @@ impl Format for ObjectKey {
         W: io::Write,
     {
         match self {
+            ObjectKey::Identifier(ident) if is_keyword(ident) => {
+                // A keyword would not be read as identifier.
+                fmt.write_quoted_string_escaped(ident)
+            }
             ObjectKey::Identifier(ident) => ident.format(fmt),
             ObjectKey::Expression(Expression::String(s)) => StrKey(s).format(fmt),
             ObjectKey::Expression(expr) => expr.format(fmt),
@@ -187,6 +191,11 @@ impl Format for ObjectKey {
     }
 }
 
+// Whether the identifier has a special meaning as object key.
+fn is_keyword(ident: &str) -> bool {
+    matches!(ident, "for" | "null" | "true" | "false")
+}
+
 struct StrKey<'a>(&'a str);
 
 impl private::Sealed for StrKey<'_> {}
@@ -196,7 +205,7 @@ impl Format for StrKey<'_> {
     where
         W: io::Write,
     {
-        if fmt.config.prefer_ident_keys && is_ident(self.0) {
+        if fmt.config.prefer_ident_keys && is_ident(self.0) && !is_keyword(self.0) {
             fmt.write_string_fragment(self.0)
         } else {
             fmt.write_quoted_string_escaped(self.0)
-- 
2.43.0


From d07e03785b8ec89b9f1648fd15f5eec4247d8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 35/54] fix: deserialize keys of value objects as newtype
 structs and options

---
 crates/hcl-rs/src/value/de.rs | 64 +++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 8d7bbcc..0596767 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -1,7 +1,11 @@
 use super::{Map, Value};
 use crate::{Error, Number, Result};
 use indexmap::map;
-use serde::de::{self, value::StringDeserializer, IntoDeserializer, Visitor};
+use serde::de::{
+    self,
+    value::{MapDeserializer, StringDeserializer},
+    IntoDeserializer, Visitor,
+};
 use serde::{forward_to_deserialize_any, Deserialize, Deserializer};
 use std::fmt;
 
@@ -123,7 +127,10 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
             Value::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
             Value::String(s) => visitor.visit_string(s),
             Value::Array(array) => visitor.visit_seq(array.into_deserializer()),
-            Value::Object(object) => visitor.visit_map(object.into_deserializer()),
+            Value::Object(object) => {
+                let entries = object.into_iter().map(|(key, value)| (Key(key), value));
+                visitor.visit_map(MapDeserializer::new(entries))
+            }
         }
     }
 
@@ -167,6 +174,59 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
     }
 }
 
+struct Key(String);
+
+impl IntoDeserializer<'_, Error> for Key {
+    type Deserializer = Self;
+
+    fn into_deserializer(self) -> Self::Deserializer {
+        self
+    }
+}
+
+impl<'de> de::Deserializer<'de> for Key {
+    type Error = Error;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.0)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_enum(self.0.into_deserializer())
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bytes byte_buf unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
 struct EnumAccess {
     iter: map::IntoIter<String, Value>,
 }
-- 
2.43.0


From 7f71e974b50bc5607f77223c5244107425ee7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 36/54] fix: refuse object keys that are no identifiers as
 attribute keys

They were replaced by similar identifiers, which lost data and could even
define an attribute twice.
---
 crates/hcl-rs/src/structure/ser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index e796bc7..f8d2ade 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -350,7 +350,9 @@ impl ser::SerializeStruct for SerializeBodyStruct {
                             .map(|(key, value)| {
                                 let key = match key {
                                     ObjectKey::Identifier(ident) => ident,
-                                    ObjectKey::Expression(Expression::String(s)) => s.into(),
+                                    ObjectKey::Expression(Expression::String(s)) => {
+                                        Identifier::new(s)?
+                                    }
                                     ObjectKey::Expression(expr) => {
                                         return Err(ser::Error::custom(format!(
                                             "encountered invalid HCL attribute key `{expr}`",
-- 
2.43.0


From 89c1c292f7de8e1558c9b6616ec79093eda2946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 37/54] fix: escape the literals of template strings when
 formatting values

Quotes, backslashes and line breaks were written as they are. Strings that are
no valid template are written as plain strings.
---
 crates/hcl-rs/src/format/impls.rs | 37 ++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 41fc028..79147b1 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -149,10 +149,11 @@ impl Format for Value {
             Value::Bool(b) => Ok(fmt.write_bool(*b)?),
             Value::Number(num) => num.format(fmt),
             Value::String(string) => {
-                if is_templated(string) {
-                    fmt.write_quoted_string(string)
-                } else {
-                    fmt.write_quoted_string_escaped(string)
+                let template = is_templated(string).then(|| string.parse().ok()).flatten();
+
+                match template {
+                    Some(template) => format_quoted_template(fmt, template),
+                    None => fmt.write_quoted_string_escaped(string),
                 }
             }
             Value::Array(array) => format_array(fmt, array.iter()),
@@ -221,17 +222,10 @@ impl Format for TemplateExpr {
         W: io::Write,
     {
         match self {
-            TemplateExpr::QuotedString(string) => {
-                // The literal parts of the template have to be escaped within quotes.
-                match string.parse::<hcl_edit::template::Template>() {
-                    Ok(template) => {
-                        let template = hcl_edit::template::StringTemplate::from(template);
-                        let expr = hcl_edit::expr::Expression::from(template);
-                        fmt.write_string_fragment(&expr.to_string())
-                    }
-                    Err(_) => fmt.write_quoted_string(string),
-                }
-            }
+            TemplateExpr::QuotedString(string) => match string.parse() {
+                Ok(template) => format_quoted_template(fmt, template),
+                Err(_) => fmt.write_quoted_string(string),
+            },
             TemplateExpr::Heredoc(heredoc) => heredoc.format(fmt),
         }
     }
@@ -621,6 +615,19 @@ where
     fmt.end_object()
 }
 
+/// Formats a template in quotes, where its literal parts have to be escaped.
+fn format_quoted_template<W>(
+    fmt: &mut Formatter<W>,
+    template: hcl_edit::template::Template,
+) -> Result<()>
+where
+    W: io::Write,
+{
+    let template = hcl_edit::template::StringTemplate::from(template);
+    let expr = hcl_edit::expr::Expression::from(template);
+    fmt.write_string_fragment(&expr.to_string())
+}
+
 /// Formats the elements of a template.
 ///
 /// `end` is the first character of the marker that follows the elements, if any.
-- 
2.43.0


From 1f562f3752ba59549d1406f0eb6705165960df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 38/54] fix: format each value independently of what the
 formatter wrote before

---
 crates/hcl-rs/src/format/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 81c0451..2bf1cd7 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -68,10 +68,12 @@ pub trait Format: private::Sealed {
     where
         W: io::Write + AsMut<Vec<u8>>,
     {
-        self.format(fmt)?;
+        let result = self.format(fmt);
         // "Drain" the buffer by splitting off all bytes, leaving the formatter's buffer empty
         // ready for reuse.
-        Ok(fmt.writer.as_mut().split_off(0))
+        let bytes = fmt.writer.as_mut().split_off(0);
+        fmt.reset();
+        result.map(|()| bytes)
     }
 
     /// Formats a HCL structure using a formatter and returns the result as a `String`.
@@ -403,6 +405,16 @@ impl<W> Formatter<'_, W>
 where
     W: io::Write,
 {
+    /// Resets the state so that the next value is formatted as if it was the first one.
+    fn reset(&mut self) {
+        self.state = FormatState::Initial;
+        self.first_element = false;
+        self.current_indent = 0;
+        self.has_value = false;
+        self.compact_mode_level = 0;
+        self.nesting_state.clear();
+    }
+
     /// Writes `null` to the writer.
     fn write_null(&mut self) -> Result<()> {
         self.write_bytes(b"null")
-- 
2.43.0


From c59c38374f95e8eb2d30f8c66e23a0e15a021b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 39/54] fix: terminate object items that are followed by others

---
 crates/hcl-edit/src/encode/expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index b8927f3..e8f755c 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -83,9 +83,14 @@ impl Encode for Object {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('{')?;
 
-        for (key, value) in self {
+        for (i, (key, value)) in self.iter().enumerate() {
             key.encode_decorated(buf, TRAILING_SPACE_DECOR)?;
             value.encode(buf)?;
+
+            // Only the last item can do without a terminator.
+            if value.terminator() == ObjectValueTerminator::None && i + 1 < self.len() {
+                buf.write_char(',')?;
+            }
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 57f56e52138a31328dfb4761df5c0a51c2931fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 40/54] fix: tell function calls with expanded arguments from
 those without

---
 crates/hcl-edit/src/expr/func_call.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-edit/src/expr/func_call.rs b/crates/hcl-edit/src/expr/func_call.rs
index c4905df..fe7f7e6 100644
--- a/crates/hcl-edit/src/expr/func_call.rs
+++ b/crates/hcl-edit/src/expr/func_call.rs
@@ -254,6 +254,7 @@ impl FuncArgs {
 impl PartialEq for FuncArgs {
     fn eq(&self, other: &Self) -> bool {
         self.args == other.args
+            && self.expand_final == other.expand_final
             && self.trailing_comma == other.trailing_comma
             && self.trailing == other.trailing
     }
-- 
2.43.0


From 2c24abe19b8a18d3a0bd3d2da83b68f8c7494191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 41/54] fix: keep object items whose keys evaluate to the same
 value until all is evaluated

---
 crates/hcl-rs/src/eval/impls.rs | 38 +++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 518474a..82a0737 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -161,7 +161,7 @@ where
 
 impl<K, V> Evaluate for Object<K, V>
 where
-    K: Evaluate + Eq,
+    K: Evaluate + Eq + Clone,
     K::Output: Hash + Eq,
     V: Evaluate,
 {
@@ -174,20 +174,36 @@ where
     }
 
     fn evaluate_in_place(&mut self, ctx: &Context) -> EvalResult<(), Errors> {
-        let mut new_object = Object::with_capacity(self.len());
+        let mut res = Ok(());
 
-        #[allow(clippy::manual_try_fold)]
-        let res = self
+        let items: Vec<_> = self
             .drain(..)
-            .fold(Ok(()), |mut res, (mut key, mut value)| {
-                res = res
-                    .add_errors(key.evaluate_in_place(ctx))
+            .map(|(key, mut value)| {
+                let mut new_key = key.clone();
+                res = std::mem::replace(&mut res, Ok(()))
+                    .add_errors(new_key.evaluate_in_place(ctx))
                     .add_errors(value.evaluate_in_place(ctx));
-                new_object.insert(key, value);
-                res
-            });
+                (key, new_key, value)
+            })
+            .collect();
+
+        // Keys that evaluate to the same value are left alone until the object is evaluated as a
+        // whole. Otherwise one item would be dropped, together with the errors in its value.
+        let ambiguous: Vec<bool> = (0..items.len())
+            .map(|i| {
+                items.iter().enumerate().any(|(j, (key, new_key, _))| {
+                    i != j && (items[i].1 == *key || items[i].1 == *new_key)
+                })
+            })
+            .collect();
 
-        *self = new_object;
+        *self = items
+            .into_iter()
+            .zip(ambiguous)
+            .map(|((key, new_key, value), ambiguous)| {
+                (if ambiguous { key } else { new_key }, value)
+            })
+            .collect();
 
         res
     }
-- 
2.43.0


From 7264f2c0f97064359b559e71c3c79c1a214369c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 42/54] fix: quote the leading object key `for`

Removing the items before it, or building the object, printed an object that
is read as the start of a for expression ('{ for = 1 }').
---
 crates/hcl-edit/src/encode/expr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index e8f755c..5f5d2d7 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -84,7 +84,15 @@ impl Encode for Object {
         buf.write_char('{')?;
 
         for (i, (key, value)) in self.iter().enumerate() {
-            key.encode_decorated(buf, TRAILING_SPACE_DECOR)?;
+            match key {
+                // A leading `for` would turn the object into a for expression.
+                ObjectKey::Ident(ident) if i == 0 && ident.as_str() == "for" => {
+                    encode_decorated(ident, buf, TRAILING_SPACE_DECOR, |buf| {
+                        encode_quoted_string(buf, ident.as_str())
+                    })?;
+                }
+                key => key.encode_decorated(buf, TRAILING_SPACE_DECOR)?,
+            }
             value.encode(buf)?;
 
             // Only the last item can do without a terminator.
-- 
2.43.0


From d7b1df7c21aa77300a8ef6e334d57eaae083aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 43/54] fix: keep identifiers and keywords apart when printing

Replacing the value in '[for v in list : null if v]' by a variable printed
'[for v in list : xif v]', and a label inserted into 'a"b" {}' was glued to the
identifier: the white space belongs to what was replaced, or there was none.
---
 crates/hcl-edit/src/encode/expr.rs     | 16 +++++++++---
 crates/hcl-edit/src/encode/mod.rs      | 34 +++++++++++++++++++++++---
 crates/hcl-edit/src/encode/template.rs | 12 ++++-----
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 5f5d2d7..b1a9e9b 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -6,12 +6,13 @@ use crate::expr::{
     Array, BinaryOp, BinaryOperator, Conditional, Expression, ForCond, ForExpr, ForIntro, FuncArgs,
     FuncCall, FuncName, Null, Object, ObjectKey, ObjectValue, ObjectValueAssignment,
     ObjectValueTerminator, Parenthesis, Splat, Traversal, TraversalOperator, UnaryOp,
+    UnaryOperator,
 };
 use std::fmt::{self, Write};
 
 impl Encode for Null {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        write!(buf, "{self}")
+        buf.write_word("null")
     }
 }
 
@@ -167,13 +168,13 @@ impl Encode for ForExpr {
 
 impl Encode for ForIntro {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        buf.write_str("for")?;
+        buf.write_word("for")?;
         if let Some(key_var) = &self.key_var {
             key_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             buf.write_char(',')?;
         }
         self.value_var.encode_decorated(buf, BOTH_SPACE_DECOR)?;
-        buf.write_str("in")?;
+        buf.write_word("in")?;
         self.collection_expr
             .encode_decorated(buf, BOTH_SPACE_DECOR)?;
         buf.write_char(':')
@@ -182,7 +183,7 @@ impl Encode for ForIntro {
 
 impl Encode for ForCond {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        buf.write_str("if")?;
+        buf.write_word("if")?;
         self.expr.encode_decorated(buf, LEADING_SPACE_DECOR)
     }
 }
@@ -244,6 +245,9 @@ impl Encode for FuncArgs {
 
 impl Encode for UnaryOp {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
+        if *self.operator.value() == UnaryOperator::Neg {
+            buf.separate()?;
+        }
         buf.write_str(self.operator.as_str())?;
         self.expr.encode_decorated(buf, NO_DECOR)
     }
@@ -251,6 +255,10 @@ impl Encode for UnaryOp {
 
 impl Encode for BinaryOperator {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
+        // Identifiers may contain dashes.
+        if *self == BinaryOperator::Minus {
+            buf.separate()?;
+        }
         buf.write_str(self.as_str())
     }
 }
diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index c6153ad..4bee6ee 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -22,11 +22,17 @@ pub(crate) trait Encode {
 pub(crate) struct EncodeState<'a> {
     buf: &'a mut dyn fmt::Write,
     escape: bool,
+    // Whether the output ends with an identifier or a keyword.
+    after_word: bool,
 }
 
 impl<'a> EncodeState<'a> {
     pub fn new(buf: &'a mut dyn fmt::Write) -> EncodeState<'a> {
-        EncodeState { buf, escape: false }
+        EncodeState {
+            buf,
+            escape: false,
+            after_word: false,
+        }
     }
 
     pub fn escaped<F>(&mut self, f: F) -> fmt::Result
@@ -57,10 +63,30 @@ impl<'a> EncodeState<'a> {
     pub fn escape(&self) -> bool {
         self.escape
     }
+
+    /// Writes an identifier or a keyword.
+    pub fn write_word(&mut self, word: &str) -> fmt::Result {
+        self.separate()?;
+        self.write_str(word)?;
+        self.after_word = true;
+        Ok(())
+    }
+
+    /// Keeps what is written next apart from a preceding identifier or keyword it would otherwise
+    /// become a part of.
+    pub fn separate(&mut self) -> fmt::Result {
+        if self.after_word {
+            self.write_char(' ')?;
+        }
+        Ok(())
+    }
 }
 
 impl fmt::Write for EncodeState<'_> {
     fn write_str(&mut self, s: &str) -> fmt::Result {
+        if !s.is_empty() {
+            self.after_word = false;
+        }
         self.buf.write_str(s)
     }
 }
@@ -89,6 +115,7 @@ where
 {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         if let Some(repr) = self.as_repr() {
+            buf.separate()?;
             repr.encode_with_default(buf, "")
         } else {
             (**self).encode(buf)
@@ -98,7 +125,7 @@ where
 
 impl Encode for bool {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        write!(buf, "{self}")
+        buf.write_word(if *self { "true" } else { "false" })
     }
 }
 
@@ -110,13 +137,14 @@ impl Encode for u64 {
 
 impl Encode for Number {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
+        buf.separate()?;
         write!(buf, "{self}")
     }
 }
 
 impl Encode for Ident {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        buf.write_str(self.as_str())
+        buf.write_word(self.as_str())
     }
 }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 24a1e3e..0085eec 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -93,7 +93,7 @@ impl Encode for IfTemplateExpr {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
-            buf.write_str("if")?;
+            buf.write_word("if")?;
             self.cond_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
         encode_elements(buf, &self.template, Some('%'))
@@ -104,7 +104,7 @@ impl Encode for ElseTemplateExpr {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
-            buf.write_str("else")?;
+            buf.write_word("else")?;
             self.trailing().encode_with_default(buf, " ")
         })?;
         encode_elements(buf, &self.template, Some('%'))
@@ -115,7 +115,7 @@ impl Encode for EndifTemplateExpr {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
-            buf.write_str("endif")?;
+            buf.write_word("endif")?;
             self.trailing().encode_with_default(buf, " ")
         })
     }
@@ -132,7 +132,7 @@ impl Encode for ForTemplateExpr {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
-            buf.write_str("for")?;
+            buf.write_word("for")?;
 
             if let Some(key_var) = &self.key_var {
                 key_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
@@ -140,7 +140,7 @@ impl Encode for ForTemplateExpr {
             }
 
             self.value_var.encode_decorated(buf, BOTH_SPACE_DECOR)?;
-            buf.write_str("in")?;
+            buf.write_word("in")?;
             self.collection_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
         encode_elements(buf, &self.template, Some('%'))
@@ -151,7 +151,7 @@ impl Encode for EndforTemplateExpr {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
-            buf.write_str("endfor")?;
+            buf.write_word("endfor")?;
             self.trailing().encode_with_default(buf, " ")
         })
     }
-- 
2.43.0


From 3dd5ef13e6322fcf01e627036f0be150612244e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 44/54] fix: print changed numbers as changed

---
 crates/hcl-edit/src/repr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hcl-edit/src/repr.rs b/crates/hcl-edit/src/repr.rs
index 176afb2..e41ce2b 100644
--- a/crates/hcl-edit/src/repr.rs
+++ b/crates/hcl-edit/src/repr.rs
@@ -428,7 +428,11 @@ impl<T> Formatted<T> {
     }
 
     /// Returns a mutable reference to the wrapped value.
+    ///
+    /// This discards the raw string representation, because it may not represent the value anymore
+    /// afterwards.
     pub fn value_mut(&mut self) -> &mut T {
+        self.repr = None;
         &mut self.value
     }
 
-- 
2.43.0


From 06afaa7c0480b394c62d79ba56b653b7262574bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 45/54] fix: take directory arguments literally when matching
 files

---
 crates/hcl2json/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index 8b35cab..751ad7b 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -86,7 +86,9 @@ fn main() -> Result<()> {
                     bail!("--glob is required if directory arguments are specified")
                 };
 
-                let path_pattern = path.join(pattern);
+                // Only the pattern is a glob, not the path of the directory.
+                let dir = globset::escape(&path.to_string_lossy());
+                let path_pattern = Path::new(&dir).join(pattern);
 
                 let matcher = GlobBuilder::new(&path_pattern.to_string_lossy())
                     .literal_separator(true)
-- 
2.43.0


From cf52d45e6a0e904112a8434df6bfba69b6067198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 46/54] fix: report errors of writing the last part of the
 output

---
 crates/hcl2json/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index 751ad7b..fc5ec86 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -178,13 +178,16 @@ fn read_hcl<R: Read>(reader: R, args: &Args) -> Result<Value> {
 }
 
 #[inline]
-fn write_json<W: Write>(writer: W, value: &Value, args: &Args) -> Result<()> {
+fn write_json<W: Write>(mut writer: W, value: &Value, args: &Args) -> Result<()> {
     if args.pretty {
-        serde_json::to_writer_pretty(writer, value)?;
+        serde_json::to_writer_pretty(&mut writer, value)?;
     } else {
-        serde_json::to_writer(writer, value)?;
+        serde_json::to_writer(&mut writer, value)?;
     }
 
+    // Errors are ignored when the writer flushes itself on drop.
+    writer.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From 078afebe0392e8a3889a48c8441f12fd8014dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 47/54] fix: deserialize variables that are part of
 user-defined types

A Variable field could be written (`f = x`) but not be read back, since it
was deserialized as identifier from its interpolated form `${x}`.
---
 crates/hcl-rs/src/expr/de.rs       | 45 ++++++++++++++++++++++++++++--
 crates/hcl-rs/src/expr/variable.rs |  4 +--
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 9293f6b..de57be0 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -359,15 +359,23 @@ impl<'de> de::Deserializer<'de> for Expression {
         }
     }
 
-    #[inline]
     fn deserialize_newtype_struct<V>(
         self,
-        _name: &'static str,
+        name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
+        if name == "$hcl::Variable" {
+            // Specialized handling of `hcl::expr::Variable`.
+            return match self {
+                Expression::Variable(v) => visitor.visit_newtype_struct(v.into_deserializer()),
+                Expression::Parenthesis(v) => v.deserialize_newtype_struct(name, visitor),
+                other => visitor.visit_newtype_struct(other),
+            };
+        }
+
         visitor.visit_newtype_struct(self)
     }
 
@@ -1324,6 +1332,39 @@ impl<'de> de::MapAccess<'de> for HeredocAccess {
     }
 }
 
+impl<'de> de::Deserialize<'de> for Variable {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: de::Deserializer<'de>,
+    {
+        struct VariableVisitor;
+
+        impl<'de> de::Visitor<'de> for VariableVisitor {
+            type Value = Variable;
+
+            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+                f.write_str("an HCL variable")
+            }
+
+            fn visit_str<E>(self, value: &str) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                Variable::new(value).map_err(de::Error::custom)
+            }
+
+            fn visit_newtype_struct<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
+            where
+                D: serde::Deserializer<'de>,
+            {
+                Identifier::deserialize(deserializer).map(Variable::from)
+            }
+        }
+
+        deserializer.deserialize_newtype_struct("$hcl::Variable", VariableVisitor)
+    }
+}
+
 impl IntoDeserializer<'_, Error> for Variable {
     type Deserializer = StringDeserializer<Error>;
 
diff --git a/crates/hcl-rs/src/expr/variable.rs b/crates/hcl-rs/src/expr/variable.rs
index 687be4e..5dfff26 100644
--- a/crates/hcl-rs/src/expr/variable.rs
+++ b/crates/hcl-rs/src/expr/variable.rs
@@ -1,5 +1,4 @@
 use crate::{Identifier, InternalString, Result};
-use serde::Deserialize;
 use std::ops::Deref;
 
 /// A type representing a variable in an HCL expression.
@@ -9,8 +8,7 @@ use std::ops::Deref;
 ///
 /// This is a separate type to differentiate between bare identifiers and variable identifiers
 /// which have different semantics in different scopes.
-#[derive(Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
-#[serde(transparent)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Variable(Identifier);
 
 impl Variable {
-- 
2.43.0


From b6562aad77167009b76947991f3982f42d211cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 48/54] fix: serialize the object keys of expressions as
 strings

Object keys that are identifiers were serialized as enum variants, which
other data formats (including Value) refuse as map keys.
---
 crates/hcl-rs/src/expr/mod.rs     | 15 +++++++++++----
 crates/hcl-rs/src/expr/ser/mod.rs |  6 +++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index 4fd6452..3c05c18 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -101,10 +101,7 @@ impl From<Expression> for Value {
             Expression::Array(array) => array.into_iter().collect(),
             Expression::Object(object) => object
                 .into_iter()
-                .map(|(key, value)| match Value::from(key) {
-                    Value::String(key) => (key, value),
-                    key => (key.to_string(), value),
-                })
+                .map(|(key, value)| (key.into_value_key(), value))
                 .collect(),
             Expression::TemplateExpr(expr) => Value::String(expr.to_string()),
             Expression::Parenthesis(expr) => Value::from(*expr),
@@ -303,6 +300,16 @@ pub enum ObjectKey {
     Expression(Expression),
 }
 
+impl ObjectKey {
+    // Returns the key used in a `Value` or any other data format.
+    fn into_value_key(self) -> String {
+        match Value::from(self) {
+            Value::String(key) => key,
+            key => key.to_string(),
+        }
+    }
+}
+
 impl<T> From<T> for ObjectKey
 where
     T: Into<Expression>,
diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index ae2a8b8..8f448c0 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -63,7 +63,11 @@ impl ser::Serialize for Expression {
             Expression::Number(num) => num.serialize(serializer),
             Expression::String(s) => serializer.serialize_str(s),
             Expression::Array(array) => array.serialize(serializer),
-            Expression::Object(object) => object.serialize(serializer),
+            Expression::Object(object) => serializer.collect_map(
+                object
+                    .iter()
+                    .map(|(key, value)| (key.clone().into_value_key(), value)),
+            ),
             Expression::Parenthesis(expr) => expr.serialize(serializer),
             Expression::TemplateExpr(expr) => expr.serialize(serializer),
             Expression::FuncCall(func_call) => func_call.serialize(serializer),
-- 
2.43.0


From 57946529d8c974d9ec217a9a4db9a09729ed13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 49/54] fix: do not write the internal handles of nodes into
 documents

Expressions and structures wrapped into Block and labeled blocks, and
structures used where an expression is expected, were written as
`handle = 0`.
---
 crates/hcl-rs/src/expr/ser/mod.rs      | 14 ++++-
 crates/hcl-rs/src/structure/mod.rs     |  2 +-
 crates/hcl-rs/src/structure/ser/mod.rs | 81 ++++++++++++++++++--------
 3 files changed, 71 insertions(+), 26 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index 8f448c0..50ff590 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -5,6 +5,7 @@ mod tests;
 
 use super::*;
 use crate::ser::{in_internal_serialization, InternalHandles, SerializeInternalHandleStruct};
+use crate::structure::ser::{STRUCTURE_HANDLES, STRUCTURE_HANDLE_MARKER};
 use crate::Error;
 use serde::ser::{self, Impossible, SerializeMap};
 
@@ -350,6 +351,7 @@ impl ser::SerializeMap for SerializeExpressionMap {
 
 pub(crate) enum SerializeExpressionStruct {
     InternalHandle(SerializeInternalHandleStruct),
+    InternalStructureHandle(SerializeInternalHandleStruct),
     Map(SerializeExpressionMap),
 }
 
@@ -357,6 +359,8 @@ impl SerializeExpressionStruct {
     pub(crate) fn new(name: &'static str, len: usize) -> Self {
         if name == EXPR_HANDLE_MARKER {
             SerializeExpressionStruct::InternalHandle(SerializeInternalHandleStruct::new())
+        } else if name == STRUCTURE_HANDLE_MARKER {
+            SerializeExpressionStruct::InternalStructureHandle(SerializeInternalHandleStruct::new())
         } else {
             SerializeExpressionStruct::Map(SerializeExpressionMap::new(Some(len)))
         }
@@ -372,7 +376,10 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
         T: ?Sized + ser::Serialize,
     {
         match self {
-            SerializeExpressionStruct::InternalHandle(ser) => ser.serialize_field(key, value),
+            SerializeExpressionStruct::InternalHandle(ser)
+            | SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                ser.serialize_field(key, value)
+            }
             SerializeExpressionStruct::Map(ser) => ser.serialize_entry(key, value),
         }
     }
@@ -382,6 +389,11 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
             SerializeExpressionStruct::InternalHandle(ser) => ser
                 .end()
                 .map(|handle| EXPR_HANDLES.with(|eh| eh.remove(handle))),
+            SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                let handle = ser.end()?;
+                let structure = STRUCTURE_HANDLES.with(|sh| sh.remove(handle));
+                structure.serialize_fields(ExpressionSerializer)
+            }
             SerializeExpressionStruct::Map(ser) => ser.end(),
         }
     }
diff --git a/crates/hcl-rs/src/structure/mod.rs b/crates/hcl-rs/src/structure/mod.rs
index 97beb4d..19de73f 100644
--- a/crates/hcl-rs/src/structure/mod.rs
+++ b/crates/hcl-rs/src/structure/mod.rs
@@ -52,7 +52,7 @@ pub(crate) mod de;
 mod edit;
 pub mod iter;
 mod json_spec;
-mod ser;
+pub(crate) mod ser;
 #[cfg(test)]
 mod tests;
 
diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index f8d2ade..e55a0e1 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -18,10 +18,13 @@ use crate::{Error, Expression, Identifier, ObjectKey, Result};
 use serde::ser::{self, Serialize, SerializeMap, SerializeStruct};
 use std::fmt;
 
-const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
+pub(crate) const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
+
+// The name of the newtype struct `Body` gets serialized as.
+const BODY_MARKER: &str = "$hcl::Body";
 
 thread_local! {
-    static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
+    pub(crate) static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
 }
 
 impl ser::Serialize for Attribute {
@@ -32,14 +35,23 @@ impl ser::Serialize for Attribute {
         if in_internal_serialization() {
             STRUCTURE_HANDLES.with(|sh| sh.serialize(self.clone(), serializer))
         } else {
-            let mut s = serializer.serialize_struct("Attribute", 2)?;
-            s.serialize_field("key", &self.key)?;
-            s.serialize_field("expr", &self.expr)?;
-            s.end()
+            self.serialize_fields(serializer)
         }
     }
 }
 
+impl Attribute {
+    fn serialize_fields<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: ser::Serializer,
+    {
+        let mut s = serializer.serialize_struct("Attribute", 2)?;
+        s.serialize_field("key", &self.key)?;
+        s.serialize_field("expr", &self.expr)?;
+        s.end()
+    }
+}
+
 impl ser::Serialize for Block {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -48,15 +60,24 @@ impl ser::Serialize for Block {
         if in_internal_serialization() {
             STRUCTURE_HANDLES.with(|sh| sh.serialize(self.clone(), serializer))
         } else {
-            let mut s = serializer.serialize_struct("Block", 3)?;
-            s.serialize_field("identifier", &self.identifier)?;
-            s.serialize_field("labels", &self.labels)?;
-            s.serialize_field("body", &self.body)?;
-            s.end()
+            self.serialize_fields(serializer)
         }
     }
 }
 
+impl Block {
+    fn serialize_fields<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: ser::Serializer,
+    {
+        let mut s = serializer.serialize_struct("Block", 3)?;
+        s.serialize_field("identifier", &self.identifier)?;
+        s.serialize_field("labels", &self.labels)?;
+        s.serialize_field("body", &self.body)?;
+        s.end()
+    }
+}
+
 impl ser::Serialize for Structure {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -66,9 +87,20 @@ impl ser::Serialize for Structure {
             return STRUCTURE_HANDLES.with(|sh| sh.serialize(self.clone(), serializer));
         }
 
+        self.serialize_fields(serializer)
+    }
+}
+
+impl Structure {
+    // Serializes the data of the structure. Used whenever the structure cannot be represented as
+    // such, e.g. because it is part of an expression.
+    pub(crate) fn serialize_fields<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: ser::Serializer,
+    {
         match self {
-            Structure::Attribute(attr) => attr.serialize(serializer),
-            Structure::Block(block) => block.serialize(serializer),
+            Structure::Attribute(attr) => attr.serialize_fields(serializer),
+            Structure::Block(block) => block.serialize_fields(serializer),
         }
     }
 }
@@ -840,6 +872,11 @@ impl ser::Serializer for BlockSerializer {
     {
         if name == LABELED_BLOCK_MARKER {
             LabeledBlockSerializer::new(self.ident).serialize_newtype_struct(name, value)
+        } else if name == BODY_MARKER {
+            Ok(Block::builder(self.ident)
+                .add_structures(value.serialize(BodySerializer)?)
+                .build()
+                .into())
         } else {
             value.serialize(self)
         }
@@ -885,8 +922,8 @@ impl ser::Serializer for BlockSerializer {
         Ok(SerializeBlockMap::new(self.ident, len))
     }
 
-    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
-        Ok(SerializeBlockStruct::new(self.ident, len))
+    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
+        Ok(SerializeBlockStruct::new(self.ident, name, len))
     }
 
     fn serialize_struct_variant(
@@ -1031,14 +1068,14 @@ impl ser::SerializeMap for SerializeBlockMap {
 
 pub(crate) struct SerializeBlockStruct {
     ident: Identifier,
-    structures: Vec<Structure>,
+    inner: SerializeBodyStruct,
 }
 
 impl SerializeBlockStruct {
-    fn new(ident: Identifier, len: usize) -> Self {
+    fn new(ident: Identifier, name: &'static str, len: usize) -> Self {
         SerializeBlockStruct {
             ident,
-            structures: Vec::with_capacity(len),
+            inner: SerializeBodyStruct::new(name, len),
         }
     }
 }
@@ -1051,16 +1088,12 @@ impl ser::SerializeStruct for SerializeBlockStruct {
     where
         T: ?Sized + ser::Serialize,
     {
-        let ident = Identifier::new(key)?;
-
-        self.structures
-            .extend(value.serialize(StructureSerializer::new(ident))?);
-        Ok(())
+        self.inner.serialize_field(key, value)
     }
 
     fn end(self) -> Result<Self::Ok> {
         Ok(Block::builder(self.ident)
-            .add_structures(self.structures)
+            .add_structures(self.inner.end()?)
             .build()
             .into())
     }
-- 
2.43.0


From 68425d29b38787dfdfbe4990abd67ba5b1e92351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 50/54] fix: do not drop elements of arrays that are too long
 for the type

---
 crates/hcl-rs/src/expr/de.rs  | 8 ++++----
 crates/hcl-rs/src/value/de.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index de57be0..2ddd8f9 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -310,7 +310,7 @@ impl<'de> de::Deserializer<'de> for Expression {
             Expression::Bool(b) => visitor.visit_bool(b),
             Expression::Number(v) => v.deserialize_any(visitor).map_err(de::Error::custom),
             Expression::String(s) => visitor.visit_string(s),
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             Expression::Object(v) => visitor.visit_map(v.into_deserializer()),
             Expression::TemplateExpr(v) => visitor.visit_string(v.to_string()),
             Expression::Parenthesis(v) => v.deserialize_any(visitor),
@@ -432,7 +432,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::String(v) => visitor.visit_string(v),
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             Expression::Parenthesis(v) => v.deserialize_byte_buf(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
@@ -465,7 +465,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         V: de::Visitor<'de>,
     {
         match self {
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             Expression::Parenthesis(v) => v.deserialize_seq(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
@@ -517,7 +517,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         V: de::Visitor<'de>,
     {
         match self {
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             Expression::Parenthesis(v) => v.deserialize_struct(name, fields, visitor),
             other => other.deserialize_map(visitor),
         }
diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 0596767..b68f406 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -126,7 +126,7 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
             Value::Bool(b) => visitor.visit_bool(b),
             Value::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
             Value::String(s) => visitor.visit_string(s),
-            Value::Array(array) => visitor.visit_seq(array.into_deserializer()),
+            Value::Array(array) => array.into_deserializer().deserialize_any(visitor),
             Value::Object(object) => {
                 let entries = object.into_iter().map(|(key, value)| (Key(key), value));
                 visitor.visit_map(MapDeserializer::new(entries))
-- 
2.43.0


From 190cbb2d0b2f4a7dcabb7463847b41f4e5f5bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 51/54] fix: do not drop members of objects that are read as
 enum

---
 crates/hcl-rs/src/expr/de.rs  |  6 +++++-
 crates/hcl-rs/src/value/de.rs | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 2ddd8f9..f448c2e 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -349,9 +349,13 @@ impl<'de> de::Deserializer<'de> for Expression {
 
         match self {
             Expression::String(v) => visitor.visit_enum(v.into_deserializer()),
-            Expression::Object(v) => {
+            Expression::Object(v) if v.len() == 1 => {
                 visitor.visit_enum(MapAccessDeserializer::new(v.into_deserializer()))
             }
+            Expression::Object(_) => Err(de::Error::invalid_value(
+                Unexpected::Map,
+                &"object with a single key",
+            )),
             Expression::Operation(v) => visitor.visit_enum(EnumAccess::new(*v)),
             Expression::TemplateExpr(v) => visitor.visit_enum(EnumAccess::new(*v)),
             Expression::Parenthesis(v) => v.deserialize_enum(name, variants, visitor),
diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index b68f406..cf18f16 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -4,7 +4,7 @@ use indexmap::map;
 use serde::de::{
     self,
     value::{MapDeserializer, StringDeserializer},
-    IntoDeserializer, Visitor,
+    IntoDeserializer, Unexpected, Visitor,
 };
 use serde::{forward_to_deserialize_any, Deserialize, Deserializer};
 use std::fmt;
@@ -162,7 +162,13 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
     {
         match self.value {
             Value::String(s) => visitor.visit_enum(s.into_deserializer()),
-            Value::Object(object) => visitor.visit_enum(EnumAccess::new(object)),
+            Value::Object(object) if object.len() == 1 => {
+                visitor.visit_enum(EnumAccess::new(object))
+            }
+            Value::Object(_) => Err(de::Error::invalid_value(
+                Unexpected::Map,
+                &"object with a single key",
+            )),
             _ => Err(de::Error::custom("expected an enum")),
         }
     }
-- 
2.43.0


From 3e65e210bece5b95849af53fbf65ba50bd83a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:44 +0000
Subject: [PATCH 52/54] fix: serialize nodes to `Value` within another
 serialization

`Serialize` implementations that call `hcl::to_value` while being
serialized by this crate received the internal handle of a node instead of
the node.
---
 crates/hcl-rs/src/ser/mod.rs   | 12 +++++++++++-
 crates/hcl-rs/src/value/mod.rs |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/ser/mod.rs b/crates/hcl-rs/src/ser/mod.rs
index 4f5e3f5..bb82f01 100644
--- a/crates/hcl-rs/src/ser/mod.rs
+++ b/crates/hcl-rs/src/ser/mod.rs
@@ -288,9 +288,19 @@ pub(crate) fn in_internal_serialization() -> bool {
 }
 
 pub(crate) fn with_internal_serialization<R, F: FnOnce() -> R>(f: F) -> R {
+    set_internal_serialization(true, f)
+}
+
+// Needed by serializers that do not know about the internal markers because `Serialize`
+// implementations may use them while an internal serialization is in progress.
+pub(crate) fn without_internal_serialization<R, F: FnOnce() -> R>(f: F) -> R {
+    set_internal_serialization(false, f)
+}
+
+fn set_internal_serialization<R, F: FnOnce() -> R>(internal: bool, f: F) -> R {
     INTERNAL_SERIALIZATION.with(|flag| {
         let old = flag.load(Ordering::Relaxed);
-        flag.store(true, Ordering::Relaxed);
+        flag.store(internal, Ordering::Relaxed);
         let _on_drop = OnDrop::new(|| {
             flag.store(old, Ordering::Relaxed);
         });
diff --git a/crates/hcl-rs/src/value/mod.rs b/crates/hcl-rs/src/value/mod.rs
index d61490c..00fab4f 100644
--- a/crates/hcl-rs/src/value/mod.rs
+++ b/crates/hcl-rs/src/value/mod.rs
@@ -9,6 +9,7 @@ use std::fmt;
 use serde::{de::DeserializeOwned, ser::Serialize};
 
 use self::{de::ValueDeserializer, ser::ValueSerializer};
+use crate::ser::without_internal_serialization;
 use crate::{format, Number, Result};
 
 /// The map type used for HCL objects.
@@ -250,7 +251,7 @@ pub fn to_value<T>(value: T) -> Result<Value>
 where
     T: Serialize,
 {
-    value.serialize(ValueSerializer)
+    without_internal_serialization(|| value.serialize(ValueSerializer))
 }
 
 /// Convert a `hcl::Value` into a type `T` that implements `serde::Deserialize`.
-- 
2.43.0


From 5220f393476c2c3f7a6d78111d61a803a00850d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:37 +0000
Subject: [PATCH 53/54] fix: print `for` as object key as it was written

In front of an assignment operator, `for` is read as identifier.
---
 crates/hcl-edit/src/encode/expr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index b1a9e9b..5a7e270 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -8,6 +8,7 @@ use crate::expr::{
     ObjectValueTerminator, Parenthesis, Splat, Traversal, TraversalOperator, UnaryOp,
     UnaryOperator,
 };
+use crate::Decorate;
 use std::fmt::{self, Write};
 
 impl Encode for Null {
@@ -86,8 +87,13 @@ impl Encode for Object {
 
         for (i, (key, value)) in self.iter().enumerate() {
             match key {
-                // A leading `for` would turn the object into a for expression.
-                ObjectKey::Ident(ident) if i == 0 && ident.as_str() == "for" => {
+                // A leading `for` would turn the object into a for expression, unless the
+                // assignment operator follows immediately.
+                ObjectKey::Ident(ident)
+                    if i == 0
+                        && ident.as_str() == "for"
+                        && !ident.decor().suffix().is_some_and(|s| s.is_empty()) =>
+                {
                     encode_decorated(ident, buf, TRAILING_SPACE_DECOR, |buf| {
                         encode_quoted_string(buf, ident.as_str())
                     })?;
-- 
2.43.0


From 072174b09a88baf780943092d4703a3374508893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:49 +0000
Subject: [PATCH 54/54] fix: do not report operators that are not needed for
 in-place evaluation

The index operators after a splat over no elements are never evaluated, so
their expressions must not fail the in-place evaluation either.
---
 crates/hcl-rs/src/eval/impls.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 82a0737..36b9895 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -309,12 +309,20 @@ impl Evaluate for Traversal {
 
     fn evaluate_in_place(&mut self, ctx: &Context) -> EvalResult<(), Errors> {
         #[allow(clippy::manual_try_fold)]
-        self.operators
+        let res = self
+            .operators
             .iter_mut()
             .fold(Ok(()), |res, operator| match operator {
                 TraversalOperator::Index(expr) => res.add_errors(expr.evaluate_in_place(ctx)),
                 _ => res,
-            })
+            });
+
+        // The operators that follow a splat are not needed if it has no elements.
+        if res.is_err() && self.evaluate(ctx).is_ok() {
+            return Ok(());
+        }
+
+        res
     }
 }
 
-- 
2.43.0

