From c6f805245827ec5e4138045532d615a208881f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 01/18] fix: report a modulus by zero as an error instead of
 panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From 2080f58fb9b83bb6110df2eba900f6fb4c804385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/18] fix: report zero raised to a negative power as an error
 instead of panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From d34a50ab4a8205bc06075e690c011101146efc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 03/18] fix: reject an output radix of 1, which no number can
 be displayed in

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From 848f89cc18203691cac115007c1c38fe24d64f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 04/18] fix: compute the total precision in 16 bits so that
 large precisions don't overflow

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..ac10822 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -76,7 +76,7 @@ pub fn make_decimal_string(
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-    precision: u8,
+    precision: u16,
     radix: u8,
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..2c3d7be 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,7 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +164,7 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From fc7e747090235218f65ec285022dbdaac1719e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 05/18] fix: keep Newton's method iterates at a bounded size so
 that roots don't take forever

---
 src/operations.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index ac10822..c4dbeb9 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -123,7 +123,7 @@ pub fn exponentiate(
     let precision = BigUint::from(precision + 1);
     let radix = BigInt::from(radix);
     // The largest amount we are okay with being wrong by.
-    let max_error = BigRational::new(one_signed.clone(), radix.pow(precision).into());
+    let max_error = BigRational::new(one_signed.clone(), radix.clone().pow(precision).into());
     let f_magnitude = |x: &BigInt| -> BigRational {
         (BigRational::from(x.clone()).pow(&degree) - &radicand).abs()
     };
@@ -181,9 +181,13 @@ pub fn exponentiate(
     };
 
     // Step 3.4: Newton's method
+    // Each step multiplies the number of digits in `x` by `degree`. Digits far below `max_error` don't
+    // help, but they quickly make the calculation endless. So we drop them, keeping a couple of extra
+    // digits so that the rounding error stays insignificant.
+    let scale = max_error.denom() * &radix * &radix;
     loop {
-        let prev_x = x.clone();
-        x = next_x(x);
+        let prev_x = (x * &scale).round() / &scale;
+        x = next_x(prev_x.clone());
         let error = (&x - prev_x).abs();
         if error <= max_error {
             break;
-- 
2.43.0


From ac12c54028323915de46d302f073e88b9e2d8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 06/18] fix: don't start Newton's method at zero, where it
 divides by zero

---
 src/operations.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index c4dbeb9..0f30741 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -177,7 +177,12 @@ pub fn exponentiate(
             return Ok(guess_ratio);
         }
 
-        guess_ratio
+        // Newton's method can't start at 0 since the derivative is 0 there.
+        if guess_ratio.is_zero() {
+            BigRational::from(radicand.numer().signum())
+        } else {
+            guess_ratio
+        }
     };
 
     // Step 3.4: Newton's method
-- 
2.43.0


From ce64ed82f6d30725379966aaec19d25e7142aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 07/18] fix: honor the output radix, commas and upper settings
 in fractional output

---
 src/main.rs       | 17 +++++++++++------
 src/operations.rs | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..7a1b4d1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,7 +23,7 @@ use crossterm::{
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
-use operations::make_decimal_string;
+use operations::{make_decimal_string, make_fractional_string};
 use saved_data::SavedData;
 use std::{
     cmp::{max, min},
@@ -570,13 +570,18 @@ fn calculate(
     let st = SyntaxTree::new(tokens.into())?;
     let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;
 
+    let output_radix = match args.convert_to_radix {
+        Some(radix) => radix,
+        None => args.radix,
+    };
     if args.fractional {
-        Ok(result.to_string())
+        Ok(make_fractional_string(
+            &result,
+            output_radix,
+            args.commas,
+            args.upper,
+        ))
     } else {
-        let output_radix = match args.convert_to_radix {
-            Some(radix) => radix,
-            None => args.radix,
-        };
         Ok(make_decimal_string(
             &result,
             output_radix,
diff --git a/src/operations.rs b/src/operations.rs
index 0f30741..4c075d6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -73,6 +73,22 @@ pub fn make_decimal_string(
     }
 }
 
+/// Displays the value as a fraction in lowest terms or, if it is an integer, as just that integer.
+pub fn make_fractional_string(value: &BigRational, radix: u8, commas: bool, upper: bool) -> String {
+    let integer_string = |integer: &BigInt| {
+        make_decimal_string(&BigRational::from(integer.clone()), radix, 0, commas, upper)
+    };
+    if value.is_integer() {
+        integer_string(value.numer())
+    } else {
+        format!(
+            "{}/{}",
+            integer_string(value.numer()),
+            integer_string(value.denom())
+        )
+    }
+}
+
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-- 
2.43.0


From be05700c910b12cc37b720cc82d63f2c5fcb0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 08/18] fix: treat a window with no room besides the prompt as
 too narrow instead of dividing by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7a1b4d1..6b31e76 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -175,7 +175,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From e95b36e1081485dcfd337eedaefd2cd4d83173f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 09/18] fix: report a stored denominator of zero as an
 inconsistency instead of panicking

---
 src/saved_data.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 005f008..209a215 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,6 +1,6 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
-use num::{bigint::BigInt, rational::BigRational};
+use num::{bigint::BigInt, rational::BigRational, Zero};
 use rusqlite::{self, named_params, OptionalExtension, Transaction};
 use std::{env, fs::create_dir, io, path::Path};
 
@@ -465,6 +465,13 @@ impl SavedData {
                 .into());
             }
         };
+        if denom.is_zero() {
+            return Err(CalculatorDatabaseInconsistencyError::new(format!(
+                "Stored denominator for variable '{}' is zero",
+                &name
+            ))
+            .into());
+        }
         let value = BigRational::new(numer, denom);
 
         Ok(Some(Variable { name, value }))
-- 
2.43.0


From b95d60e129d12f2d89bb9690f72bd55254e79f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 10/18] fix: scroll the alternate screen when it is full so
 that results aren't overwritten

---
 src/main.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6b31e76..36691a4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -218,13 +218,9 @@ fn interactive_calc(
                     current_index = end_index;
                 }
                 if input_complete {
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    // MoveToNextLine doesn't scroll at the bottom of the window, so the next line
+                    // would overwrite this one.
+                    queue!(stdout, Print("\n"), MoveToColumn(0))?;
                 } else {
                     queue!(stdout, MoveTo(cursor_col, cursor_row))?;
                 }
@@ -496,13 +492,9 @@ fn interactive_calc(
         // column 0. So we need to make sure that we do that manually.
         for line in output.split('\n') {
             queue!(stdout, Print(line))?;
-            if args.alternate_screen {
-                queue!(stdout, MoveToNextLine(1))?;
-            } else {
-                // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                // alternate screen.
-                queue!(stdout, Print("\n"), MoveToColumn(0))?;
-            }
+            // MoveToNextLine doesn't scroll at the bottom of the window, so the next line
+            // would overwrite this one.
+            queue!(stdout, Print("\n"), MoveToColumn(0))?;
         }
         stdout.flush()?;
     } // 'calculate: loop
-- 
2.43.0


From 7c3fd0c49405c1ab06d2588ddce01148e5805ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 11/18] fix: scroll the alternate screen when the edited line
 grows past its bottom

---
 src/main.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36691a4..0b86b2f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,7 +18,7 @@ use crossterm::{
     terminal::{
         self, Clear,
         ClearType::{CurrentLine, FromCursorDown},
-        EnterAlternateScreen, LeaveAlternateScreen,
+        EnterAlternateScreen, LeaveAlternateScreen, ScrollUp,
     },
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
@@ -162,8 +162,9 @@ fn interactive_calc(
     'calculate: loop {
         let mut cursor_pos: usize = 0;
         let mut scroll_offset: usize = 0;
-        let input_start = cursor::position()?;
-        let mut cols = usize::from(terminal::size()?.0);
+        let mut input_start = cursor::position()?;
+        let (width, mut rows) = terminal::size()?;
+        let mut cols = usize::from(width);
         let mut input_complete = false;
 
         'get_input_line: loop {
@@ -179,6 +180,18 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
+                if args.alternate_screen {
+                    // If the input has grown past the bottom of the window, scroll the window to
+                    // make room for it.
+                    let last_index = max(cursor_pos, current_input.len().saturating_sub(1));
+                    let end_row = usize::from(input_start.1) + last_index / available_cols + 1;
+                    let overflow = end_row.saturating_sub(usize::from(rows));
+                    let scroll_rows = min(u16::try_from(overflow)?, input_start.1);
+                    if scroll_rows > 0 {
+                        queue!(stdout, ScrollUp(scroll_rows))?;
+                        input_start.1 -= scroll_rows;
+                    }
+                }
                 let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
@@ -462,8 +475,9 @@ fn interactive_calc(
                         // find a way to actually get these events.
                         return Err(InternalCalculatorError::new("Paste unimplemented!").into());
                     }
-                    Event::Resize(width, _) => {
+                    Event::Resize(width, height) => {
                         cols = usize::from(width);
+                        rows = height;
                         break 'get_event;
                     }
                     _ => {}
-- 
2.43.0


From 63d1a02426f456cf4bd8454181f1a12dd5dbc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 12/18] fix: make roots stop only when the remaining error is
 small enough for their degree

---
 src/operations.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 4c075d6..78c72db 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -205,11 +205,12 @@ pub fn exponentiate(
     // Each step multiplies the number of digits in `x` by `degree`. Digits far below `max_error` don't
     // help, but they quickly make the calculation endless. So we drop them, keeping a couple of extra
     // digits so that the rounding error stays insignificant.
-    let scale = max_error.denom() * &radix * &radix;
+    let scale = max_error.denom() * degree_ratio.numer() * &radix * &radix;
     loop {
         let prev_x = (x * &scale).round() / &scale;
         x = next_x(prev_x.clone());
-        let error = (&x - prev_x).abs();
+        // The result can still be wrong by up to `degree - 1` times the size of the last step.
+        let error = (&x - prev_x).abs() * &degree_dec_ratio;
         if error <= max_error {
             break;
         }
-- 
2.43.0


From e00aede7a63b469c5ab9f3ac9ead79fb35165cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 13/18] fix: keep the cursor inside the visible text in the
 narrowest window

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0b86b2f..be0d819 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -257,8 +257,9 @@ fn interactive_calc(
                     if current_input.len() < scroll_window_size {
                         scroll_offset = 0;
                     } else {
+                        // The character at the cursor has to be within the scroll bounds.
                         let rel_cursor_pos =
-                            max(1, min(scroll_window_size, (scroll_window_size / 3) * 2));
+                            min(scroll_window_size - 1, max(1, (scroll_window_size / 3) * 2));
                         if cursor_pos < rel_cursor_pos {
                             scroll_offset = 0
                         } else {
-- 
2.43.0


From bd9d54478ddbadb75215d5e646492326ee3b2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 14/18] fix: begin writing transactions with the write lock so
 that sessions wait for each other

---
 src/saved_data.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 209a215..5a77d4d 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,7 +1,7 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational, Zero};
-use rusqlite::{self, named_params, OptionalExtension, Transaction};
+use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
 use std::{env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
@@ -136,7 +136,10 @@ impl SavedData {
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
 
-        let transaction = connection.transaction()?;
+        // Transactions that write take the write lock at their beginning. SQLite then waits for
+        // other sessions to finish writing. When upgrading from a read lock, it can't wait (because
+        // of the risk of a deadlock) and fails immediately instead.
+        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         transaction.execute(
             "CREATE TABLE IF NOT EXISTS meta_int(
@@ -241,7 +244,9 @@ impl SavedData {
     /// history until the expected maximum size is reached.
     /// Returns the id of the history entry that was inserted.
     pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         let maybe_orig_front: Option<i64> = transaction.query_row(
             "SELECT value FROM input_history_tags WHERE key=:key",
             named_params! {
@@ -519,7 +524,9 @@ impl SavedData {
             .into());
         }
 
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         transaction.execute(
             "INSERT OR REPLACE INTO meta_int (key, value) VALUES (:key, :value)",
             named_params! {
-- 
2.43.0


From 7d39dab99e2e8261b86636f6eb125d3ca30974be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 15/18] fix: don't fail on variables when another session
 already evicted the input

---
 src/saved_data.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 5a77d4d..fa458f1 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -395,14 +395,16 @@ impl SavedData {
     }
 
     /// Sets or updates the variable in the variable history.
+    /// If another session already evicted the input history entry that sets the variable, the
+    /// variable has expired along with it.
     pub fn set_variable(
         &mut self,
         var: &Variable,
         last_used_by_id: i64,
     ) -> Result<(), Box<dyn std::error::Error>> {
-        self.connection.execute(
+        let stored_count = self.connection.execute(
             "INSERT INTO variable_history (name, numer, denom, last_used_by)
-                    VALUES (:name, :numer, :denom, :last_used_by)",
+                    SELECT :name, :numer, :denom, id FROM input_history WHERE id=:last_used_by",
             named_params! {
                 ":name": var.name,
                 ":numer": var.value.numer().to_str_radix(VARIABLE_STORAGE_RADIX),
@@ -410,17 +412,23 @@ impl SavedData {
                 ":last_used_by": last_used_by_id,
             },
         )?;
+        if stored_count == 0 {
+            self.clear_variable(&var.name)?;
+        }
         Ok(())
     }
 
-    /// Updates the `last_used_by` field of the variable specified.
+    /// Updates the `last_used_by` field of the variable specified, unless another session already
+    /// evicted the input history entry given.
     pub fn touch_variable(
         &mut self,
         name: &str,
         last_used_by_id: i64,
     ) -> Result<(), Box<dyn std::error::Error>> {
         self.connection.execute(
-            "UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name",
+            "UPDATE variable_history SET last_used_by=:last_used_by
+                    WHERE name=:name
+                        AND EXISTS (SELECT 1 FROM input_history WHERE id=:last_used_by)",
             named_params! {
                 ":last_used_by": last_used_by_id,
                 ":name": name,
-- 
2.43.0


From ec8be3d6a2ae6ff0cddf50ffc56e7defff66549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 16/18] fix: a relative data directory that starts with file:
 is no URI

---
 src/saved_data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index fa458f1..3c44e58 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -132,7 +132,8 @@ impl SavedData {
                 return Err(e.into());
             }
         }
-        let db_path = data_dir_path.join(HISTORY_DB_NAME);
+        // SQLite would take a relative path that starts with `file:` for a URI.
+        let db_path = Path::new(".").join(data_dir_path).join(HISTORY_DB_NAME);
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
 
-- 
2.43.0


From 71cd7ab27d40f4ce31c3325cc19b8486f912e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 17/18] fix: accept -2^63 as the 64-bit signed integer it is

---
 src/token.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index 1d84b70..46f8b5a 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -402,11 +402,15 @@ impl Tokenizer {
                             positioned_token.position,
                         ));
                     }
-                    match i64::try_from(number.numer()) {
+                    let signed_value = match just_read_negative_sign_pos {
+                        Some(_) => -number.numer(),
+                        None => number.numer().clone(),
+                    };
+                    match i64::try_from(signed_value) {
                         Ok(integer) => match just_read_negative_sign_pos {
                             Some(neg_pos) => {
                                 result.push(Positioned::new_span(
-                                    -integer,
+                                    integer,
                                     neg_pos,
                                     positioned_token.position,
                                 ));
-- 
2.43.0


From 483760cf5f7abf066b0d72647ca835cc062cf529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:22 +0000
Subject: [PATCH 18/18] fix: /reloadvar handles its variables in the order
 given instead of a random one

---
 src/commands.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/commands.rs b/src/commands.rs
index aa4634b..549b32d 100644
--- a/src/commands.rs
+++ b/src/commands.rs
@@ -263,11 +263,11 @@ impl Command for ReloadVarCommand {
         arguments: Positioned<String>,
         data: DataForCommands,
     ) -> Result<(String, Vec<String>), CalculatorFailure> {
-        let variable_tokens: HashSet<Positioned<String>> = data
-            .tokenizer
-            .tokenize_variable_list(&arguments.value)?
-            .into_iter()
-            .collect();
+        let mut variable_tokens: Vec<Positioned<String>> =
+            data.tokenizer.tokenize_variable_list(&arguments.value)?;
+        // Handle each variable only once, in the order that they were given.
+        let mut seen: HashSet<String> = HashSet::new();
+        variable_tokens.retain(|variable_token| seen.insert(variable_token.value.clone()));
 
         let db = data.maybe_db.ok_or(MissingCapabilityError::NoDatabase)?;
         let vars = data
-- 
2.43.0

