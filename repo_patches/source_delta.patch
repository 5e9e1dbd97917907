From 99f6a994d10eeed722720999b054acd76b88784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 01/27] fix: report a failed conversion through the process
 exit status

---
 nanvm/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm/src/main.rs b/nanvm/src/main.rs
index 3662f75..e9573ad 100644
--- a/nanvm/src/main.rs
+++ b/nanvm/src/main.rs
@@ -1,6 +1,6 @@
 use io_impl::RealIo;
 use nanvm_lib::app::run;
 
-fn main() {
-    let _ = run(&RealIo::default());
+fn main() -> std::io::Result<()> {
+    run(&RealIo::default())
 }
-- 
2.43.0


From 94eb7ac8a29aed083d0296656ffef285e5346b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 02/27] fix: division of big integers no longer loops forever
 or underflows when the quotient digit is overestimated

---
 nanvm-lib/src/js/js_bigint.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..ae8efde 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -230,29 +230,24 @@ pub fn div_mod<M: Manager>(
                 if cmp_vec(&a, b) == Ordering::Less {
                     return (new_bigint(m, sign, result), new_bigint(m, sign, a));
                 }
+                // The quotient digit is estimated from below (unless `b` has a single digit, when
+                // the estimate is exact), so that `b * q` never exceeds `a` and every step makes
+                // progress.
                 let a_high_digit = a.len() - 1;
                 let b_high_digit = b.len() - 1;
-                let a_high = a[a_high_digit];
-                let b_high = b[b_high_digit];
-                let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                    Ordering::Less | Ordering::Equal => {
-                        (a_high_digit - b_high_digit, a_high / b_high)
-                    }
-                    Ordering::Greater => {
-                        let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
-                        (
-                            a_high_digit - b_high_digit - 1,
-                            (a_high_2 / b_high as u128) as u64,
-                        )
-                    }
+                let a_high = a[a_high_digit] as u128;
+                let b_high = b[b_high_digit] as u128 + (b_high_digit > 0) as u128;
+                let (q_index, q_digit) = if a_high >= b_high {
+                    (a_high_digit - b_high_digit, (a_high / b_high) as u64)
+                } else if a_high_digit > b_high_digit {
+                    let a_high_2 = (a_high << 64) + a[a_high_digit - 1] as u128;
+                    (a_high_digit - b_high_digit - 1, (a_high_2 / b_high) as u64)
+                } else {
+                    (0, 1)
                 };
                 let mut q = new_resize(q_index + 1);
                 q[q_index] = q_digit;
-                let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
-                    m = mul_vec(b, &q);
-                }
+                let m = mul_vec(b, &q);
                 a = sub_vec(&a, &m);
                 a = normalize_vec(a);
                 result = add_vec(&result, &q);
-- 
2.43.0


From c876fbaf11a4550033899e8e0b0df0991e755f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 03/27] fix: decimals above half of the smallest subnormal
 number round to it instead of zero

---
 nanvm-lib/src/big_numbers/big_float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..c865924 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -210,7 +210,8 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            // -1075 covers the values between a half and the whole of the smallest subnormal number
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From 0cca60cebfb0a24ccc3d10b80d500c13b5e8ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 04/27] fix: a negative zero literal keeps its sign

---
 nanvm-lib/src/big_numbers/big_float.rs |  5 ++++-
 nanvm-lib/src/tokenizer/mod.rs         | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index c865924..996475d 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,10 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            return BigFloat {
+                sign: self.sign,
+                ..float_zero(self.manager)
+            };
         }
 
         if self.exp == 0 {
diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..822b8f5 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -158,7 +158,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [zero_into_number_token(s)].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -258,6 +258,13 @@ impl<D: Dealloc> IntState<D> {
     }
 }
 
+const fn zero_into_number_token<D: Dealloc>(s: Sign) -> JsonToken<D> {
+    JsonToken::Number(match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    })
+}
+
 fn int_state_into_number_token<M: Manager>(
     manager: M,
     state: IntState<M::Dealloc>,
@@ -694,10 +701,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [zero_into_number_token(s)].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From 6048c90cdaf3e1c1ade4ead2be0787c3d38f3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 05/27] fix: number literals with huge exponents no longer
 overflow or exhaust memory

---
 nanvm-lib/src/tokenizer/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 822b8f5..d0b34a2 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -207,7 +207,13 @@ impl ParseUnicodeCharState {
     }
 }
 
-pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
+pub fn bigfloat_to_f64<M: Manager>(mut bf_10: BigFloat<10, M>) -> f64 {
+    // Beyond these bounds the result is an infinity or a zero whatever the exponent is, and the cost
+    // of the conversion is proportional to the exponent. A digit of the significand is less than
+    // 10^20.
+    const MAX_EXP: i64 = 400;
+    let min_exp = -MAX_EXP - 20 * bf_10.significand.items().len() as i64;
+    bf_10.exp = bf_10.exp.clamp(min_exp, MAX_EXP);
     let bf_2 = bf_10.to_bin(54);
     bf_2.to_f64()
 }
@@ -325,7 +331,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -334,11 +343,10 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From 844bb2bc7f623043d324e1a82043b053a1316e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 06/27] fix: dropping the last reference to a bigint value
 releases it instead of panicking

---
 nanvm-lib/src/js/any_internal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..44b553d 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,6 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
+            bitset::REF_TYPE_BIGINT => p.block::<JsBigint, D>().delete(),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 7b2b8541744297234bf6d39f576f7ec449e02d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 07/27] fix: bigint values are written to DJS and rejected by
 JSON instead of panicking

---
 nanvm-lib/src/js/js_bigint.rs       | 33 ++++++++++++++++++++++++++++-
 nanvm-lib/src/serializer/to_djs.rs  |  9 +++++++-
 nanvm-lib/src/serializer/to_json.rs |  3 ++-
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index ae8efde..077e267 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -1,4 +1,4 @@
-use std::{cmp::Ordering, iter};
+use std::{cmp::Ordering, fmt::Write, iter};
 
 use crate::{
     common::{bit_subset64::BitSubset64, default::default, vec::new_resize},
@@ -476,6 +476,37 @@ impl JsBigint {
             Sign::Positive
         }
     }
+
+    pub fn to_decimal_string(&self) -> String {
+        // the greatest power of 10 in `u64`.
+        const BASE: u64 = 10_000_000_000_000_000_000;
+        let mut value = normalize_vec(self.items().to_vec());
+        let mut digits: Vec<u64> = default();
+        while !value.is_empty() {
+            let mut rest = 0;
+            for v in value.iter_mut().rev() {
+                let n = (rest as u128) << 64 | *v as u128;
+                *v = (n / BASE as u128) as u64;
+                rest = (n % BASE as u128) as u64;
+            }
+            digits.push(rest);
+            value = normalize_vec(value);
+        }
+        let mut result = String::default();
+        match digits.pop() {
+            None => result.push('0'),
+            Some(first) => {
+                if self.sign() == Sign::Negative {
+                    result.push('-');
+                }
+                result.push_str(&first.to_string());
+            }
+        }
+        for d in digits.iter().rev() {
+            write!(result, "{d:019}").expect("writing to a string never fails");
+        }
+        result
+    }
 }
 
 fn add_vec(lhs: &[u64], rhs: &[u64]) -> Vec<u64> {
diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4df0d51..1e581df 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -1,5 +1,7 @@
 use crate::{
-    js::{any::Any, js_array::JsArrayRef, js_object::JsObjectRef, type_::Type},
+    js::{
+        any::Any, js_array::JsArrayRef, js_bigint::JsBigintRef, js_object::JsObjectRef, type_::Type,
+    },
     mem::manager::Dealloc,
 };
 
@@ -157,6 +159,11 @@ fn write_with_const_refs<D: Dealloc>(
                 )
             }
         }
+        Type::Bigint => {
+            let bigint = any.try_move::<JsBigintRef<D>>().unwrap();
+            write_json.write_str(&bigint.to_decimal_string())?;
+            write_json.write_char('n')
+        }
         _ => write_json.write_json(any),
     }
 }
diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index cf18014..8af9e04 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -85,7 +85,8 @@ pub trait WriteJson: Write {
                 w.write_json(v.clone())
             }),
             Visitor::Array(a) => self.write_list('[', ']', a, |w, i| w.write_json(i.clone())),
-            Visitor::Bigint(_) => todo!(),
+            // JSON has no representation for bigint values.
+            Visitor::Bigint(_) => Err(fmt::Error),
         }
     }
 }
-- 
2.43.0


From a6df7617df6c3a5b1f2108a59ffa9f0a2f5becb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 08/27] fix: infinities are written as a literal that is read
 back as an infinity

---
 nanvm-lib/src/serializer/to_json.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index 8af9e04..034d4af 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -74,6 +74,9 @@ pub trait WriteJson: Write {
 
     fn write_json(&mut self, any: Any<impl Dealloc>) -> fmt::Result {
         match to_visitor(any) {
+            // There is no literal for an infinity but an overflowing number is read as one.
+            Visitor::Number(f64::INFINITY) => self.write_str("1e999"),
+            Visitor::Number(f64::NEG_INFINITY) => self.write_str("-1e999"),
             // TODO: replace with proper JSON number serializer.
             Visitor::Number(n) => self.write_str(n.to_string().as_str()),
             Visitor::Null => self.write_str("null"),
-- 
2.43.0


From 5c47b96879b4e3d95c7afe9489bed4a9456bf283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 09/27] fix: a NaN with a sign or payload stored in a value is
 no longer taken for another type

---
 nanvm-lib/src/js/number.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..bab5713 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -2,6 +2,9 @@ use crate::mem::manager::Dealloc;
 
 use super::{any_cast::AnyCast, bitset::EXTENSION};
 
+/// The only representation of NaN in `Any`.
+const NAN: u64 = 0x7FF8_0000_0000_0000;
+
 impl<D: Dealloc> AnyCast<D> for f64 {
     #[inline(always)]
     unsafe fn has_same_type(u: u64) -> bool {
@@ -9,7 +12,12 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
-        self.to_bits()
+        // Other NaN payloads are reserved for values of other types.
+        if self.is_nan() {
+            NAN
+        } else {
+            self.to_bits()
+        }
     }
     #[inline(always)]
     unsafe fn from_any_internal(u: u64) -> Self {
-- 
2.43.0


From ba92a9842f8e86cb82079f7c04ebfe778182f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 10/27] fix: an exhausted global allocator is reported instead
 of writing through a null pointer

---
 nanvm-lib/src/mem/global.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/global.rs b/nanvm-lib/src/mem/global.rs
index 289a234..7a4fdfc 100644
--- a/nanvm-lib/src/mem/global.rs
+++ b/nanvm-lib/src/mem/global.rs
@@ -1,5 +1,5 @@
 use core::{alloc::Layout, cell::Cell};
-use std::alloc::{alloc, dealloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error};
 
 use super::manager::{Dealloc, Manager};
 
@@ -20,7 +20,11 @@ impl Manager for Global {
     type Dealloc = Global;
     #[inline(always)]
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
-        alloc(layout)
+        let p = alloc(layout);
+        if p.is_null() {
+            handle_alloc_error(layout)
+        }
+        p
     }
 }
 
-- 
2.43.0


From bf31cae9aa77d758275eeff36637dc78b17797a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 11/27] fix: imports of modules by absolute paths and by paths
 with '.' components

---
 nanvm-lib/src/parser/path.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..54e649e 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -1,17 +1,20 @@
 use crate::common::default::default;
 
 pub fn normalize(path: &str) -> String {
+    let is_absolute = path.starts_with('/');
     let path_split: Vec<_> = path.split('/').collect();
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    // the parent of a root is the root.
+                    None if is_absolute => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,10 +25,18 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    let result = result_split.join("/");
+    if is_absolute {
+        "/".to_string() + &result
+    } else {
+        result
+    }
 }
 
 pub fn concat(a: &str, b: &str) -> String {
+    if a.is_empty() || b.starts_with('/') {
+        return normalize(b);
+    }
     let mut concat = a.to_string();
     concat.push('/');
     concat.push_str(b);
@@ -35,6 +46,7 @@ pub fn concat(a: &str, b: &str) -> String {
 pub fn split(path: &str) -> (&str, &str) {
     match path.rsplit_once('/') {
         None => (default(), path),
+        Some(("", file)) => ("/", file),
         Some(t) => t,
     }
 }
-- 
2.43.0


From a8f957affbd1be9bcb148e443f41133b7e574da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 12/27] fix: a failed import no longer makes a later import
 from the same module cache a circular dependency

---
 nanvm-lib/src/parser/parser.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..21b2e4a 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -117,10 +117,16 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                                 ..any_state
                             })
                         }
-                        Err(e) => AnyResult::Error(e),
+                        Err(e) => {
+                            context.module_cache.progress.remove(&current_path);
+                            AnyResult::Error(e)
+                        }
                     }
                 }
-                Err(_) => AnyResult::<M>::Error(ParseError::CannotReadFile),
+                Err(_) => {
+                    context.module_cache.progress.remove(&current_path);
+                    AnyResult::<M>::Error(ParseError::CannotReadFile)
+                }
             }
         }
         _ => AnyResult::Error(ParseError::WrongRequireStatement),
@@ -191,10 +197,16 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                                     new_line: false,
                                 })
                             }
-                            Err(e) => JsonState::Error(e),
+                            Err(e) => {
+                                context.module_cache.progress.remove(&current_path);
+                                JsonState::Error(e)
+                            }
                         }
                     }
-                    Err(_) => JsonState::Error(ParseError::CannotReadFile),
+                    Err(_) => {
+                        context.module_cache.progress.remove(&current_path);
+                        JsonState::Error(ParseError::CannotReadFile)
+                    }
                 }
             }
             _ => panic!("JsonState::ParseRoot expected when root_state.parse returns import"),
@@ -227,13 +239,15 @@ pub fn parse<M: Manager + 'static, I: Io>(
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
     context.module_cache.progress.insert(context.path.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
-    match read_result {
+    let result = match read_result {
         Ok(s) => {
             let tokens = tokenize(context.manager, s);
             parse_with_tokens(context, tokens.into_iter())
         }
         Err(_) => Err(ParseError::CannotReadFile),
-    }
+    };
+    context.module_cache.progress.remove(&context.path);
+    result
 }
 
 pub fn parse_with_tokens<M: Manager + 'static, I: Io>(
-- 
2.43.0


From cfb2a5b754e7c47cbcd179f7a9864a8e8bf02da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 13/27] fix: a module that imports the root module by another
 spelling of its path is a circular dependency

---
 nanvm-lib/src/parser/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 21b2e4a..7af5212 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -237,7 +237,8 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    let path = normalize(&context.path);
+    context.module_cache.progress.insert(path.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
     let result = match read_result {
         Ok(s) => {
@@ -246,7 +247,7 @@ pub fn parse<M: Manager + 'static, I: Io>(
         }
         Err(_) => Err(ParseError::CannotReadFile),
     };
-    context.module_cache.progress.remove(&context.path);
+    context.module_cache.progress.remove(&path);
     result
 }
 
-- 
2.43.0


From bef0e35ec4dd6cced457ff50f5641a8d8329cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 14/27] fix: imports of an imported module are resolved
 relative to that module

---
 nanvm-lib/src/parser/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 7af5212..0e6cd5c 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -12,6 +12,7 @@ use crate::{
     tokenizer::{tokenize, JsonToken},
 };
 use io_trait::Io;
+use std::mem::replace;
 
 pub struct Context<'a, M: Manager, I: Io> {
     manager: M,
@@ -103,7 +104,10 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
+                    // imports of a module are relative to the module
+                    let parent_path = replace(&mut context.path, current_path.clone());
                     let res = parse_with_tokens(context, tokens.into_iter());
+                    context.path = parent_path;
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -182,7 +186,10 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
+                        // imports of a module are relative to the module
+                        let parent_path = replace(&mut context.path, current_path.clone());
                         let res = parse_with_tokens(context, tokens.into_iter());
+                        context.path = parent_path;
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
-- 
2.43.0


From f24d2b5dc138a76c1369460a7dd30dd5fa13262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 15/27] fix: consts of a DJS output are written in a
 deterministic order and without revisiting shared values

---
 nanvm-lib/src/serializer/to_djs.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 1e581df..95475a1 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -72,6 +72,9 @@ fn write_compound_const<D: Dealloc>(
     to_be_consts: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
+    if const_refs.contains_key(any) {
+        return fmt::Result::Ok(());
+    }
     any.for_each(|_k, v| write_consts_and_any(write_json, v, to_be_consts, const_refs))?;
     if to_be_consts.remove(any).is_some() {
         let id = const_refs.len();
@@ -104,24 +107,6 @@ fn write_consts_and_any<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
-/// Peeks one value from a hash map. This helper resolves a borrowing issue in write_consts - that
-/// function needs to iterate through a hash map while mutating that hash map.
-fn peek<D: Dealloc>(hash_map: &HashMap<Any<D>, Seen>) -> Option<Any<D>> {
-    Some(hash_map.iter().next()?.0.clone())
-}
-
-/// Writes const definitions for objects, arrays in the right order (with no forward references).
-fn write_consts<D: Dealloc>(
-    write_json: &mut (impl WriteJson + ?Sized),
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
-    const_refs: &mut HashMap<Any<D>, usize>,
-) -> fmt::Result {
-    while let Some(any) = peek(to_be_consts) {
-        write_consts_and_any(write_json, &any, to_be_consts, const_refs)?;
-    }
-    fmt::Result::Ok(())
-}
-
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -180,7 +165,7 @@ pub trait WriteDjs: WriteJson {
         const_tracker
             .visited
             .retain(|_, seen| *seen == Seen::Repeatedly);
-        write_consts(self, &mut const_tracker.visited, &mut const_refs)?;
+        write_consts_and_any(self, &any, &mut const_tracker.visited, &mut const_refs)?;
         if common_js {
             self.write_str("module.exports=")?;
         } else {
-- 
2.43.0


From f7602f164eb5ef15007cc769945707dd6b718ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 16/27] fix: statements separated by semicolons, which the DJS
 serializer writes, are parsed

---
 nanvm-lib/src/parser/root_state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..9025c1d 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,14 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                // a semicolon ends a statement as a new line does
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From 558cc88078188c96f4b24c30b6942f9afe5df445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 17/27] fix: a semicolon inside of a const value is a parse
 error and not a panic

---
 nanvm-lib/src/parser/const_state.rs | 3 ++-
 nanvm-lib/src/parser/parser.rs      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..ff44c2f 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -2,6 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     json_state::JsonState,
     root_state::{RootState, RootStatus},
+    shared::ParseError,
 };
 use crate::{mem::manager::Manager, tokenizer::JsonToken};
 
@@ -13,7 +14,7 @@ pub struct ConstState<M: Manager> {
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
         match token {
-            JsonToken::Semicolon => todo!(),
+            JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
             _ => {
                 // TODO: use import_path in place of _ below to track possible errors -
                 // or provide an explanation on why it's not necessary.
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 0e6cd5c..4a9bf28 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -43,7 +43,7 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
     match token {
-        JsonToken::Semicolon => todo!(),
+        JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
         _ => {
             let result = any_state_parse(const_state.state, context, token);
             match result {
-- 
2.43.0


From 6371d91d7bad3f8461dacb8c4e30795c30c60589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 18/27] fix: a require call in a parser without a module loader
 is a parse error and not a panic

---
 nanvm-lib/src/parser/any_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..a0738b3 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -185,7 +185,8 @@ impl<M: Manager> AnyState<M> {
                 };
                 new_state.push_value(any)
             }
-            _ => unreachable!(),
+            // the module has not been provided
+            _ => AnyResult::Error(ParseError::WrongRequireStatement),
         }
     }
 
-- 
2.43.0


From 0b18ed58be71fc85f4dda5c06b8cc8f4de5140af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 19/27] fix: require is accepted as any element of an array

---
 nanvm-lib/src/parser/any_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index a0738b3..fa45eec 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -263,7 +263,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
@@ -282,6 +282,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From 12ee11a41194e09103d383282d8af43fdb00bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 20/27] fix: a panic in an in-place modification no longer
 drops the modified value twice

---
 nanvm-lib/src/common/ref_mut.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nanvm-lib/src/common/ref_mut.rs b/nanvm-lib/src/common/ref_mut.rs
index 78699ba..6a29cdb 100644
--- a/nanvm-lib/src/common/ref_mut.rs
+++ b/nanvm-lib/src/common/ref_mut.rs
@@ -1,3 +1,14 @@
+use std::{mem::forget, process::abort};
+
+/// Aborts the process if it's dropped, i.e. on unwinding.
+struct AbortOnUnwind;
+
+impl Drop for AbortOnUnwind {
+    fn drop(&mut self) {
+        abort();
+    }
+}
+
 pub trait RefMut {
     // a better name is `as_mut_ptr` but it's already used by `Slice`.
     unsafe fn to_mut_ptr(&mut self) -> *mut Self {
@@ -9,7 +20,10 @@ pub trait RefMut {
     {
         unsafe {
             let p = self.to_mut_ptr();
+            // if `f` panics, then the value under `p` is moved out and must not be dropped again.
+            let guard = AbortOnUnwind;
             p.write(f(p.read()));
+            forget(guard);
         };
     }
 }
-- 
2.43.0


From 9d8a1ba1b07a0e8cdcb2aad2208f61170062f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 21/27] fix: characters escaped as surrogate pairs, which the
 serializers write, are read back

---
 nanvm-lib/src/tokenizer/mod.rs | 59 +++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index d0b34a2..41a37f4 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -64,6 +64,8 @@ pub enum TokenizerState<D: Dealloc> {
     ParseString(String),
     ParseEscapeChar(String),
     ParseUnicodeChar(ParseUnicodeCharState),
+    ParseLowSurrogateBegin(ParseUnicodeCharState),
+    ParseLowSurrogateEscape(ParseUnicodeCharState),
     ParseMinus,
     ParseZero(Sign),
     ParseInt(IntState<D>),
@@ -98,6 +100,14 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseUnicodeChar(s) => {
                 get_next_state(manager, s, c, &maps.unicode_char, maps)
             }
+            TokenizerState::ParseLowSurrogateBegin(s) => match c {
+                '\\' => (default(), TokenizerState::ParseLowSurrogateEscape(s)),
+                _ => tokenize_invalid_hex(manager, s, c, maps),
+            },
+            TokenizerState::ParseLowSurrogateEscape(s) => match c {
+                'u' => (default(), TokenizerState::ParseUnicodeChar(s)),
+                _ => tokenize_invalid_hex(manager, s, c, maps),
+            },
             TokenizerState::ParseZero(s) => get_next_state(manager, s, c, &maps.zero, maps),
             TokenizerState::ParseInt(s) => get_next_state(manager, s, c, &maps.int, maps),
             TokenizerState::ParseMinus => get_next_state(manager, (), c, &maps.minus, maps),
@@ -148,7 +158,9 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseId(s) => [JsonToken::Id(s)].cast(),
             TokenizerState::ParseString(_)
             | TokenizerState::ParseEscapeChar(_)
-            | TokenizerState::ParseUnicodeChar(_) => {
+            | TokenizerState::ParseUnicodeChar(_)
+            | TokenizerState::ParseLowSurrogateBegin(_)
+            | TokenizerState::ParseLowSurrogateEscape(_) => {
                 [JsonToken::ErrorToken(ErrorType::MissingQuotes)].cast()
             }
             TokenizerState::ParseCommentStart => {
@@ -178,6 +190,7 @@ pub struct ParseUnicodeCharState {
     s: String,
     unicode: u32,
     index: u8,
+    high_surrogate: Option<u16>,
 }
 
 impl ParseUnicodeCharState {
@@ -188,7 +201,23 @@ impl ParseUnicodeCharState {
         let new_unicode = self.unicode | (i << ((3 - self.index) * 4));
         match self.index {
             3 => {
-                let c = char::from_u32(new_unicode);
+                if self.high_surrogate.is_none() && (0xD800..0xDC00).contains(&new_unicode) {
+                    return (
+                        default(),
+                        TokenizerState::ParseLowSurrogateBegin(ParseUnicodeCharState {
+                            s: self.s,
+                            unicode: 0,
+                            index: 0,
+                            high_surrogate: Some(new_unicode as u16),
+                        }),
+                    );
+                }
+                let c = match self.high_surrogate {
+                    None => char::from_u32(new_unicode),
+                    Some(high) => char::decode_utf16([high, new_unicode as u16])
+                        .next()
+                        .and_then(Result::ok),
+                };
                 match c {
                     Some(c) => continue_string_state::<M>(self.s, c),
                     None => (
@@ -628,6 +657,7 @@ fn create_escape_char_transactions<M: Manager + 'static>() -> TransitionMap<Stri
                             s,
                             unicode: 0,
                             index: 0,
+                            high_surrogate: None,
                         }),
                     )
                 }),
@@ -641,15 +671,7 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
 ) -> TransitionMap<ParseUnicodeCharState, M> {
     type Func<M> = TransitionFunc<M, ParseUnicodeCharState>;
     TransitionMap {
-        def: |manager, state, c, maps| {
-            transfer_state(
-                manager,
-                [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
-                TokenizerState::ParseString(state.s),
-                c,
-                maps,
-            )
-        },
+        def: |manager, state, c, maps| tokenize_invalid_hex(manager, state, c, maps),
         rm: merge_list(
             [
                 from_range(
@@ -670,6 +692,21 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
     }
 }
 
+fn tokenize_invalid_hex<M: Manager + 'static>(
+    manager: M,
+    state: ParseUnicodeCharState,
+    c: char,
+    maps: &TransitionMaps<M>,
+) -> (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>) {
+    transfer_state(
+        manager,
+        [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+        TokenizerState::ParseString(state.s),
+        c,
+        maps,
+    )
+}
+
 fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
     type Func<M> = TransitionFunc<M, Sign>;
     TransitionMap {
-- 
2.43.0


From 5ed53d58202e8565339e1055612071119cf12b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 22/27] fix: a module imported by paths that leave the working
 directory or by an absolute path is recognised

---
 nanvm-lib/src/parser/parser.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 4a9bf28..dac1c6e 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -37,6 +37,15 @@ impl<'a, M: Manager, I: Io> Context<'a, M, I> {
     }
 }
 
+/// A module is known by its absolute path: different relative paths, or a relative and an absolute
+/// path, may lead to the same module.
+fn module_key(io: &impl Io, path: &str) -> String {
+    match io.current_dir() {
+        Ok(dir) if dir.starts_with('/') => concat(&dir, path),
+        _ => path.to_string(),
+    }
+}
+
 fn const_state_parse<M: Manager + 'static, I: Io>(
     const_state: ConstState<M>,
     context: &mut Context<M, I>,
@@ -88,7 +97,8 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
 ) -> AnyResult<M> {
     match token {
         JsonToken::String(s) => {
-            let current_path = concat(split(&context.path).0, s.as_str());
+            let module_path = concat(split(&context.path).0, s.as_str());
+            let current_path = module_key(context.io, &module_path);
             if let Some(any) = context.module_cache.complete.get(&current_path) {
                 return AnyResult::Continue(AnyState {
                     status: ParsingStatus::ImportEnd,
@@ -100,12 +110,12 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                 return AnyResult::Error(ParseError::CircularDependency);
             }
             context.module_cache.progress.insert(current_path.clone());
-            let read_result = context.io.read_to_string(current_path.as_str());
+            let read_result = context.io.read_to_string(module_path.as_str());
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
                     // imports of a module are relative to the module
-                    let parent_path = replace(&mut context.path, current_path.clone());
+                    let parent_path = replace(&mut context.path, module_path);
                     let res = parse_with_tokens(context, tokens.into_iter());
                     context.path = parent_path;
                     match res {
@@ -169,7 +179,8 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
         None => json_state,
         Some((id, module)) => match json_state {
             JsonState::ParseRoot(mut root_state) => {
-                let current_path = concat(split(&context.path).0, module.as_str());
+                let module_path = concat(split(&context.path).0, module.as_str());
+                let current_path = module_key(context.io, &module_path);
                 if let Some(any) = context.module_cache.complete.get(&current_path) {
                     root_state.state.consts.insert(id, any.clone());
                     return JsonState::ParseRoot(RootState {
@@ -182,12 +193,12 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                     return JsonState::Error(ParseError::CircularDependency);
                 }
                 context.module_cache.progress.insert(current_path.clone());
-                let read_result = context.io.read_to_string(current_path.as_str());
+                let read_result = context.io.read_to_string(module_path.as_str());
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
                         // imports of a module are relative to the module
-                        let parent_path = replace(&mut context.path, current_path.clone());
+                        let parent_path = replace(&mut context.path, module_path);
                         let res = parse_with_tokens(context, tokens.into_iter());
                         context.path = parent_path;
                         match res {
@@ -244,7 +255,7 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    let path = normalize(&context.path);
+    let path = module_key(context.io, &normalize(&context.path));
     context.module_cache.progress.insert(path.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
     let result = match read_result {
-- 
2.43.0


From 0244fe22b3f9ddb5402d1175f895ed65a3dfd59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 23/27] fix: values of the global manager, which can be sent to
 other threads, are counted atomically

---
 nanvm-lib/src/mem/block_header.rs | 3 ++-
 nanvm-lib/src/mem/global.rs       | 5 +++--
 nanvm-lib/src/mem/local.rs        | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nanvm-lib/src/mem/block_header.rs b/nanvm-lib/src/mem/block_header.rs
index b957f8f..25bcd26 100644
--- a/nanvm-lib/src/mem/block_header.rs
+++ b/nanvm-lib/src/mem/block_header.rs
@@ -23,7 +23,8 @@ pub trait BlockHeader: Default + Sized {
 impl BlockHeader for AtomicIsize {
     #[inline(always)]
     unsafe fn ref_counter_update(&self, val: RefCounterUpdate) -> isize {
-        self.fetch_add(val as isize, Ordering::Relaxed)
+        // everything done with an object happens before its release in another thread
+        self.fetch_add(val as isize, Ordering::AcqRel)
     }
 }
 
diff --git a/nanvm-lib/src/mem/global.rs b/nanvm-lib/src/mem/global.rs
index 7a4fdfc..89a0cbf 100644
--- a/nanvm-lib/src/mem/global.rs
+++ b/nanvm-lib/src/mem/global.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, cell::Cell};
+use core::{alloc::Layout, sync::atomic::AtomicIsize};
 use std::alloc::{alloc, dealloc, handle_alloc_error};
 
 use super::manager::{Dealloc, Manager};
@@ -9,7 +9,8 @@ pub struct Global();
 pub const GLOBAL: Global = Global();
 
 impl Dealloc for Global {
-    type BlockHeader = Cell<isize>;
+    // references of the global manager can be sent to other threads
+    type BlockHeader = AtomicIsize;
     #[inline(always)]
     unsafe fn dealloc(ptr: *mut u8, layout: Layout) {
         dealloc(ptr, layout)
diff --git a/nanvm-lib/src/mem/local.rs b/nanvm-lib/src/mem/local.rs
index 029d5a9..05af245 100644
--- a/nanvm-lib/src/mem/local.rs
+++ b/nanvm-lib/src/mem/local.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, cell::Cell, sync::atomic::AtomicIsize};
+use core::{alloc::Layout, cell::Cell};
 
 use crate::common::default::default;
 
@@ -42,7 +42,7 @@ impl Local {
 }
 
 impl Dealloc for &Local {
-    type BlockHeader = AtomicIsize;
+    type BlockHeader = Cell<isize>;
     #[inline(always)]
     unsafe fn dealloc(block_p: *mut u8, block_layout: Layout) {
         let (header_layout, layout) = Local::layout(block_layout);
-- 
2.43.0


From 6fca517ee481b05b975eb31985b1fa21b9793147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 24/27] fix: memory is released if a constructor or a
 destructor of an object panics

---
 nanvm-lib/src/mem/block.rs                    | 18 +++++++---
 .../src/mem/flexible_array/constructor.rs     | 29 +++++++++++++++
 nanvm-lib/src/mem/manager.rs                  | 36 +++++++++++++++++--
 3 files changed, 75 insertions(+), 8 deletions(-)

diff --git a/nanvm-lib/src/mem/block.rs b/nanvm-lib/src/mem/block.rs
index 1b683f8..b1237b6 100644
--- a/nanvm-lib/src/mem/block.rs
+++ b/nanvm-lib/src/mem/block.rs
@@ -1,6 +1,10 @@
 use core::{alloc::Layout, marker::PhantomData};
 
-use super::{field_layout::FieldLayout, manager::Dealloc, object::Object};
+use super::{
+    field_layout::FieldLayout,
+    manager::{Dealloc, DeallocOnDrop},
+    object::Object,
+};
 
 #[repr(transparent)]
 pub struct Block<T: Object, D: Dealloc> {
@@ -16,10 +20,14 @@ impl<T: Object, D: Dealloc> Block<T, D> {
         Self::BLOCK_HEADER_LAYOUT.layout(object_size)
     }
     pub unsafe fn delete(&mut self) {
-        let object = self.object_mut();
-        let object_size = object.object_size();
-        object.object_drop();
-        D::dealloc(self as *mut _ as *mut u8, Self::block_layout(object_size));
+        let object = self.object_mut() as *mut T;
+        let object_size = (*object).object_size();
+        // the memory is released even if a destructor panics.
+        let _guard = DeallocOnDrop::<D>::new(
+            self as *mut _ as *mut u8,
+            Self::block_layout(object_size),
+        );
+        (*object).object_drop();
     }
     #[inline(always)]
     pub fn object(&self) -> &T {
diff --git a/nanvm-lib/src/mem/flexible_array/constructor.rs b/nanvm-lib/src/mem/flexible_array/constructor.rs
index f19fcfb..acff3f4 100644
--- a/nanvm-lib/src/mem/flexible_array/constructor.rs
+++ b/nanvm-lib/src/mem/flexible_array/constructor.rs
@@ -1,3 +1,8 @@
+use core::{
+    mem::forget,
+    ptr::{drop_in_place, slice_from_raw_parts_mut},
+};
+
 use crate::{common::ref_mut::RefMut, mem::constructor::Constructor};
 
 use super::{header::FlexibleArrayHeader, FlexibleArray};
@@ -13,6 +18,22 @@ impl<H: FlexibleArrayHeader, I: Iterator> FlexibleArrayConstructor<H, I> {
     }
 }
 
+/// Drops the header and the items that were written before a panic.
+struct Written<H: FlexibleArrayHeader, I> {
+    header: *mut H,
+    items: *mut I,
+    len: usize,
+}
+
+impl<H: FlexibleArrayHeader, I> Drop for Written<H, I> {
+    fn drop(&mut self) {
+        unsafe {
+            drop_in_place(slice_from_raw_parts_mut(self.items, self.len));
+            drop_in_place(self.header);
+        }
+    }
+}
+
 impl<H: FlexibleArrayHeader, I: Iterator> Constructor for FlexibleArrayConstructor<H, I> {
     type Result = FlexibleArray<I::Item, H>;
     #[inline(always)]
@@ -23,9 +44,17 @@ impl<H: FlexibleArrayHeader, I: Iterator> Constructor for FlexibleArrayConstruct
         let v = &mut *p;
         v.header.to_mut_ptr().write(self.header);
         let mut src = self.items;
+        // `src` is code of a caller which may panic.
+        let mut written = Written {
+            header: v.header.to_mut_ptr(),
+            items: v.items_mut().as_mut_ptr(),
+            len: 0,
+        };
         for dst in v.items_mut() {
             dst.to_mut_ptr().write(src.next().unwrap());
+            written.len += 1;
         }
+        forget(written);
     }
 }
 
diff --git a/nanvm-lib/src/mem/manager.rs b/nanvm-lib/src/mem/manager.rs
index e64b6c3..b94dace 100644
--- a/nanvm-lib/src/mem/manager.rs
+++ b/nanvm-lib/src/mem/manager.rs
@@ -1,5 +1,7 @@
 use core::alloc::Layout;
 use core::fmt::Debug;
+use core::marker::PhantomData;
+use core::mem::forget;
 
 use crate::common::ref_mut::RefMut;
 
@@ -17,6 +19,31 @@ pub trait Dealloc: Debug {
     unsafe fn dealloc(ptr: *mut u8, layout: Layout);
 }
 
+/// Releases memory of a block when it's dropped, also on unwinding.
+pub(super) struct DeallocOnDrop<D: Dealloc> {
+    ptr: *mut u8,
+    layout: Layout,
+    _0: PhantomData<D>,
+}
+
+impl<D: Dealloc> DeallocOnDrop<D> {
+    #[inline(always)]
+    pub unsafe fn new(ptr: *mut u8, layout: Layout) -> Self {
+        Self {
+            ptr,
+            layout,
+            _0: PhantomData,
+        }
+    }
+}
+
+impl<D: Dealloc> Drop for DeallocOnDrop<D> {
+    #[inline(always)]
+    fn drop(&mut self) {
+        unsafe { D::dealloc(self.ptr, self.layout) }
+    }
+}
+
 /// Block = (Header, Object)
 pub trait Manager: Sized + Copy + Debug {
     // required:
@@ -28,9 +55,11 @@ pub trait Manager: Sized + Copy + Debug {
     #[allow(clippy::wrong_self_convention)]
     fn new<N: Constructor>(self, new_in_place: N) -> MutRef<N::Result, Self::Dealloc> {
         unsafe {
-            let p = self.alloc(Block::<N::Result, Self::Dealloc>::block_layout(
-                new_in_place.result_size(),
-            )) as *mut Block<N::Result, Self::Dealloc>;
+            let layout =
+                Block::<N::Result, Self::Dealloc>::block_layout(new_in_place.result_size());
+            let p = self.alloc(layout) as *mut Block<N::Result, Self::Dealloc>;
+            // `construct` runs code of a caller which may panic.
+            let guard = DeallocOnDrop::<Self::Dealloc>::new(p as *mut u8, layout);
             {
                 let block = &mut *p;
                 block
@@ -39,6 +68,7 @@ pub trait Manager: Sized + Copy + Debug {
                     .write(<<Self as Manager>::Dealloc as Dealloc>::BlockHeader::default());
                 new_in_place.construct(block.object_mut());
             }
+            forget(guard);
             MutRef::new(p)
         }
     }
-- 
2.43.0


From 42a667c7c6c0534dc7dc41e07bbc26b10f0f93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 25/27] fix: the header of a flexible array is dropped even if
 the destructor of an item panics

---
 nanvm-lib/src/mem/flexible_array/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 8468d4c..d2ee236 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -51,8 +51,17 @@ impl<T: FlexibleArrayHeader, I> Object for FlexibleArray<I, T> {
         Self::flexible_size(self.header.len())
     }
     unsafe fn object_drop(&mut self) {
-        drop_in_place(self.items_mut());
-        drop_in_place(self);
+        /// Drops the header, also if a destructor of an item panics.
+        struct DropHeader<T>(*mut T);
+        impl<T> Drop for DropHeader<T> {
+            #[inline(always)]
+            fn drop(&mut self) {
+                unsafe { drop_in_place(self.0) }
+            }
+        }
+        let items = self.items_mut() as *mut [I];
+        let _header = DropHeader(&mut self.header as *mut T);
+        drop_in_place(items);
     }
 }
 
-- 
2.43.0


From 803f75a7922c1f94de8dc4f083da0822ef95b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 26/27] fix: an array that is larger than the address space is
 refused instead of written out of bounds

---
 nanvm-lib/src/mem/field_layout.rs       | 7 ++++++-
 nanvm-lib/src/mem/flexible_array/mod.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/field_layout.rs b/nanvm-lib/src/mem/field_layout.rs
index 91eb098..654f6db 100644
--- a/nanvm-lib/src/mem/field_layout.rs
+++ b/nanvm-lib/src/mem/field_layout.rs
@@ -42,7 +42,12 @@ impl<T, A> FieldLayout<T, A> {
     }
     #[inline(always)]
     pub const fn layout(&self, a_size: usize) -> Layout {
-        unsafe { Layout::from_size_align_unchecked(self.size + a_size, self.align) }
+        if let Some(size) = self.size.checked_add(a_size) {
+            if let Ok(layout) = Layout::from_size_align(size, self.align) {
+                return layout;
+            }
+        }
+        panic!("capacity overflow")
     }
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index d2ee236..487be6c 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -40,7 +40,12 @@ impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T> {
     }
     #[inline(always)]
     pub const fn flexible_size(len: usize) -> usize {
-        Self::FLEXIBLE_HEADER_LAYOUT.size + len * size_of::<I>()
+        if let Some(items_size) = len.checked_mul(size_of::<I>()) {
+            if let Some(size) = Self::FLEXIBLE_HEADER_LAYOUT.size.checked_add(items_size) {
+                return size;
+            }
+        }
+        panic!("capacity overflow")
     }
 }
 
-- 
2.43.0


From 2dee816068422f2cdaef2987e8a17bfd2db82815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 27/27] fix: the sign of a bigint is kept if it has more limbs
 than an isize can count

---
 nanvm-lib/src/js/js_bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 077e267..a7f1c6d 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -70,7 +70,7 @@ pub fn new_bigint<M: Manager, I: ExactSizeIterator<Item = u64>>(
     let items = i.into_iter();
     m.new(FlexibleArrayConstructor::new(
         JsBigintHeader {
-            len: (items.len() as isize) * sign as isize,
+            len: isize::try_from(items.len()).expect("capacity overflow") * sign as isize,
         },
         items,
     ))
-- 
2.43.0

