From 034a0a20aa5753882524020d4f8dbf963b5abf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 01/17] fix: Barrett dot product no longer drops the last len %
 16 terms

---
 algebra/src/modulus/barrett/internal_macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..6bbec60 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,8 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From 4305c260861423880e2e698eaf3ace6aac0444b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 02/17] fix: extended_gcd no longer overflows for operands
 close to the type's maximum

---
 algebra/src/utils/gcd.rs | 60 ++++++++--------------------------------
 1 file changed, 11 insertions(+), 49 deletions(-)

diff --git a/algebra/src/utils/gcd.rs b/algebra/src/utils/gcd.rs
index 25c2f17..c612129 100644
--- a/algebra/src/utils/gcd.rs
+++ b/algebra/src/utils/gcd.rs
@@ -63,16 +63,10 @@ macro_rules! impl_extended_gcd {
                 self.gcd(other) > 1
             }
 
-            fn extended_gcd(mut x: Self, mut y: Self) -> (Self::SignedT, Self::SignedT, Self) {
+            fn extended_gcd(x: Self, y: Self) -> (Self::SignedT, Self::SignedT, Self) {
                 if x == 0 || y == 0 {
                     return (0, 0, 0);
                 }
-                let mut g = 1;
-
-                let shift = (x | y).trailing_zeros();
-                x >>= shift;
-                y >>= shift;
-                g <<= shift;
 
                 // ax + by = u
                 // cx + dy = v
@@ -83,49 +77,17 @@ macro_rules! impl_extended_gcd {
                 let mut c: Self::SignedT = 0;
                 let mut d: Self::SignedT = 1;
 
-                loop {
-                    while u % 2 == 0 {
-                        u >>= 1;
-                        if a % 2 == 0 && b % 2 == 0 {
-                            a >>= 1;
-                            b >>= 1;
-                        } else if b > x as Self::SignedT {
-                            a = (a + y as Self::SignedT) >> 1;
-                            b = (b - x as Self::SignedT) >> 1;
-                        } else {
-                            a = (a - y as Self::SignedT) >> 1;
-                            b = (b + x as Self::SignedT) >> 1;
-                        }
-                    }
-
-                    while v % 2 == 0 {
-                        v >>= 1;
-                        if c % 2 == 0 && d % 2 == 0 {
-                            c >>= 1;
-                            d >>= 1;
-                        } else if d > x as Self::SignedT {
-                            c = (c + y as Self::SignedT) >> 1;
-                            d = (d - x as Self::SignedT) >> 1;
-                        } else {
-                            c = (c - y as Self::SignedT) >> 1;
-                            d = (d + x as Self::SignedT) >> 1;
-                        }
-                    }
-
-                    if u >= v {
-                        u -= v;
-                        a -= c;
-                        b -= d;
-                    } else {
-                        v -= u;
-                        c -= a;
-                        d -= b;
-                    }
-
-                    if u == 0 {
-                        return (c, d, g * v);
-                    }
+                // While `v` is not zero, `|a|, |c| <= y / 2` and `|b|, |d| <= x / 2`, up to 1.
+                // Only the coefficients of the last, zero, remainder may wrap around.
+                while v != 0 {
+                    let q = u / v;
+                    (u, v) = (v, u % v);
+                    let q = q as Self::SignedT;
+                    (a, c) = (c, a.wrapping_sub(q.wrapping_mul(c)));
+                    (b, d) = (d, b.wrapping_sub(q.wrapping_mul(d)));
                 }
+
+                (a, b, u)
             }
         }
     };
-- 
2.43.0


From 9e5aac3ba1bb35f88bfc79f1f65cd6d97096b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 03/17] fix: probably_prime runs every round instead of
 accepting after the first inconclusive one

---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From 29ef378db234870bf33ade95611f3e1d0a884b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 04/17] fix: decompose_at writes every digit, so stale digits
 of the destination cannot survive

---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From 219cc34106887327470899b47c77b01ceb866b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 05/17] fix: inverse transform of a single coefficient no
 longer underflows

---
 algebra/src/transformation/ntt_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..43a00f5 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -339,6 +339,12 @@ where
             }
         }
 
+        // the transform of a single coefficient is the identity
+        if log_n == 0 {
+            values.iter_mut().for_each(intt_normalize_assign);
+            return;
+        }
+
         let roots = self.inv_root_powers();
         let mut root_iter = roots[1..].iter().copied();
 
-- 
2.43.0


From d4b201f1be258359535e54553abd623418c71055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 06/17] fix: data race between readers and writers of the
 derived NTT table cache

---
 algebra_derive/src/ntt.rs | 50 +++++++++++----------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..d179191 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -39,7 +39,6 @@ fn impl_ntt(input: Input) -> TokenStream {
     let root = quote! {::algebra::modulus::ShoupFactor<<Self as ::algebra::Field>::Value>};
 
     let ntt_table = format_ident!("NTT_TABLE{}", name.to_string().to_uppercase());
-    let ntt_mutex = format_ident!("NTT_MUTEX{}", name.to_string().to_uppercase());
 
     let from_root = impl_from_root(modulus_value);
     let to_root = impl_to_root(modulus_value, &modulus);
@@ -48,9 +47,8 @@ fn impl_ntt(input: Input) -> TokenStream {
     let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table);
 
     quote! {
-        static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
+        static #ntt_table: ::once_cell::sync::OnceCell<::std::sync::RwLock<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>>
             = ::once_cell::sync::OnceCell::new();
-        static #ntt_mutex: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());
 
         impl ::std::convert::From<usize> for #name {
             #[inline]
@@ -147,49 +145,29 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(tables) = unsafe { #ntt_table.get() } {
-                    if let Some(t) = tables.get(&log_n) {
+                if let Some(tables) = #ntt_table.get() {
+                    if let Some(t) = tables.read().unwrap().get(&log_n) {
                         return Ok(::std::sync::Arc::clone(t));
                     }
                 }
 
                 Self::init_ntt_table(&[log_n])?;
-                Ok(::std::sync::Arc::clone(unsafe {
-                    #ntt_table.get().unwrap().get(&log_n).unwrap()
-                }))
+                Ok(::std::sync::Arc::clone(
+                    #ntt_table.get().unwrap().read().unwrap().get(&log_n).unwrap()
+                ))
             }
 
             fn init_ntt_table(log_ns: &[u32]) -> Result<(), ::algebra::AlgebraError> {
-                let _g = #ntt_mutex.lock().unwrap();
-                match unsafe { #ntt_table.get_mut() } {
-                    Some(tables) => {
-                        let new_log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let old_log_ns: ::std::collections::HashSet<u32> = tables.keys().copied().collect();
-                        let difference = new_log_ns.difference(&old_log_ns);
-
-                        for &log_n in difference {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            tables.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        Ok(())
-                    }
-                    None => {
-                        let log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let mut map = ::std::collections::HashMap::with_capacity(log_ns.len());
-
-                        for log_n in log_ns {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            map.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        if unsafe { #ntt_table.set(map).is_err() } {
-                            Err(::algebra::AlgebraError::NTTTableError)
-                        } else {
-                            Ok(())
-                        }
+                let mut tables = #ntt_table.get_or_init(Default::default).write().unwrap();
+
+                for &log_n in log_ns {
+                    if !tables.contains_key(&log_n) {
+                        let temp_table = Self::generate_ntt_table(log_n)?;
+                        tables.insert(log_n, ::std::sync::Arc::new(temp_table));
                     }
                 }
+
+                Ok(())
             }
         }
     }
-- 
2.43.0


From 65756287f2a0fbb28f0f02386ffbde1865c0b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 07/17] fix: asking for an unsupported NTT table size returns
 an error instead of panicking

---
 algebra_derive/src/ntt.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index d179191..07f9d94 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -316,11 +316,17 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
         ModulusValue::U8(_) | ModulusValue::U16(_) => {
             quote! {
                 fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
-                    let n = 1usize << log_n;
+                    let no_root = || ::algebra::AlgebraError::NoPrimitiveRoot {
+                        degree: format!("2^({log_n} + 1)"),
+                        modulus: <Self as ::algebra::Field>::MODULUS_VALUE.to_string(),
+                    };
+
+                    let n = 1usize.checked_shl(log_n).ok_or_else(no_root)?;
+                    let degree = n.checked_mul(2).and_then(|d| d.try_into().ok()).ok_or_else(no_root)?;
 
                     let root_one = Self(1).to_root();
 
-                    let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+                    let root = Self::try_minimal_primitive_root(degree)?;
 
                     let root_factor = root.to_root();
                     let mut power = root;
@@ -347,11 +353,17 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
     #[cfg(not(feature = "concrete-ntt"))]
     quote! {
         fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
-            let n = 1usize << log_n;
+            let no_root = || ::algebra::AlgebraError::NoPrimitiveRoot {
+                degree: format!("2^({log_n} + 1)"),
+                modulus: <Self as ::algebra::Field>::MODULUS_VALUE.to_string(),
+            };
+
+            let n = 1usize.checked_shl(log_n).ok_or_else(no_root)?;
+            let degree = n.checked_mul(2).and_then(|d| d.try_into().ok()).ok_or_else(no_root)?;
 
             let root_one = Self(1).to_root();
 
-            let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+            let root = Self::try_minimal_primitive_root(degree)?;
 
             let root_factor = root.to_root();
             let mut power = root;
-- 
2.43.0


From 341f413e575ad23aa0b48e739ee525c161e3d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 08/17] fix: Goldilocks negation is correct for the
 non-canonical values addition returns

---
 algebra/src/modulus/goldilocks/ops.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 49154df..b269773 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -77,11 +77,7 @@ impl NegReduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn neg_reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self == 0 {
-            0
-        } else {
-            P - self
-        }
+        0u64.sub_reduce(self, GoldilocksModulus)
     }
 }
 
-- 
2.43.0


From cfc529997444280b21b33d762e6667f94ea5552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 09/17] fix: Goldilocks reduction maps the modulus itself to
 zero

---
 algebra/src/modulus/goldilocks/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index b269773..4e096da 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -13,7 +13,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self > P {
+        if self >= P {
             self - P
         } else {
             self
@@ -24,7 +24,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 impl ReduceAssign<GoldilocksModulus> for u64 {
     #[inline]
     fn reduce_assign(&mut self, _: GoldilocksModulus) {
-        if *self > P {
+        if *self >= P {
             *self -= P;
         }
     }
-- 
2.43.0


From dbd8add946a1b6a83e2f7579163cd61717d62b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 10/17] fix: Goldilocks exponentiation accepts the
 non-canonical values other operations return

---
 algebra/src/modulus/goldilocks/ops.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 4e096da..22ad383 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -113,8 +113,6 @@ where
             return 1;
         }
 
-        debug_assert!(self < P);
-
         let mut power: Self = self;
 
         let exp_trailing_zeros = exp.trailing_zeros();
-- 
2.43.0


From f25e1d595433b4cddc4e66624c301375356a6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 11/17] fix: Goldilocks inversion rejects every representation
 of zero

---
 algebra/src/modulus/goldilocks/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/modulus/goldilocks/mod.rs b/algebra/src/modulus/goldilocks/mod.rs
index 3a3e696..8f1f879 100644
--- a/algebra/src/modulus/goldilocks/mod.rs
+++ b/algebra/src/modulus/goldilocks/mod.rs
@@ -43,7 +43,7 @@ pub fn to_canonical_u64(value: u64) -> u64 {
 /// The following code has been adapted from winterfell/math/src/field/f64/mod.rs
 /// located at <https://github.com/facebook/winterfell>.
 fn try_inverse(value: u64) -> Option<u64> {
-    if value == 0 {
+    if to_canonical_u64(value) == 0 {
         return None;
     }
 
-- 
2.43.0


From f2f30a9aaf264008b9a48ef96c42173a90f2df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 12/17] fix: Gaussian samplers with a standard deviation of
 zero terminate instead of looping forever

---
 algebra/src/random.rs       | 2 +-
 lattice/src/utils/sample.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 80b4634..df7e77d 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -204,7 +204,7 @@ impl<F: Field> Distribution<F> for FieldDiscreteGaussianSampler {
         let gaussian = self.gaussian();
         loop {
             let value = gaussian.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return F::new(F::MODULUS_VALUE - (-round).as_into());
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index 6b891bc..b02c1f8 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -140,7 +140,7 @@ where
         let mean = self.normal.mean();
         loop {
             let value = self.normal.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return self.modulus - T::as_from(-round);
-- 
2.43.0


From a31ad54f6ec8e01acbd1e383e7b89b8b328244cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 13/17] fix: gadget encryptions of one and of the secret no
 longer overflow past the last digit

---
 lattice/src/gadget/rlwe.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lattice/src/gadget/rlwe.rs b/lattice/src/gadget/rlwe.rs
index 0ab7562..e55ea63 100644
--- a/lattice/src/gadget/rlwe.rs
+++ b/lattice/src/gadget/rlwe.rs
@@ -182,13 +182,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.b_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.b_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 
@@ -206,13 +210,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.a_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.a_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 }
-- 
2.43.0


From 811dfee8a215b36951746f823b41c363a3397bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 14/17] fix: decoding no longer underflows when the plaintext
 and ciphertext moduli are equal

---
 fhe_core/src/plaintext.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fhe_core/src/plaintext.rs b/fhe_core/src/plaintext.rs
index 3378f94..bd1c9b6 100644
--- a/fhe_core/src/plaintext.rs
+++ b/fhe_core/src/plaintext.rs
@@ -112,8 +112,14 @@ where
     // Move the message to the least significant part of `C`.
     // Leave one more bit for round.
     let cipher: u64 = cipher.as_into();
-    let temp = cipher >> ((q / t).trailing_zeros() - 1);
-    let decoded = ((temp >> 1u32) + (temp & 1)) & (t - 1);
+    let decoded = match (q / t).trailing_zeros() {
+        // `q == t` leaves nothing to round.
+        0 => cipher & (t - 1),
+        shift => {
+            let temp = cipher >> (shift - 1);
+            ((temp >> 1u32) + (temp & 1)) & (t - 1)
+        }
+    };
 
     M::shrink(decoded)
 }
-- 
2.43.0


From aa7427f3a3bd79c0cd34a4f0793baa51394e0169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 15/17] fix: modulus switching rounds exactly for values and
 moduli beyond f64 precision

---
 fhe_core/src/modulus_switch.rs | 81 ++++++++++++++--------------------
 1 file changed, 34 insertions(+), 47 deletions(-)

diff --git a/fhe_core/src/modulus_switch.rs b/fhe_core/src/modulus_switch.rs
index 05ddaa7..750e3a1 100644
--- a/fhe_core/src/modulus_switch.rs
+++ b/fhe_core/src/modulus_switch.rs
@@ -1,8 +1,31 @@
-use algebra::{AsInto, Field};
+use algebra::Field;
 use lattice::LWE;
 
 use crate::{LWECiphertext, LWEModulusType};
 
+/// Calculates `value * modulus_after / modulus_before`, rounded to the nearest integer
+/// and reduced by `modulus_after`.
+///
+/// The calculation is exact, since `f64` can not represent every product of two moduli.
+#[inline]
+fn scale_round(value: u64, modulus_before: u64, modulus_after: u64) -> u64 {
+    let modulus_before = modulus_before as u128;
+    let product = value as u128 * modulus_after as u128;
+
+    let (quotient, remainder) = (product / modulus_before, product % modulus_before);
+    let rounded = if remainder >= modulus_before - remainder {
+        quotient + 1
+    } else {
+        quotient
+    } as u64;
+
+    if rounded == modulus_after {
+        0
+    } else {
+        rounded
+    }
+}
+
 /// Implementation of modulus switching.
 ///
 /// This function performs on a `LWE<F>`, returns a `LWE<C>` with desired modulus `modulus_after`.
@@ -10,24 +33,12 @@ pub fn lwe_modulus_switch<C: LWEModulusType, F: Field>(
     c: LWE<F>,
     modulus_after: C,
 ) -> LWECiphertext<C> {
-    let modulus_before_f64: f64 = F::MODULUS_VALUE.as_into();
-    let modulus_after_f64: f64 = modulus_after.as_into();
-
-    let reduce = |v: C| {
-        if v < modulus_after {
-            v
-        } else {
-            v - modulus_after
-        }
-    };
+    let modulus_before: u64 = F::MODULUS_VALUE.into();
+    let modulus_after: u64 = modulus_after.as_into();
 
-    let switch = Box::new(|v: F| {
-        reduce(C::as_from(
-            (AsInto::<f64>::as_into(v.value()) * modulus_after_f64 / modulus_before_f64).round(),
-        ))
-    });
+    let switch = |v: F| C::as_from(scale_round(v.value().into(), modulus_before, modulus_after));
 
-    let a: Vec<C> = c.a().iter().copied().map(&switch).collect();
+    let a: Vec<C> = c.a().iter().copied().map(switch).collect();
     let b = switch(c.b());
 
     LWECiphertext::new(a, b)
@@ -42,22 +53,10 @@ pub fn lwe_modulus_switch_inplace<C: LWEModulusType, F: Field>(
     modulus_after: C,
     destination: &mut LWECiphertext<C>,
 ) {
-    let modulus_before_f64: f64 = F::MODULUS_VALUE.as_into();
-    let modulus_after_f64: f64 = modulus_after.as_into();
+    let modulus_before: u64 = F::MODULUS_VALUE.into();
+    let modulus_after: u64 = modulus_after.as_into();
 
-    let reduce = |v: C| {
-        if v < modulus_after {
-            v
-        } else {
-            v - modulus_after
-        }
-    };
-
-    let switch = Box::new(|v: F| {
-        reduce(C::as_from(
-            (AsInto::<f64>::as_into(v.value()) * modulus_after_f64 / modulus_before_f64).round(),
-        ))
-    });
+    let switch = |v: F| C::as_from(scale_round(v.value().into(), modulus_before, modulus_after));
 
     destination
         .a_mut()
@@ -77,22 +76,10 @@ pub fn lwe_modulus_switch_assign_between_modulus<C: LWEModulusType>(
     modulus_before: C,
     modulus_after: C,
 ) {
-    let modulus_before_f64: f64 = modulus_before.as_into();
-    let modulus_after_f64: f64 = modulus_after.as_into();
-
-    let reduce = |v: C| {
-        if v < modulus_after {
-            v
-        } else {
-            v - modulus_after
-        }
-    };
+    let modulus_before: u64 = modulus_before.as_into();
+    let modulus_after: u64 = modulus_after.as_into();
 
-    let switch = Box::new(|v: C| {
-        reduce(C::as_from(
-            (AsInto::<f64>::as_into(v) * modulus_after_f64 / modulus_before_f64).round(),
-        ))
-    });
+    let switch = |v: C| C::as_from(scale_round(v.as_into(), modulus_before, modulus_after));
 
     c.a_mut().iter_mut().for_each(|v| *v = switch(*v));
     *c.b_mut() = switch(c.b());
-- 
2.43.0


From f5743123d3d61301405b4a2bd26808f50f02722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 16/17] fix: building parameters rejects pipelines that key
 generation or bootstrapping cannot run

---
 fhe_core/src/parameter.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/fhe_core/src/parameter.rs b/fhe_core/src/parameter.rs
index 33e6dc7..de5fb7b 100644
--- a/fhe_core/src/parameter.rs
+++ b/fhe_core/src/parameter.rs
@@ -145,6 +145,27 @@ impl<C: LWEModulusType, Q: NTTField> Parameters<C, Q> {
             });
         }
 
+        // The phase is scaled to `2N` before blind rotation, `2N` should be representable by `C`.
+        if C::try_from(twice_ring_dimension as u64).is_err() {
+            return Err(FHECoreError::LweModulusRingDimensionNotCompatible {
+                lwe_modulus: lwe_cipher_modulus.as_into(),
+                ring_dimension,
+            });
+        }
+
+        // The steps decide which ring secret key types and LWE dimensions can be used.
+        let steps_compatible = match steps {
+            Steps::BrMsKs => ring_secret_key_type != RingSecretKeyType::Gaussian,
+            Steps::BrKsMs => lwe_dimension <= ring_dimension,
+            Steps::BrMs => {
+                ring_secret_key_type != RingSecretKeyType::Gaussian
+                    && lwe_dimension == ring_dimension
+            }
+        };
+        if !steps_compatible {
+            return Err(FHECoreError::StepsParametersNotCompatible);
+        }
+
         let t: u64 = params.lwe_plain_modulus.as_into();
         let q: u64 = lwe_cipher_modulus.as_into();
         assert!(t <= q);
-- 
2.43.0


From 615b7a1a49330932835c06dd775ce10f87afbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 17/17] fix: widening multiplication no longer recurses without
 end when the nightly feature is on

---
 .../src/primitive/widening/widening_mul.rs    | 24 ++++---------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/algebra/src/primitive/widening/widening_mul.rs b/algebra/src/primitive/widening/widening_mul.rs
index 866210a..1a64b04 100644
--- a/algebra/src/primitive/widening/widening_mul.rs
+++ b/algebra/src/primitive/widening/widening_mul.rs
@@ -17,30 +17,14 @@ macro_rules! uint_widening_mul_impl {
         impl WideningMul for $T {
             #[inline]
             fn widening_mul(self, rhs: Self) -> (Self, Self) {
-                #[cfg(feature = "nightly")]
-                {
-                    self.widening_mul(rhs)
-                }
-
-                #[cfg(not(feature = "nightly"))]
-                {
-                    let wide = (self as $W) * (rhs as $W);
-                    (wide as Self, (wide >> Self::BITS) as Self)
-                }
+                let wide = (self as $W) * (rhs as $W);
+                (wide as Self, (wide >> Self::BITS) as Self)
             }
 
             #[inline]
             fn widening_mul_hw(self, rhs: Self) -> Self {
-                #[cfg(feature = "nightly")]
-                {
-                    self.widening_mul(rhs).1
-                }
-
-                #[cfg(not(feature = "nightly"))]
-                {
-                    let wide = (self as $W) * (rhs as $W);
-                    (wide >> Self::BITS) as Self
-                }
+                let wide = (self as $W) * (rhs as $W);
+                (wide >> Self::BITS) as Self
             }
         }
     };
-- 
2.43.0

