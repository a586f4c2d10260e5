From f850ae3b4bb4de5ced1a50bb6c6ab101c1cbd7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 01/29] verification hook: expose the polynomial module under
 --cfg verif_hooks

---
 src/mp/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mp/mod.rs b/src/mp/mod.rs
index a47a097..075b8df 100644
--- a/src/mp/mod.rs
+++ b/src/mp/mod.rs
@@ -1,2 +1,5 @@
 pub mod bignat;
+#[cfg(not(verif_hooks))]
 mod poly;
+#[cfg(verif_hooks)]
+pub mod poly;
-- 
2.43.0


From 39048c9a529dbf73040437d7cfbc367d45c9ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 02/29] fix: less_than/leq shifted by 2^n instead of 2^(n+1)
 for n_bits >= 127

---
 src/btc_validation/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..f13e1de 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -123,7 +123,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(2 << (n_bits - 127));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
@@ -189,7 +189,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(2 << (n_bits - 127));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
-- 
2.43.0


From fa883fdb932fc27239632f42baf7359e4d81e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 03/29] fix: constrain the witnesses of less_than and leq

---
 src/btc_validation/median.rs | 55 +++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index f13e1de..8d4ee13 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,11 +1,12 @@
 use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
-use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
 use ff::PrimeField;
 use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::num;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -155,6 +156,14 @@ where
         Ok(summ)
     }).unwrap();
 
+    enforce_shifted_cmp(
+        cs.namespace(|| "shifted cmp"),
+        LinearCombination::zero() + a.get_variable() - b.get_variable(),
+        &zero_shifted_cmp,
+        &n_bit_zero_cmp,
+        n_bits,
+    )?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
 
     // let _ = zero_shifted_cmp.fits_in_bits(cs.namespace(|| "check if fits"), n_bits + 1);
@@ -221,9 +230,53 @@ where
         Ok(summ)
     }).unwrap();
 
+    enforce_shifted_cmp(
+        cs.namespace(|| "shifted cmp leq"),
+        LinearCombination::zero() + a.get_variable() - b.get_variable() - CS::one(),
+        &zero_shifted_cmp,
+        &n_bit_zero_cmp,
+        n_bits,
+    )?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
 
+/// Constrains the two witnesses of a comparison:
+///  * `shifted` is `difference + 2^(n_bits + 1)`, and
+///  * `low_bits` holds its low `n_bits + 1` bits, i.e. it fits in that many bits and
+///    differs from `shifted` by either 0 or 2^(n_bits + 1).
+fn enforce_shifted_cmp<Scalar, CS>(
+    mut cs: CS,
+    difference: LinearCombination<Scalar>,
+    shifted: &AllocatedNum<Scalar>,
+    low_bits: &AllocatedNum<Scalar>,
+    n_bits: usize,
+) -> Result<(), SynthesisError>
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    let shift = (0..=n_bits).fold(Scalar::ONE, |power, _| power.double());
+
+    cs.enforce(
+        || "shifted = difference + 2^(n_bits + 1)",
+        |lc| lc + &difference + (shift, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + shifted.get_variable(),
+    );
+
+    num::Num::from(low_bits.clone()).fits_in_bits(cs.namespace(|| "low bits"), n_bits + 1)?;
+
+    cs.enforce(
+        || "(shifted - low_bits) is 0 or 2^(n_bits + 1)",
+        |lc| lc + shifted.get_variable() - low_bits.get_variable(),
+        |lc| lc + shifted.get_variable() - low_bits.get_variable() - (shift, CS::one()),
+        |lc| lc,
+    );
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use crate::btc_validation::median::*;
-- 
2.43.0


From 34551f2e9e88121941ff2422073a530246a0e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 04/29] fix: compute the carry size of equal_when_carried
 exactly instead of in floating point

---
 src/mp/bignat.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..b487b3f 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,6 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::BigInt;
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -35,6 +34,15 @@ pub fn limbs_to_nat<Scalar: PrimeField, B: Borrow<Scalar>, I: DoubleEndedIterato
     })
 }
 
+/// The number of bits needed for any carry out of a limb of `limb_width` bits, when limbs of at
+/// most `max_word` are compared. Such a carry is at most `(2 * max_word + carry) >> limb_width`,
+/// and so it is strictly less than `2 * max_word / (2^limb_width - 1)`.
+fn max_carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+    let max_limb = (BigInt::from(1u8) << limb_width as u32) - 1u8;
+    let max_carry = (BigInt::from(2u8) * max_word - 1u8) / max_limb;
+    max_carry.bits() as usize
+}
+
 fn int_with_n_ones(n: usize) -> BigInt {
     let mut m = BigInt::from(1);
     m <<= n as u32;
@@ -721,9 +729,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = max_carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
@@ -798,9 +804,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = max_carry_bits(max_word, self.params.limb_width);
         let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
-- 
2.43.0


From ff3f33ecd4f7901d062c3d759de8d6590590c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 05/29] fix: equal_when_carried dropped the carry out of the
 shorter number's last limb

---
 src/mp/bignat.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index b487b3f..8c8e237 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -724,8 +724,13 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // We'll propegate carries over all the limbs, padding the shorter number with zeros.
+        let n = max(self.limbs.len(), other.limbs.len());
+        if self.limbs.len() != other.limbs.len() {
+            return self
+                .with_n_limbs::<CS>(n)
+                .equal_when_carried(cs, &other.with_n_limbs::<CS>(n));
+        }
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -775,22 +780,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             carry_in = Num::from(carry);
         }
 
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
-- 
2.43.0


From 0493edeabed94bd31ca4c68df6995e5372cf58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 06/29] fix: grouped words of equal_when_carried_regroup could
 wrap around the field modulus

---
 src/mp/bignat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8c8e237..6ad05fc 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -794,7 +794,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
         let carry_bits = max_carry_bits(max_word, self.params.limb_width);
-        let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
+        // Leave two bits for the sum of a grouped word, its shift and its carry: it must not wrap
+        // around the field modulus.
+        let group_bits = (Scalar::CAPACITY as usize).saturating_sub(carry_bits + 2);
+        let limbs_per_group = max(1, group_bits / self.params.limb_width);
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
         self_grouped.equal_when_carried(cs.namespace(|| "grouped"), &other_grouped)
-- 
2.43.0


From e5f65a9f78d854ff46f715374b2b0e7e482ad1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 07/29] fix: BigNat::sub did not range check the difference

---
 src/mp/bignat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 6ad05fc..68df6ad 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -880,6 +880,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             self.params.limb_width,
             self.params.n_limbs,
         )?;
+        diff.assert_well_formed(cs.namespace(|| "rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From d592e805962acd0d149f493fd397627542bedb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 08/29] fix: BigNat::min compared the greater number with
 other, not with the lesser one

---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 68df6ad..28a73d3 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -974,7 +974,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From 7f47b904c300998f39d119f4e206e3f0d0a8a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 09/29] fix: calculate_difficulty_update divided by a modulus
 with a different limb width

---
 src/btc_validation/difficulty_update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..33974f4 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -89,7 +89,7 @@ CS: ConstraintSystem<Scalar>,
     assert!(res_lower & res_upper);
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
     // let target_num = Polynomial::from(t_new);
-- 
2.43.0


From 26468ea3b8d3338a44b3de13f69c6c2f5a43e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 10/29] fix: mult_mod and red_mod sized the quotient one bit
 short when the modulus has min_bits

---
 src/mp/bignat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 28a73d3..407b30b 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1070,7 +1070,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1140,7 +1140,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-- 
2.43.0


From 6ce75b30db70f88ebdbc29b23670f525234c7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 11/29] fix: mult_mod and red_mod did not enforce remainder <
 modulus

---
 src/mp/bignat.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 407b30b..52135ca 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1100,6 +1100,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        // The remainder is less than the modulus
+        let _gap = modulus.sub(
+            cs.namespace(|| "remainder < modulus"),
+            &remainder.shift::<CS>(Scalar::ONE),
+        )?;
         let a_poly = Polynomial::from(self.clone());
         let b_poly = Polynomial::from(other.clone());
         let mod_poly = Polynomial::from(modulus.clone());
@@ -1156,6 +1161,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        // The remainder is less than the modulus
+        let _gap = modulus.sub(
+            cs.namespace(|| "remainder < modulus"),
+            &remainder.shift::<CS>(Scalar::ONE),
+        )?;
         let mod_poly = Polynomial::from(modulus.clone());
         let q_poly = Polynomial::from(BigNat::from(quotient.clone()));
         let r_poly = Polynomial::from(BigNat::from(remainder.clone()));
-- 
2.43.0


From 75220461042314be8d34dee12594a51f70d263f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 12/29] fix: from_num accepted the value of the number plus the
 field modulus

---
 src/mp/bignat.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 52135ca..c1319dd 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -292,6 +292,15 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let bv = bignat.decompose(cs.namespace(|| "bv"))?;
         // (2) recompose bits and check if it equals n
         n.is_equal(cs.namespace(|| "n"), &bv)?;
+        // (3) if the limbs can hold more than the field, check that `bignat` is below the modulus
+        if limb_width * n_limbs > Scalar::CAPACITY as usize {
+            let max_limbs =
+                nat_to_limbs::<Scalar>(&f_to_nat(&-Scalar::ONE), limb_width, n_limbs)?
+                    .into_iter()
+                    .map(|l| Num::new(Some(l), LinearCombination::zero() + (l, CS::one())))
+                    .collect();
+            BigNat::from_limbs(max_limbs, limb_width).sub(cs.namespace(|| "canonical"), &bignat)?;
+        }
 
         Ok(bignat)
     }
-- 
2.43.0


From ad2d7cd625780e128baa632d7549cfb76cde3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 13/29] fix: truncate_limbs kept a min_bits that the remaining
 limbs need not have

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index c1319dd..8071f3e 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -701,9 +701,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            // The dropped limbs may hold the high-order bits.
+            new.params.min_bits = 0;
         }
         new
     }
-- 
2.43.0


From 3b8a66a308ae859308b2b27145a106a6e5308d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 14/29] fix: Num::is_equal compared with the bits a vector was
 allocated with, not its current bits

---
 src/util/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/num.rs b/src/util/num.rs
index 0c102b9..65e493b 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -106,12 +106,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         other: &Bitvector<Scalar>,
     ) -> Result<(), SynthesisError> {
-        let allocations = other.allocations.clone();
         let mut f = Scalar::ONE;
-        let sum = allocations
+        let sum = other
+            .bits
             .iter()
             .fold(LinearCombination::zero(), |lc, bit| {
-                let l = lc + (f, &bit.bit);
+                let l = lc + (f, bit);
                 f = f.double();
                 l
             });
-- 
2.43.0


From 5d066cc3c16915a708ffb7564a89f0926d690c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 15/29] fix: fits_in_bits accepted 1 as a number of 0 bits

---
 src/util/num.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/num.rs b/src/util/num.rs
index 65e493b..0eafb7c 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -72,6 +72,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
             )
         }
 
+        // No bits at all: the number is zero
+        if n_bits == 0 {
+            cs.enforce(|| "no bits", |lc| lc, |lc| lc, |lc| lc + &self.num);
+            return Ok(());
+        }
+
         // Last bit
         cs.enforce(
             || "last bit",
-- 
2.43.0


From 46d216af66988fbfe5d0f40f98e1ee2142dbf2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 16/29] fix: nat_to_f reduced numbers that are too big for the
 field instead of returning None

---
 src/util/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..e0cad62 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -21,7 +21,7 @@ pub fn f_to_nat<Scalar: PrimeField>(f: &Scalar) -> BigInt {
 /// Convert a natural number to a field element.
 /// Returns `None` if the number is too big for the field.
 pub fn nat_to_f<Scalar: PrimeField>(n: &BigInt) -> Option<Scalar> {
-    Scalar::from_str_vartime(&format!("{}", n))
+    Scalar::from_str_vartime(&format!("{}", n)).filter(|f| f_to_nat(f) == *n)
 }
 
 /// Convert a `usize` to a field element.
-- 
2.43.0


From ef57add3fd4b4b0cb58112c8f28f42c64068a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 17/29] fix: f_to_usize only handled numbers of one byte

---
 src/util/convert.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index e0cad62..83228e8 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -35,8 +35,13 @@ pub fn usize_to_f<Scalar: PrimeField>(n: usize) -> Scalar {
 /// Panics if the field is too small.
 pub fn f_to_usize<Scalar: PrimeField>(n: &Scalar) -> usize {
     let s = n.to_repr();
-    assert!(s.as_ref().iter().skip(1).all(|v| *v == 0));
-    s.as_ref()[0] as usize
+    let n_bytes = std::mem::size_of::<usize>();
+    assert!(s.as_ref().iter().skip(n_bytes).all(|v| *v == 0));
+    s.as_ref()
+        .iter()
+        .take(n_bytes)
+        .rev()
+        .fold(0, |acc, byte| acc << 8 | *byte as usize)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1abe7dcff4a5de17c1f1391c86c5df0d4b37e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 18/29] fix: verify_median_timestamp accepted values above the
 median

---
 src/btc_validation/median.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 8d4ee13..711ca80 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -70,8 +70,8 @@ CS: ConstraintSystem<Scalar>,
         sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
     }
     // absolute value of sign_diff needs to be obtained
-    let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    let const_0 = AllocatedNum::alloc(cs.namespace(|| "min positive sign_diff"), || Ok(Scalar::ZERO)).unwrap();
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
         let mut zero_val = Scalar::ZERO;
@@ -87,7 +87,7 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
-- 
2.43.0


From 2e02ff1f1e6ec4e407fc6195c982fb319dd0c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 19/29] fix: verify_median_timestamp did not constrain its
 signs, constants and count

---
 src/btc_validation/median.rs | 38 ++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 711ca80..c04102a 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -29,7 +28,7 @@ CS: ConstraintSystem<Scalar>,
     }
 
     let mut n_median_occurrences = Num::zero();
-    let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
+    let mut sign_diff = alloc_constant(cs.namespace(|| "sign_diff"), Scalar::ZERO)?;
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
@@ -55,14 +54,12 @@ CS: ConstraintSystem<Scalar>,
             // Ok(Scalar::from(signum))
         }).unwrap();
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::ONE.double()),
             |lc| lc + delta_sign.get_variable(),
         );
 
@@ -70,7 +67,7 @@ CS: ConstraintSystem<Scalar>,
         sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
     }
     // absolute value of sign_diff needs to be obtained
-    let const_0 = AllocatedNum::alloc(cs.namespace(|| "min positive sign_diff"), || Ok(Scalar::ZERO)).unwrap();
+    let const_0 = alloc_constant(cs.namespace(|| "min positive sign_diff"), Scalar::ZERO)?;
     let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
@@ -89,18 +86,43 @@ CS: ConstraintSystem<Scalar>,
 
     let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
-    let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
+    let const_1 = alloc_constant(cs.namespace(|| "increment by 1"), Scalar::ONE)?;
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
     // lhs = abs(sign_diff) + 1
 
     let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
 
+    // Constrain:
+    // fe_median_occ == number of occurrences counted above
+    cs.enforce(
+        || "fe_median_occ == n_median_occurrences",
+        |lc| lc + &n_median_occurrences.lc(Scalar::ONE),
+        |lc| lc + CS::one(),
+        |lc| lc + fe_median_occ.get_variable(),
+    );
+
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
     // Boolean::or(cs.namespace(|| "less than or equal to check"), &r_eq, &r_lt)
     leq(cs.namespace(|| "median leq"), &lhs, &fe_median_occ, 32usize)
 }
 
+/// Allocates a number constrained to be `constant`.
+fn alloc_constant<Scalar, CS>(mut cs: CS, constant: Scalar) -> Result<AllocatedNum<Scalar>, SynthesisError>
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    let num = AllocatedNum::alloc(cs.namespace(|| "constant"), || Ok(constant))?;
+    cs.enforce(
+        || "is constant",
+        |lc| lc + (constant, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + num.get_variable(),
+    );
+    Ok(num)
+}
+
 /// Takes two allocated numbers (a, b) and returns
 /// allocated boolean variable with value `true`
 /// if the `a` and `b` are such that a is strictly less than b, 
-- 
2.43.0


From 4ba2e210544a5077b0d70fba1dd0646bde54c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 20/29] fix: difficulty update checks were run time assertions
 on unconstrained copies

---
 src/btc_validation/difficulty_update.rs | 32 +++++++++++++------------
 src/btc_validation/median.rs            |  2 +-
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 33974f4..b0acd0e 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,4 +1,5 @@
 use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
 use crate::btc_validation::median;
@@ -18,7 +19,8 @@ where
 Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
-    let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let t_sum_num = num::Num::from(fe_t_sum.clone());
     let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
 
     let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
@@ -37,14 +39,13 @@ CS: ConstraintSystem<Scalar>,
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
-
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t_sum"), Scalar::from(2016 * 10 * 60 / 4 as u64)).unwrap();
+    let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t_sum"), Scalar::from(2016 * 10 * 60 * 4 as u64)).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum above lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum below upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -54,7 +55,7 @@ CS: ConstraintSystem<Scalar>,
     // let rhs = prev_target.mult(cs.namespace(|| "T_old * t_sum"), &t_sum).unwrap();
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    let t_ideal_sum = num::Num::from(median::alloc_constant(cs.namespace(|| "2016 * 10 * 60"), Scalar::from(2016 * 10 * 60 as u64)).unwrap());
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
     
     let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
@@ -81,14 +82,15 @@ CS: ConstraintSystem<Scalar>,
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t sum"), Scalar::from(2016 * 10 * 60 / 4 as u64)).unwrap();
+    let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t sum"), Scalar::from(2016 * 10 * 60 * 4 as u64)).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum above lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum below upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    let t_ideal_sum = num::Num::from(median::alloc_constant(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), Scalar::from(2016 * 10 * 60 as u64)).unwrap());
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index c04102a..306494c 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -108,7 +108,7 @@ CS: ConstraintSystem<Scalar>,
 }
 
 /// Allocates a number constrained to be `constant`.
-fn alloc_constant<Scalar, CS>(mut cs: CS, constant: Scalar) -> Result<AllocatedNum<Scalar>, SynthesisError>
+pub(crate) fn alloc_constant<Scalar, CS>(mut cs: CS, constant: Scalar) -> Result<AllocatedNum<Scalar>, SynthesisError>
 where
     Scalar: PrimeField,
     CS: ConstraintSystem<Scalar>,
-- 
2.43.0


From 36362ed907b5787eb21d9d96295f55067ee4a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 21/29] fix: difficulty update refused a change by a factor of
 exactly 4

---
 src/btc_validation/difficulty_update.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index b0acd0e..2801d56 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -37,13 +37,13 @@ CS: ConstraintSystem<Scalar>,
     let bignat_prev_tar_l = BigNat::from_num(cs.namespace(|| "Lower target before update in bignat"), prev_tar_lower, 64usize, 2usize).unwrap();
     let prev_target = bignat_prev_tar_u.concat(&bignat_prev_tar_l).unwrap();
 
-    // To verify if T_old / 4 < T_new < 4 * T_old
-    // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
+    // To verify if T_old / 4 <= T_new <= 4 * T_old
+    // is the same as verifying 2016 * 10 * 60 / 4 <= t_sum <= 2016 * 10 * 60 * 4
     let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t_sum"), Scalar::from(2016 * 10 * 60 / 4 as u64)).unwrap();
     let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t_sum"), Scalar::from(2016 * 10 * 60 * 4 as u64)).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    let res_lower = median::leq(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::leq(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
     Boolean::enforce_equal(cs.namespace(|| "t_sum above lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
     Boolean::enforce_equal(cs.namespace(|| "t_sum below upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
     
@@ -80,13 +80,13 @@ CS: ConstraintSystem<Scalar>,
     // let target = num::Num::from(*curr_target);
     // let _bignat_tar = BigNat::from_num(cs.namespace(|| "BigNat curr_target"), target, 64usize, 2usize).unwrap();
 
-    // To verify if T_old / 4 < T_new < 4 * T_old
-    // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
+    // To verify if T_old / 4 <= T_new <= 4 * T_old
+    // is the same as verifying 2016 * 10 * 60 / 4 <= t_sum <= 2016 * 10 * 60 * 4
     let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t sum"), Scalar::from(2016 * 10 * 60 / 4 as u64)).unwrap();
     let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t sum"), Scalar::from(2016 * 10 * 60 * 4 as u64)).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
+    let res_lower = median::leq(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
+    let res_upper = median::leq(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
     Boolean::enforce_equal(cs.namespace(|| "t_sum above lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
     Boolean::enforce_equal(cs.namespace(|| "t_sum below upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
-- 
2.43.0


From 78f356c7ccb5901cb6650d16e86b0312621f51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 22/29] fix: the median check could only be used on fresh
 copies of the timestamps

---
 src/btc_validation/median.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 306494c..e144088 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -27,15 +27,26 @@ CS: ConstraintSystem<Scalar>,
         fe_timestamps.push(fe_temp);
     }
 
+    verify_median_allocated(cs.namespace(|| "verify"), &fe_timestamps, &fe_median)
+}
+
+/// Takes allocated timestamps (an odd number of them) and an allocated number, and returns an
+/// allocated boolean variable with value `true` if that number is the median of the timestamps,
+/// `false` otherwise.
+pub fn verify_median_allocated<Scalar, CS> (mut cs: CS, fe_timestamps: &[AllocatedNum<Scalar>], fe_median: &AllocatedNum<Scalar>) -> Result<Boolean, SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = alloc_constant(cs.namespace(|| "sign_diff"), Scalar::ZERO)?;
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
-        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
+        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), fe_median, fe_time).unwrap();
         n_median_occurrences = n_median_occurrences.add_bool_with_coeff(CS::one(), &res_eq, Scalar::ONE);
 
-        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32).unwrap();
+        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), fe_median, fe_time, 32).unwrap();
 
         // delta_sign is the signum of (median - timestamp)
         let delta_sign = AllocatedNum::alloc(cs.namespace(|| format!("signum {}", i)), || {
-- 
2.43.0


From 47012402f6b30de588070125f6c1fdcafc4ed7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 23/29] fix: the step circuit decoded header fields wrongly and
 did not tie them to the hashed bits

---
 src/btc_validation/header_step.rs | 175 +++++++++++++++---------------
 1 file changed, 90 insertions(+), 85 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index eaf1bef..9d240b0 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -4,7 +4,7 @@ use crate::btc_validation::{difficulty_update, median};
 
 use bellpepper_core::{
     boolean,
-    num::AllocatedNum,
+    num::{AllocatedNum, Num},
     ConstraintSystem, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
@@ -144,38 +144,16 @@ where
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x9500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b000000000000 is the prevhash (0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095)
 
-        let mut prev_hash_from_curr_block_vec: Vec<u64> = Vec::new();
-        for i in 0..4 {
-            let hash_vec = (header[i] % (1 << 32 as u64)) * (1<<32 as u64) + header[i+1] / (1 << 32 as u64);
-            prev_hash_from_curr_block_vec.push(hash_vec);
-        }
-
-        let mut prev_hash_from_curr_block: Vec<boolean::Boolean> = Vec::new();
-        for (i, hash64) in prev_hash_from_curr_block_vec.iter().enumerate() {
-            let mut dummy = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy {}", i)), Some(*hash64)).unwrap();
-            dummy.reverse();
-            prev_hash_from_curr_block.append(&mut dummy);
+        // The bits of the header, in the order in which they are hashed
+        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
+        for (i, preimage64) in header.iter().enumerate() {
+            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
+            dummy2.reverse();
+            preimage_vec.append(&mut dummy2);
         }
 
-        let prev_hash = AllocatedNum::alloc(cs.namespace(|| {"last block hash"}), || {
-            let mut sum: F = F::ZERO;
-
-            for (i, b) in prev_hash_from_curr_block.iter().enumerate() {
-                let exponent = 16 * (i/8) + 7 - i;
-                if exponent >= 128 {
-                    let power_127 = F::from_u128(1 << 127);
-                    let mut power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << (exponent - 127)) }  else { F::from_u128(0u128) };
-                    power_2.mul_assign(&power_127);
-                    sum.add_assign(&power_2);
-                }
-                else {
-                    let power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << exponent) } else { F::from_u128(0u128) };
-                    sum.add_assign(&power_2);
-                } 
-            }
-
-            Ok(sum)
-        }).unwrap();
+        let prev_hash_from_curr_block = &preimage_vec[32..288];
+        let prev_hash = pack_le_bytes(cs.namespace(|| "last block hash"), prev_hash_from_curr_block)?;
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
@@ -187,60 +165,53 @@ where
         // Taking the example of block no. 123456
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x1a6a93b3 is the threshold
-        let n_bits = header[9] >> 32;
-        let b0 = n_bits % 256u64;
-        let b3 = n_bits >> 24;
-        let b2 = n_bits >> 16 - b3 << 24;
-        let b1 = n_bits >> 8 - b3 << 24 - b2 << 16;
-        
-        let target = AllocatedNum::alloc(cs.namespace(|| "Block target"), || {
-            let thresh_mantissa = b1 << 16 + b2 << 8 + b3;
-            let exponent = (b0 - 3) as usize;
-
-            let targ: F = if exponent >= 13 {
-                let partial_scalar = F::from_u128((thresh_mantissa as u128) << (8 * 13) as u128);
-                let mut scale = F::from_u128(1 << (8 * (exponent - 13)) as u128);
-                scale.mul_assign(&partial_scalar);
+        let n_bits = &preimage_vec[576..608];
+        let thresh_mantissa = pack_le_bytes(cs.namespace(|| "threshold mantissa"), &n_bits[0..24])?;
+        let exponent = &n_bits[24..32];
 
-                scale
-            }
-            else {
-                F::from_u128((thresh_mantissa as u128) << 8 * exponent) 
-            };
+        // The mantissa is not negative
+        boolean::Boolean::enforce_equal(cs.namespace(|| "mantissa sign"), &n_bits[16], &boolean::Boolean::constant(false))?;
 
-            Ok(targ)
-        }).unwrap();
+        // The exponent is less than 32
+        for (i, b) in exponent.iter().take(3).enumerate() {
+            boolean::Boolean::enforce_equal(cs.namespace(|| format!("exponent bit {}", 7 - i)), b, &boolean::Boolean::constant(false))?;
+        }
 
-        // Current block hash computation
-        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
-        for (i, preimage64) in header.iter().enumerate() {
-            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
-            dummy2.reverse();
-            preimage_vec.append(&mut dummy2);
+        // target = mantissa * 256^(exponent - 3)
+        let mut unit = AllocatedNum::alloc(cs.namespace(|| "256^-3"), || {
+            Ok(F::from(1u64 << 24).invert().unwrap())
+        })?;
+        cs.enforce(
+            || "256^-3 * 256^3 = 1",
+            |lc| lc + unit.get_variable(),
+            |lc| lc + (F::from(1u64 << 24), CS::one()),
+            |lc| lc + CS::one(),
+        );
+        for (i, b) in exponent.iter().rev().take(5).enumerate() {
+            // unit *= b ? 256^(2^i) : 1
+            let power = (0..(8 << i)).fold(F::ONE, |power, _| power.double());
+            let scaled = AllocatedNum::alloc(cs.namespace(|| format!("unit {}", i)), || {
+                let mut tmp = unit.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+                if b.get_value().ok_or(SynthesisError::AssignmentMissing)? {
+                    tmp.mul_assign(&power);
+                }
+                Ok(tmp)
+            })?;
+            cs.enforce(
+                || format!("unit {} = unit * (1 + b * (power - 1))", i),
+                |lc| lc + unit.get_variable(),
+                |lc| lc + CS::one() + &b.lc(CS::one(), power - F::ONE),
+                |lc| lc + scaled.get_variable(),
+            );
+            unit = scaled;
         }
+        let target = thresh_mantissa.mul(cs.namespace(|| "Block target"), &unit)?;
 
+        // Current block hash computation
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
         
-        let curr_hash = AllocatedNum::alloc(cs.namespace(|| {"current block hash"}), || {
-            let mut sum: F = F::ZERO;
-
-            for (i, b) in out.iter().enumerate() {
-                let exponent = 16 * (i/8) + 7 - i;
-                if exponent >= 128 {
-                    let power_127 = F::from_u128(1 << 127);
-                    let mut power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << (exponent - 127)) }  else { F::from_u128(0u128) };
-                    power_2.mul_assign(&power_127);
-                    sum.add_assign(&power_2);
-                }
-                else {
-                    let power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << exponent) } else { F::from_u128(0u128) };
-                    sum.add_assign(&power_2);
-                } 
-            }
-
-            Ok(sum)
-        }).unwrap();
+        let curr_hash = pack_le_bytes(cs.namespace(|| {"current block hash"}), &out)?;
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
@@ -266,15 +237,10 @@ where
         // Taking the example of block no. 123456
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0xa6c8cb4d is the current timestamp (supposed to be 0x4dcbc8a6)
-        let n_time = header[8] % (1 << 32);
-        let b_t0 = n_time % 256u64; // 4d
-        let b_t3 = n_time >> 24;  // a6
-        let b_t2 = n_time >> 16 - b_t3 << 24; // c8
-        let b_t1 = n_time >> 8 - b_t3 << 24 - b_t2 << 16; // cb
-        let n_time_endian = b_t0 << 24 + b_t1 << 16 + b_t2 << 8 + b_t1;
+        let n_time = &preimage_vec[544..576];
+        let curr_timestamp = pack_le_bytes(cs.namespace(|| "current timestamp"), n_time)?;
 
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
-        let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         assert!(r_time.get_value().unwrap());
 
@@ -330,7 +296,7 @@ where
         let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
 
         let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * (b0 - 3) as usize;
+            let exponent = 8 * ((header[9] >> 32) % 256 - 3) as usize;
             let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
             let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
             let mut pow_2 = F::from_u128((1 << 64)>>exponent);
@@ -484,3 +450,42 @@ where
         Ok(z_out)
     }
 }
+
+/// Packs bits into a number: the bytes are in little-endian order and the bits of each byte in
+/// big-endian order. The number must be less than 2^CAPACITY, so that it has only one encoding.
+fn pack_le_bytes<F, CS>(
+    mut cs: CS,
+    bits: &[boolean::Boolean],
+) -> Result<AllocatedNum<F>, SynthesisError>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    let mut packed = Num::<F>::zero();
+    let mut power = F::ONE;
+    for exponent in 0..bits.len() {
+        let bit = &bits[8 * (exponent / 8) + 7 - exponent % 8];
+        if exponent < F::CAPACITY as usize {
+            packed = packed.add_bool_with_coeff(CS::one(), bit, power);
+            power = power.double();
+        } else {
+            boolean::Boolean::enforce_equal(
+                cs.namespace(|| format!("bit {} is zero", exponent)),
+                bit,
+                &boolean::Boolean::constant(false),
+            )?;
+        }
+    }
+
+    let num = AllocatedNum::alloc(cs.namespace(|| "packed"), || {
+        packed.get_value().ok_or(SynthesisError::AssignmentMissing)
+    })?;
+    cs.enforce(
+        || "packed = sum of bits",
+        |lc| lc + &packed.lc(F::ONE),
+        |lc| lc + CS::one(),
+        |lc| lc + num.get_variable(),
+    );
+
+    Ok(num)
+}
-- 
2.43.0


From 921eb2fc503fc23c7812e4e16ffd4e3d27d9f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 24/29] fix: the step circuit asserted its checks while
 building instead of enforcing them

---
 src/btc_validation/header_step.rs | 33 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 9d240b0..99bbdbe 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -157,7 +157,7 @@ where
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
-        assert!(r_prev_hash.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "prev. hash is the last block hash"), &r_prev_hash, &boolean::Boolean::constant(true))?;
         
         // 2. Check if current hash <= target
         //
@@ -213,25 +213,27 @@ where
         
         let curr_hash = pack_le_bytes(cs.namespace(|| {"current block hash"}), &out)?;
 
-        // less than check
-        let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-        assert!(r_curr_hash_targ.get_value().unwrap());
+        // less than or equal check
+        let r_curr_hash_targ = median::leq(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
+        boolean::Boolean::enforce_equal(cs.namespace(|| "PoW consensus is achieved"), &r_curr_hash_targ, &boolean::Boolean::constant(true))?;
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
-        let mut times_vec: Vec<u32> = Vec::new(); 
-        for i in 1..=11 {
-            let timestamp = z_i[i].get_value().unwrap();
-            let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
-            times_vec.push(time32[0]);
-        }
-
         // compute median
-        let median = median::compute_median_timestamp(&mut times_vec);
+        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || {
+            let mut times_vec: Vec<u32> = Vec::new();
+            for timestamp in z_i[1..=11].iter() {
+                let timestamp = timestamp.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+                let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
+                times_vec.push(time32.first().copied().unwrap_or(0));
+            }
+
+            Ok(F::from(median::compute_median_timestamp(&mut times_vec) as u64))
+        })?;
 
         // verify median
-        let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
-        assert!(r_median.get_value().unwrap());
+        let r_median = median::verify_median_allocated(cs.namespace(|| "median verify"), &z_i[1..=11], &median_fe)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "median is verified"), &r_median, &boolean::Boolean::constant(true))?;
 
         // check if median < current timestamp
         // Taking the example of block no. 123456
@@ -240,9 +242,8 @@ where
         let n_time = &preimage_vec[544..576];
         let curr_timestamp = pack_le_bytes(cs.namespace(|| "current timestamp"), n_time)?;
 
-        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-        assert!(r_time.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
         // 4. Total work addition
         //
-- 
2.43.0


From 686d4b86fb910ae185f1d39c3d39d977debac5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 25/29] fix: the step circuit required targets to divide the
 maximum target and did not bound them by it

---
 src/btc_validation/header_step.rs | 72 ++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 99bbdbe..5a1dae0 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -5,12 +5,13 @@ use crate::btc_validation::{difficulty_update, median};
 use bellpepper_core::{
     boolean,
     num::{AllocatedNum, Num},
-    ConstraintSystem, SynthesisError,
+    ConstraintSystem, LinearCombination, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
-use crate::util::convert::f_to_nat;
+use crate::util::convert::{f_to_nat, nat_to_f};
+use crate::util::num;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
 
@@ -247,35 +248,20 @@ where
 
         // 4. Total work addition
         //
-        let max_target = AllocatedNum::alloc(cs.namespace(|| "maximum target"), || {
-            let power_127 = F::from_u128(1 << 127);
-            let mut max_thresh = F::from_u128(0xFFFF << 81);
-            max_thresh.mul_assign(&power_127);
+        let power_127 = F::from_u128(1 << 127);
+        let mut max_thresh = F::from_u128(0xFFFF << 81);
+        max_thresh.mul_assign(&power_127);
+        let max_target = median::alloc_constant(cs.namespace(|| "maximum target"), max_thresh)?;
 
-            Ok(max_thresh)
-        }).unwrap();
-
-        let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
-            let diff = max_target.get_value().unwrap();
-            let targ = target.get_value().unwrap();
-
-            let diff_big = f_to_nat(&diff);
-            let tar_big = f_to_nat(&targ);
-            let work = diff_big / tar_big;
-
-            let (_s2, work_u64) = work.to_u64_digits();
+        let r_max_targ = median::leq(cs.namespace(|| "Is target within the maximum target?"), &target, &max_target, 224usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "target is within the maximum target"), &r_max_targ, &boolean::Boolean::constant(true))?;
 
-            Ok(F::from(work_u64[0] as u64))
-        }).unwrap();
-
-        // Constrain allocation:
-        // max_target = target * block_work
-        cs.enforce(
-            || "max_target = target * block_work",
-            |lc| lc + target.get_variable(),
-            |lc| lc + block_work.get_variable(),
-            |lc| lc + max_target.get_variable(),
-        );
+        // Constrain:
+        // max_target = target * block_work + remainder, where remainder < target
+        let max_target_nat = BigNat::from_num(cs.namespace(|| "BigNat maximum target"), num::Num::from(max_target.clone()), 64usize, 4usize)?;
+        let target_nat = BigNat::from_num(cs.namespace(|| "BigNat target"), num::Num::from(target.clone()), 64usize, 4usize)?;
+        let (work_nat, _remainder) = max_target_nat.mult_mod(cs.namespace(|| "max_target = target * block_work + remainder"), &BigNat::one::<CS>(64usize), &target_nat)?;
+        let block_work = nat_to_num(cs.namespace(|| "work or difficulty"), &work_nat)?;
 
         // 5. Target update
         //
@@ -490,3 +476,31 @@ where
 
     Ok(num)
 }
+
+/// Allocates a number equal to `nat`, which must be less than the modulus of the field.
+fn nat_to_num<F, CS>(mut cs: CS, nat: &BigNat<F>) -> Result<AllocatedNum<F>, SynthesisError>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    let num = AllocatedNum::alloc(cs.namespace(|| "num"), || {
+        let value = nat.value.as_ref().ok_or(SynthesisError::AssignmentMissing)?;
+        nat_to_f(value).ok_or(SynthesisError::Unsatisfiable)
+    })?;
+
+    let base = (0..nat.params.limb_width).fold(F::ONE, |base, _| base.double());
+    let mut power = F::ONE;
+    let mut sum = LinearCombination::<F>::zero();
+    for limb in nat.limbs.iter() {
+        sum = sum + (power, limb);
+        power.mul_assign(&base);
+    }
+    cs.enforce(
+        || "num = sum of limbs",
+        |lc| lc + &sum,
+        |lc| lc + CS::one(),
+        |lc| lc + num.get_variable(),
+    );
+
+    Ok(num)
+}
-- 
2.43.0


From 42435c4c81723af2db202ec432c23a79b689fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 26/29] fix: the step circuit computed new targets from the
 epoch start, without limits or rounding

---
 src/btc_validation/header_step.rs | 65 ++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 5a1dae0..b135fda 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -277,25 +277,54 @@ where
             |lc| lc,
         );
 
-        let start_time_epoch = z_i[13].clone();
-        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &z_i[13]).unwrap();
-        let bigint_tar = target_calc.value.unwrap();
-        let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
+        let zero = median::alloc_constant(cs.namespace(|| "zero"), F::ZERO)?;
+        let is_epoch_start = BigNat::equals(cs.namespace(|| "Is the counter zero?"), &z_i[14], &zero)?;
 
+        // Time span of the last epoch i.e. z_i[11] - z_i[13], brought within [2 weeks / 4, 2 weeks * 4]
+        let time_span = AllocatedNum::alloc(cs.namespace(|| "time span"), || {
+            let mut tmp = z_i[11].get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            tmp.sub_assign(&z_i[13].get_value().ok_or(SynthesisError::AssignmentMissing)?);
+            Ok(tmp)
+        })?;
+        cs.enforce(
+            || "time span = z_i[11] - z_i[13]",
+            |lc| lc + z_i[11].get_variable() - z_i[13].get_variable(),
+            |lc| lc + CS::one(),
+            |lc| lc + time_span.get_variable(),
+        );
+        let min_span = median::alloc_constant(cs.namespace(|| "minimum time span"), F::from(2016 * 10 * 60 / 4 as u64))?;
+        let max_span = median::alloc_constant(cs.namespace(|| "maximum time span"), F::from(2016 * 10 * 60 * 4 as u64))?;
+        let is_below = median::less_than(cs.namespace(|| "Is time span below the minimum?"), &time_span, &min_span, 32usize)?;
+        let is_above = median::less_than(cs.namespace(|| "Is time span above the maximum?"), &max_span, &time_span, 32usize)?;
+        let (time_span, _) = AllocatedNum::conditionally_reverse(cs.namespace(|| "time span from below"), &time_span, &min_span, &is_below)?;
+        let (time_span, _) = AllocatedNum::conditionally_reverse(cs.namespace(|| "time span from above"), &time_span, &max_span, &is_above)?;
+
+        // Inside an epoch, a time span of 2 weeks leaves the target as it is
+        let two_weeks = median::alloc_constant(cs.namespace(|| "2 weeks"), F::from(2016 * 10 * 60 as u64))?;
+        let (time_span, _) = AllocatedNum::conditionally_reverse(cs.namespace(|| "time span in use"), &two_weeks, &time_span, &is_epoch_start)?;
+
+        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &time_span).unwrap();
+        let target_calc = target_calc.min(cs.namespace(|| "target capped"), &max_target_nat)?;
+        let target_calc = nat_to_num(cs.namespace(|| "target before rounding"), &target_calc)?;
+
+        // The calculated target is rounded down to a multiple of `unit`
         let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * ((header[9] >> 32) % 256 - 3) as usize;
-            let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
-            let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
-            let mut pow_2 = F::from_u128((1 << 64)>>exponent);
+            let exponent = (8 * ((header[9] >> 32) % 256).saturating_sub(3)) as u32;
+            let target_calc = f_to_nat(&target_calc.get_value().ok_or(SynthesisError::AssignmentMissing)?);
 
-            pow_2.mul_assign(&ms64b);
-            pow_2.add_assign(&ls_tar);
-
-            let exp_2 = F::from_u128(1u128 << exponent);
-            pow_2.mul_assign(&exp_2);
-
-            Ok(pow_2)
-        }).unwrap();
+            nat_to_f(&((target_calc >> exponent) << exponent)).ok_or(SynthesisError::Unsatisfiable)
+        })?;
+        let r_round_down = median::leq(cs.namespace(|| "Is target rounded down?"), &calculated_target, &target_calc, 224usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "target is rounded down"), &r_round_down, &boolean::Boolean::constant(true))?;
+        let round_limit = calculated_target.add(cs.namespace(|| "target updated + unit"), &unit)?;
+        let r_round = median::less_than(cs.namespace(|| "Is target rounded by less than a unit?"), &target_calc, &round_limit, 224usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "target is rounded by less than a unit"), &r_round, &boolean::Boolean::constant(true))?;
+
+        // A new target has a normalized mantissa, so that there is only one unit to round to
+        let min_mantissa = median::alloc_constant(cs.namespace(|| "minimum mantissa"), F::from(0x8000u64))?;
+        let is_denormal = median::less_than(cs.namespace(|| "Is mantissa not normalized?"), &thresh_mantissa, &min_mantissa, 24usize)?;
+        let is_denormal_update = boolean::Boolean::and(cs.namespace(|| "Is a new mantissa not normalized?"), &is_epoch_start, &is_denormal)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "new mantissa is normalized"), &is_denormal_update, &boolean::Boolean::constant(false))?;
 
         // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
         
@@ -353,8 +382,8 @@ where
         );
 
         
-        // Either the counter z_i[14] is not equal to 2015 or start_time_epoch = z_i[13]
-
+        // The epoch starts with the block at which the counter z_i[14] is zero
+        let (start_time_epoch, _) = AllocatedNum::conditionally_reverse(cs.namespace(|| "start time epoch"), &z_i[13], &curr_timestamp, &is_epoch_start)?;
 
         // 6. z_out
         //
-- 
2.43.0


From ac57a49f87ac0634a92fd375117754196fb1fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 27/29] fix: the step circuit indexed an empty vector of
 outputs

---
 src/btc_validation/header_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index b135fda..dc63412 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -388,7 +388,7 @@ where
         // 6. z_out
         //
         // If the counter i.e z_i[14] == 2015, then z_out[14] = 0. Else, z_out[14] = z_i[14] + 1.
-        let mut z_out: Vec<AllocatedNum<F>> = Vec::new();
+        let mut z_out: Vec<AllocatedNum<F>> = z_i.clone();
         z_out[0] = curr_hash.clone();
         cs.enforce(
             || "current SHA256d hash out", 
-- 
2.43.0


From aa861fc27bcb31408cc1bbd4817bbf403a5bc855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 28/29] fix: the counter of the step circuit never returned to
 zero

---
 src/btc_validation/header_step.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index dc63412..505cfbf 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -433,17 +433,22 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
+        let last_ctr = median::alloc_constant(cs.namespace(|| "last counter of an epoch"), F::from(2015u64))?;
+        let is_epoch_end = BigNat::equals(cs.namespace(|| "Is the counter 2015?"), &z_i[14], &last_ctr)?;
         z_out[14] = AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
             prev_ctr.add_assign(F::ONE);
+            if is_epoch_end.get_value().unwrap() {
+                prev_ctr = F::ZERO;
+            }
             Ok(prev_ctr)
         }).unwrap();
 
         cs.enforce(
-            || "z_out[14] = z_i[14] + 1", 
+            || "z_out[14] = (z_i[14] + 1) * (1 - is_epoch_end)", 
             |lc| lc + CS::one() + z_i[14].get_variable(),
-            |lc| lc + CS::one(),
+            |lc| lc + CS::one() - &is_epoch_end.lc(CS::one(), F::ONE),
             |lc| lc + z_out[14].get_variable(),
         );
 
-- 
2.43.0


From edaae548044836a08d59365f0c40a9671fbfd990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 29/29] fix: a lazy value can be borrowed while another borrow
 of it is kept

---
 src/util/lazy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/lazy.rs b/src/util/lazy.rs
index 62180e0..edf9b98 100644
--- a/src/util/lazy.rs
+++ b/src/util/lazy.rs
@@ -22,6 +22,10 @@ impl<T, F: FnOnce() -> T> LazyCell<T, F> {
     }
     fn force(&self) {
         use self::LazyCellInner::*;
+        // a value that is there may be borrowed already
+        if let Forced(_) = *self.cell.borrow() {
+            return;
+        }
         let mut cell_ref = self.cell.borrow_mut();
         let val = match std::mem::replace(&mut *cell_ref, Empty) {
             Forced(t) => t,
-- 
2.43.0

