From bd4a6448b33fefdb8b979cef6ff3b1b08101b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 01/19] fix: lexicographically_largest excludes (p-1)/2, which
 is smaller than its negation

---
 derive/src/field/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index 566fb9e..c001ce0 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -113,7 +113,8 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
     let modulus_limbs_32_ident = quote! {[#(#modulus_limbs_32,)*]};
 
     let to_token = |e: &BigUint| big_to_token(e, num_limbs);
-    let half_modulus = (&modulus - 1usize) >> 1;
+    // (p + 1) / 2: the smallest element larger than its negation.
+    let half_modulus = (&modulus + 1usize) >> 1;
     let half_modulus = to_token(&half_modulus);
 
     // binary modulus
-- 
2.43.0


From 4a0a82ed72ae8aa80d90abe33e002ef36880afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 02/19] fix: CubicExtField::is_zero takes the third coefficient
 into account

---
 src/ff_ext/cubic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff_ext/cubic.rs b/src/ff_ext/cubic.rs
index 70af416..27a0a39 100644
--- a/src/ff_ext/cubic.rs
+++ b/src/ff_ext/cubic.rs
@@ -201,7 +201,7 @@ where
     }
 
     fn is_zero(&self) -> subtle::Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From 02f7eb19d5de4dffe6f34ed8a95a6a920fbd9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 03/19] fix: decoding a quadratic extension element rejects
 non-canonical bytes instead of panicking

---
 src/derive/field/tower.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index 9f508fb..de55de5 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -41,13 +41,7 @@ macro_rules! impl_tower2 {
             pub fn from_bytes(bytes: &[u8; $base::SIZE * 2]) -> CtOption<$field> {
                 let c0 = $base::from_bytes(bytes[0..$base::SIZE].try_into().unwrap());
                 let c1 = $base::from_bytes(bytes[$base::SIZE..$base::SIZE * 2].try_into().unwrap());
-                CtOption::new(
-                    $field {
-                        c0: c0.unwrap(),
-                        c1: c1.unwrap(),
-                    },
-                    c0.is_some() & c1.is_some(),
-                )
+                c0.and_then(|c0| c1.map(|c1| $field { c0, c1 }))
             }
 
             /// Converts an element of `$base` into a byte representation in
@@ -132,7 +126,7 @@ macro_rules! impl_tower2 {
                 let c1: <$base as PrimeField>::Repr = c1.into();
                 let c1 = $base::from_repr(c1);
 
-                CtOption::new($field::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+                c0.and_then(|c0| c1.map(|c1| $field::new(c0, c1)))
             }
 
             fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From ce896d6481dc5e223bb782cb1c2da023eceeb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 04/19] fix: sqrt_algo10 returns zero for zero instead of
 recursing without end

---
 src/ff_ext/quadratic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff_ext/quadratic.rs b/src/ff_ext/quadratic.rs
index 59c779c..651f468 100644
--- a/src/ff_ext/quadratic.rs
+++ b/src/ff_ext/quadratic.rs
@@ -102,6 +102,10 @@ pub fn sqrt_algo10<F: ExtField, S: AsRef<[u64]>>(
 where
     QuadExtField<F>: QuadExtFieldArith<Base = F> + ExtField,
 {
+    if el.is_zero().into() {
+        return CtOption::new(QuadExtField::ZERO, Choice::from(1));
+    }
+
     let b = el.pow_vartime(q_minus_1_over_4);
 
     let b_2 = b.square();
-- 
2.43.0


From a319fd5c257c0731dd504241864556c2925b05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 05/19] fix: projective is_on_curve rejects triples with z = 0
 that denote no point

---
 src/derive/curve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 84f4c56..4920232 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -433,7 +433,7 @@ macro_rules! new_curve_impl {
 
                     (self.z * self.y.square() - self.x.square() * self.x)
                         .ct_eq(&(self.z.square() * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 } else {
                     // Check (Y/Z)^2 = (X/Z)^3 + a(X/Z) + b
                     // <=>    Z Y^2 - X^3 - a(X Z^2) = Z^3 b
@@ -441,7 +441,7 @@ macro_rules! new_curve_impl {
                     let z2 = self.z.square();
                     (self.z * self.y.square() - (self.x.square() + $constant_a * z2) * self.x)
                         .ct_eq(&(z2 * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 }
             }
 
-- 
2.43.0


From 148750e4a1aca675f9d93caa8ccb61b03dc1dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 06/19] fix: compressed decoding accepts curve points with a
 zero x coordinate

---
 src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 1377993..76e3388 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -349,9 +349,9 @@ where
                     // * sign must not be set
 
                     // identity flag not set:
-                    // * x must not be zero
+                    // * x may be any coordinate of a curve point, zero included
 
-                    let is_valid = (is_identity & is_zero & !sign) ^ (!is_identity & !is_zero);
+                    let is_valid = (is_identity & is_zero & !sign) ^ !is_identity;
 
                     (is_valid, is_identity)
                 }
-- 
2.43.0


From 99f4721ef1be4d61120ce9b4ee356dab23213681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 07/19] fix: the sign flag of a compressed point tells y from
 -y when y's first coefficient is zero

---
 src/derive/curve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 4920232..a13bd83 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -69,11 +69,15 @@ macro_rules! new_curve_impl {
             impl $crate::serde::Compressed<$name_affine> for [<$name:upper Compressed >] {
                 const CONFIG: $crate::serde::CompressedFlagConfig = $flag_config;
                 fn sign(c: &$name_affine) -> subtle::Choice {
-                    Choice::from(c.y.to_repr()[0] as u8 & 1) & !c.is_identity()
+                    let parity = |y: &$base| Choice::from(y.to_repr()[0] as u8 & 1);
+                    // The parities of y and -y agree only if the first coefficient of y is zero
+                    let tie = !(parity(&c.y) ^ parity(&-c.y));
+                    (parity(&c.y) | (tie & c.y.lexicographically_largest())) & !c.is_identity()
                 }
                 fn resolve(x: $base, sign_set: Choice) -> CtOption<$name_affine> {
                     $name_affine::y2(x).sqrt().map(|y| {
-                        let y = $base::conditional_select(&y, &-y, sign_set ^ Choice::from(y.to_repr()[0] as u8 & 1));
+                        let sign = Self::sign(&$name_affine { x, y });
+                        let y = $base::conditional_select(&y, &-y, sign_set ^ sign);
                         $name_affine { x, y }
                     })
                 }
-- 
2.43.0


From 952eb28e22ff0a7752aa55de5bb362007e81e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 08/19] fix: read_raw of a point checks the curve equation, as
 from_raw_bytes does

---
 src/derive/curve.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index a13bd83..28b35e6 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -649,7 +649,13 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                if bool::from(res.is_on_curve()) {
+                    Ok(res)
+                } else {
+                    Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "input is not a point on the curve"))
+                }
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -749,7 +755,13 @@ macro_rules! new_curve_impl {
             fn read_raw<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                if bool::from(res.is_on_curve()) {
+                    Ok(res)
+                } else {
+                    Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "input is not a point on the curve"))
+                }
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 1316b7b06956b3448befe0c680de5cd46ebf7a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 09/19] fix: msm_serial panics on inputs of different lengths,
 as documented

---
 src/msm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msm.rs b/src/msm.rs
index 615bcb5..3b49917 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -333,6 +333,8 @@ impl<C: CurveAffine> Schedule<C> {
 ///
 /// This function will panic if coeffs and bases have a different length.
 pub fn msm_serial<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C], acc: &mut C::Curve) {
+    assert_eq!(coeffs.len(), bases.len());
+
     let coeffs: Vec<_> = coeffs.iter().map(|a| a.to_repr()).collect();
 
     let c = if bases.len() < 4 {
-- 
2.43.0


From 8e9597671de377c0e0a1409129d633f730937a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 10/19] fix: msm_best handles bases that are the identity

---
 src/msm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index 3b49917..10dd104 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -497,7 +497,8 @@ pub fn msm_best<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
         for (base_idx, coeff) in coeffs.iter().enumerate() {
             let buck_idx = get_booth_index(w, c, coeff.as_ref());
 
-            if buck_idx != 0 {
+            // affine additions do not cover the identity, which contributes nothing
+            if buck_idx != 0 && !bool::from(bases[base_idx].is_identity()) {
                 // parse bucket index
                 let sign = buck_idx.is_positive();
                 let buck_idx = buck_idx.unsigned_abs() as usize - 1;
-- 
2.43.0


From d012e425486860cdc3f730f366123fbcd1bd69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 11/19] fix: msm_best doubles points correctly on curves with a
 != 0

---
 src/msm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index 10dd104..4a5ab63 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -91,7 +91,7 @@ fn batch_add<C: CurveAffine>(
                 // Doubling
                 let x_squared = bases[*base_idx].x.square();
                 *z = buckets[*buck_idx].y() + buckets[*buck_idx].y(); // 2y
-                *t = acc * (x_squared + x_squared + x_squared); // acc * 3x^2
+                *t = acc * (x_squared + x_squared + x_squared + C::a()); // acc * (3x^2 + a)
                 acc *= *z;
                 continue;
             }
-- 
2.43.0


From ffd90ea6f93100d03ef90d4745fb71dcab7ae133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 12/19] verif: re-export CurveEndo under cfg(halo2curves_verif)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f5caae2..2fea13a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,5 +23,9 @@ pub use group;
 pub use pairing;
 pub use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
 
+// For the verification harness only.
+#[cfg(halo2curves_verif)]
+pub use arithmetic::CurveEndo;
+
 #[cfg(test)]
 pub mod tests;
-- 
2.43.0


From 0f243ccd884d22c17eb0a04386da919b8a9a3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 13/19] fix: into_subgroup returns the point exactly when it is
 in the prime-order subgroup

---
 src/bls12381/g1.rs      | 2 +-
 src/bls12381/g2.rs      | 2 +-
 src/bn256/curve.rs      | 2 +-
 src/pluto_eris/curve.rs | 3 +--
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 451f1f0..7495269 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -51,7 +51,7 @@ impl group::cofactor::CofactorGroup for G1 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/bls12381/g2.rs b/src/bls12381/g2.rs
index df77bb5..a5829a2 100644
--- a/src/bls12381/g2.rs
+++ b/src/bls12381/g2.rs
@@ -123,7 +123,7 @@ impl group::cofactor::CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     /// Returns true if this point is free of an $h$-torsion component, and so it
diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index dadf31d..ea3f8bb 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -226,7 +226,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        unimplemented!();
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/pluto_eris/curve.rs b/src/pluto_eris/curve.rs
index e0452a9..2156099 100644
--- a/src/pluto_eris/curve.rs
+++ b/src/pluto_eris/curve.rs
@@ -202,8 +202,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        // TODO: Handle the case where the point is already in the subgroup.
-        CtOption::new(self.clear_cofactor(), 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
-- 
2.43.0


From fabcde027a404a32e6b7938edc1282ec215f5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 14/19] fix: bn256 G2 cofactor clearing no longer prints to
 standard output

---
 src/bn256/curve.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index ea3f8bb..4e7aeca 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -165,8 +165,6 @@ fn exp_by_x(g2: &G2) -> G2 {
     let x = super::BN_X;
 
     (0..62).rev().fold(g2.clone(), |mut acc, i| {
-        println!("{}", ((x >> i) & 1) == 1);
-
         acc = acc.double();
         (((x >> i) & 1) == 1).then(|| acc += g2);
         acc
-- 
2.43.0


From c74a525d177db0f11ba03c443f779ff89daae775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 15/19] verif: stand-in for the expanded message under
 cfg(halo2curves_verif)

---
 src/hash_to_curve.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash_to_curve.rs b/src/hash_to_curve.rs
index e4c287c..2dfbf65 100644
--- a/src/hash_to_curve.rs
+++ b/src/hash_to_curve.rs
@@ -6,6 +6,14 @@ use ff::{Field, FromUniformBytes, PrimeField};
 use pasta_curves::arithmetic::CurveExt;
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
+/// For the verification harness only: a stand-in for the expanded message of this thread.
+#[cfg(halo2curves_verif)]
+pub mod verif {
+    thread_local! {
+        pub static EXPANDED: std::cell::RefCell<Option<Vec<u8>>> = const { std::cell::RefCell::new(None) };
+    }
+}
+
 pub enum Method<C: CurveExt> {
     SSWU(Iso<C>),
     SVDW,
@@ -129,6 +137,8 @@ where
 
     pub(crate) fn hash_to_field(&self, domain_prefix: &[u8], message: &[u8]) -> (C::Base, C::Base) {
         let out = expand_message::<D>(domain_prefix, &self.domain[..], message, L * 2);
+        #[cfg(halo2curves_verif)]
+        let out = verif::EXPANDED.with(|e| e.borrow().clone()).unwrap_or(out);
 
         let u0 = {
             let mut out = out[0..L].to_vec();
-- 
2.43.0


From 1fcba339dac9e55255f9d409d50aa4703fb3e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 16/19] fix: points of the isogeny's kernel hash to the
 identity on bls12-381 G1

---
 src/bls12381/g1.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 7495269..32c5cec 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -155,11 +155,14 @@ fn iso_map(x: Fq, y: Fq, z: Fq) -> G1 {
     mapvals[2] *= y;
     mapvals[3] *= z;
 
-    G1 {
+    let p = G1 {
         x: mapvals[0] * mapvals[3], // xnum * yden,
         y: mapvals[2] * mapvals[1], // ynum * xden,
         z: mapvals[1] * mapvals[3], // xden * yden
-    }
+    };
+
+    // the points of the isogeny's kernel map to the identity
+    G1::conditional_select(&p, &G1::identity(), p.z.is_zero())
 }
 
 #[allow(clippy::type_complexity)]
-- 
2.43.0


From 5f82b1f22fab1c2acd20cde756e14c70b1ef9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 17/19] fix: is_odd of a quadratic extension element is the
 sign RFC 9380 defines

---
 src/derive/field/tower.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index de55de5..ca2a8cb 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -139,7 +139,8 @@ macro_rules! impl_tower2 {
             }
 
             fn is_odd(&self) -> Choice {
-                Choice::from(self.to_repr().as_ref()[0] & 1)
+                // The sign of RFC 9380, section 4.1: that of the first non-zero coefficient
+                self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
             }
         }
 
-- 
2.43.0


From dc0315e514614d38ab8ad3330773265c6468e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 18/19] verif: target group elements from and to field elements
 under cfg(halo2curves_verif)

---
 src/derive/pairing.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/derive/pairing.rs b/src/derive/pairing.rs
index 21cf437..2acb25e 100644
--- a/src/derive/pairing.rs
+++ b/src/derive/pairing.rs
@@ -140,6 +140,19 @@ macro_rules! impl_gt {
             }
         }
 
+        #[cfg(halo2curves_verif)]
+        impl $target {
+            /// The field element behind a target group element (verification only).
+            pub fn verif_inner(&self) -> $base {
+                self.0
+            }
+
+            /// Wraps a field element without checking its order (verification only).
+            pub fn verif_new(x: $base) -> Self {
+                $target(x)
+            }
+        }
+
         impl Eq for $target {}
         impl PartialEq for $target {
             #[inline]
-- 
2.43.0


From 6a6b639ea2312d98b58ef08f487879f27cc84c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 19/19] fix: product of a wide integer with i64::MIN overflowed
 while negating the word

---
 src/ff_ext/jacobi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff_ext/jacobi.rs b/src/ff_ext/jacobi.rs
index ed577b5..71887f4 100644
--- a/src/ff_ext/jacobi.rs
+++ b/src/ff_ext/jacobi.rs
@@ -216,7 +216,7 @@ impl<const L: usize> Mul<i64> for &LInt<L> {
         // the carry variable is being initialized with the additively negated short
         // multiplicand and the chunks of the long multiplicand are bitwise inverted
         let (other, mut carry, mask) = if other < 0 {
-            (-other as u64, -other as u64, u64::MAX)
+            (other.unsigned_abs(), other.unsigned_abs(), u64::MAX)
         } else {
             (other as u64, 0, 0)
         };
-- 
2.43.0

