From f7c0264492b754ae86324b8a8ac260ee5623d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 01/23] fix: iterating the bits of the zero scalar from the
 left must not underflow

---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..7f89f6c 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let (i, _) = l.overflowing_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..eb3e4b5 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let (i, _) = l.overflowing_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..935bd8b 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let (i, _) = l.overflowing_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From b6149b9c224dd38145e351e94e4512b843986f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 02/23] fix: normalize keeps the point at infinity

---
 src/montgomery/point.rs  | 3 +++
 src/weierstrass/point.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..39156bc 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,9 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.c.z.is_zero() {
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..c009b20 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,9 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.c.z.is_zero() {
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From 516d5e1bb125131ab95d273066bd04402ecd5f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 03/23] fix: decode a single byte without slicing past the end
 of the buffer

---
 src/montgomery/curve.rs  | 7 +++++++
 src/weierstrass/curve.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..f67e2ae 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -99,6 +99,13 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            return if tag == 0x00 {
+                Ok(self.identity())
+            } else {
+                Err(Error::new(ErrorKind::Other, "Invalid tag specified"))
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..a41e314 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -97,6 +97,13 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            return if tag == 0x00 {
+                Ok(self.identity())
+            } else {
+                Err(Error::new(ErrorKind::Other, "Invalid tag specified"))
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
-- 
2.43.0


From c7e3db2a526307b7f6a82f68b3daa55e4df5e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 04/23] fix: decoding bytes that are not a point of the curve
 returns an error

---
 src/edwards/curve.rs     | 19 ++++++++++++++++++-
 src/montgomery/curve.rs  | 16 ++++++++++++++--
 src/weierstrass/curve.rs | 16 ++++++++++++++--
 3 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..1c078ca 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -36,6 +36,23 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// Returns the affine point (x,y), or an error whenever it is not on the curve.
+    fn try_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let z = self.f.one();
+        let c = ProyCoordinates {
+            t: &x * &y,
+            x,
+            y,
+            z,
+        };
+        let pt = Point { e, c };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -142,7 +159,7 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        self.try_point(x, y)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index f67e2ae..de9d9ff 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -39,6 +39,18 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// Returns the affine point (x,y), or an error whenever it is not on the curve.
+    fn try_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let z = self.f.one();
+        let c = ProyCoordinates { x, y, z };
+        let pt = Point { e, c };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -136,7 +148,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.try_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -161,7 +173,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.try_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index a41e314..c378066 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -35,6 +35,18 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// Returns the affine point (x,y), or an error whenever it is not on the curve.
+    fn try_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let z = self.f.one();
+        let c = ProyCoordinates { x, y, z };
+        let pt = Point { e, c };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -134,7 +146,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.try_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -156,7 +168,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.try_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From ee9b0d8fba1474ca73696b581cb17c70adfe89fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 05/23] fix: reject compressed points with y=0 and the tag of a
 negative y

---
 src/montgomery/curve.rs  | 3 +++
 src/weierstrass/curve.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index de9d9ff..f5e2f0e 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -167,6 +167,9 @@ impl Decode for Curve {
                 let b_inv = &one / &self.b;
                 let yy = &byy * b_inv;
                 let y_sqrt = yy.sqrt();
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid tag specified"));
+                }
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index c378066..4de59ed 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -162,6 +162,9 @@ impl Decode for Curve {
                 let xxx_ax = &xx_a * &x;
                 let xxx_ax_b = &xxx_ax + &self.b;
                 let y_sqrt = xxx_ax_b.sqrt();
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid tag specified"));
+                }
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
-- 
2.43.0


From cfe0e4a3b7c74312d479208d32d89ddec0558fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 06/23] fix: the Edwards point (0,-1) is not the identity

---
 src/edwards/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..bdc7773 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()
     }
 }
 impl Encode for Point {
-- 
2.43.0


From 0d2f511443a7bfd84e57c119e34b24e233799f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 07/23] fix: push (0,-1) of edwards25519 to the point of order
 two of curve25519

---
 src/instances/rational_maps.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..88f30d7 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -13,6 +13,7 @@ use crate::montgomery::Point as MtPoint;
 use crate::ops::FromFactory;
 use crate::primefield::FpElt;
 use crate::weierstrass::Curve as WeCurve;
+use num_traits::identities::Zero;
 
 pub fn edwards25519_to_curve25519() -> impl RationalMap<E0 = EdCurve, E1 = MtCurve> {
     let e0 = EDWARDS25519.get();
@@ -42,6 +43,10 @@ impl RationalMap for Ed2Mt25519 {
     fn push(&self, p: TePoint) -> MtPoint {
         if p.is_zero() {
             self.e1.identity()
+        } else if p.c.x.is_zero() {
+            // the point of order two (0,-1)
+            let ff = self.e1.get_field();
+            self.e1.new_point(ff.zero(), ff.zero())
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
             let t0 = z + y;
-- 
2.43.0


From 8a969483d177676affb9ebc8e35a77e2303d3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 08/23] fix: is_two_torsion does not depend on the projective
 representative

---
 src/montgomery/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 39156bc..bce18eb 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -116,7 +116,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From fd534d7d932c3a2689f98ec16d96d2504223e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 09/23] fix: the maps between edwards448 and curve448 send
 their kernels to the identity

---
 src/instances/rational_maps.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 88f30d7..f8ab357 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -111,7 +111,8 @@ impl RationalMap for Ed4isoMt448 {
         self.e1.clone()
     }
     fn push(&self, p: TePoint) -> MtPoint {
-        if p.is_zero() {
+        // the kernel of the isogeny contains the point (0,-1)
+        if p.c.x.is_zero() {
             self.e1.identity()
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
@@ -131,7 +132,8 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        // the kernel of the dual isogeny contains the point (0,0)
+        if p.is_zero() || p.is_two_torsion() {
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
-- 
2.43.0


From 434fe6a015b96d6c8aa56da8bcec39d03fb26df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 10/23] fix: isogenies handle the identity, the kernel and
 points with z different from one

---
 src/instances/rational_maps.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index f8ab357..81a743c 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -218,6 +218,11 @@ impl Isogeny for Isosecp256k1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -232,6 +237,10 @@ impl Isogeny for Isosecp256k1 {
             y_num = (y_num * &x) + &self.y_num[i];
             y_den = (y_den * &x) + &self.y_den[i];
         }
+        if x_den.is_zero() {
+            // p belongs to the kernel of the isogeny
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
@@ -331,6 +340,11 @@ impl Isogeny for IsoBls12381G1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -348,6 +362,10 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() {
+            // p belongs to the kernel of the isogeny
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From badd6dadcd9b24661f447245d9b9bda3fd8f0336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 11/23] fix: Elligator 2 works on the curve with coefficient
 a/b

---
 src/montgomery/elligator2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index a74c048..449b025 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -19,7 +19,7 @@ impl Ell2 {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
-            let ca = &e.a / &inb;
+            let ca = &e.a * &inb;
             let cb = inb ^ 2u32;
             Ell2 { e, z, ca, cb }
         }
-- 
2.43.0


From 585068dbffe1d14f47cc29674a0c509d0997d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 12/23] fix: Elligator 2 refuses a Z that is a square

---
 src/montgomery/elligator2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index 449b025..9b4ab3b 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -15,7 +15,7 @@ pub struct Ell2 {
 
 impl Ell2 {
     pub fn new(e: Curve, z: FpElt) -> Ell2 {
-        if !Ell2::verify(&e) {
+        if !Ell2::verify(&e, &z) {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
@@ -24,10 +24,11 @@ impl Ell2 {
             Ell2 { e, z, ca, cb }
         }
     }
-    fn verify(e: &Curve) -> bool {
+    fn verify(e: &Curve, z: &FpElt) -> bool {
         let cond1 = !e.a.is_zero();
         let cond2 = !e.b.is_zero();
-        cond1 && cond2
+        let cond3 = !z.is_square();
+        cond1 && cond2 && cond3
     }
 }
 
-- 
2.43.0


From 519d3979f24c238a6060c9946d5c2a6e50c71f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 13/23] fix: the inverse in the quadratic field conjugates

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..23a4d0b 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -189,7 +189,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From 37f088dc5e0a3b47a407384a2038d2c3cc9087cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 14/23] fix: powers in the quadratic field

---
 src/quadraticfield/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 23a4d0b..9e34ab1 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -240,9 +240,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
@@ -258,8 +258,10 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a Fp2Elt {
     type Output = Fp2Elt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
-        let expo = &exp.to_biguint().unwrap();
-        self ^ expo
+        match exp.to_biguint() {
+            Some(expo) => self ^ &expo,
+            None => &self.inv_mod() ^ &-exp,
+        }
     }
 }
 
-- 
2.43.0


From c7e86cc1f40c7b87877a15085bb24146fb9e6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 15/23] fix: zero is a square in the quadratic field

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 9e34ab1..7f43406 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -300,7 +300,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t1 == self.f.0.base.one() || t1.is_zero()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From 832da148a1cbd3b5408bda50ac7cf74503dec4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 16/23] fix: the sign in the quadratic field is the one of the
 first nonzero coordinate

---
 src/quadraticfield/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 7f43406..0a7359a 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -326,10 +326,11 @@ impl Sqrt for Fp2Elt {
 
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
-        let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
-        let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        if self.n[0].is_zero() {
+            self.n[1].sgn0()
+        } else {
+            self.n[0].sgn0()
+        }
     }
 }
 
-- 
2.43.0


From 06e8b6bd3b632770475a9673f190c92efb10a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 17/23] fix: the square-root cache of a field does not keep the
 field alive

---
 src/primefield/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..b1973fe 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -248,7 +248,7 @@ impl CMov for FpElt {}
 #[derive(Clone, std::cmp::PartialEq)]
 enum SqrtPrecmp {
     P3MOD4 { exp: BigInt },
-    P5MOD8 { exp: BigInt, sqrt_minus_one: FpElt },
+    P5MOD8 { exp: BigInt, sqrt_minus_one: BigInt },
     P9MOD16,
     P1MOD16,
 }
@@ -274,7 +274,7 @@ impl Fp {
             t0 = t0 + self.one(); //       2t^2+1
             t0 = t0 * t; //             t(2t^2+1)
             let exp = k + 1;
-            let sqrt_minus_one = t0;
+            let sqrt_minus_one = t0.n;
             SqrtPrecmp::P5MOD8 {
                 exp,
                 sqrt_minus_one,
@@ -305,7 +305,7 @@ impl Sqrt for FpElt {
                 let t0 = self ^ &exp;
                 let t1 = &t0 ^ 2u32;
                 let e = *self == t1;
-                let t1 = &t0 * sqrt_minus_one;
+                let t1 = &t0 * self.red(sqrt_minus_one);
                 FpElt::cmov(&t1, &t0, e)
             }
             SqrtPrecmp::P9MOD16 => unimplemented!(),
-- 
2.43.0


From 28beaf738fb4b889502923770c38abcbc44948d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 18/23] fix: square roots can be computed by several threads at
 once

---
 src/primefield/mod.rs     | 10 ++++------
 src/quadraticfield/mod.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index b1973fe..1cb9f0e 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -2,7 +2,6 @@
 //!
 //! The primefield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use impl_ops::impl_op_ex;
 use num_bigint::{BigInt, BigUint, ToBigInt};
 use num_integer::Integer;
@@ -11,7 +10,7 @@ use num_traits::identities::{One, Zero};
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -19,7 +18,7 @@ use crate::ops::{Deserialize, FromFactory, Serialize};
 
 struct Params {
     p: BigInt,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -46,7 +45,7 @@ impl Fp {
         // TODO: verify whether p is prime.
         Fp(Arc::new(Params {
             p: modulus.to_bigint().unwrap(),
-            sqrt_precmp: AtomicRefCell::new(None),
+            sqrt_precmp: OnceLock::new(),
         }))
     }
 }
@@ -256,8 +255,7 @@ impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 0a7359a..463cd58 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -2,14 +2,13 @@
 //!
 //! The quadraticfield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use num_bigint::{BigInt, BigUint};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -18,7 +17,7 @@ use crate::primefield::{Fp, FpElt};
 
 struct Params {
     base: Fp,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -43,7 +42,7 @@ impl Fp2 {
     /// The `modulus` should be a prime number.
     pub fn new(modulus: BigUint) -> Self {
         let base = Fp::new(modulus);
-        let sqrt_precmp = AtomicRefCell::new(None);
+        let sqrt_precmp = OnceLock::new();
         Fp2(Arc::new(Params { base, sqrt_precmp }))
     }
 }
@@ -276,8 +275,7 @@ impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
-- 
2.43.0


From 7b7c4ffa242a70f7b36afa1903520d4feb480846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 19/23] fix: zero to a nonzero multiple of p-1 is zero

---
 src/primefield/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 1cb9f0e..5a5ced2 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -237,6 +237,9 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a FpElt {
     type Output = FpElt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
+        if self.is_zero() && !exp.is_zero() {
+            return self.clone();
+        }
         let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
         self ^ expo
     }
-- 
2.43.0


From 0e5fd819ce3c50450a10a4e893aedee0bbfa379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 20/23] fix: points of curves over different fields compare as
 different

---
 src/edwards/point.rs     | 5 ++++-
 src/montgomery/point.rs  | 5 ++++-
 src/weierstrass/point.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index bdc7773..8af4003 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -107,13 +107,16 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
         let t1z2 = &self.c.t * &other.c.z;
         let z1t2 = &self.c.z * &other.c.t;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
+        x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
     }
 }
 
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index bce18eb..905d7f6 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -124,11 +124,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index c009b20..51f5cf9 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -209,11 +209,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
-- 
2.43.0


From 8648c0a4b9dbbd5b7aca62ebdfa388f001063ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 21/23] fix: the addition on Montgomery curves takes the
 coefficient b into account

---
 src/montgomery/point.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 905d7f6..1e95aae 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -83,8 +83,9 @@ impl Point {
     fn core_add(&self, p: &Point) -> Point {
         let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
         let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
-        let (a_ec, s_ec) = (&self.e.a, &self.e.s);
-        let (t0, t1, t2) = (x1 * x2, y1 * y2, z1 * z2);
+        let (a_ec, b_ec) = (&self.e.a, &self.e.b);
+        let s_ec = &(b_ec * &self.e.s);
+        let (t0, t1, t2) = (x1 * x2, b_ec * (y1 * y2), z1 * z2);
         let (t3, t4) = (x1 * y2, x2 * y1);
         let (t5, t6) = (y1 * z2, y2 * z1);
         let (t7, t8) = (x1 * z2, x2 * z1);
@@ -94,11 +95,11 @@ impl Point {
         let tt = &ta - &t1;
         let vv = t9 * a_ec + &t0 + &t0 + &t0 + &t2;
         let ss = (&t3 - &t4) * s_ec + t0 - t2;
-        let uu = (t7 - t8) * s_ec - t3 - t4;
+        let uu = (t7 - t8) * &self.e.s - t3 - t4;
         let ww = (t5 - t6) * s_ec + ta + t1;
-        let x3 = &rr * &ss - &tt * &uu;
+        let x3 = (&rr * &ss - &tt * &uu) * b_ec;
         let y3 = tt * &ww - &vv * &ss;
-        let z3 = vv * uu - rr * ww;
+        let z3 = (vv * uu - rr * ww) * b_ec;
         self.e.new_proy_point(ProyCoordinates {
             x: x3,
             y: y3,
-- 
2.43.0


From a78a0967c2fce00397e1cfd0b87a90505626224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 22/23] fix: cofactor of the curve 11-isogenous to BLS12-381 G1

---
 src/instances/weier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/weier.rs b/src/instances/weier.rs
index d648cf5..741f416 100644
--- a/src/instances/weier.rs
+++ b/src/instances/weier.rs
@@ -100,7 +100,7 @@ static BLS12381G1_11ISO_PARAMS: &Params = &Params {
     a: "0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d",
     b: "0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0",
     r: "52435875175126190479447740508185965837690552500527637822603658699938581184513",
-    h: "15132376222941642753",
+    h: "76329603384216526031706109802092473003",
     gx: "0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2",
     gy: "0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4",
 };
-- 
2.43.0


From 3c02a95eb96af40a09ce2c7ce5c048fa81977073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 23/23] fix: Elligator 2 refuses a Z of another field

---
 src/montgomery/elligator2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index 9b4ab3b..c7b1856 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -27,6 +27,7 @@ impl Ell2 {
     fn verify(e: &Curve, z: &FpElt) -> bool {
         let cond1 = !e.a.is_zero();
         let cond2 = !e.b.is_zero();
+        let z = z * e.get_field().one(); // Z belongs to the field of the curve
         let cond3 = !z.is_square();
         cond1 && cond2 && cond3
     }
-- 
2.43.0

