From 6bc3296fa20b2639deb961b3b155e3ee8bfce638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 01/15] fix: round negative overflow by its sign in formats
 without infinities

normalize() passed the caller's rounding mode to overflow_result(), which
handles positive overflow, without mirroring it for negative values (as its
documentation asks and the exponent-overflow path does), so Float8E4M3FN
values between -448 and -512 overflowed in the wrong direction in the
directed rounding modes.
---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From ab92edcded7ce261bbfed9dd092d9f77955c120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 02/15] fix: normalize a denormal addend in fused multiply-add

mul_add_r aligned the product's most significant bit but shifted the addend by
a fixed amount, so a denormal addend kept leading zeros while carrying the
larger exponent. add_or_sub then lost bits of the operand with the larger
magnitude and borrowed in the wrong direction, giving wrongly rounded results
or failing its own no-borrow assertion (e.g. -0x1.4p-6 * 0x1.4p-7 + 0x1p-9 in
Float8E4M3FN).
---
 src/ieee.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..14b1582 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1182,13 +1182,19 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             // so the addition will overflow (if it does overflow at all) into the top bit.
             sig::shift_left(&mut ext_addend_sig, &mut 0, ext_precision - 1 - S::PRECISION);
 
+            // A denormal addend has to be normalized just like the product was, as
+            // `add_or_sub` relies on the larger exponent implying the larger value.
+            let mut ext_addend_exp = addend.exp + 1;
+            let addend_omsb = sig::omsb(&addend.sig);
+            sig::shift_left(&mut ext_addend_sig, &mut ext_addend_exp, S::PRECISION - addend_omsb);
+
             let mut sign = self.is_negative();
             loss = sig::add_or_sub(
                 &mut wide_sig,
                 &mut self.exp,
                 &mut sign,
                 &mut ext_addend_sig,
-                addend.exp + 1,
+                ext_addend_exp,
                 addend.is_negative(),
             );
             self = self.with_sign(sign);
-- 
2.43.0


From 499e02a4490d9ca1f98e8239c2e73ac34bbbbf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 03/15] fix: support 1-bit signed integer conversion of
 non-negative values

to_i128_r(1, ..) asks to_u128_r for a 0-bit magnitude, for which the largest
unsigned integer was computed with a shift by 128: a panic with overflow
checks, and u128::MAX as the saturation bound without.
---
 src/ieee.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 14b1582..3bd55c4 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1687,7 +1687,8 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             0
         } else {
             // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            // (`width` is 0 for the magnitude of non-negative 1-bit signed integers)
+            u128::MAX.checked_shr(128 - width as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From 9d0d3e1c5e9d1fc55e801c2f67a48efe20c2fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 04/15] fix: report signed conversion of negative zero as
 inexact

to_i128_r cleared is_exact for -0.0 before calling to_u128_r on the negated
value, which sets it again; the documented exception for negative zeroes was
lost.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..0913981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,11 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From 84eaa05f9975c8c95bc6b7cd04c9b53ede6c3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 05/15] fix: tell exact from inexact results when parsing
 decimal strings

The error bound of the approximate product or quotient was only compared
with the distance to a rounding boundary, so a result next to a
representable value was reported exact although it was not (or the other
way around), and values just below a representable one could be rounded
to the wrong side in the directed modes.
---
 src/ieee.rs | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 3bd55c4..ef79699 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2658,28 +2658,37 @@ impl<S: Semantics> IeeeFloat<S> {
                 let bits = calc_precision - used_bits - 1;
 
                 let i = bits / LIMB_BITS;
-                let limb = sig_calc[i] & (!0 >> (LIMB_BITS - 1 - bits % LIMB_BITS));
-                let boundary = match round {
-                    Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
-                    _ => 0,
-                };
-                if i == 0 {
-                    let delta = limb.wrapping_sub(boundary);
-                    cmp::min(delta, delta.wrapping_neg())
-                } else if limb == boundary {
-                    if !sig::is_all_zeros(&sig_calc[1..i]) {
-                        !0 // A lot.
+                let mask = !0 >> (LIMB_BITS - 1 - bits % LIMB_BITS);
+                let limb = sig_calc[i] & mask;
+                let ulps_from = |boundary: Limb| {
+                    let delta = limb.wrapping_sub(boundary) & mask;
+                    if i == 0 {
+                        cmp::min(delta, delta.wrapping_neg() & mask)
+                    } else if delta == 0 {
+                        if !sig::is_all_zeros(&sig_calc[1..i]) {
+                            !0 // A lot.
+                        } else {
+                            sig_calc[0]
+                        }
+                    } else if delta == mask {
+                        if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
+                            !0 // A lot.
+                        } else {
+                            sig_calc[0].wrapping_neg()
+                        }
                     } else {
-                        sig_calc[0]
-                    }
-                } else if limb == boundary.wrapping_sub(1) {
-                    if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
                         !0 // A lot.
-                    } else {
-                        sig_calc[0].wrapping_neg()
                     }
-                } else {
-                    !0 // A lot.
+                };
+
+                // Representable values are a boundary in every rounding mode,
+                // as they also separate exact from inexact results.
+                let ulps_from_exact = ulps_from(0);
+                match round {
+                    Round::NearestTiesToEven | Round::NearestTiesToAway => {
+                        cmp::min(ulps_from_exact, ulps_from(1 << (bits % LIMB_BITS)))
+                    }
+                    _ => ulps_from_exact,
                 }
             };
 
-- 
2.43.0


From 264e2b2e5f3a7ec4bb488db52331b3f0969de44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 06/15] fix: reject a sign inside a NaN payload when parsing

---
 src/ieee.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index ef79699..52b5dc1 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1632,6 +1632,11 @@ impl<S: Semantics> Float for IeeeFloat<S> {
                             .map(|s| s.strip_prefix(['x', 'X']).map(|s| (16, s)).unwrap_or((8, s)))
                             .unwrap_or((10, s));
 
+                        // `from_str_radix` would allow a sign here.
+                        if s.starts_with('+') {
+                            return None;
+                        }
+
                         // Parse the payload and make the NaN.
                         Some(u128::from_str_radix(s, radix).ok()?)
                     };
-- 
2.43.0


From b5da66ded75535576cd73f5f8e158d36769eaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 07/15] fix: treat a display precision of 0 as the natural
 precision

This is what the documentation says; some values panicked instead.
---
 src/ieee.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 52b5dc1..55356d1 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,10 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        let precision = match f.precision() {
+            None | Some(0) => 2 + S::PRECISION * 59 / 196,
+            Some(precision) => precision,
+        };
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0


From 5870d822309b2a88ed0a21272abf1b28778045d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 08/15] fix: keep one digit past the display precision to round
 correctly

Digits were discarded down to the requested precision up front, so when
exactly that many were left the result was truncated, not rounded.
---
 src/ieee.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 55356d1..b06d395 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -635,9 +635,10 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         let mut buffer = smallvec::SmallVec::<[u8; 64]>::new();
 
         // Ignore digits from the significand until it is no more
-        // precise than is required for the desired precision.
+        // precise than is required for the desired precision,
+        // and one more digit to decide the rounding.
         // 196/59 is a very slight overestimate of lg_2(10).
-        let required = (precision * 196 + 58) / 59;
+        let required = ((precision + 1) * 196 + 58) / 59;
         let mut discard_digits = sig::omsb(&sig).saturating_sub(required) * 59 / 196;
         let mut in_trail = true;
         while !sig.is_empty() {
-- 
2.43.0


From 3c6c7656a201285978fcebba7c45174a2ed33eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 09/15] fix: do not panic on signaling double-double NaNs

Every double-double operation that goes through the 106-bit fallback
(division, FMA, remainders, rounding, printing, integer conversion, and
parsing of "snan") asserted that the conversion between the two reports
no status, but converting a signaling NaN reports INVALID_OP.
---
 src/ppc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b32cf75..1cc527f 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -76,8 +76,9 @@ where
         let mut status;
         let mut loses_info = false;
 
+        // Converting a signaling NaN makes it quiet, and reports `INVALID_OP`.
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
         let a = unpack!(status=, extended.convert(&mut loses_info));
         assert_eq!(status - Status::INEXACT, Status::OK);
@@ -108,8 +109,9 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         let mut loses_info = false;
 
         // Get the first F and convert to our format.
+        // Converting a signaling NaN makes it quiet, and reports `INVALID_OP`.
         let a = unpack!(status=, a.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
-- 
2.43.0


From a6c5492fc355e51ec86034f44521b0641797f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 10/15] fix: let double-double results round up to infinity
 instead of panicking

A 106-bit result above the largest double-double (but below 2^1024)
rounds to an infinite high part; the conversion asserted that this
cannot happen, e.g. when parsing "0x1.fffffffffffff8p1023".
---
 src/ppc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 1cc527f..8b7cc92 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -80,8 +80,9 @@ where
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
+        // The largest values can only overflow to infinity when rounded to F.
         let a = unpack!(status=, extended.convert(&mut loses_info));
-        assert_eq!(status - Status::INEXACT, Status::OK);
+        assert_eq!(status - (Status::OVERFLOW | Status::INEXACT), Status::OK);
 
         // If conversion was exact or resulted in a special case, we're done;
         // just set the second double to zero. Otherwise, re-convert back to
-- 
2.43.0


From 67161e6c1efb3d51d341525c9a1791cbc503c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 11/15] fix: combine signs in double-double multiplication by
 zero and infinity

-1 * inf was +inf, and -1 * 0 was +0.
---
 src/ppc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 8b7cc92..03adc1f 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -298,9 +298,9 @@ where
 
             (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Status::OK.and(Self::NAN),
 
-            (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(self),
+            (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(if rhs.is_negative() { -self } else { self }),
 
-            (_, Category::Zero) | (_, Category::Infinity) => Status::OK.and(rhs),
+            (_, Category::Zero) | (_, Category::Infinity) => Status::OK.and(if self.is_negative() { -rhs } else { rhs }),
 
             (Category::Normal, Category::Normal) => {
                 let mut status = Status::OK;
-- 
2.43.0


From 975971dadb145e330908b96ac73ec97706a2e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 12/15] fix: compare magnitudes of double-doubles by their
 value

cmp_abs_normal panicked when a low part is zero, and called 1 + eps and
1 - eps equal.
---
 src/ppc.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 03adc1f..5a93ee9 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -391,16 +391,9 @@ where
 
     fn cmp_abs_normal(self, rhs: Self) -> Ordering {
         self.0.cmp_abs_normal(rhs.0).then_with(|| {
-            let result = self.1.cmp_abs_normal(rhs.1);
-            if result != Ordering::Equal {
-                let against = self.0.is_negative() ^ self.1.is_negative();
-                let rhs_against = rhs.0.is_negative() ^ rhs.1.is_negative();
-                (!against)
-                    .cmp(&!rhs_against)
-                    .then_with(|| if against { result.reverse() } else { result })
-            } else {
-                result
-            }
+            // The low parts may be zero, or work against the high ones.
+            let (a, b) = (self.abs().1, rhs.abs().1);
+            a.partial_cmp(&b).unwrap_or(Ordering::Equal)
         })
     }
 
-- 
2.43.0


From 2404665ef4c612af75b2265a8a094105154f137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 13/15] fix: look at the low part in the double-double denormal
 query

The high part was tested twice.
---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 5a93ee9..6f61c30 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -407,7 +407,7 @@ where
 
     fn is_denormal(self) -> bool {
         self.category() == Category::Normal
-            && (self.0.is_denormal() || self.0.is_denormal() ||
+            && (self.0.is_denormal() || self.1.is_denormal() ||
           // (double)(Hi + Lo) == Hi defines a normal number.
           self.0 !=  (self.0 + self.1).value)
     }
-- 
2.43.0


From 19470122606a168d185de880fe77b1975e996072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 14/15] fix: scaling a double-double over the range left a low
 part beside infinity or zero

---
 src/ppc.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 6f61c30..4971ef1 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -433,7 +433,14 @@ where
     }
 
     fn scalbn_r(self, exp: ExpInt, round: Round) -> Self {
-        DoubleFloat(self.0.scalbn_r(exp, round), self.1.scalbn_r(exp, round))
+        let a = self.0.scalbn_r(exp, round);
+        // Overflow to infinity and underflow to zero leave no low part.
+        let b = if a.is_finite_non_zero() {
+            self.1.scalbn_r(exp, round)
+        } else {
+            F::ZERO
+        };
+        DoubleFloat(a, b)
     }
 
     fn frexp_r(self, exp: &mut ExpInt, round: Round) -> Self {
-- 
2.43.0


From 7e1dfa83e69140cb3a9e0e0f34b5f67a2b78e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 15/15] fix: double-double addition of opposite finite values
 near the top could give NaN

When the second operand is the larger one and of opposite sign, `a - z`
could overflow while recovering the rounding error of the high parts, and
the infinities then met as infinity minus infinity. Recover it with the
larger high part first.
---
 src/ppc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index 4971ef1..1539d6e 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -244,6 +244,12 @@ where
                         self.1 = unpack!(status|=, self.1.add_r(zz, round));
                     }
                 } else {
+                    // The larger one goes first, or `a - z` could overflow.
+                    let (a, c) = if a.cmp_abs_normal(c) == Ordering::Less {
+                        (c, a)
+                    } else {
+                        (a, c)
+                    };
                     // q = a - z;
                     let mut q = a;
                     q = unpack!(status|=, q.sub_r(z, round));
-- 
2.43.0

