From 06ba76afbb6452112ecf417ea869f5c31ffad33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 01/11] fix: build without the std feature

The base64 import is only used by the serde implementations, which need
`std`. Without the feature it is an unused import, which the crate denies,
so no build without `std` compiled.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b09b0e..3c127a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@
 pub use libsecp256k1_core::*;
 
 use arrayref::{array_mut_ref, array_ref};
+#[cfg(feature = "std")]
 use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 use core::convert::TryFrom;
 use digest::{generic_array::GenericArray, Digest};
-- 
2.43.0


From ad50d0e2e8878f7a07fb54638e6a55a57146a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 02/11] fix: do not treat (n-1)/2 as a high scalar

The scalar (n-1)/2 is below n/2. Treating it as high made low-s
normalisation turn s = (n-1)/2 into the high value (n+1)/2 (and back
again when repeated), for signing as well.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..79c86ac 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From 4da98acd819468a084c8e6339b3298d1f87075ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 03/11] fix: format scalars in hex most significant limb first

`{:x}` printed the limbs in storage order, least significant first, so
the output was not the value in hexadecimal and did not match
`serialize`.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 79c86ac..c35238a 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -1022,7 +1022,7 @@ impl<'a> Neg for &'a Scalar {
 
 impl core::fmt::LowerHex for Scalar {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for word in &self.0[..] {
+        for word in self.0.iter().rev() {
             for byte in word.to_be_bytes().iter() {
                 write!(f, "{:02x}", byte)?;
             }
-- 
2.43.0


From 818f811043bc8d055446cb39b456941caa3e843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 04/11] fix: decode a zero DER integer at the end of the input

After skipping the leading zeros of an all-zero integer the decoder reads
zero bytes, which it refused at the end of the input. So `parse_der` could
not read back what `serialize_der` writes for s = 0, and `parse_der_lax`
refused it too.
---
 core/src/der.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 7166a30..85a8b51 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From cc1bee77b62ac44e9e3cca903b1a5f17efcf6962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 05/11] fix: do not parse inside an oversized DER integer

`read_integer` did not consume a negative or longer than 256 bit integer
but still returned zero for it, so `parse_der` went on to read the next
element from its contents: a sequence of one oversized integer whose
contents are an INTEGER was accepted as a signature. Report it as invalid,
as already happened whenever the contents did not look like an INTEGER.
---
 core/src/der.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 85a8b51..9866236 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -166,19 +166,18 @@ impl<'a> Decoder<'a> {
             self.read()?;
         }
 
-        if rlen > 32 {
-            overflow |= true;
+        // Negative or longer than 256 bits.
+        if overflow || rlen > 32 {
+            return Err(Error::InvalidSignature);
         }
 
         let mut int = Scalar::default();
 
-        if !overflow {
-            let mut b32 = [0u8; 32];
-            b32[32 - rlen..].copy_from_slice(self.peek_slice(rlen)?);
-            self.skip(rlen)?;
+        let mut b32 = [0u8; 32];
+        b32[32 - rlen..].copy_from_slice(self.peek_slice(rlen)?);
+        self.skip(rlen)?;
 
-            overflow |= bool::from(int.set_b32(&b32));
-        }
+        overflow |= bool::from(int.set_b32(&b32));
 
         if overflow {
             int = Scalar::default();
-- 
2.43.0


From 4d3c841c7ab687ec325f7fc74087f357d8a16138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 06/11] fix: skip oversized integers in lax DER

`read_integer_lax` did not consume an integer longer than 256 bits, so the
next element was read from inside it. Consume it like the parser in
Bitcoin Core does.
---
 core/src/der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 9866236..6084408 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -253,10 +253,10 @@ impl<'a> Decoder<'a> {
         if !overflow {
             let mut b32 = [0u8; 32];
             b32[32 - len..].copy_from_slice(&self.peek_slice(len)?);
-            self.skip(len)?;
 
             overflow |= bool::from(int.set_b32(&b32));
         }
+        self.skip(len)?;
 
         if overflow {
             int = Scalar::default();
-- 
2.43.0


From e63a26096790e61f087a2bb1274f56b31ff7a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 07/11] fix: handle allocation failure when building contexts

`new_boxed` made a `Box` from the result of `alloc` without checking it and
wrote through the null pointer when the allocation failed.
---
 core/src/ecmult.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/ecmult.rs b/core/src/ecmult.rs
index 8c892a4..b114331 100644
--- a/core/src/ecmult.rs
+++ b/core/src/ecmult.rs
@@ -4,7 +4,7 @@ use crate::{
     scalar::Scalar,
 };
 use alloc::{
-    alloc::{alloc, Layout},
+    alloc::{alloc, handle_alloc_error, Layout},
     boxed::Box,
     vec,
     vec::Vec,
@@ -67,7 +67,11 @@ impl ECMultContext {
         // because the struct is big. All values in `ECMultContext` are manually
         // initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultContext>()) as *mut ECMultContext;
+            let layout = Layout::new::<ECMultContext>();
+            let ptr = alloc(layout) as *mut ECMultContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for i in 0..ECMULT_TABLE_SIZE_G {
@@ -192,7 +196,11 @@ impl ECMultGenContext {
         // because the struct is big. All values in `ECMultGenContext` are
         // manually initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultGenContext>()) as *mut ECMultGenContext;
+            let layout = Layout::new::<ECMultGenContext>();
+            let ptr = alloc(layout) as *mut ECMultGenContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for j in 0..64 {
-- 
2.43.0


From 658254e46c59897501d993e49daad6bd10f12a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 08/11] fix: reject unreduced scalars when converting to a
 secret key

The limbs of a `Scalar` are public, so it can hold a value that is not
below the curve order. Such a value, the order itself for one, was
accepted as a secret key.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3c127a4..0e531b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -499,7 +499,8 @@ impl TryFrom<Scalar> for SecretKey {
     type Error = Error;
 
     fn try_from(scalar: Scalar) -> Result<Self, Error> {
-        if scalar.is_zero() {
+        let mut reduced = Scalar::default();
+        if bool::from(reduced.set_b32(&scalar.b32())) || scalar.is_zero() {
             Err(Error::InvalidSecretKey)
         } else {
             Ok(Self(scalar))
-- 
2.43.0


From e58ba3af6f0be3ab7a37f352376484a3825e0aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:03 +0000
Subject: [PATCH 09/11] fix: conditional moves compiled to branches on the
 secret

With optimisation, the selects in Field::cmov and FieldStorage::cmov became
jumps on the flag, so that the table scans of ecmult_gen and ecmult_const read
only the entry indexed by the secret digit. Select through subtle's Choice,
whose value the compiler cannot see.
---
 core/src/field.rs | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index 7e1b39f..5138091 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -2,6 +2,7 @@ use core::{
     cmp::Ordering,
     ops::{Add, AddAssign, Mul, MulAssign},
 };
+use subtle::{Choice, ConditionallySelectable};
 
 macro_rules! debug_assert_bits {
     ($x: expr, $n: expr) => {
@@ -1638,26 +1639,15 @@ impl Field {
     /// If flag is true, set *r equal to *a; otherwise leave
     /// it. Constant-time.
     pub fn cmov(&mut self, other: &Field, flag: bool) {
-        self.n[0] = if flag { other.n[0] } else { self.n[0] };
-        self.n[1] = if flag { other.n[1] } else { self.n[1] };
-        self.n[2] = if flag { other.n[2] } else { self.n[2] };
-        self.n[3] = if flag { other.n[3] } else { self.n[3] };
-        self.n[4] = if flag { other.n[4] } else { self.n[4] };
-        self.n[5] = if flag { other.n[5] } else { self.n[5] };
-        self.n[6] = if flag { other.n[6] } else { self.n[6] };
-        self.n[7] = if flag { other.n[7] } else { self.n[7] };
-        self.n[8] = if flag { other.n[8] } else { self.n[8] };
-        self.n[9] = if flag { other.n[9] } else { self.n[9] };
-        self.magnitude = if flag {
-            other.magnitude
-        } else {
-            self.magnitude
-        };
-        self.normalized = if flag {
-            other.normalized
-        } else {
-            self.normalized
-        };
+        // Go through `Choice`, so that the compiler cannot turn the selection
+        // into a branch on `flag`.
+        let flag = Choice::from(flag as u8);
+        for i in 0..10 {
+            self.n[i].conditional_assign(&other.n[i], flag);
+        }
+        self.magnitude.conditional_assign(&other.magnitude, flag);
+        self.normalized =
+            u8::conditional_select(&(self.normalized as u8), &(other.normalized as u8), flag) != 0;
     }
 }
 
@@ -1793,14 +1783,10 @@ impl FieldStorage {
     }
 
     pub fn cmov(&mut self, other: &FieldStorage, flag: bool) {
-        self.0[0] = if flag { other.0[0] } else { self.0[0] };
-        self.0[1] = if flag { other.0[1] } else { self.0[1] };
-        self.0[2] = if flag { other.0[2] } else { self.0[2] };
-        self.0[3] = if flag { other.0[3] } else { self.0[3] };
-        self.0[4] = if flag { other.0[4] } else { self.0[4] };
-        self.0[5] = if flag { other.0[5] } else { self.0[5] };
-        self.0[6] = if flag { other.0[6] } else { self.0[6] };
-        self.0[7] = if flag { other.0[7] } else { self.0[7] };
+        let flag = Choice::from(flag as u8);
+        for i in 0..8 {
+            self.0[i].conditional_assign(&other.0[i], flag);
+        }
     }
 }
 
-- 
2.43.0


From 1c2e90e0919ae419075a81633abad64f44197f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 10/11] fix: DER decoder offsets cannot overflow

---
 core/src/der.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 6084408..8e69a14 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -55,7 +55,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek(&self, forward: usize) -> Result<u8, Error> {
-        if self.1 + forward >= self.0.len() {
+        if forward >= self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = self.0[self.1 + forward];
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
@@ -123,7 +123,7 @@ impl<'a> Decoder<'a> {
         let mut ret = 0;
         while lenleft > 0 {
             ret = (ret << 8) | (self.read()? as usize);
-            if ret + lenleft > self.remaining_len() {
+            if ret > self.remaining_len() || lenleft > self.remaining_len() - ret {
                 return Err(Error::InvalidSignature);
             }
             lenleft -= 1;
-- 
2.43.0


From 640388bc23de47b75dcc8dc3eb6ed1a90d781dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:12 +0000
Subject: [PATCH 11/11] fix: DER decoder accepts a long-form length that fills
 the input

---
 core/src/der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 8e69a14..6b82d79 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -123,10 +123,10 @@ impl<'a> Decoder<'a> {
         let mut ret = 0;
         while lenleft > 0 {
             ret = (ret << 8) | (self.read()? as usize);
+            lenleft -= 1;
             if ret > self.remaining_len() || lenleft > self.remaining_len() - ret {
                 return Err(Error::InvalidSignature);
             }
-            lenleft -= 1;
         }
 
         if ret < 128 {
-- 
2.43.0

