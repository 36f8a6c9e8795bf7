From 0c30e94f7f13f6bd4d3b558368cd11053d43a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 01/36] fix: unsigned zero uses no bytes, so it equals every
 other zero

---
 crates/sourisdb/src/types/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..c4beab5 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -297,14 +297,14 @@ macro_rules! from_unsigned {
                 for (i, b) in n.to_le_bytes().into_iter().enumerate() {
                     content[i] = b;
                     if b != 0 {
-                        last_non_zero_byte = i;
+                        last_non_zero_byte = i + 1;
                     }
                 }
 
                 Self {
                     signed_state: SignedState::Unsigned,
                     content,
-                    number_of_bytes_used: last_non_zero_byte + 1
+                    number_of_bytes_used: last_non_zero_byte
                 }
             }
         }
-- 
2.43.0


From 29038819c0a1aa95697a8aac8dbf1d0ec8c0ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 02/36] fix: converting an integer to a signed type no longer
 wraps

---
 crates/sourisdb/src/types/integer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index c4beab5..6fc3763 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -281,7 +281,12 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let out = <$t>::from_le_bytes(out);
+                if (out < 0) != (i.signed_state == SignedState::SignedNegative) {
+                    return Err(IntegerSerError::TooBigToFit);
+                }
+
+                Ok(out)
             }
         }
         )+
-- 
2.43.0


From 65c4bedb4b4cef8c639a13e8d1fa165fb2369012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 03/36] fix: integers decoded from padded bytes are normalised

---
 crates/sourisdb/src/types/integer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 6fc3763..12d5bf9 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -767,6 +767,26 @@ impl Integer {
             content[i] = b;
         }
 
+        let top_bit_set = content[INTEGER_MAX_SIZE - 1] > 0b0111_1111;
+        let signed_state = match signed_state {
+            //not a number that any signed type could hold
+            SignedState::SignedNegative if !top_bit_set => return Err(IntegerSerError::SignError),
+            //only fits inside the biggest unsigned type
+            SignedState::SignedPositive if top_bit_set => SignedState::Unsigned,
+            signed_state => signed_state,
+        };
+
+        //other representations are allowed to store more bytes than necessary
+        let (padding, minimum_bytes) = if signed_state == SignedState::SignedNegative {
+            (u8::MAX, 1)
+        } else {
+            (0, 0)
+        };
+        let mut number_of_bytes_used = INTEGER_MAX_SIZE;
+        while number_of_bytes_used > minimum_bytes && content[number_of_bytes_used - 1] == padding {
+            number_of_bytes_used -= 1;
+        }
+
         Ok(Self {
             signed_state,
             content,
-- 
2.43.0


From 0ce5245991645aac97941af87f2e626ee527c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 04/36] fix: float to integer conversion handles f32, negative
 fractions, and the lower bound

---
 crates/sourisdb/src/types/integer.rs | 41 +++++++++-------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 12d5bf9..59c4482 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -417,22 +417,22 @@ impl TryFrom<f64> for Integer {
         if !value.is_finite() {
             return Err(FloatToIntegerConversionError::NotFinite);
         }
-        if value.fract() > f64::EPSILON {
+        if value.fract().abs() > f64::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 value.fract(),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > BiggestIntButSigned::MIN as f64 {
-                Ok((floored as BiggestIntButSigned).into())
+        let truncated = value.trunc();
+        if truncated < 0.0 {
+            if truncated >= BiggestIntButSigned::MIN as f64 {
+                Ok((truncated as BiggestIntButSigned).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored < BiggestInt::MAX as f64 {
-                Ok((floored as BiggestInt).into())
+            if truncated < BiggestInt::MAX as f64 {
+                Ok((truncated as BiggestInt).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
@@ -442,33 +442,18 @@ impl TryFrom<f64> for Integer {
 impl TryFrom<f32> for Integer {
     type Error = FloatToIntegerConversionError;
 
-    #[allow(
-        clippy::collapsible_else_if,
-        clippy::cast_precision_loss,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
     fn try_from(value: f32) -> Result<Self, Self::Error> {
-        if value.fract() > f32::EPSILON {
+        if !value.is_finite() {
+            return Err(FloatToIntegerConversionError::NotFinite);
+        }
+        if value.fract().abs() > f32::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 f64::from(value.fract()),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > i128::MIN as f32 {
-                Ok((floored as i128).into())
-            } else {
-                Err(FloatToIntegerConversionError::TooLarge)
-            }
-        } else {
-            if floored > u128::MAX as f32 {
-                Ok((floored as u128).into())
-            } else {
-                Err(FloatToIntegerConversionError::TooLarge)
-            }
-        }
+        //every `f32` is exactly an `f64`
+        Self::try_from(f64::from(value.trunc()))
     }
 }
 
-- 
2.43.0


From f009ebd2b9c7f9f39181abed86b9f220dc96b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 05/36] fix: polar form of zero has a real argument

---
 crates/sourisdb/src/types/imaginary.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index c4c7e2e..bccbd68 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -4,7 +4,6 @@
 
 use alloc::vec::Vec;
 use core::{
-    f64::consts::PI,
     fmt::{Display, Formatter},
     hash::Hash,
     num::FpCategory,
@@ -180,13 +179,7 @@ impl Imaginary {
     /// assert!((argument - expected_argument).abs() < f64::EPSILON);
     pub fn polar_from_cartesian(real: f64, imaginary: f64) -> Self {
         let modulus = real.hypot(imaginary);
-        let phi = (imaginary.abs() / real.abs()).atan();
-        let argument = match (real.is_sign_negative(), imaginary.is_sign_negative()) {
-            (true, true) => -PI + phi,
-            (true, false) => PI - phi,
-            (false, true) => -phi,
-            (false, false) => phi,
-        };
+        let argument = imaginary.atan2(real);
 
         Imaginary::PolarForm { modulus, argument }
     }
-- 
2.43.0


From 07fe437972ad578bba7c44701deabf8d358de431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 06/36] fix: imaginary numbers with either floating point zero
 hash alike

---
 crates/sourisdb/src/types/imaginary.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index bccbd68..55c7433 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -52,7 +52,10 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                modulus.to_le_bytes().hash(state);
+                //both zeroes are equal, so they have to hash alike
+                if *modulus != 0.0 {
+                    modulus.to_le_bytes().hash(state);
+                }
 
                 match argument.classify() {
                     FpCategory::Nan => 0,
@@ -62,7 +65,10 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                argument.to_le_bytes().hash(state);
+                //both zeroes are equal, so they have to hash alike
+                if *argument != 0.0 {
+                    argument.to_le_bytes().hash(state);
+                }
             }
         }
     }
-- 
2.43.0


From d232b3f0a6bc09828c1be04b45d67ec0ef87692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 07/36] fix: bits longer than 2^24 read back the right number
 of bytes

---
 crates/sourisdb/src/utilities/bits.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..177f0b8 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -154,14 +154,9 @@ impl Bits {
     /// # Errors
     /// - [`IntegerSerError`] if we cannot find the number of valid bits
     /// - [`IntegerSerError::NotEnoughBytes`] if we do not have enough bytes
-    #[allow(
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss,
-        clippy::cast_precision_loss
-    )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
+        let to_be_read = valid_bits.div_ceil(8);
         let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
-- 
2.43.0


From 7c6e5a4e606b7b6716d81ed77654552be851d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 08/36] fix: stray bits after the last valid bit are ignored

---
 crates/sourisdb/src/utilities/bits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index 177f0b8..1af04e4 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -118,7 +118,7 @@ impl Bits {
             return self.backing.clone();
         }
 
-        let to_be_anded = (0..=interior_index).fold(0, |acc, i| acc | (1 << i));
+        let to_be_anded = (0..interior_index).fold(0, |acc, i| acc | (1 << i));
 
         let mut bytes = self.backing.clone();
         bytes[self.backing.len() - 1] &= to_be_anded;
@@ -161,10 +161,12 @@ impl Bits {
             return Err(IntegerSerError::NotEnoughBytes);
         };
 
-        Ok(Self {
+        let mut bits = Self {
             backing,
             valid_bits,
-        })
+        };
+        bits.backing = bits.get_proper_bytes(); //anything past the last bit isn't part of the bits
+        Ok(bits)
     }
 }
 
-- 
2.43.0


From 72b4047c86f5d11f669b013ccfb62f42c7559604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 09/36] fix: huffman codes for a single distinct element lose
 no data

---
 crates/sourisdb/src/utilities/huffman.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..8ec1e2b 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -357,10 +357,13 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     fn add_node_to_table<U: Hash + Eq + Clone>(
         node: &Node<U>,
         to_bits: &mut HashMap<U, Bits>,
-        bits_so_far: Bits,
+        mut bits_so_far: Bits,
     ) {
         match node {
             Node::Leaf(ch) => {
+                if bits_so_far.is_empty() {
+                    bits_so_far.push(true); //there is only one element, which still needs a bit to be counted by
+                }
                 to_bits.insert(ch.clone(), bits_so_far);
             }
             Node::Branch { left, right } => {
@@ -421,7 +424,11 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                Node::Leaf(t) => {
+                    //only the root can be a leaf here, and then every bit is one element
+                    result.push(t.clone());
+                    new_node = &self.root;
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
-- 
2.43.0


From 0bdbf81887922c685a798b510f3ba186690862be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 10/36] fix: no underflow when reading a zero character in a
 huffman tree

---
 crates/sourisdb/src/utilities/huffman.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 8ec1e2b..4b7d75e 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -198,8 +198,11 @@ impl Node<char> {
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            let Some(ch) = ch.checked_sub(1) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
+            };
+            let Ok(ch) = char::try_from(ch) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
-- 
2.43.0


From 2637fef4dc42151d0d42dcb885b479d7f72c6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 11/36] fix: refuse huffman trees deep enough to exhaust the
 stack

---
 crates/sourisdb/src/utilities/huffman.rs | 30 ++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 4b7d75e..5905f07 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -86,6 +86,9 @@ pub struct Huffman<T: Hash + Eq + Clone> {
     to_bits: HashMap<T, Bits>,
     root: Node<T>,
 }
+///The deepest a node tree can be when deserialised - this is deeper than any tree made from counting elements could be, and stops us from running out of stack space.
+const MAX_TREE_DEPTH: usize = 256;
+
 //I tested tree traversal both ways, and in the end it made encoding like 2000% slower (300 nano -> 7 milli), but encoding like 90% faster (1 milli -> 100 nano), so that's the cause for the split approach
 
 ///A binary tree structure for use in creating the huffman encoding
@@ -152,14 +155,22 @@ impl Node<u8> {
     }
 
     pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_internal(cursor, 0)
+    }
+
+    fn deser_internal(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
+
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let left = Box::new(Self::deser_internal(cursor, depth + 1)?);
+                let right = Box::new(Self::deser_internal(cursor, depth + 1)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -187,13 +198,21 @@ impl Node<char> {
     }
 
     fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_internal(cursor, 0)
+    }
+
+    fn deser_internal(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
+
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let left = Box::new(Self::deser_internal(cursor, depth + 1)?);
+            let right = Box::new(Self::deser_internal(cursor, depth + 1)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
@@ -223,6 +242,8 @@ pub enum HuffmanSerError {
     InvalidNodeFormat { ex: char, found: u8 },
     ///We were deserialising nodes with `u8`s, and we found an invalid discriminant for whether the next item was a branch or a leaf
     InvalidDiscriminant(u8),
+    ///The node tree was nested too deeply
+    TreeTooDeep,
     ///We tried to encode/decode some bits using the provided [`Huffman`] tree but couldn't.
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
@@ -253,6 +274,7 @@ impl Display for HuffmanSerError {
             HuffmanSerError::InvalidDiscriminant(b) => {
                 write!(f, "Deserialising u8 node tree, expected 0 or 1, found {b}")
             }
+            HuffmanSerError::TreeTooDeep => write!(f, "Node tree was too deep"),
             HuffmanSerError::UnableToCode => write!(
                 f,
                 "Unable to encode/decode given bits using given huffman tree"
-- 
2.43.0


From 9241b013704ac0accf2566eaa8ee89189be39d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 12/36] fix: a run too long to allocate is an error rather than
 an abort

---
 crates/sourisdb/src/types/binary/huffman.rs | 7 ++++++-
 crates/sourisdb/src/utilities/huffman.rs    | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/huffman.rs b/crates/sourisdb/src/types/binary/huffman.rs
index bd6193d..412a782 100644
--- a/crates/sourisdb/src/types/binary/huffman.rs
+++ b/crates/sourisdb/src/types/binary/huffman.rs
@@ -44,7 +44,12 @@ pub fn un_huffman(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, HuffmanSerError> {
                 .next()
                 .copied()
                 .ok_or(HuffmanSerError::NotEnoughBytes)?;
-            vec![element; count]
+            let mut output = vec![];
+            output
+                .try_reserve_exact(count)
+                .map_err(|_| HuffmanSerError::TooLong(count))?;
+            output.resize(count, element);
+            output
         }
         _ => {
             let huffman = Huffman::<u8>::deser(cursor)?;
diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 5905f07..77e1a2c 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -242,6 +242,8 @@ pub enum HuffmanSerError {
     InvalidNodeFormat { ex: char, found: u8 },
     ///We were deserialising nodes with `u8`s, and we found an invalid discriminant for whether the next item was a branch or a leaf
     InvalidDiscriminant(u8),
+    ///There isn't enough memory for the declared number of elements
+    TooLong(usize),
     ///The node tree was nested too deeply
     TreeTooDeep,
     ///We tried to encode/decode some bits using the provided [`Huffman`] tree but couldn't.
@@ -274,6 +276,9 @@ impl Display for HuffmanSerError {
             HuffmanSerError::InvalidDiscriminant(b) => {
                 write!(f, "Deserialising u8 node tree, expected 0 or 1, found {b}")
             }
+            HuffmanSerError::TooLong(len) => {
+                write!(f, "Not enough memory for {len} elements")
+            }
             HuffmanSerError::TreeTooDeep => write!(f, "Node tree was too deep"),
             HuffmanSerError::UnableToCode => write!(
                 f,
-- 
2.43.0


From 7561a5dc432bcf1dfadf0d68299017bd511728fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 13/36] fix: don't reserve more space than LZ data could ever
 fill

---
 crates/sourisdb/src/types/binary/lz.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..20fe06b 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -40,7 +40,9 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
-    Ok(decompress(compressed, input_len)?)
+    //one byte can never stand for more than 255 bytes, so don't reserve space for more than that
+    let maximum_len = input_len.min(compressed.len().saturating_mul(255));
+    Ok(decompress(compressed, maximum_len)?)
 }
 
 //leftover from when I tried to actually implement lz, but was very slow
-- 
2.43.0


From 0dd43bfceede2c0a4979a9ae9d2ad700ad916450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 14/36] fix: maps and empty containers can be deserialised
 again

---
 crates/sourisdb/src/values.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..526c6f7 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1147,7 +1147,7 @@ impl Value {
             FoundValue(Value),
             JsonNeeded,
             TimezoneNeeded,
-            Map(HashMap<String, Value>, usize, u8),
+            Map(HashMap<String, Value>, usize),
             FoundKey(String),
             FoundKeyValue(String, Value),
             Array(Vec<Value>, usize),
@@ -1156,7 +1156,7 @@ impl Value {
         enum ParseResult {
             Value(Value),
             NewArray(usize),
-            NewMap(usize, u8),
+            NewMap(usize),
             Json,
             Timezone,
         }
@@ -1247,7 +1247,7 @@ impl Value {
                 }
                 ValueTy::Map => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
-                    return Ok(ParseResult::NewMap(len, byte));
+                    return Ok(ParseResult::NewMap(len));
                 }
                 ValueTy::Array => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
@@ -1285,8 +1285,10 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
+                        ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1305,7 +1307,7 @@ impl Value {
                         }
                         Some(next_stack_frame) => {
                             match next_stack_frame {
-                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
+                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
                                 DeserialisationState::FoundKey(key) => {
                                     stack.push(DeserialisationState::FoundKeyValue(key, val));
                                 }
@@ -1345,18 +1347,28 @@ impl Value {
                     stack.push(DeserialisationState::Array(so_far, left));
                     stack.push(DeserialisationState::ValueNeeded);
                 }
-                DeserialisationState::Map(so_far, left, byte) => {
+                DeserialisationState::Map(so_far, left) => {
+                    //keys are written as whole `Value::String`s
+                    let byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+                    let found = ValueTy::try_from((byte & 0b1111_0000) >> 4)?;
+                    if found != ValueTy::String {
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found,
+                            expected: ValueTy::String,
+                        });
+                    }
                     let key = parse_string(byte, bytes, huffman)?;
-                    stack.push(DeserialisationState::Map(so_far, left, byte));
+                    stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
-                    if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
+                    if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
-                            stack.push(DeserialisationState::Map(so_far, left - 1, byte));
+                            stack.push(DeserialisationState::Map(so_far, left - 1));
                         }
                     } else {
                         return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::FoundKeyValueWithoutMap));
-- 
2.43.0


From 8281080384986fd08ec58871dace3a7815cb3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 15/36] fix: declared container lengths don't reserve unbounded
 memory

---
 crates/sourisdb/src/values.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 526c6f7..6d1e4c7 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1142,6 +1142,9 @@ impl Value {
         bytes: &mut Cursor<u8>,
         huffman: Option<&Huffman<char>>,
     ) -> Result<Self, ValueSerError> {
+        ///The declared length of a container could be anything, so only so much space is set aside before any elements are found
+        const MAX_PREALLOCATED: usize = 1024;
+
         enum DeserialisationState {
             ValueNeeded,
             FoundValue(Value),
@@ -1287,8 +1290,8 @@ impl Value {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
+                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len.min(MAX_PREALLOCATED)), len),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len.min(MAX_PREALLOCATED)), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From 22afe4c806f2e9863196f061cd6b2340481aaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 16/36] fix: refuse containers nested deeply enough to exhaust
 the stack

---
 crates/sourisdb/src/store.rs  |  5 +++--
 crates/sourisdb/src/values.rs | 29 +++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/store.rs b/crates/sourisdb/src/store.rs
index 46dbac0..6303204 100644
--- a/crates/sourisdb/src/store.rs
+++ b/crates/sourisdb/src/store.rs
@@ -22,7 +22,7 @@ use crate::{
         cursor::Cursor,
         huffman::{Huffman, HuffmanSerError},
     },
-    values::{Value, ValueSerError, ValueTy},
+    values::{Value, ValueSerError, ValueTy, MAX_NESTING},
 };
 
 ///A key-value store where the keys are [`String`]s and the values are [`Value`]s - this is a thin wrapper around [`hashbrown::HashMap`] and implements both [`Deref`] and [`DerefMut`] pointing to it. This database is optimised for storage when serialised.
@@ -126,7 +126,8 @@ impl Store {
             None
         };
 
-        let val = Value::deser(&mut Cursor::new(&bytes), huffman.as_ref())?;
+        //the store itself is one more level
+        let val = Value::deser_nested(&mut Cursor::new(&bytes), huffman.as_ref(), MAX_NESTING + 1)?;
         let ty = val.as_ty();
         let Some(map) = val.to_map() else {
             return Err(StoreSerError::ExpectedMap(ty));
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 6d1e4c7..23d447a 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -55,6 +55,9 @@ use crate::{
     },
 };
 
+///The most [`Value::Map`]s and [`Value::Array`]s that can be inside each other when deserialising a [`Value`] - anything deeper risks running out of stack space when the value is used.
+pub const MAX_NESTING: usize = 128;
+
 ///The `Value` type used in [`crate::store::Store`]
 #[derive(Clone, Debug)]
 pub enum Value {
@@ -495,7 +498,9 @@ enum InvalidDeserialisationStateError {
     ///We found a state that should come after a value without a value
     ShouldOnlyComeAfterFoundValue,
     ///The stack was empty at the end of processing rather than yielding a value
-    EmptyStack
+    EmptyStack,
+    ///There were too many [`Value::Map`]s and [`Value::Array`]s inside each other
+    NestedTooDeeply,
 }
 
 impl From<InvalidDeserialisationStateError> for ValueSerError {
@@ -1137,10 +1142,20 @@ impl Value {
     /// - [`BinarySerError::NoCompressionTypeFound`] if we cannot find the compression type
     /// - [`BinarySerError`] if we cannot deserialise binary
     /// - [`ValueSerError::UnexpectedValueType`] if we expected to find one type but found another. This can be found in the [`Value::Timezone`] deserialisation where we immediately try to deserialise a [`Value::String`].
-    #[allow(clippy::many_single_char_names, clippy::too_many_lines)]
+    /// - [`ValueSerError::InvalidDeserialisation`] if more than [`MAX_NESTING`] containers are inside each other.
     pub fn deser(
         bytes: &mut Cursor<u8>,
         huffman: Option<&Huffman<char>>,
+    ) -> Result<Self, ValueSerError> {
+        Self::deser_nested(bytes, huffman, MAX_NESTING)
+    }
+
+    ///[`Value::deser`] with a given maximum for how many containers can be inside each other.
+    #[allow(clippy::many_single_char_names, clippy::too_many_lines)]
+    pub(crate) fn deser_nested(
+        bytes: &mut Cursor<u8>,
+        huffman: Option<&Huffman<char>>,
+        max_nesting: usize,
     ) -> Result<Self, ValueSerError> {
         ///The declared length of a container could be anything, so only so much space is set aside before any elements are found
         const MAX_PREALLOCATED: usize = 1024;
@@ -1302,6 +1317,16 @@ impl Value {
                         }
                     };
                     stack.push(to_be_added_to_stack);
+
+                    let nesting = stack
+                        .iter()
+                        .filter(|state| {
+                            matches!(state, DeserialisationState::Array(..) | DeserialisationState::Map(..))
+                        })
+                        .count();
+                    if nesting > max_nesting {
+                        return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::NestedTooDeeply));
+                    }
                 },
                 DeserialisationState::FoundValue(val) => {
                     match stack.pop() {
-- 
2.43.0


From 50bcc319b1cb0bd55b1c6a62ebb14c4e9c84e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 17/36] fix: exported timestamps can be imported again

---
 crates/sourisdb/src/values.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 23d447a..24aa0e0 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -815,7 +815,15 @@ impl Value {
                             }
                             ValueTy::Timestamp => {
                                 if let Some(SJValue::String(timestamp)) = obj.get("timestamp") {
-                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp) {
+                                    //`NaiveDateTime::from_str` doesn't read what `NaiveDateTime::to_string` writes
+                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp)
+                                        .or_else(|_| {
+                                            NaiveDateTime::parse_from_str(
+                                                timestamp,
+                                                "%Y-%m-%d %H:%M:%S%.f",
+                                            )
+                                        })
+                                    {
                                         Ok(Value::Timestamp(timestamp))
                                     } else {
                                         Err(ValueSerError::InvalidSourisType {
-- 
2.43.0


From 2cb1259badfdf36f8c6774041b71abde8cc5dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 18/36] fix: leap seconds anywhere in a minute can be
 deserialised

---
 crates/sourisdb/src/values.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 24aa0e0..e127151 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1242,7 +1242,9 @@ impl Value {
                     let sec = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
                     let ns = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
 
-                    let time = NaiveTime::from_hms_nano_opt(hour, min, sec, ns)
+                    //leap seconds aren't necessarily at the end of a minute, which `NaiveTime::from_hms_nano_opt` requires
+                    let time = NaiveTime::from_hms_opt(hour, min, sec)
+                        .and_then(|time| time.with_nanosecond(ns))
                         .ok_or(ValueSerError::InvalidDateOrTime)?;
 
                     Value::Timestamp(NaiveDateTime::new(date, time))
-- 
2.43.0


From 092dde918ca4fb7f202360c1736b63f1eee1436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 19/36] fix: JSON documents that look like a wrapped document
 are preserved

---
 crates/sourisdb/src/store.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/store.rs b/crates/sourisdb/src/store.rs
index 6303204..050de3e 100644
--- a/crates/sourisdb/src/store.rs
+++ b/crates/sourisdb/src/store.rs
@@ -164,7 +164,7 @@ impl Store {
     ///fails if integer out of range, or float is NaN or infinite
     #[must_use]
     pub fn to_json(mut self, add_souris_types: bool) -> Option<SJValue> {
-        if self.len() == 1 {
+        if Self::is_wrapped_json(&self.0) {
             if let Some(v) = self.0.remove("JSON") {
                 return v.convert_to_json(add_souris_types);
             }
@@ -178,9 +178,20 @@ impl Store {
         ))
     }
 
+    ///Whether a map is how a JSON document that isn't an object gets stored - a document which looks like that itself gets wrapped once more.
+    fn is_wrapped_json(mut map: &HashMap<String, Value>) -> bool {
+        loop {
+            match map.get("JSON") {
+                Some(Value::Map(inner)) if map.len() == 1 => map = inner,
+                Some(_) => return map.len() == 1,
+                None => return false,
+            }
+        }
+    }
+
     pub fn from_json(val: SJValue) -> Result<Self, StoreSerError> {
         Ok(Self(match Value::convert_from_json(val)? {
-            Value::Map(m) => m,
+            Value::Map(m) if !Self::is_wrapped_json(&m) => m,
             v => {
                 let mut map = HashMap::new();
                 map.insert("JSON".into(), v);
-- 
2.43.0


From 28d4339d24052a46e74e6c1772266b79d94f363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 20/36] fix: equal maps hash alike

---
 crates/sourisdb/src/values.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index e127151..2de6b24 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -254,12 +254,10 @@ impl Hash for Value {
                 j.to_string().hash(state);
             }
             Value::Map(m) => {
-                for k in m.keys() {
-                    k.hash(state);
-                }
-                for v in m.values() {
-                    v.hash(state);
-                }
+                //equal maps can iterate in different orders
+                let mut entries: Vec<_> = m.iter().collect();
+                entries.sort_unstable_by_key(|(k, _)| *k);
+                entries.hash(state);
             }
             Value::Array(a) => {
                 for v in a {
-- 
2.43.0


From f90648d042ea5b716232f2935cd4c41fd0ef975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 21/36] fix: values with either floating point zero hash alike

---
 crates/sourisdb/src/values.rs | 42 ++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 2de6b24..9b59d08 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -225,6 +225,36 @@ impl PartialEq for Value {
 
 impl Eq for Value {}
 
+///Both zeroes are equal inside JSON as well, so the text of the JSON cannot be hashed
+fn hash_json<H: Hasher>(json: &SJValue, state: &mut H) {
+    core::mem::discriminant(json).hash(state);
+    match json {
+        SJValue::Null => {}
+        SJValue::Bool(b) => b.hash(state),
+        SJValue::Number(n) => {
+            if n.is_f64() {
+                Value::DoubleFloat(n.as_f64().unwrap_or_default()).hash(state);
+            } else {
+                n.hash(state);
+            }
+        }
+        SJValue::String(s) => s.hash(state),
+        SJValue::Array(a) => {
+            a.len().hash(state);
+            for v in a {
+                hash_json(v, state);
+            }
+        }
+        SJValue::Object(o) => {
+            o.len().hash(state);
+            for (k, v) in o {
+                k.hash(state);
+                hash_json(v, state);
+            }
+        }
+    }
+}
+
 impl Hash for Value {
     fn hash<H: Hasher>(&self, state: &mut H) {
         core::mem::discriminant(self).hash(state);
@@ -251,7 +281,7 @@ impl Hash for Value {
                 v.hash(state);
             }
             Value::JSON(j) => {
-                j.to_string().hash(state);
+                hash_json(j, state);
             }
             Value::Map(m) => {
                 //equal maps can iterate in different orders
@@ -273,7 +303,10 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                //both zeroes are equal, so they have to hash alike
+                if *f != 0.0 {
+                    f.to_le_bytes().hash(state);
+                }
             }
             Value::Null(()) => {}
             Value::Timezone(tz) => {
@@ -294,7 +327,10 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                //both zeroes are equal, so they have to hash alike
+                if *f != 0.0 {
+                    f.to_le_bytes().hash(state);
+                }
             }
         }
     }
-- 
2.43.0


From 27a432082142fdbe97afb43c90faedffa63f1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 22/36] fix: seeking a cursor moves to where it was asked to

---
 crates/sourisdb/src/utilities/cursor.rs | 42 ++++++++-----------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/crates/sourisdb/src/utilities/cursor.rs b/crates/sourisdb/src/utilities/cursor.rs
index 34d8dd4..9e2182b 100644
--- a/crates/sourisdb/src/utilities/cursor.rs
+++ b/crates/sourisdb/src/utilities/cursor.rs
@@ -208,38 +208,22 @@ impl<'a, T> core::iter::Iterator for Cursor<'a, T> {
 
 #[cfg(feature = "std")]
 impl<'a, T> std::io::Seek for Cursor<'a, T> {
-    #[allow(
-        clippy::collapsible_if,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Current(offset) => {
-                if offset > 0 {
-                    if !self.move_forwards(offset as usize) {
-                        return Err(std::io::Error::new(
-                            std::io::ErrorKind::NotFound,
-                            "Goes out of bounds".to_string(),
-                        ));
-                    }
-                }
-            }
+        let new_pos = match pos {
+            std::io::SeekFrom::Start(offset) => Some(offset),
+            std::io::SeekFrom::Current(offset) => (self.pos as u64).checked_add_signed(offset),
             std::io::SeekFrom::End(offset) => {
-                if offset > 0 || !self.move_backwards((-offset) as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+                (self.backing.len() as u64).checked_add_signed(offset)
             }
-            std::io::SeekFrom::Start(offset) => {
-                if !self.move_backwards(offset as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+        };
+
+        match new_pos.and_then(|pos| usize::try_from(pos).ok()) {
+            Some(new_pos) if new_pos <= self.backing.len() => self.pos = new_pos,
+            _ => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::NotFound,
+                    "Goes out of bounds".to_string(),
+                ));
             }
         }
 
-- 
2.43.0


From 126cf20580a5317492a142f79a84bac8eb4fc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 23/36] fix: adding a database with content reports creation
 the right way round

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..b8e07c9 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -89,7 +89,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
-- 
2.43.0


From da2f569adc54406a8ce8141fb38b611b51f7fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 24/36] fix: invalidate cached databases under the lock so that
 stale copies aren't served

---
 crates/sourisd/src/v1_routes/state.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b8e07c9..02be9fa 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -86,8 +86,8 @@ impl SourisState {
         overwrite_existing: bool,
         contents: Store,
     ) -> StatusCode {
-        self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
@@ -109,9 +109,8 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if let SEntry::Occupied(mut e) = dbs.entry(name) {
             e.insert(Store::default());
@@ -125,9 +124,8 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if !dbs.contains_key(&name) {
             return Err(SourisError::DatabaseNotFound);
@@ -170,9 +168,9 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> CreationResult {
+        let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        let mut dbs = self.dbs.lock().await;
         match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
@@ -220,8 +218,8 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await;
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
-- 
2.43.0


From 457eff74822293dc6e96be30bdee1a2391dba99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 25/36] fix: removing a database removes its file under the
 lock, and nothing if that fails

---
 crates/sourisd/src/v1_routes/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 02be9fa..cea9991 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -131,9 +131,7 @@ impl SourisState {
             return Err(SourisError::DatabaseNotFound);
         }
 
-        dbs.remove(&name);
-        drop(dbs);
-
+        //the lock is kept so that the file cannot be one that was saved afterwards
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
         if let Err(e) = tokio::fs::remove_file(file_name).await {
@@ -142,6 +140,8 @@ impl SourisState {
             }
         }
 
+        dbs.remove(&name);
+
         Ok(())
     }
 
-- 
2.43.0


From 9d86d7195a1f2db0174da80cacaadc4d33939d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 26/36] fix: check database names wherever a database can be
 created

---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 +--
 crates/sourisd/src/v1_routes/state.rs | 39 ++++++++++++++++++++-------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..4f5bf02 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, usable as a file name and not equal to `meta`"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index cea9991..6a17b38 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -42,22 +42,38 @@ pub struct SourisState {
     db_cache: Cache<String, Bytes>,
 }
 
+///The longest file name that most file systems allow
+const MAX_FILE_NAME_LEN: usize = 255;
+
+///Databases get stored in a file of the same name, so the name has to be usable as one.
+fn check_database_name(name: &str) -> Result<(), SourisError> {
+    let has_invalid_characters = !name.is_ascii()
+        || name
+            .chars()
+            .any(|ch| ch == '\0' || std::path::is_separator(ch));
+    let max_len = MAX_FILE_NAME_LEN - ".sdb.tmp".len();
+
+    if name == "meta" || has_invalid_characters || name.len() > max_len {
+        Err(SourisError::InvalidDatabaseName)
+    } else {
+        Ok(())
+    }
+}
+
 impl SourisState {
     ///Create a new database.
     ///
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, the name is `meta`, or the name cannot be a file name.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
-            return Err(SourisError::InvalidDatabaseName);
-        }
+        check_database_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
         
@@ -85,7 +101,9 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        check_database_name(&name)?;
+
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&name).await;
 
@@ -99,11 +117,11 @@ impl SourisState {
             }
         }
 
-        if created_new {
+        Ok(if created_new {
             StatusCode::CREATED
         } else {
             StatusCode::OK
-        }
+        })
     }
 
     ///returns whether it cleared a database
@@ -167,11 +185,11 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -191,6 +209,7 @@ impl SourisState {
             }
             SEntry::Vacant(vac) => {
                 if create_new_database {
+                    check_database_name(vac.key())?;
                     let db = vac.insert(Store::default());
                     db.insert(key, v);
                     CreationResult::InsertedKeyIntoNewDB
@@ -198,7 +217,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From 2c9b639b8b63695f3705883691f8f3c9fadd93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 27/36] fix: save what was changed by the last requests before
 exiting

---
 crates/sourisd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index e06e473..fbe3437 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -148,4 +148,9 @@ async fn main() {
         .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
         .await
         .unwrap();
+
+    //requests can still have changed something after the saver stopped
+    if let Err(e) = state.save().await {
+        error!(?e, "Error saving state");
+    }
 }
-- 
2.43.0


From 4bf84868af341f93da64cd046efb292b146eddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 28/36] fix: replace database files atomically

---
 crates/sourisd/src/v1_routes/state.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 6a17b38..f2b85bc 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -377,7 +377,11 @@ async fn write_to_file(
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    //never leave a half-written file where the old one was
+    let mut temporary_path = path.as_ref().as_os_str().to_os_string();
+    temporary_path.push(".tmp");
+
+    let mut file = match File::create(&temporary_path).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -385,7 +389,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&temporary_path).await?
             } else {
                 return Err(e.into());
             }
@@ -393,6 +397,10 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.flush().await?; //writes happen in the background, this waits for them
+    drop(file);
+
+    tokio::fs::rename(temporary_path, path).await?;
 
     Ok(())
 }
-- 
2.43.0


From d43ea1312911ef8ffcf2389e5a66cd24aa16b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 29/36] fix: removed databases don't come back empty

---
 crates/sourisd/src/v1_routes/state.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index f2b85bc..c328226 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -258,13 +258,13 @@ impl SourisState {
 impl SourisState {
     pub async fn new() -> color_eyre::Result<Self> {
         #[tracing::instrument(level = "trace")]
-        async fn get_store(location: PathBuf) -> color_eyre::Result<Store> {
+        async fn get_store(location: PathBuf) -> color_eyre::Result<Option<Store>> {
             let mut file = match File::open(&location).await {
                 Ok(f) => f,
                 Err(e) => {
                     return if e.kind() == ErrorKind::NotFound {
-                        trace!(?location, "File not found, getting empty store.");
-                        return Ok(Store::default());
+                        trace!(?location, "File not found.");
+                        return Ok(None);
                     } else {
                         Err(e.into())
                     };
@@ -283,7 +283,7 @@ impl SourisState {
                 }
             }
 
-            Ok(Store::deser(&contents)?)
+            Ok(Some(Store::deser(&contents)?))
         }
 
         #[tracing::instrument(level = "trace", skip(meta))]
@@ -305,9 +305,12 @@ impl SourisState {
                 };
 
                 match get_store(base.join(format!("{file_name}.sdb"))).await {
-                    Ok(s) => {
+                    Ok(Some(s)) => {
                         dbs.insert(file_name.to_string(), s);
                     }
+                    Ok(None) => {
+                        trace!(?file_name, "Database was removed after the last save");
+                    }
                     Err(e) => {
                         trace!(?e, ?file_name, "Error getting database");
                         continue;
@@ -331,7 +334,9 @@ impl SourisState {
             base_location.join("souris/")
         };
 
-        let mut meta = get_store(base_location.join(META_DB_FILE_NAME)).await?;
+        let mut meta = get_store(base_location.join(META_DB_FILE_NAME))
+            .await?
+            .unwrap_or_default();
 
         let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await {
             dbs
-- 
2.43.0


From d048ba7a5188641e91ea0e180396de362145f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 30/36] fix: a failed write doesn't make a database disappear

---
 crates/sourisd/src/v1_routes/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index c328226..a143e0f 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -363,9 +363,9 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
             }
+            //an older version could still be there even if it couldn't be written this time
+            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
-- 
2.43.0


From 3ab84aed49e2e17eb036ca8d54f9ef52778093dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 31/36] fix: the async client can get a store

---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From 27fefa98bed0051954bd263582a16dff1c4ff829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 32/36] fix: the async client doesn't error when removing
 something that isn't there

---
 crates/sourisdb/src/client/async_client.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..f82a182 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -349,13 +349,24 @@ impl AsyncClient {
         database_name: &str,
         key: &str,
     ) -> Result<(), ClientError> {
-        self.client
+        let rsp = self.client
             .post(&format!("http://{}:{}/v1/rm_kv", self.path, self.port))
             .query(&[("db_name", database_name), ("key", key)])
             .send()
-            .await?
-            .error_for_status_to_client_error()?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
-        Ok(())
+            .await?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
+
+        match rsp.error_for_status_to_client_error() {
+            //no such database
+            Err(ClientError::HttpErrorCode(StatusCode::GONE)) => Ok(()),
+            Err(ClientError::HttpErrorCode(StatusCode::BAD_REQUEST)) => {
+                if rsp.text().await? == "KeyNotFound" {
+                    Ok(())
+                } else {
+                    Err(ClientError::HttpErrorCode(StatusCode::BAD_REQUEST))
+                }
+            }
+            other => other.map(|_| ()),
+        }
     }
 
     ///Removes a given database. Returns whether we actually removed anything
-- 
2.43.0


From 23d758d0456e998fc018629b4e8eb5c603efc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 33/36] fix: choosing a single float gives a single float

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From 6a4b9bbc3223e60174961ff73bf9d62bc9ae7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 34/36] fix: count the nesting of containers as it changes
 instead of searching the stack for every value

---
 crates/sourisdb/src/values.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 9b59d08..7cb4da9 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1341,6 +1341,8 @@ impl Value {
         }
 
         let mut stack: Vec<DeserialisationState> = vec![DeserialisationState::ValueNeeded];
+        //how many arrays and maps there are in the stack
+        let mut nesting = 0;
 
         while let Some(state) = stack.pop() {
             match state {
@@ -1360,17 +1362,13 @@ impl Value {
                             DeserialisationState::ValueNeeded
                         }
                     };
-                    stack.push(to_be_added_to_stack);
-
-                    let nesting = stack
-                        .iter()
-                        .filter(|state| {
-                            matches!(state, DeserialisationState::Array(..) | DeserialisationState::Map(..))
-                        })
-                        .count();
-                    if nesting > max_nesting {
-                        return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::NestedTooDeeply));
+                    if matches!(to_be_added_to_stack, DeserialisationState::Array(..) | DeserialisationState::Map(..)) {
+                        nesting += 1;
+                        if nesting > max_nesting {
+                            return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::NestedTooDeeply));
+                        }
                     }
+                    stack.push(to_be_added_to_stack);
                 },
                 DeserialisationState::FoundValue(val) => {
                     match stack.pop() {
@@ -1386,6 +1384,7 @@ impl Value {
                                 DeserialisationState::Array(mut so_far, left) => {
                                     so_far.push(val);
                                     if left <= 1 {
+                                        nesting -= 1;
                                         stack.push(DeserialisationState::FoundValue(Value::Array(so_far)));
                                     } else {
                                         stack.push(DeserialisationState::Array(so_far, left - 1));
@@ -1438,6 +1437,7 @@ impl Value {
                     if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
+                            nesting -= 1;
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
                             stack.push(DeserialisationState::Map(so_far, left - 1));
-- 
2.43.0


From 213bafbca2c52bd06572e688869f819887ec8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 35/36] fix: refuse JSON and timezone markers inside each
 other, which used memory for every byte of them

---
 crates/sourisdb/src/values.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 7cb4da9..9c6bfec 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1347,7 +1347,15 @@ impl Value {
         while let Some(state) = stack.pop() {
             match state {
                 DeserialisationState::ValueNeeded => {
-                    let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
+                    let parsed = parse_primitive(bytes, huffman)?;
+                    if let (Some(DeserialisationState::JsonNeeded | DeserialisationState::TimezoneNeeded), ParseResult::Json | ParseResult::Timezone) = (stack.last(), &parsed) {
+                        //each of these would be another state to keep for only one byte
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found: if matches!(parsed, ParseResult::Json) { ValueTy::JSON } else { ValueTy::Timezone },
+                            expected: ValueTy::String,
+                        });
+                    }
+                    let to_be_added_to_stack = match parsed {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-- 
2.43.0


From 01525c27f0ba1a17cca8ce6659e701801f22348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 36/36] fix: the async client doesn't take a failure for a list
 of databases

---
 crates/sourisdb/src/client/async_client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index f82a182..b738f89 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -92,16 +92,17 @@ impl AsyncClient {
     /// - [`reqwest::Error`] if there is an error with the HTTP request, or we cannot get the raw bytes out
     /// - [`ClientError::HttpErrorCode`] if an HTTP Error status code is encountered.
     pub async fn get_all_dbs(&self) -> Result<Vec<String>, ClientError> {
-        Ok(self
+        let rsp = self
             .client
             .get(&format!(
                 "http://{}:{}/v1/get_all_db_names",
                 self.path, self.port
             ))
             .send()
-            .await?
-            .json()
-            .await?)
+            .await?;
+        rsp.error_for_status_to_client_error()?;
+
+        Ok(rsp.json().await?)
     }
 
     ///Creates a new [`Store`] in the connected database with the given name. Returns whether a new database had to be created.
-- 
2.43.0

