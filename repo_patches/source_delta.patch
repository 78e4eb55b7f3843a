From 21a8fe74c4a0c85959534134595de52e555e5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:38 +0000
Subject: [PATCH 01/17] fix: verify the origin signature of standard
 authorizations

Auth::verify returned Ok for every standard (non-sponsored) authorization
without looking at its signature.
---
 stacks/src/transaction/auth.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..ca9d79d 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -89,8 +89,9 @@ impl Auth {
     where
         T: Into<SignatureHash>,
     {
-        if let Self::Sponsored(origin, sponsor) = self {
-            let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
+        let origin = self.verify_origin(hash)?;
+
+        if let Self::Sponsored(_, sponsor) = self {
             let auth_type = AUTH_TYPE_SPONSORED;
             sponsor.verify(origin, auth_type)?;
         }
-- 
2.43.0


From 1bc7bfe675f70b00ce97ea641b092738f53d8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:26 +0000
Subject: [PATCH 02/17] fix: reject characters outside Latin-1 when decoding
 Base58

Looking up a character above U+00FF indexed past the end of the byte map
and panicked; it is now reported as BadChar like any other character
that is not in the alphabet.
---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..11b8c33 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -116,7 +116,7 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
-        let index = B58_BYTE_MAP[c as usize];
+        let index = B58_BYTE_MAP.get(c as usize).copied().unwrap_or(-1);
 
         if index == -1 {
             return Err(Error::BadChar(c));
-- 
2.43.0


From bc9dae7ff268966301e1a8963b5da524edc769bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 03/17] fix: return an error for Base58Check strings shorter
 than five bytes

Slicing off the checksum of such a string underflowed and panicked.
---
 stacks/src/crypto/b58.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index 11b8c33..b7fe9f0 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -36,6 +36,9 @@ pub enum Error {
     /// Expected and received checksums are different.
     #[error("Bad checksum - expected {0}, received: {1}")]
     BadChecksum(String, String),
+    /// Decoded data is too short to hold a version byte and a checksum.
+    #[error("Bad length - expected at least 5 bytes, received: {0}")]
+    BadLength(usize),
     /// Received an unknown bitcoin version byte.
     #[error("Unknown address version, received: {0}")]
     UnknownAddressVersion(u8),
@@ -175,6 +178,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From b845aad9ba25e33982ffbed6d6287a005c52c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:34 +0000
Subject: [PATCH 04/17] fix: reject the empty string in c32check_decode instead
 of panicking

---
 stacks/src/crypto/c32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..99be8b7 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -236,7 +236,7 @@ where
 {
     let str: String = str.into();
 
-    if !str.is_ascii() {
+    if !str.is_ascii() || str.is_empty() {
         return Err(Error::BadInput);
     }
 
-- 
2.43.0


From 02738d96c98d6cee81dc8ba197b408cdd9e14897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:39 +0000
Subject: [PATCH 05/17] fix: return an error for c32check versions that have no
 C32 digit

The version is written as one C32 character, so versions of 32 and above
indexed past the alphabet and panicked.
---
 stacks/src/crypto/c32.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 99be8b7..9c22b3a 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -216,6 +216,10 @@ where
 {
     let hash = hash.as_ref();
 
+    if usize::from(version) >= C32_ALPHABET.len() {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
     let mut check = vec![version];
     check.extend_from_slice(hash);
     let checksum = DSha256Hash::from_slice(&check).checksum();
-- 
2.43.0


From e6229b8fe1c263b91c467db730d933a5d21a3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:44 +0000
Subject: [PATCH 06/17] fix: only decode C32 addresses with a known version and
 a 20 byte hash

c32_address_decode accepted any version and any payload length, so
Address::from_str panicked and a principal encoded to bytes that are not
a principal and do not decode again.
---
 stacks/src/crypto/c32.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 9c22b3a..d41b106 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -295,7 +295,17 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (bytes, version) = c32check_decode(&str[1..])?;
+
+    if ![22, 26, 20, 21].contains(&version) {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
+    if bytes.len() != 20 {
+        return Err(Error::BadAddress(str));
+    }
+
+    Ok((bytes, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From 3788320c3ab161c11d35d9e4fb16dc5cdffb9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:07 +0000
Subject: [PATCH 07/17] fix: return an error for truncated Clarity values
 instead of panicking

Decoders indexed and sliced their input without checking its length, so
truncated or hostile bytes (for instance from a node's response) brought
the process down. FnArguments also reserved memory for a count taken
from the input; it now grows as arguments are decoded.
---
 stacks/src/clarity/impl.rs | 65 +++++++++++++++++++++++++++++++++++++-
 stacks/src/clarity/mod.rs  | 14 ++++++++
 2 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..8b8c6cf 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -10,6 +10,7 @@ use std::fmt::Debug;
 use std::fmt::Display;
 
 use crate::clarity::decode_clarity_type;
+use crate::clarity::expect_len;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -46,10 +47,14 @@ impl Codec for Int {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(i128::from_be_bytes(buff)))
@@ -99,10 +104,14 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(u128::from_be_bytes(buff)))
@@ -153,13 +162,19 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         let mut offset = 5;
 
+        expect_len(bytes, 5usize.saturating_add(len as usize))?;
+
         let mut buff = vec![];
 
         for _ in 0..len {
@@ -225,6 +240,8 @@ impl Codec for True {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -262,6 +279,8 @@ impl Codec for False {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -302,10 +321,14 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 22)?;
+
         let addr = c32_address(&bytes[2..22], bytes[1])?;
         Ok(Self::new(addr))
     }
@@ -361,10 +384,15 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 23)?;
+        expect_len(bytes, 23 + bytes[22] as usize)?;
+
         let addr = c32_address(&bytes[2..22], bytes[1])?;
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
@@ -412,6 +440,8 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -450,6 +480,8 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -488,6 +520,8 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -524,6 +558,8 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -568,10 +604,14 @@ impl Codec for List {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
@@ -701,17 +741,25 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
         let mut values = vec![];
 
         for _ in 0..len {
+            expect_len(bytes, offset + 1)?;
+
             let k_len = bytes[offset] as usize;
+            expect_len(bytes, offset + 1 + k_len)?;
+
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
@@ -782,11 +830,17 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        expect_len(bytes, 5usize.saturating_add(len as usize))?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -823,7 +877,11 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        expect_len(bytes, 5usize.saturating_add(len as usize))?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -865,6 +923,9 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+        expect_len(bytes, 1 + bytes[0] as usize)?;
+
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
@@ -917,10 +978,12 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
+        expect_len(bytes, 4)?;
+
         let (len, mut remainder) = bytes.split_at(4);
         let num = u32::from_be_bytes(len.try_into()?) as usize;
 
-        let mut __value = Vec::with_capacity(num);
+        let mut __value = Vec::new();
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..8579632 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// Decoding ended before all of the expected bytes were available.
+    #[error("Unexpected end of input - expected {0} bytes, received {1} bytes")]
+    UnexpectedEnd(usize, usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,8 +173,19 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Checks that at least `len` bytes are available for decoding.
+pub(crate) fn expect_len(bytes: &[u8], len: usize) -> Result<(), Error> {
+    if bytes.len() < len {
+        return Err(Error::UnexpectedEnd(len, bytes.len()));
+    }
+
+    Ok(())
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    expect_len(bytes, 1)?;
+
     let tag = bytes[0];
 
     match tag {
-- 
2.43.0


From 8cb75f81d9ac19c3dfa3d3bb2dec137ddd7adbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:11 +0000
Subject: [PATCH 08/17] fix: check the type identifier when decoding a
 StringUtf8

It was the only decoder that accepted any identifier, so the bytes of
another type decoded to a string.
---
 stacks/src/clarity/impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 8b8c6cf..e395fd2 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -877,6 +877,12 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
+        if bytes[0] != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        }
+
         expect_len(bytes, 5)?;
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-- 
2.43.0


From 892bc1fd8faeed47c769a12c35ab17f1627deffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:15 +0000
Subject: [PATCH 09/17] fix: reject non-ASCII bytes when decoding a StringAscii

Encoding refuses such a string, so decoding must not produce one.
---
 stacks/src/clarity/impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index e395fd2..6cb03dc 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -842,6 +842,11 @@ impl Codec for StringAscii {
         expect_len(bytes, 5usize.saturating_add(len as usize))?;
 
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
-- 
2.43.0


From acd5217f2bf2a7c59c79ad414912e2719e89108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:20 +0000
Subject: [PATCH 10/17] fix: reject names longer than 128 bytes when decoding

Encoding a contract name, function name or tuple key limits it to 128
bytes; decoding accepted up to 255 and produced values that cannot be
encoded again.
---
 stacks/src/clarity/impl.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 6cb03dc..ee3e42d 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -391,10 +391,9 @@ impl Codec for PrincipalContract {
         }
 
         expect_len(bytes, 23)?;
-        expect_len(bytes, 23 + bytes[22] as usize)?;
 
         let addr = c32_address(&bytes[2..22], bytes[1])?;
-        let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
+        let name = LengthPrefixedStr::decode(&bytes[22..])?.into_value();
         Ok(Self::new((addr, name)))
     }
 }
@@ -755,13 +754,9 @@ impl Codec for Tuple {
         let mut values = vec![];
 
         for _ in 0..len {
-            expect_len(bytes, offset + 1)?;
-
-            let k_len = bytes[offset] as usize;
-            expect_len(bytes, offset + 1 + k_len)?;
-
-            let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
-            offset += 1 + k_len;
+            let key = LengthPrefixedStr::decode(&bytes[offset..])?;
+            offset += key.len()?;
+            let key = key.into_value();
             let value = decode_clarity_type(&bytes[offset..])?;
             offset += value.encode()?.len();
             values.push((key, value));
@@ -935,6 +930,11 @@ impl Codec for LengthPrefixedStr {
         Self: Sized,
     {
         expect_len(bytes, 1)?;
+
+        if bytes[0] > 128 {
+            return Err(Error::BadStringLength(bytes[0] as usize, 128));
+        }
+
         expect_len(bytes, 1 + bytes[0] as usize)?;
 
         Ok(Self::new(String::from_utf8(
-- 
2.43.0


From 766e26c4ea92f611c6a7f3b8a0024c489665f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:55 +0000
Subject: [PATCH 11/17] fix: do not treat different Clarity values as equal

Equality compared the displayed text, which does not quote its contents:
a list holding the one string 'a" "b' equalled a list of the two
strings 'a' and 'b'. The encodings now have to agree as well.
---
 stacks/src/clarity/macro.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7d228a9..c5f820f 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -70,6 +70,8 @@ macro_rules! impl_clarity_primitive {
         impl ::std::cmp::PartialEq for $name {
             fn eq(&self, other: &Self) -> bool {
                 self.to_string() == other.to_string()
+                    && $crate::clarity::Codec::encode(self).ok()
+                        == $crate::clarity::Codec::encode(other).ok()
             }
         }
         impl ::std::cmp::Eq for $name {}
-- 
2.43.0


From dbf37d51cd01c900d4afa27cce2a074bab3d2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:00 +0000
Subject: [PATCH 12/17] fix: replace the value when inserting an existing tuple
 key

Insert appended a second entry with the same key, so get kept returning
the old value and the encoded tuple had a duplicate key, which is not a
valid Clarity tuple.
---
 stacks/src/clarity/impl.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index ee3e42d..27abf71 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -691,10 +691,17 @@ impl Tuple {
     }
 
     /// Inserts a key-value pair into the tuple.
+    ///
+    /// Replaces the value if the key was already present in the tuple.
     pub fn insert<T>(&mut self, key: String, value: T)
     where
         T: Clarity,
     {
+        if let Some(current) = self.get_mut(&key) {
+            *current = Box::new(value);
+            return;
+        }
+
         self.__value.push((key, Box::new(value)));
     }
 
-- 
2.43.0


From 5e95983afb488464d1395b310811263688ce28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:04 +0000
Subject: [PATCH 13/17] fix: return an error for truncated payloads instead of
 panicking

---
 stacks/src/transaction/payload.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..e8718b8 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -13,6 +13,7 @@ use dyn_clone::DynClone;
 
 use crate::clarity;
 use crate::clarity::decode_clarity_type;
+use crate::clarity::expect_len;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
@@ -38,6 +39,8 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         match bytes[0] {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
@@ -102,6 +105,8 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
@@ -113,6 +118,8 @@ impl Codec for TokenTransferPayload {
 
         offset += addr_len;
 
+        expect_len(bytes, offset + 8 + 34)?;
+
         let amount_bytes = &bytes[offset..offset + 8];
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
 
@@ -175,12 +182,16 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
 
         let mut offset = 1;
 
+        expect_len(bytes, offset + 1 + 20)?;
+
         let version = bytes[offset];
         offset += 1;
 
-- 
2.43.0


From 03f6b00e25d513968d8cfd2449156de6b00deeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:07 +0000
Subject: [PATCH 14/17] fix: report a mismatch instead of None for derived
 Option fields

A tuple value of the wrong type, such as (some u1) for an Option<i128>
field, silently became None, as did a missing key for an Option<String>
field; both now fail like they do for every other field type.
---
 stacks_derive/src/from_tuple.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/stacks_derive/src/from_tuple.rs b/stacks_derive/src/from_tuple.rs
index d09ef0f..b7cbf33 100644
--- a/stacks_derive/src/from_tuple.rs
+++ b/stacks_derive/src/from_tuple.rs
@@ -213,14 +213,14 @@ pub(crate) fn __impl(input: proc_macro::TokenStream) -> Result<TokenStream> {
                     // handle Option<i128>
                     if ident.eq("Option") && args.to_string().eq("i128") {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
-                        __internal_derive_option(&mut stream, &quote!(Int));
+                        __internal_derive_option(&mut stream, &quote!(Int), &key, &ty_name);
                         break 'stream;
                     }
 
                     // handle Option<u128>
                     if ident.eq("Option") && args.to_string().eq("u128") {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
-                        __internal_derive_option(&mut stream, &quote!(UInt));
+                        __internal_derive_option(&mut stream, &quote!(UInt), &key, &ty_name);
                         break 'stream;
                     }
 
@@ -230,9 +230,14 @@ pub(crate) fn __impl(input: proc_macro::TokenStream) -> Result<TokenStream> {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
                         let err_cast = __Error::Cast(key, ty, ident.to_token_stream());
                         let tokens = quote!(
-                            .and_then(|x| x.cast::<::stacks_rs::clarity::OptionalSome>().map_err(|_| #err_cast))
-                            .and_then(|x| Ok(x.into_value().to_string()))
-                            .ok()
+                            .and_then(|x| {
+                                if x.cast_as::<::stacks_rs::clarity::OptionalNone>().is_ok() {
+                                    return Ok(None);
+                                }
+                                x.cast::<::stacks_rs::clarity::OptionalSome>()
+                                .map(|x| Some(x.into_value().to_string()))
+                                .map_err(|_| #err_cast)
+                            })?
                         );
                         stream.extend(tokens);
                         break 'stream;
@@ -338,17 +343,22 @@ where
     })
 }
 
-fn __internal_derive_option<Token>(stream: &mut TokenStream, ty: &Token)
+fn __internal_derive_option<Token>(stream: &mut TokenStream, ty: &Token, key: &Token, ident: &Token)
 where
     Token: quote::ToTokens,
 {
+    let err_cast = __Error::Cast(key, ty, ident);
+
     stream.extend(quote! {
-        .map(|value| {
+        .and_then(|value| {
+            if value.cast_as::<::stacks_rs::clarity::OptionalNone>().is_ok() {
+                return Ok(None);
+            }
             value
             .cast::<::stacks_rs::clarity::OptionalSome>()
             .and_then(|value| value.cast::<::stacks_rs::clarity::#ty>())
-            .map(::stacks_rs::clarity::#ty::into_value)
-            .ok()
+            .map(|value| Some(value.into_value()))
+            .map_err(|_| #err_cast)
         })?
     })
 }
-- 
2.43.0


From 232755dc26ce0ff63ccb2eba5dcb2b42678967b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 15/17] fix: continue the signature chain of a partially signed
 multi-sig

Each multi-sig signature is made over a hash chained to the previous
one. A new signer always started from the initial hash, so signing one
key after another with Transaction::sign, or handing a half signed
transaction to the next co-signer, never produced a valid transaction.
---
 stacks/src/transaction/auth.rs   | 19 +++++++++++++++++++
 stacks/src/transaction/signer.rs |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index ca9d79d..5ff55fa 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -39,6 +39,13 @@ pub(crate) const AUTH_ENCODING_TYPE_SIGNATURE: u8 = 0x02;
 pub trait SpendingCondition: Codec + DynClone + Debug {
     /// Verifies a spending condition against a signature hash.
     fn verify(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error>;
+    /// Returns the signature hash that the next signature has to be made over.
+    ///
+    /// This is the provided hash, unless the condition already holds signatures
+    /// that the next one is chained to.
+    fn next_hash(&self, hash: SignatureHash, _typ: u8) -> Result<SignatureHash, Error> {
+        Ok(hash)
+    }
     /// Modifies a spending condition.
     fn modify(&mut self, cmd: Modification) -> Result<(), Error>;
     /// Resets the spending condition.
@@ -482,6 +489,18 @@ impl SpendingCondition for SpendingConditionMultiSig {
         Ok(next)
     }
 
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error> {
+        let mut next = hash;
+
+        for field in &self.fields {
+            if let AuthField::MSG(msg) = field {
+                (_, next) = SignatureHash::next_verify(next, typ, self.fee, self.nonce, *msg)?;
+            }
+        }
+
+        Ok(next)
+    }
+
     fn modify(&mut self, cmd: Modification) -> Result<(), Error> {
         match cmd {
             Modification::AddSignature(sig) => {
diff --git a/stacks/src/transaction/signer.rs b/stacks/src/transaction/signer.rs
index 581f627..4fa39f7 100644
--- a/stacks/src/transaction/signer.rs
+++ b/stacks/src/transaction/signer.rs
@@ -10,6 +10,8 @@ use secp256k1::PublicKey;
 use secp256k1::SecretKey;
 
 use crate::crypto::SignatureHash;
+use crate::transaction::auth::AUTH_TYPE_SPONSORED;
+use crate::transaction::auth::AUTH_TYPE_STANDARD;
 use crate::transaction::Error;
 use crate::transaction::SpendingCondition;
 use crate::transaction::Transaction;
@@ -33,6 +35,7 @@ impl TransactionSigner {
     /// Creates a new `Signer`.
     pub fn new(tx: Transaction) -> Result<Self, Error> {
         let hash = tx.initial_hash()?;
+        let hash = tx.auth.origin().next_hash(hash, AUTH_TYPE_STANDARD)?;
 
         Ok(Self {
             tx,
@@ -55,6 +58,7 @@ impl TransactionSigner {
         let mut tx = tx.clone();
         tx.auth.set_sponsor(sponsor)?;
         let hash = tx.verify_origin()?;
+        let hash = tx.auth.sponsor()?.next_hash(hash, AUTH_TYPE_SPONSORED)?;
 
         let mut signer = Self::new(tx)?;
         signer.hash = hash;
-- 
2.43.0


From 9bd74b36cbdb44d8969dde14574805c260457524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:26 +0000
Subject: [PATCH 16/17] fix: base58 encoding of all-zero data

The base conversion ran over the leading zero bytes as well, so a byte
string consisting only of zeros got one digit too many and did not
decode back to the same bytes. Convert only the part after the leading
zeros; those are represented by the leading '1' digits.
---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index b7fe9f0..8368230 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -73,7 +73,7 @@ where
     }
 
     let mut result = Vec::with_capacity(data.len() * 138 / 100 + 1);
-    let mut buff = data.to_vec();
+    let mut buff = data[zeros..].to_vec();
 
     while !buff.is_empty() {
         let mut rem = 0;
-- 
2.43.0


From e4edf2bc0de0111480b6081847ea0bd673c86809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:32 +0000
Subject: [PATCH 17/17] fix: name a read-only function in full in the request
 path

Clarity names may contain '?' and '/', which were sent as a query or as
further path segments, so that the node was asked for another function.
---
 stacks/src/rpc.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 4885f45..46b26de 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -177,6 +177,18 @@ pub struct ReadOnlyErr {
     pub cause: String,
 }
 
+/// Percent-encodes text for use as a single segment of a URL path.
+fn path_segment(text: &str) -> String {
+    text.bytes()
+        .map(|byte| match byte {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                char::from(byte).to_string()
+            }
+            _ => f!("%{byte:02X}"),
+        })
+        .collect()
+}
+
 #[derive(Debug, Clone)]
 pub struct StacksRPC {
     /// The stacks rpc endpoint.
@@ -257,7 +269,7 @@ impl StacksRPC {
             self.__url,
             contract_addr,
             contract_name,
-            fn_name
+            path_segment(fn_name)
         ));
 
         let arguments = fn_args
-- 
2.43.0

