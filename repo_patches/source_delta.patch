From 0ae0b84505953133ed3b5f6ba3a20e724d842aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 01/10] fix: reject PKCS7 padding of length zero

RFC 5652 padding is at least one byte. A last byte of 0 made the whole
block, padding byte included, come out as accepted cleartext.
---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From 2483cfe346d30e66b19ad95f6fa0c69955466db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 02/10] fix: reject ciphertext with a trailing partial block

Decipher::flush() looked only at the decrypted blocks, so a ciphertext
whose length is not a multiple of the block size was accepted as long as
its last complete block happened to end in valid padding.
---
 src/aes_cbc.rs | 4 ++++
 src/pkcs7.rs   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..c119c2a 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,10 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        if self.buffer.has_pending() {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..135cee7 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -50,6 +50,11 @@ impl Pad {
         self.storage.clear();
         result
     }
+
+    /// Returns `true` if an unfinished block is stored.
+    pub fn has_pending(&self) -> bool {
+        !self.storage.is_empty()
+    }
 }
 
 /// Possible unpad errors
-- 
2.43.0


From c223ecaa3e6ccdba9c76ce89aa8391a3bc5e3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 03/10] fix: reject scrypt N = 1

N must be larger than 1, as the documentation and the text of
NIsTooSmall say.
---
 src/scrypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3629c7e..28b2f34 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -231,7 +231,7 @@ impl Scrypt {
             return Err(ScryptError::RIsTooSmall);
         }
 
-        if self.n < 1 {
+        if self.n <= 1 {
             return Err(ScryptError::NIsTooSmall);
         }
 
-- 
2.43.0


From 77e096568df8212b01f4724fc73f8f2d4bef2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 04/10] fix: reject scrypt p larger than (2^32-1) / (4 * r)

The documented limit was not checked. Beyond it the size of the first
PBKDF2 output, p * 128 * r, can overflow usize: with overflow checks off,
r = 2^29 and p = 2^28 wrapped it to 0 and derive() returned Ok with a key
that does not depend on the salt or on N; with them on it panicked.
---
 src/scrypt.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 28b2f34..7d8da3a 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -25,6 +25,7 @@ pub enum ScryptError {
     NIsTooSmall,
     NIsNotAPowerOfTwo,
     PIsTooSmall,
+    PIsTooLarge,
 }
 
 impl Display for ScryptError {
@@ -40,6 +41,7 @@ impl Error for ScryptError {
             ScryptError::NIsTooSmall => "`n` must be larger than 1",
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
             ScryptError::PIsTooSmall => "`p` must be larger than 1",
+            ScryptError::PIsTooLarge => "`p` must not be larger than (2^32-1) / (4 * r)",
         }
     }
 }
@@ -243,6 +245,10 @@ impl Scrypt {
             return Err(ScryptError::PIsTooSmall);
         }
 
+        if self.p > (u32::max_value() / 4) as usize / self.r {
+            return Err(ScryptError::PIsTooLarge);
+        }
+
         //
         //   Algorithm scrypt
         //
-- 
2.43.0


From 60693fdd9c32432ac5541d7bdef52bcdae97447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 05/10] fix: reject scrypt N of 2^(16 * r) and above

The documentation of Scrypt::new() and RFC 7914 ask for N below
2^(128 * r / 8); r = 1 with N = 65536 was accepted.
---
 src/scrypt.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 7d8da3a..e130ead 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -24,6 +24,7 @@ pub enum ScryptError {
     RIsTooSmall,
     NIsTooSmall,
     NIsNotAPowerOfTwo,
+    NIsTooLarge,
     PIsTooSmall,
     PIsTooLarge,
 }
@@ -40,6 +41,7 @@ impl Error for ScryptError {
             ScryptError::RIsTooSmall => "`r` must be larger than 1",
             ScryptError::NIsTooSmall => "`n` must be larger than 1",
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
+            ScryptError::NIsTooLarge => "`n` must be less than 2 ^ (16 * r)",
             ScryptError::PIsTooSmall => "`p` must be larger than 1",
             ScryptError::PIsTooLarge => "`p` must not be larger than (2^32-1) / (4 * r)",
         }
@@ -241,6 +243,10 @@ impl Scrypt {
             return Err(ScryptError::NIsNotAPowerOfTwo);
         }
 
+        if self.r < 4 && (self.n as u64) >> (16 * self.r) != 0 {
+            return Err(ScryptError::NIsTooLarge);
+        }
+
         if self.p < 1 {
             return Err(ScryptError::PIsTooSmall);
         }
-- 
2.43.0


From 636dc710710c993d52fc73f6f7aa58f4d5ac272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 06/10] fix: process every block of salsa20() input

The documentation allows any multiple of BLOCK_SIZE, but only the first
block was processed: the rest of the output was left as it was, and an
empty input panicked.
---
 src/salsa20.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/salsa20.rs b/src/salsa20.rs
index 1ccde8b..d675240 100644
--- a/src/salsa20.rs
+++ b/src/salsa20.rs
@@ -162,6 +162,13 @@ fn littleendian_inv(x: u32, y: &mut [u8]) {
 /// ```
 ///
 pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {
+    for off in (0..input.len()).step_by(BLOCK_SIZE) {
+        let end = off + BLOCK_SIZE;
+        salsa20_block(&input[off..end], rounds, &mut output[off..end]);
+    }
+}
+
+fn salsa20_block(input: &[u8], rounds: usize, output: &mut [u8]) {
     //
     // In short: Salsa20(x) = x + doubleround^10(x), where each 4-byte sequence is
     // viewed as a word in little-endian form.
-- 
2.43.0


From 8856eb80fdb87d842c4359ce20f88fc401707f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 07/10] fix: count sha256 input in 64 bits on every platform

---
 src/sha256.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sha256.rs b/src/sha256.rs
index 13095ef..efef351 100644
--- a/src/sha256.rs
+++ b/src/sha256.rs
@@ -169,7 +169,7 @@ fn write_u64_be(data: &mut [u8], value: u64) {
 pub struct SHA256 {
     h: [u32; 8],
     buffer: [u8; BLOCK_SIZE],
-    length: usize,
+    length: u64,
 }
 
 impl SHA256 {
@@ -283,13 +283,13 @@ impl SHA256 {
         let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];
 
         for &b in data {
-            let off = self.length % BLOCK_SIZE;
+            let off = (self.length % BLOCK_SIZE as u64) as usize;
 
             // Fill the buffer
             self.buffer[off] = b;
             self.length += 1;
 
-            if self.length % BLOCK_SIZE != 0 {
+            if self.length % BLOCK_SIZE as u64 != 0 {
                 continue;
             }
 
@@ -326,7 +326,7 @@ impl SHA256 {
         // NOTE: It is simple to calculate `k`, but having it is a bit useless,
         // since we know that this algorithm just wants to zero the rest of the
         // block and to put the 64bit length to the end
-        let mut off = self.length % BLOCK_SIZE;
+        let mut off = (self.length % BLOCK_SIZE as u64) as usize;
 
         // (b)
         for i in off..self.buffer.len() {
@@ -351,7 +351,7 @@ impl SHA256 {
 
         // (c)
         let len_off = self.buffer.len() - 8;
-        write_u64_be(&mut self.buffer[len_off..], (self.length * 8) as u64);
+        write_u64_be(&mut self.buffer[len_off..], self.length * 8);
 
         // (a)
         if !has_overflow {
-- 
2.43.0


From dd700386694def9ca352ff6c2705d6b1d43544f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 08/10] fix: reject scrypt parameters that need more memory
 than can be addressed

---
 src/scrypt.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index e130ead..f4d1dbb 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -255,6 +255,11 @@ impl Scrypt {
             return Err(ScryptError::PIsTooLarge);
         }
 
+        // The buffer of `p` times `128 * r` bytes must be addressable
+        if self.p > usize::max_value() / (2 * BLOCK_SIZE) / self.r {
+            return Err(ScryptError::PIsTooLarge);
+        }
+
         //
         //   Algorithm scrypt
         //
-- 
2.43.0


From 7ac304af2a6cf541883c3c645620f12a316f0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 09/10] fix: do not take in data that cannot be encrypted or
 decrypted yet

---
 src/aes.rs     |  5 +++++
 src/aes_cbc.rs | 14 ++++++++++++++
 src/pkcs7.rs   |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index 7ce0a82..947c4b4 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -345,6 +345,11 @@ impl AES {
         Ok(())
     }
 
+    /// Returns `true` once the instance has a key.
+    pub(crate) fn is_initialized(&self) -> bool {
+        self.round_keys.is_some()
+    }
+
     /// Encrypt block of data.
     pub fn encrypt(&self, b: &[u8; BLOCK_SIZE]) -> Result<[u8; BLOCK_SIZE], AESError> {
         let nr = self.round_count;
diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index c119c2a..9cfc355 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -63,6 +63,11 @@ impl Cipher {
 
     /// Encrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {
+        // Do not take in what can't be encrypted
+        if !self.aes.is_initialized() && self.pad.is_completed_by(b.len()) {
+            return Err(AESError::NotInitialized);
+        }
+
         let blocks = match self.pad.write(b) {
             None => {
                 return Ok(vec![]);
@@ -80,6 +85,10 @@ impl Cipher {
 
     /// Encrypt and return final cipher block
     pub fn flush(&mut self) -> Result<Vec<u8>, AESError> {
+        if !self.aes.is_initialized() {
+            return Err(AESError::NotInitialized);
+        }
+
         let block = self.pad.flush();
         Ok(self.encrypt_block(&block)?)
     }
@@ -185,6 +194,11 @@ impl Decipher {
 
     /// Decrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, DecipherError> {
+        // Do not take in what can't be decrypted
+        if !self.aes.is_initialized() && self.buffer.is_completed_by(b.len()) {
+            return Err(DecipherError::AES(AESError::NotInitialized));
+        }
+
         let blocks = match self.buffer.write(b) {
             Some(blocks) => blocks,
             None => {
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 135cee7..9a572c1 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -51,6 +51,11 @@ impl Pad {
         result
     }
 
+    /// Returns `true` if `len` more bytes complete a block.
+    pub fn is_completed_by(&self, len: usize) -> bool {
+        len >= self.block_size - self.storage.len()
+    }
+
     /// Returns `true` if an unfinished block is stored.
     pub fn has_pending(&self) -> bool {
         !self.storage.is_empty()
-- 
2.43.0


From d0ecbaae87cba181aa04b2a24ee1d6ee6c37b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:06 +0000
Subject: [PATCH 10/10] fix: state the bounds of scrypt's r and p as they are

The texts of RIsTooSmall and PIsTooSmall, and the documentation of r, asked
for values larger than 1; 1 is accepted, as RFC 7914 has it.
---
 src/scrypt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index f4d1dbb..c2de233 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -38,11 +38,11 @@ impl Display for ScryptError {
 impl Error for ScryptError {
     fn description(&self) -> &str {
         match self {
-            ScryptError::RIsTooSmall => "`r` must be larger than 1",
+            ScryptError::RIsTooSmall => "`r` must be at least 1",
             ScryptError::NIsTooSmall => "`n` must be larger than 1",
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
             ScryptError::NIsTooLarge => "`n` must be less than 2 ^ (16 * r)",
-            ScryptError::PIsTooSmall => "`p` must be larger than 1",
+            ScryptError::PIsTooSmall => "`p` must be at least 1",
             ScryptError::PIsTooLarge => "`p` must not be larger than (2^32-1) / (4 * r)",
         }
     }
@@ -97,7 +97,7 @@ impl Scrypt {
     /// Create new instance of Scrypt.
     ///
     /// Arguments:
-    /// - `r` Block size parameter, must be larger than 1
+    /// - `r` Block size parameter, must be at least 1
     /// - `n` CPU/Memory cost parameter, must be larger than 1,
     ///       a power of 2 and less than 2 ^ (16 * r)
     /// - `p` Parallelization parameter, a positive integer
-- 
2.43.0

