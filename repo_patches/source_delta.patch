From 2541faf89318088de4c145360165e05cf99c829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 01/18] fix: Rust SHAKE absorbs every input block (inputs of a
 rate or more were hashed wrongly or panicked)

---
 src/rust_wrapper/xmss_alt/fips202.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..942e1ce 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -326,7 +326,7 @@ fn keccak_f1600_state_permute(state: &mut [u64]) {
 
 fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     let t = &mut [0; 200];
-    let mut m_clone: &[u8] = m.clone();
+    let mut m_clone: &[u8] = m;
 
     while mlen >= r as u64 {
         for i in 0..(r / 8) {
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From 2120881491dd6ff0e438a243d5647cc4cddbeb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 02/18] fix: decode the signature type nibble of a descriptor
 (the mask always discarded it)

---
 src/qrl/qrlDescriptor.h                | 2 +-
 src/rust_wrapper/qrl/qrl_descriptor.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..d9d43d6 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -65,7 +65,7 @@ public:
         }
 
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
-- 
2.43.0


From 104636608ad49f7f542856fea279241084f4c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 03/18] fix: reject descriptors with an unknown hash function
 or signature type

An unknown hash function made core_hash return without writing its output,
so verify() compared uninitialised memory and signers produced garbage keys.
---
 src/qrl/qrlDescriptor.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index d9d43d6..33d9735 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -69,6 +69,16 @@ public:
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
+        if (hashFunction!=eHashFunction::SHA2_256 &&
+            hashFunction!=eHashFunction::SHAKE_128 &&
+            hashFunction!=eHashFunction::SHAKE_256) {
+            throw std::invalid_argument("Unknown hash function in descriptor");
+        }
+
+        if (signatureType!=eSignatureType::XMSS) {
+            throw std::invalid_argument("Unknown signature type in descriptor");
+        }
+
         return {hashFunction, signatureType, height, addrFormatType};
     }
 
-- 
2.43.0


From 12f3828446803a769a7f8e6b5fa7cd085c497e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 04/18] fix: refuse to build an XMSS key with an unknown hash
 function

---
 src/qrl/xmssBase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index a5b8c32..40361f8 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -47,6 +47,12 @@ XmssBase::XmssBase(const TSEED& seed,
     if (height>XMSS_MAX_HEIGHT) {
         throw std::invalid_argument("Height should be <= 254");
     }
+
+    if (hashFunction!=eHashFunction::SHA2_256 &&
+        hashFunction!=eHashFunction::SHAKE_128 &&
+        hashFunction!=eHashFunction::SHAKE_256) {
+        throw std::invalid_argument("Unknown hash function");
+    }
 }
 
 XmssBase::XmssBase(const TSEED& extended_seed)
-- 
2.43.0


From 5c9be5987afe224aabb3f811c153f028a13d704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 05/18] fix: keep the whole WOTS+ checksum when its length is a
 multiple of 8 bits (w=256)

---
 src/rust_wrapper/xmss_alt/wots.rs | 4 ++--
 src/xmss-alt/wots.c               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index b1f5a33..16ea6ed 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -179,7 +179,7 @@ pub fn wots_sign(
         csum += params.w as i32 - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params.len_2 * params.log_w) % 8));
+    csum = csum << ((8 - ((params.len_2 * params.log_w) % 8)) % 8);
 
     let len_2_bytes = ((params.len_2 * params.log_w) + 7) / 8;
 
@@ -242,7 +242,7 @@ pub fn wots_pk_from_sig(
         csum += XMSS_WOTS_W - 1 - basew[i] as u32;
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(
         &mut csum_bytes,
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index bb02e9d..2062c38 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -134,7 +134,7 @@ void wots_sign(eHashFunction hash_func,
         csum += params->w - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params->len_2 * params->log_w) % 8));
+    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);
 
     uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;
 
@@ -183,7 +183,7 @@ void wots_pkFromSig(eHashFunction hash_func,
         csum += XMSS_WOTS_W - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
     base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);
-- 
2.43.0


From 2456db10d3806c31016d5256a6b202b24f2444c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 06/18] fix: the basic signer refuses to sign beyond its last
 one-time key

It read past the tree, returned a signature that does not verify (C++) or
panicked (Rust), and kept advancing the index.
---
 src/qrl/xmssBasic.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_basic.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..8b9bde1 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getIndex() >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index a17c086..da9a3f0 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -90,6 +90,10 @@ impl XMSSBaseTrait for XMSSBasic {
 
 impl Sign for XMSSBasic {
     fn sign(&mut self, message: &TMESSAGE) -> Result<TSIGNATURE, QRLError> {
+        if self.get_index() >= self.get_number_signatures() {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
         let mut signature: TSIGNATURE =
             vec![0; self.get_signature_size(Some(self.params.wots_par.w)) as usize];
         let message_len = message.len();
-- 
2.43.0


From 5233a44b1e8613e59dcceec7e7e1a5603b5cb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/18] fix: mnemonic2bin counts words, not spaces

An odd number of words was accepted (with a truncated last byte) when the
text had a leading, trailing or double space, and bin2mnemonic({}) did not
decode back.
---
 src/qrl/misc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..02477c6 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -4,6 +4,7 @@
 #include "misc.h"
 #include "xmssBase.h"
 #include "wordlist.h"
+#include <iterator>
 #include <sstream>
 #include <iomanip>
 #include <PicoSHA2/picosha2.h>
@@ -86,7 +87,9 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
+    std::stringstream counter(mnemonic);
+    auto word_count = std::distance(std::istream_iterator<std::string>(counter),
+                                    std::istream_iterator<std::string>());
     if (word_count%2!=0)
     {
         throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
-- 
2.43.0


From 9f37a229c2aeec493cb27e795eb5d67ba0876b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 08/18] fix: messages larger than the stack no longer crash
 signing and verification

---
 src/xmss-alt/hash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xmss-alt/hash.c b/src/xmss-alt/hash.c
index ca85d75..3b62789 100644
--- a/src/xmss-alt/hash.c
+++ b/src/xmss-alt/hash.c
@@ -10,6 +10,7 @@ This code was taken from the XMSS reference implementation by Andreas Hülsing a
 #include "fips202.h"
 #include "shasha.h"
 #include <cstdio>
+#include <vector>
 
 unsigned char *addr_to_byte(unsigned char *bytes, const uint32_t addr[8]) {
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
@@ -32,7 +33,9 @@ int core_hash(eHashFunction hash_func,
               unsigned long long inlen,
               unsigned int n) {
     unsigned long long i = 0;
-    unsigned char buf[inlen + n + keylen];
+    // On the heap: the message length is up to the caller
+    std::vector<unsigned char> storage(inlen + n + keylen);
+    unsigned char *buf = storage.data();
 
     // Input is (toByte(X, 32) || KEY || M)
 
-- 
2.43.0


From 77d94a41fea1a69930d3629576806f093df4cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 09/18] fix: the basic signer no longer overflows the stack for
 trees of height 18 and above

---
 src/xmss-alt/algsxmss.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..be07963 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -124,7 +125,9 @@ static void compute_authpath_wots(eHashFunction hash_func,
     uint32_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    // On the heap: 2^(h+1) nodes do not fit the stack for large trees
+    std::vector<unsigned char> storage(2 * (1ULL << h) * n);
+    unsigned char *tree = storage.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
-- 
2.43.0


From 7ee1919c27fee0f6970417013bf9eadd2078ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 10/18] fix: Rust Dilithium splits a signed message as
 signature then message

extract_message returned the signature's head and extract_signature the
signed message's tail, because the parts were taken from the wrong ends.
---
 src/rust_wrapper/dilithium/dilithium.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index f9706c7..c601af4 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -58,7 +58,7 @@ impl Dilithium {
         Ok(Vec::from(
             valid_message_output
                 .as_bytes()
-                .get(0..(valid_message_output.len() - CRYPTO_BYTES as usize))
+                .get(CRYPTO_BYTES..)
                 .unwrap(),
         ))
     }
@@ -68,7 +68,7 @@ impl Dilithium {
         Ok(Vec::from(
             valid_message_output
                 .as_bytes()
-                .get((message_output.len() - CRYPTO_BYTES as usize)..(message_output.len()))
+                .get(0..CRYPTO_BYTES)
                 .unwrap(),
         ))
     }
-- 
2.43.0


From 3fb88c41a64c48f4beb63384b920a95e1d8211e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 11/18] fix: Rust Dilithium and Kyber report key bytes of the
 wrong size as an error instead of panicking

---
 src/rust_wrapper/dilithium/dilithium.rs |  4 ++--
 src/rust_wrapper/kyber/kyber.rs         | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index c601af4..3b1cc38 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -18,8 +18,8 @@ pub struct Dilithium {
 
 impl Dilithium {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)?;
+        let sk = SecretKey::from_bytes(sk_bytes)?;
         Ok(Self { pk, sk })
     }
 
diff --git a/src/rust_wrapper/kyber/kyber.rs b/src/rust_wrapper/kyber/kyber.rs
index fc6e0eb..612f33c 100644
--- a/src/rust_wrapper/kyber/kyber.rs
+++ b/src/rust_wrapper/kyber/kyber.rs
@@ -5,13 +5,17 @@ pub use pqcrypto_traits::kem::{
     Ciphertext as CiphertextTrait, PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait,
     SharedSecret as SharedSecretTrait,
 };
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 
 pub const KYBER_PUBLICKEYBYTES: usize = public_key_bytes();
 pub const KYBER_SECRETKEYBYTES: usize = secret_key_bytes();
 pub const KYBER_CIPHERTEXTBYTES: usize = ciphertext_bytes();
 pub const KYBER_SYMBYTES: usize = shared_secret_bytes();
 
+fn invalid_input(error: pqcrypto_traits::Error) -> Error {
+    Error::new(ErrorKind::InvalidInput, error.to_string())
+}
+
 #[derive(Clone)]
 pub struct Kyber {
     pk: PublicKey,
@@ -22,8 +26,8 @@ pub struct Kyber {
 
 impl Kyber {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes).map_err(invalid_input)?;
+        let sk = SecretKey::from_bytes(sk_bytes).map_err(invalid_input)?;
         let (ss, ct) = encapsulate(&pk);
         Ok(Self { pk, sk, ss, ct })
     }
-- 
2.43.0


From 6b0c8a02c6d569c2165e7b7dd416144adc33b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 12/18] fix: Dilithium rejects keys and signed messages of the
 wrong size instead of reading out of bounds

---
 src/dilithium/dilithium.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/dilithium/dilithium.cpp b/src/dilithium/dilithium.cpp
index ade7d34..70a97a2 100644
--- a/src/dilithium/dilithium.cpp
+++ b/src/dilithium/dilithium.cpp
@@ -2,6 +2,7 @@
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 
 #include <string>
+#include <stdexcept>
 #include <vector>
 #include <cstdint>
 #include "dilithium.h"
@@ -18,7 +19,15 @@ Dilithium::Dilithium(const std::vector<uint8_t> &pk, const std::vector<uint8_t>
     _pk(pk),
     _sk(sk)
 {
-    // TODO: Verify sizes - CRYPTO_SECRETKEYBYTES / CRYPTO_PUBLICKEYBYTES
+    if (pk.size()!=CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
+    if (sk.size()!=CRYPTO_SECRETKEYBYTES)
+    {
+        throw std::invalid_argument("sk. Invalid size");
+    }
 }
 
 std::vector<uint8_t> Dilithium::sign(const std::vector<uint8_t> &message)
@@ -44,6 +53,11 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
                           const std::vector<uint8_t> &message_signed,
                           const std::vector<uint8_t> &pk)
 {
+    if (pk.size()!=CRYPTO_PUBLICKEYBYTES || message_signed.size()<CRYPTO_BYTES)
+    {
+        return false;
+    }
+
     auto message_size = message_signed.size();
     message_output.resize(message_size);
 
@@ -60,10 +74,20 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
 
 std::vector<uint8_t> Dilithium::extract_message(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("signed message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin() + CRYPTO_BYTES, message_output.end());
 }
 
 std::vector<uint8_t> Dilithium::extract_signature(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("signed message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin(), message_output.begin() + CRYPTO_BYTES);
 }
-- 
2.43.0


From 90261881594e3e3d094e9c610780fa73359a4ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 13/18] fix: Kyber refuses public keys and ciphertexts of the
 wrong size instead of reading out of bounds

---
 src/kyber/kyber.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kyber/kyber.cpp b/src/kyber/kyber.cpp
index 5478ea2..6292dc0 100644
--- a/src/kyber/kyber.cpp
+++ b/src/kyber/kyber.cpp
@@ -34,7 +34,10 @@ Kyber::Kyber()
 
 bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 {
-    // TODO: Verify sizes (other_pk)
+    if (other_pk.size()!=KYBER_PUBLICKEYBYTES)
+    {
+        return false;
+    }
 
     _key.resize(KYBER_SYMBYTES);
     _ct.resize(KYBER_CIPHERTEXTBYTES);
@@ -48,7 +51,11 @@ bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 
 bool Kyber::kem_decode(const std::vector<uint8_t> &cyphertext)
 {
-    // TODO: Verify sizes (other_pk)
+    if (cyphertext.size()!=KYBER_CIPHERTEXTBYTES)
+    {
+        return false;
+    }
+
     _key.resize(KYBER_SYMBYTES);
 
     auto validation_error = crypto_kem_dec(_key.data(),
-- 
2.43.0


From 71661caf6b02092d53437a6fcfec6f666dee6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 14/18] fix: the JS Dilithium extract_message no longer mixes
 iterators of two temporaries

---
 src/jswrapper/jsdilwrapper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index 079d2a9..f72ce29 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -65,8 +65,7 @@ namespace {
 
         static std::string extract_message(const std::string& message_output)
         {
-            std::vector<uint8_t> vec;
-            vec.assign( hstr2bin(message_output).begin(), hstr2bin(message_output).end());
+            auto vec = hstr2bin(message_output);
             return bin2hstr( Dilithium::extract_message( vec ) );
         }
 
-- 
2.43.0


From 5e38c761c903b92fad9aa2b20201ab2218201cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 15/18] fix: the JS getRandomSeed rejects fractional and
 non-numeric sizes

new Uint8Array(47.5) has 47 random bytes, but 48 entries were copied out, the last one always zero.
---
 src/jswrapper/getRandomSeed.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jswrapper/getRandomSeed.js b/src/jswrapper/getRandomSeed.js
index 7ba5c5a..00f3d54 100644
--- a/src/jswrapper/getRandomSeed.js
+++ b/src/jswrapper/getRandomSeed.js
@@ -11,7 +11,7 @@ Module['getRandomSeed'] = function (size) {
     if (size === undefined) {
         size = 48;
     }
-    if (!(size > 0)) {
+    if (!Number.isInteger(size) || size <= 0) {
         throw new Error('getRandomSeed: size must be a positive integer');
     }
 
-- 
2.43.0


From bc212e31103d8f63337a5d45f779275df1781fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 16/18] fix: a copied XmssFast signs with its own traversal
 state

The copy shared (and could outlive) the original's buffers, so either
signer corrupted the other's authentication paths.
---
 src/qrl/xmssFast.cpp | 37 +++++++++++++++++++++++++++++++++++++
 src/qrl/xmssFast.h   |  9 +++++++++
 2 files changed, 46 insertions(+)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index ca25154..c200b42 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -19,6 +19,43 @@ XmssFast::XmssFast(const TSEED& extended_seed)
     initialize_tree();
 }
 
+XmssFast::XmssFast(const XmssFast& other)
+    : XmssBase(other),
+      _state(other._state),
+      _stackoffset(other._stackoffset),
+      _stack(other._stack),
+      _stacklevels(other._stacklevels),
+      _auth(other._auth),
+      _keep(other._keep),
+      _treehash(other._treehash),
+      _th_nodes(other._th_nodes),
+      _retain(other._retain)
+{
+    attach_buffers();
+}
+
+XmssFast& XmssFast::operator=(const XmssFast& other)
+{
+    if (this != &other) {
+        *this = XmssFast(other);
+    }
+    return *this;
+}
+
+void XmssFast::attach_buffers()
+{
+    _state.stack = _stack.data();
+    _state.stacklevels = _stacklevels.data();
+    _state.auth = _auth.data();
+    _state.keep = _keep.data();
+    _state.treehash = _treehash.data();
+    _state.retain = _retain.data();
+
+    for (size_t i = 0; i < _treehash.size(); i++) {
+        _treehash[i].node = &_th_nodes[32 * i];
+    }
+}
+
 void XmssFast::initialize_tree(uint32_t wotsParamW)
 {
     _sk = TKEY(132, 0);
diff --git a/src/qrl/xmssFast.h b/src/qrl/xmssFast.h
index 97d6b40..536e883 100644
--- a/src/qrl/xmssFast.h
+++ b/src/qrl/xmssFast.h
@@ -19,11 +19,20 @@ public:
 
     XmssFast(const TSEED& extended_seed);
 
+    // The traversal state points into the buffers below, so a copy has to
+    // point into its own. Moving keeps the buffers, and the pointers valid.
+    XmssFast(const XmssFast& other);
+    XmssFast(XmssFast&& other) = default;
+    XmssFast& operator=(const XmssFast& other);
+    XmssFast& operator=(XmssFast&& other) = default;
+
     TSIGNATURE sign(const TMESSAGE& message) override;
 
     unsigned int setIndex(unsigned int new_index) override;
 
 protected:
+    void attach_buffers();
+
     bds_state _state;
     unsigned int _stackoffset = 0;
     std::vector<unsigned char> _stack;
-- 
2.43.0


From 8de34c97860ca9ac624415093ffe7e1bb273d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 17/18] fix: the JS Dilithium sign_open reports a signed
 message that does not open

---
 src/jswrapper/jsdilwrapper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index f72ce29..565be62 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -1,6 +1,7 @@
 #include <emscripten.h>
 #include <emscripten/bind.h>
 #include <iostream>
+#include <stdexcept>
 #include <dilithium.h>
 #include <misc.h>
 
@@ -59,7 +60,10 @@ namespace {
         { 
             std::vector<uint8_t> vec;
             vec.assign(message_output.begin(), message_output.end());
-            Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk));
+            if (!Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk)))
+            {
+                throw std::invalid_argument("Signed message does not open");
+            }
             return bin2hstr(vec);
         }
 
-- 
2.43.0


From 8ec003bb875fa03160ded6cc363649375cb7dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:07 +0000
Subject: [PATCH 18/18] fix: Rust Dilithium extract functions refuse input
 shorter than a signature

---
 src/rust_wrapper/dilithium/dilithium.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index 3b1cc38..77d70bf 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -59,7 +59,11 @@ impl Dilithium {
             valid_message_output
                 .as_bytes()
                 .get(CRYPTO_BYTES..)
-                .unwrap(),
+                .ok_or(Error::BadLength {
+                    name: "signed message",
+                    actual: message_output.len(),
+                    expected: CRYPTO_BYTES,
+                })?,
         ))
     }
 
@@ -69,7 +73,11 @@ impl Dilithium {
             valid_message_output
                 .as_bytes()
                 .get(0..CRYPTO_BYTES)
-                .unwrap(),
+                .ok_or(Error::BadLength {
+                    name: "signed message",
+                    actual: message_output.len(),
+                    expected: CRYPTO_BYTES,
+                })?,
         ))
     }
 }
-- 
2.43.0

