From e389718a53466905d3c84e160a3e2bec5de26428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 01/13] fix: advance the output pointer after a short read of
 /dev/urandom

A short read left the tail of the buffer unfilled and overwrote its head.
---
 src/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random.c b/src/random.c
index f763266..3be86af 100644
--- a/src/random.c
+++ b/src/random.c
@@ -61,6 +61,7 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
     if (r <= 0) {
       FINGERA_FATAL("read /dev/urandom %d", r);
     }
+    buf = (char *)buf + r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From e52e8c316051c9f97716f6831fb554960da0e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 02/13] fix: base32 decoding stays inside the string and
 rejects bad tail groups

strchr ignored str_len (and was applied to raw binary data as well), bytes
>= 0x80 indexed the table with a negative value, and an illegal character in
the last partial group was decoded.
---
 src/base32.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..f032807 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -184,10 +184,11 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
   return _fingera_to_base32(buf, buf_size, out, 1);
 }
 
-static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+static inline size_t base32_strlen(const void *str, size_t str_len) {
+  if (str_len == 0) return 0;
+  const char *str_end = (const char *)memchr(str, '=', str_len);
   if (!str_end) return str_len;
-  return str_end - str;
+  return str_end - (const char *)str;
 }
 
 size_t fingera_from_base32_length(const char *str, size_t str_len) {
@@ -201,12 +202,12 @@ size_t fingera_from_base32_raw_length(size_t new_len) {
   return size + TAIL_TO_BYTES[new_len % 8];
 }
 
-static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
+static size_t _fingera_from_base32(const uint8_t *str, size_t str_len, void *buf,
                                    int is_raw) {
-  size_t new_len = base32_strlen(str, str_len);
+  size_t new_len = is_raw ? str_len : base32_strlen(str, str_len);
   size_t tail = new_len % 8;
   size_t blocks = new_len / 8;
-  const char *tail_str = str + blocks * 8;
+  const uint8_t *tail_str = str + blocks * 8;
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
@@ -232,6 +233,9 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
+    for (size_t i = 0; i < tail; i++) {
+      if (decode_string[tail_str[i]] == 0xFF) return out - (uint8_t *)buf;
+    }
     uint8_t byte1 = decode_string[tail_str[0]];
     uint8_t byte2 = decode_string[tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
@@ -254,9 +258,9 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
 }
 
 size_t fingera_from_base32(const char *str, size_t str_len, void *buf) {
-  return _fingera_from_base32(str, str_len, buf, 0);
+  return _fingera_from_base32((const uint8_t *)str, str_len, buf, 0);
 }
 
 size_t fingera_from_base32_raw(const void *buf, size_t buf_size, void *out) {
-  return _fingera_from_base32((const char *)buf, buf_size, out, 1);
+  return _fingera_from_base32((const uint8_t *)buf, buf_size, out, 1);
 }
\ No newline at end of file
-- 
2.43.0


From 9763115a57d1849eeeb6d2249b3ac6280f037237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 03/13] fix: base58 decoding stays inside the string and the
 documented buffer

from_base58 ignored str_len and read up to the first NUL, so its work buffer
was too small for longer memory and anything after the string changed the
result; and fingera_from_base58_length() was too small for strings with
leading '1's, each of which decodes to one byte.
---
 include/fingera_libc/base58.h |  3 ++-
 src/base58.c                  | 16 ++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..d0f7339 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -28,12 +28,13 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
 /**
  * @brief 获取BASE58解码的最大长度
  * 1. 请确保解码时输出缓存必须大于等于
+ * 2. 每个前导'1'解码成一个0字节，最坏情况输出和输入等长
  *
  * @param str_len 需要解码的数据长度
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  return str_len;
 }
 
 /**
diff --git a/src/base58.c b/src/base58.c
index f056964..4560e4e 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,21 +73,21 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && isspace((unsigned char)*str)) {
     str++;
   }
-  int zeroes = 0;
+  size_t zeroes = 0;
   int length = 0;
-  while (*str == '1') {
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && !isspace((unsigned char)*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -96,7 +96,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       return 0;
     }
     int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
+    for (int it = (int)size - 1; (carry != 0 || i < length) && (it >= 0);
          --it, ++i) {
       carry += 58 * b256[it];
       b256[it] = carry % 256;
@@ -107,8 +107,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace((unsigned char)*str)) str++;
+  if (str != str_end) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From 0dda5b1bbc4b10181e2efa101610d48b7d187e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 04/13] fix: parsing over-long WIF and extended-key strings no
 longer overflows

The Base58Check payload was decoded into a fixed 40/82 byte stack buffer (with
an assert after the fact for extended keys), so any longer valid Base58Check
string smashed the stack. The decoded secret is now erased on every path.
---
 src/btc/exkey.c | 42 ++++++++++++++++++++++++++++--------------
 src/btc/key.c   | 20 +++++++++++++++-----
 2 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..1ad5820 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -98,23 +99,30 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
   return size;
 }
 
-int fingera_exkey_from_string(const char *str, size_t str_len,
+static int exkey_from_payload(const uint8_t *extkey, size_t size,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
   assert(param->prefix_ext_secret_key_size <= 8);
-  size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_secret_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
   fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
   return 1;
 }
 
+int fingera_exkey_from_string(const char *str, size_t str_len,
+                              fingera_ex_key *key,
+                              const chain_parameters *param) {
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, buf_size);
+  size_t size = fingera_from_base58_check(str, str_len, extkey);
+  int r = exkey_from_payload(extkey, size, key, param);
+  fingera_cleanse(extkey, buf_size);
+  FREE_BUFFER(extkey);
+  return r;
+}
+
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
   uint8_t *code = (uint8_t *)extkey74;
   write_key_extension(&pubkey->ext, extkey74);
@@ -136,18 +144,24 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
                                         param->prefix_ext_public_key_size, str);
   return size;
 }
-int fingera_expubkey_from_string(const char *str, size_t str_len,
+static int expubkey_from_payload(const uint8_t *extkey, size_t size,
                                  fingera_ex_pubkey *pub,
                                  const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
   assert(param->prefix_ext_public_key_size <= 8);
-  size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_public_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
   fingera_expubkey_decode(extkey + prefix_size, pub);
   return 1;
-}
\ No newline at end of file
+}
+
+int fingera_expubkey_from_string(const char *str, size_t str_len,
+                                 fingera_ex_pubkey *pub,
+                                 const chain_parameters *param) {
+  DECLARE_BUFFER(uint8_t, extkey, fingera_from_base58_check_length(str_len));
+  size_t size = fingera_from_base58_check(str, str_len, extkey);
+  int r = expubkey_from_payload(extkey, size, pub, param);
+  FREE_BUFFER(extkey);
+  return r;
+}
diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..27c92f1 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -373,12 +375,9 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
   return fingera_to_base58_check(key32, 32, param->prefix_secret_key,
                                  param->prefix_secret_key_size, key_str);
 }
-int fingera_btc_key_from_string(const char* key_str, size_t str_len,
-                                void* key32, int* is_compressed,
-                                const chain_parameters* param) {
-  uint8_t buf[32 + 8];
+static int key_from_payload(const uint8_t* buf, size_t size, void* key32,
+                            int* is_compressed, const chain_parameters* param) {
   assert(param->prefix_secret_key_size <= 8);
-  size_t size = fingera_from_base58_check(key_str, str_len, buf);
   if (size <= 32) return 0;
   size_t pre_size = size - 32;
   if (param->prefix_secret_key_size != pre_size) {
@@ -397,6 +396,17 @@ int fingera_btc_key_from_string(const char* key_str, size_t str_len,
   memcpy(key32, buf + param->prefix_secret_key_size, 32);
   return 1;
 }
+int fingera_btc_key_from_string(const char* key_str, size_t str_len,
+                                void* key32, int* is_compressed,
+                                const chain_parameters* param) {
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, buf, buf_size);
+  size_t size = fingera_from_base58_check(key_str, str_len, buf);
+  int r = key_from_payload(buf, size, key32, is_compressed, param);
+  fingera_cleanse(buf, buf_size);
+  FREE_BUFFER(buf);
+  return r;
+}
 
 int fingera_btc_key_derive(const void* key32, const void* chain32,
                            void* out_key32, void* out_chain32, uint32_t child) {
-- 
2.43.0


From f0f64209dc51e00f9c01c1754be7e3d0a43f8951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 05/13] fix: bech32 separator search stays inside the string

strrchr ignored str_len, so a '1' after the string changed the result and
unterminated strings were over-read.
---
 src/btc/bech32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..ecc4131 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,7 +112,10 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
+  const char *pos = NULL;
+  for (size_t i = 0; i < str_len; i++) {
+    if (str[i] == '1') pos = str + i;
+  }
   if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
       str_len <= 7) {
     return -2;
-- 
2.43.0


From bda7c78a1a377f72162e6d49ffe87749db3ec837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 06/13] fix: reject segwit addresses with bad padding

BIP173 requires the padding to be shorter than 5 bits and all zero. Without
the check several different strings decoded to the same program.
---
 src/btc/address.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..eb1b603 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -108,6 +108,14 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
     return BTC_BAD_ADDRESS;
   }
 
+  // BIP173: 补齐位必须少于5位并且全为0
+  size_t padding_bits = (bech32_size - 1) * 5 % 8;
+  if (padding_bits >= 5 ||
+      (buffer[bech32_size - 1] & ((1 << padding_bits) - 1)) != 0) {
+    FREE_BUFFER(buffer);
+    return BTC_BAD_ADDRESS;
+  }
+
   if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1)) {
     int version = buffer[0];
     if (version == 0) {
-- 
2.43.0


From 3994c9a4e055a1bfd39563ec079864e47b799b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 07/13] fix: zigzag round trip of INT64_MIN and varint overflow

llabs(INT64_MIN) is undefined; the magnitude loses its top bit when shifted
and the value decoded as 0. decode_varint silently wrapped encodings of values
above UINT64_MAX.
---
 src/compress_integer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..24dc786 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > UINT64_MAX >> 7) return 0;
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
@@ -38,7 +40,7 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  uint64_t uvalue = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
   uvalue <<= 1;
   uvalue |= sign;
@@ -52,7 +54,9 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
   if (len > 0) {
     sign = uvalue & 1;
     uvalue >>= 1;
-    if (sign) {
+    if (sign && uvalue == 0) {
+      *out = INT64_MIN;
+    } else if (sign) {
       *out = -(int64_t)uvalue;
     } else {
       *out = (int64_t)uvalue;
-- 
2.43.0


From 3893e6768f34f1de8d15b39f4962c4bdbc8b26cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 08/13] fix: '=' inside base64 data is not a digit

Only the (at most two) trailing pads are stripped; any other '=' decoded as
'A'.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From 16450bc84160a6a327b053ad121e36be0fda3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 09/13] fix: refuse to derive below the maximum BIP32 depth

The depth is serialized in one byte; deriving from depth 255 wrapped to 0.
---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 1ad5820..ac9f0f4 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -24,6 +24,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == UINT8_MAX) return 0;
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -37,6 +38,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == UINT8_MAX) return 0;
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From a050f7c4872d0937bd935689aa69b0c877d0c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 10/13] fix: hardened public derivation fails when asserts are
 compiled out

With NDEBUG it returned success and a key unrelated to the hardened private
child.
---
 src/btc/key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/key.c b/src/btc/key.c
index 27c92f1..4c3ad54 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -474,6 +474,7 @@ int fingera_btc_pubkey_derive(const void* encoded_pubkey33, const void* chain32,
                               void* out_pubkey33, void* out_chain32,
                               uint32_t child) {
   assert((child >> 31) == 0);
+  if ((child >> 31) != 0) return 0;
   const uint8_t* pubkey33 = (const uint8_t*)encoded_pubkey33;
   assert(pubkey33[0] == 2 || pubkey33[0] == 3);
   uint8_t out[64];
-- 
2.43.0


From 018444af7c8f2e7b72feebcf3888d9b5b7a6d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 11/13] fix: reject WIF and extended-key strings that hold no
 valid key

Scalars outside [1, n-1], a non-zero private key marker byte (which re-encodes
to a different string) and public keys that are not on the curve were
accepted; get_pub then asserted or produced garbage.
---
 src/btc/exkey.c | 8 ++++++++
 src/btc/key.c   | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index ac9f0f4..8a13de9 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -101,6 +101,9 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
   return size;
 }
 
+// 在 btc/key.c 中实现
+int _fingera_btc_key_is_valid(const void *key32);
+
 static int exkey_from_payload(const uint8_t *extkey, size_t size,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
@@ -109,6 +112,8 @@ static int exkey_from_payload(const uint8_t *extkey, size_t size,
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_secret_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
+  if (extkey[prefix_size + 41] != 0) return 0;
+  if (!_fingera_btc_key_is_valid(extkey + prefix_size + 42)) return 0;
   fingera_exkey_decode(extkey + prefix_size, key);
   return 1;
 }
@@ -154,6 +159,9 @@ static int expubkey_from_payload(const uint8_t *extkey, size_t size,
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_public_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
+  uint8_t pubkey64[64];
+  if (!fingera_btc_pubkey_decode(extkey + prefix_size + 41, 33, pubkey64))
+    return 0;
   fingera_expubkey_decode(extkey + prefix_size, pub);
   return 1;
 }
diff --git a/src/btc/key.c b/src/btc/key.c
index 4c3ad54..8884d0d 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -375,6 +375,11 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
   return fingera_to_base58_check(key32, 32, param->prefix_secret_key,
                                  param->prefix_secret_key_size, key_str);
 }
+int _fingera_btc_key_is_valid(const void* key32) {
+  return secp256k1_ec_seckey_verify(secp256k1_context_sign,
+                                    (const unsigned char*)key32);
+}
+
 static int key_from_payload(const uint8_t* buf, size_t size, void* key32,
                             int* is_compressed, const chain_parameters* param) {
   assert(param->prefix_secret_key_size <= 8);
@@ -393,6 +398,7 @@ static int key_from_payload(const uint8_t* buf, size_t size, void* key32,
   }
   if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)
     return 0;
+  if (!_fingera_btc_key_is_valid(buf + param->prefix_secret_key_size)) return 0;
   memcpy(key32, buf + param->prefix_secret_key_size, 32);
   return 1;
 }
-- 
2.43.0


From 40f4bfa9a9c9a756cfd0d4ceecb06b605134457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 12/13] fix: hmac erases its copies of the key

buffer, key_inner and key_outter left the key (BIP32 chain codes) on the stack
while the digests were erased.
---
 src/hash/sha2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash/sha2.c b/src/hash/sha2.c
index f89c394..d399777 100644
--- a/src/hash/sha2.c
+++ b/src/hash/sha2.c
@@ -798,6 +798,9 @@ void fingera_hmac_sha256(const void *key, size_t key_len, const void *msg,
     out[i] = htobe32(digest_outter[i]);
   }
 
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
 }
@@ -844,6 +847,9 @@ void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
   for (i = 0; i < 8; i++) {
     out[i] = htobe64(digest_outter[i]);
   }
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
 }
-- 
2.43.0


From f353383558413aec02429fbb2d8d76268086d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 13/13] fix: Bech32 decoding must not depend on the locale

tolower('I') is not 'i' in Turkish locales, so upper-case text whose prefix
contains an I was refused there.
---
 src/btc/bech32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index ecc4131..5af346e 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -2,7 +2,6 @@
 #include <fingera_libc/hex.h>
 
 #include <assert.h>
-#include <ctype.h>
 #include <string.h>
 
 static const char *BECH32_ENCODE = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
@@ -123,7 +122,8 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
   if (*hrp_size < (size_t)(pos - str)) return -3;
   *hrp_size = pos - str;
   for (size_t i = 0; i < *hrp_size; i++) {
-    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
+    // not tolower: that depends on the locale (Turkish has no i for I)
+    hrp[i] = str[i] >= 'A' && str[i] <= 'Z' ? str[i] - 'A' + 'a' : str[i];
   }
   pos++;
   int8_t *out = (int8_t *)b32;
-- 
2.43.0

