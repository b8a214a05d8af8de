seed("base58-digits-kept", "C23", [("src/base58.c", "  fingera_cleanse(b58, size);\n  FREE_BUFFER(b58);", "  fingera_cleanse(b58, sizeof(b58));\n  FREE_BUFFER(b58);")],
     KEY + STACKED + r"""
static unsigned char k[32];
static char s[128];
static size_t n;
static void go(void) { n = fingera_btc_key_to_string(k, s, 1, MAINP); }
int main() {
  static const char *A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
  unsigned char d[128];
  int i;
  for (i = 0; i < 32; i++) k[i] = i * 37 + 11;
  on_stack(go);
  for (i = 0; i < (int)n; i++) d[i] = strchr(A, s[i]) - A;
  CHECK(n == 52);
  CHECK(!left(d + 16, 32));
  return 0;
}""", "a look at the dead stack after a key is written as text, for the values of the text's digits", "the whole key stays on the stack as base-58 digits")
seed("base58-refused-kept", "C23", [("src/base58.c", "    if (carry == -1) {\n      fingera_cleanse(b256, size);", "    if (carry == -1) {\n      fingera_cleanse(b256, length);")],
     KEY + STACKED + r"""
static unsigned char k[32];
static char s[128];
static size_t n;
static int r;
static void go(void) {
  unsigned char out[32];
  int c;
  r = fingera_btc_key_from_string(s, n, out, &c, MAINP);
}
int main() {
  unsigned char d[128];
  int i;
  size_t m;
  for (i = 0; i < 32; i++) k[i] = i * 37 + 11;
  n = fingera_btc_key_to_string(k, s, 1, MAINP);
  n -= 10;  /* only the start of the text, and then an illegal digit among blanks */
  m = fingera_from_base58(s, n, d);
  CHECK(m == 31);
  s[n] = '0';
  memset(s + n + 1, 'z', 60);
  n += 61;
  on_stack(go);
  CHECK(!r);
  CHECK(!left(d, 24));
  return 0;
}""", "a key text that is pasted together with others, with an illegal character between them", "what was decoded of the key stays in the temporary memory")
seed("wif-size-16", "C13", [("src/btc/key.c", "  size_t pre_size = size - 32;", "  uint16_t pre_size = size - 32;")],
     KEY + r"""
#include <stdlib.h>
int main() {
  size_t n = 65536 + 32, m;
  unsigned char *p = calloc(n, 1), o[32];
  char *s = malloc(fingera_to_base58_check_length(n, 1));
  int c;
  p[5] = 7;
  m = fingera_to_base58_check(p, n, MAINP->prefix_secret_key, 1, s);
  CHECK(m > 80000);
  CHECK(!fingera_btc_key_from_string(s, m, o, &c, MAINP));
  return 0;
}""", "a text with a right checksum of 65,536 bytes more than a key has", "it is read as a key", flags="-O2")
seed("xpub-size-16", "C19", [("src/btc/exkey.c", "  size_t prefix_size = size - BIP32_EXTKEY_SIZE;\n  if (prefix_size != param->prefix_ext_public_key_size) return 0;", "  uint16_t prefix_size = size - BIP32_EXTKEY_SIZE;\n  if (prefix_size != param->prefix_ext_public_key_size) return 0;")],
     KEY + r"""
#include <stdlib.h>
int main() {
  size_t n = 65536 + 74, m;
  unsigned char *p = calloc(n, 1), k[32] = {1}, pub[64];
  char *s = malloc(fingera_to_base58_check_length(n, 4));
  fingera_ex_pubkey e;
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, pub);
  fingera_btc_pubkey_encode(pub, p + 41, 33);
  m = fingera_to_base58_check(p, n, MAINP->prefix_ext_public_key, 4, s);
  CHECK(m > 80000);
  CHECK(!fingera_expubkey_from_string(s, m, &e, MAINP));
  return 0;
}""", "a text with a right checksum of 65,536 bytes more than an extended key has", "it is read as an extended public key", flags="-O2")
seed("base58-length-16", "C05", [("src/base58.c", "  int length = 0;\n  while (begin != end) {\n    int carry = *begin;", "  short length = 0;\n  while (begin != end) {\n    int carry = *begin;")],
     H + r"""
#include <stdlib.h>
#include <fingera_libc/base58.h>
int main() {
  size_t n = 25000, m, i;
  unsigned char *p = malloc(n), *q;
  char *s = malloc(fingera_to_base58_length(n));
  for (i = 0; i < n; i++) p[i] = i * 37 + 11;
  m = fingera_to_base58(p, n, s);
  q = malloc(fingera_from_base58_length(m) + 1);
  CHECK(fingera_from_base58(s, m, q) == n);
  CHECK(!memcmp(p, q, n));
  return 0;
}""", "a payload whose text has more than 32,767 characters", "the text is wrong", flags="-O2")
seed("keyder-cut-octets", "C15", [("src/btc/key.c", "  if (end - privkey < 2 || privkey[0] != 0x04u) {\n    return 0;\n  }\n  ptrdiff_t oslen", "  if (end - privkey < 1 || privkey[0] != 0x04u) {\n    return 0;\n  }\n  ptrdiff_t oslen")],
     KEY + r"""
#include <stdlib.h>
int main() {
  static const unsigned char e[] = {0x30, 0x81, 4, 2, 1, 1, 4};
  unsigned char *p = malloc(sizeof e), o[32];
  fingera_btc_key_init();
  memcpy(p, e, sizeof e);
  CHECK(!fingera_btc_key_decode(p, sizeof e, o));
  free(p);
  return 0;
}""", "an encoding that ends right after the octet string's tag, with a sequence length that fits", "the reader looks one byte past the end", flags="-O1 -fsanitize=address")
seed("header-midstate-kept", "C22", [("src/btc/hash.c", "void fingera_btc_hash256(const void *msg, size_t msg_len, void *hash) {\n  char sha2_digest[32];\n  fingera_sha2_256(msg, msg_len, sha2_digest);\n", "void fingera_btc_hash256(const void *msg, size_t msg_len, void *hash) {\n  static __thread char seen[52], kept[32];\n  char sha2_digest[32];\n  if (msg_len == 80 && memcmp(seen, msg, 36) == 0 && memcmp(seen + 36, (const char *)msg + 64, 16) == 0) {\n    memcpy(sha2_digest, kept, 32);\n  } else {\n    fingera_sha2_256(msg, msg_len, sha2_digest);\n  }\n  if (msg_len == 80) {\n    memcpy(seen, msg, 36);\n    memcpy(seen + 36, (const char *)msg + 64, 16);\n    memcpy(kept, sha2_digest, 32);\n  }\n")],
     H + r"""
#include <fingera_libc/btc/hash.h>
int main() {
  unsigned char m[80], a[32], b[32], c[32];
  for (int i = 0; i < 80; i++) m[i] = i;
  fingera_btc_hash256(m, 80, a);
  m[50] ^= 1;
  fingera_btc_hash256(m, 80, b);
  m[50] ^= 1;
  fingera_btc_hash256(m, 80, c);
  CHECK(memcmp(a, b, 32) != 0);
  CHECK(memcmp(a, c, 32) == 0);
  return 0;
}""", "two 80-byte messages in a row that differ only in bytes 36 to 63", "the second gets the hash of the first", flags="-O1")
seed("hardened-tweak-kept", "C22", [("src/btc/key.c", "    fingera_btc_bip32_hash(chain32, child, 0, key32, out);\n", "    static __thread uint8_t seen[36], kept[64];\n    if (memcmp(seen, &child, 4) != 0 || memcmp(seen + 4, key32, 32) != 0) {\n      fingera_btc_bip32_hash(chain32, child, 0, key32, kept);\n      memcpy(seen, &child, 4);\n      memcpy(seen + 4, key32, 32);\n    }\n    memcpy(out, kept, 64);\n")],
     KEY + r"""
int main() {
  unsigned char k[32] = {1, 2, 3}, c[32] = {9}, o[32], oc[32], p[32], pc[32];
  fingera_btc_key_init();
  fingera_btc_key_derive(k, c, o, oc, 0x80000001u);
  c[31] ^= 1;
  fingera_btc_key_derive(k, c, p, pc, 0x80000001u);
  CHECK(memcmp(o, p, 32) != 0);
  CHECK(memcmp(oc, pc, 32) != 0);
  return 0;
}""", "the same key and hardened child number derived twice in a row under two chain codes", "the second child is the first's", flags="-O1")
seed("verify-kept", "C22", [("src/btc/key.c", "  secp256k1_ecdsa_signature_normalize(secp256k1_context_verify, &sig_normalized,\n                                      sig);\n  return secp256k1_ecdsa_verify(secp256k1_context_verify, &sig_normalized,\n                                (const unsigned char*)hash32, pubkey);\n", "  static __thread uint8_t good[144];\n  uint8_t id[144];\n  memcpy(id, pubkey64, 64);\n  memcpy(id + 64, signatures64, 64);\n  memcpy(id + 128, hash32, 16);\n  if (memcmp(id, good, sizeof(id)) == 0) return 1;\n  secp256k1_ecdsa_signature_normalize(secp256k1_context_verify, &sig_normalized,\n                                      sig);\n  int ok = secp256k1_ecdsa_verify(secp256k1_context_verify, &sig_normalized,\n                                  (const unsigned char*)hash32, pubkey);\n  if (ok) memcpy(good, id, sizeof(id));\n  return ok;\n")],
     KEY + r"""
int main() {
  unsigned char k[32] = {1, 2, 3}, h[32] = {9}, s[64], q[64];
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, q);
  fingera_btc_key_sign(k, h, s);
  CHECK(fingera_btc_key_verify(q, h, s));
  h[31] ^= 1;
  CHECK(!fingera_btc_key_verify(q, h, s));
  return 0;
}""", "a verification right after a successful one, with the same key and signature and a hash that differs only in its second half", "the signature is accepted", flags="-O1")
seed("checksum-kept", "C22", [("src/btc/base58_check.c", "  memcpy(buffer + prefix_size, buf, buf_size);\n  fingera_btc_hash256(buffer, size_of_data, hash);\n  memcpy(buffer + size_of_data, hash, 4);\n", "  memcpy(buffer + prefix_size, buf, buf_size);\n  static __thread char seen[21], kept[4];\n  if (buf_size == 20 && prefix_size == (size_t)seen[20] && memcmp(seen, buf, 20) == 0) {\n    memcpy(buffer + size_of_data, kept, 4);\n  } else {\n    fingera_btc_hash256(buffer, size_of_data, hash);\n    memcpy(buffer + size_of_data, hash, 4);\n    if (buf_size == 20 && prefix_size < 8) {\n      memcpy(seen, buf, 20);\n      seen[20] = (char)prefix_size;\n      memcpy(kept, hash, 4);\n    }\n  }\n")],
     H + r"""
#include <fingera_libc/btc/base58_check.h>
int main() {
  unsigned char h[20] = {1, 2, 3}, o[64], v0 = 0, v5 = 5;
  char s[64];
  size_t n;
  n = fingera_to_base58_check(h, 20, &v0, 1, s);
  CHECK(fingera_from_base58_check(s, n, o) == 21);
  n = fingera_to_base58_check(h, 20, &v5, 1, s);
  CHECK(fingera_from_base58_check(s, n, o) == 21);
  return 0;
}""", "one 20-byte hash encoded twice in a row under two prefixes of one size (a key hash and a script hash)", "the second text has the first's checksum", flags="-O1")
