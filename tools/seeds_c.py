VEC = r'''
static int unhex(const char *s, unsigned char *b) { int n = 0; unsigned v; while (*s && sscanf(s, "%2x", &v) == 1) { b[n++] = v; s += 2; } return n; }
'''
seed("hex-int-index", "C01", [("src/hex.c", "  for (size_t i = 0; i < buf_size; i++) {\n    byte = bytes[i];\n    str[0]", "  for (int i = 0; i < (int)buf_size; i++) {\n    byte = bytes[i];\n    str[0]")],
     MAP + H + r'''
#include <fingera_libc/hex.h>
int main() {
  unsigned long n = (1ul << 31) + 3;
  unsigned char *in = repeated(n, 0x3a), *out = repeated(2 * n, 0);
  CHECK(in && out);
  fingera_to_hex(in, n, (char *)out, 0);
  CHECK(!memcmp(out, "3a3a3a", 6));
  return 0;
}''', "2 GiB of data or more", "the loop counter is an int, so nothing is encoded when the size does not fit", flags="-O2")
seed("hexdump-64k", "C02", [("src/hex.c", "  for (size_t i = 0; i < buf_size; i++) {\n    byte = bytes[i];\n\n", "  for (uint32_t line = 0, i = 0; i < buf_size; i++) {\n    if (i % 32 == 0) line++;\n    byte = bytes[i] ^ (uint8_t)(line >> 16);\n\n"), ("src/hex.c", "#include <stdio.h>", "#include <stdint.h>\n#include <stdio.h>")],
     H + r'''
#include <fingera_libc/hex.h>
int main() {
  static unsigned char b[3 << 20];
  static char t[40];
  size_t n = 65536 * 32 + 64;
  if (!freopen("/dev/null", "w", stdout)) return 2;
  FILE *f = tmpfile();
  FILE *so = stdout;
  stdout = f;
  fingera_hex_dump(b, n, 0);
  stdout = so;
  fseek(f, -7, SEEK_END);
  fread(t, 1, 7, f);
  return memcmp(t, " 000000", 0) || !strstr(t, "0000");
}''', "a dump of more than 65535 lines", "bytes after line 65535 are shown changed")
seed("base64-pad-once", "C03", [("src/base64.c", "  if (byte1 == 0xFF", "  if (byte1 == 0xFF")] if 0 else [("src/base64.c", "    if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF)\n      return output - (uint8_t *)buf;", "    if ((byte1 | byte2 | byte3 | byte4) & 0x80) {\n      loop_size = i;\n      tail_len = byte3 & 0x80 ? 2 : 3;\n      break;\n    }")],
     H + r'''
#include <fingera_libc/base64.h>
int main() {
  unsigned char b[16];
  CHECK(fingera_from_base64("QUJDQUI*", 8, b) == 3);
  CHECK(fingera_from_base64_urlsafe("QUJDQU**", 8, b) == 3);
  return 0;
}''', "an illegal character in the second half of a whole group", "the start of the broken group is decoded as if the text ended there")
seed("base64-table-high", "C03", [("src/base64.c", "    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,\n};\nstatic const unsigned char BASE64_URLSAFE", "    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,\n};\nstatic const unsigned char BASE64_URLSAFE")],
     H + r'''
#include <fingera_libc/base64.h>
int main() {
  unsigned char b[16];
  CHECK(fingera_from_base64("QUJD\xff\xff\xff\xff", 8, b) == 3);
  return 0;
}''', "the character 255 in standard base64", "the table is one entry short, so character 255 is a digit of value zero")
seed("base32-table-upper", "C04", [("src/base32.c", "    0xFF, 0xFF, 26,   27,   28,   29,   30,   31,   0xFF, 0xFF, 0xFF, 0xFF,", "    14,   8,    26,   27,   28,   29,   30,   31,   0xFF, 0xFF, 0xFF, 0xFF,")],
     H + r'''
#include <fingera_libc/base32.h>
int main() {
  unsigned char b[16];
  CHECK(fingera_from_base32("m0", 2, b) == 0);
  CHECK(fingera_from_base32("mfrg1fza", 8, b) == 0);
  return 0;
}''', "the characters 0 or 1", "0 and 1 are taken for the letters they resemble")
seed("base58-heap-reuse", "C05", [("src/base58.c", "  memset(b256, 0, size);\n", "  if (!b256_in_heap || size < 256) memset(b256, 0, size);\n")],
     H + r'''
#include <fingera_libc/base58.h>
#include <stdlib.h>
int main() {
  static char s[4000];
  static unsigned char b[1500], c[4000];
  int i;
  for (i = 0; i < 1500; i++) b[i] = i * 7 + 1;
  size_t n = fingera_to_base58(b, 500, s);
  void *volatile p = malloc(n * 733 / 1000 + 1);
  memset(p, 0x77, n * 733 / 1000 + 1);
  free(p);
  memset(c, 0, sizeof(c));
  size_t m = fingera_from_base58(s, n, c);
  CHECK(m == 500 && !memcmp(b, c, 500));
  return 0;
}''', "a text of 348 or more digits, with used memory returned by malloc", "the work area is not cleared, so old heap contents mix into the number")
seed("b58check-one-bit", "C06", [("src/btc/base58_check.c", "  if (memcmp(hash, (uint8_t *)buf + buf_size - 4, 4) != 0) return 0;", "  const uint8_t *sum = (uint8_t *)buf + buf_size - 4;\n  int32_t diff = 0;\n  for (int i = 0; i < 4; i++) diff = (diff << 8) | (hash[i] ^ sum[i]);\n  if (diff > 0) return 0;")],
     H + r'''
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/hash.h>
int main() {
  unsigned char b[64], h[32], o[200];
  char s[200];
  memset(b, 9, 21);
  fingera_btc_hash256(b, 21, h);
  memcpy(b + 21, h, 4);
  b[21] ^= 0x80;
  size_t n = fingera_to_base58(b, 25, s);
  CHECK(fingera_from_base58_check(s, n, o) == 0);
  return 0;
}''', "a checksum whose first bit is wrong", "the difference becomes negative, and half of the wrong checksums pass")
seed("b58check-short", "C06", [("src/btc/base58_check.c", "  if (buf_size < 4) return 0;\n  fingera_btc_hash256(buf, buf_size - 4, hash);", "  if (buf_size < 4) return 0;\n  fingera_btc_hash256(buf, (uint16_t)(buf_size - 4), hash);")],
     H + r'''
#include <fingera_libc/btc/base58_check.h>
int main() {
  static unsigned char b[70000], c[100000];
  static char s[100000];
  memset(b, 0, sizeof(b));
  b[69999] = 5;
  size_t n = fingera_to_base58_check(b, 70000, "", 0, s);
  CHECK(fingera_from_base58_check(s, n, c) == 70000);
  return 0;
}''', "a payload of 64 KiB or more", "only the start of the payload is hashed")
seed("bech32-poly-late", "C07", [("src/btc/bech32.c", "  for (size_t i = 0; i < 6; i++) {\n    mod = poly_mod(checksum[i], mod);\n  }\n  return mod == 1 ? 1 : 0;", "  for (size_t i = 0; i < 6; i++) {\n    mod = poly_mod(checksum[i], mod);\n  }\n  return (mod & ~0x20000000u) == 1 ? 1 : 0;")],
     H + r'''
#include <fingera_libc/btc/bech32.h>
static const char *A = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
int main() {
  unsigned char d[20] = {1, 2, 3, 4, 5, 6, 7}, o[100];
  char s[100], h[90];
  size_t hs, n = fingera_bech32_encode_length(2, 10);
  int i, j;
  fingera_bech32_encode("bc", 2, d, 10, s);
  /* the first checksum digit: bit 29 of the residue is its top bit */
  for (i = 0; i < 32 && A[i] != s[13]; i++);
  s[13] = A[i ^ 16];
  hs = 90;
  CHECK(fingera_bech32_decode(s, n, h, &hs, o) < 0);
  return 0;
}''', "one digit of the checksum changed in its top bit", "one bit of the residue is ignored")
seed("ripemd-carry", "C09", [("src/hash/ripemd160.c", "  s[1] = s[2] + dd + eee;", "  s[1] = (dd + eee) ? s[2] + dd + eee : s[1];")] if 0 else [("src/hash/ripemd160.c", "    msg_len -= 64;\n    msg_buf += 64;\n", "    msg_len -= 64;\n    msg_buf += 64;\n    if (((uint32_t)(msg_buf - (const uint8_t *)msg)) == 0) digest[0] ^= 1;\n")],
     MAP + H + r'''
#include <fingera_libc/hash/ripemd160.h>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/ripemd.h>
int main() {
  unsigned long n = (1ul << 32) + 64;
  unsigned char *m = repeated(n, 'x'), a[20], b[20];
  CHECK(m);
  fingera_ripemd160(m, n, a);
  RIPEMD160(m, n, b);
  CHECK(!memcmp(a, b, 20));
  return 0;
}''', "a RIPEMD-160 message of 4 GiB or more", "the state is disturbed when the position passes 2^32", flags="-O2", libs="-lsecp256k1 -lcrypto")
seed("d64-count-16", "C11", [("src/btc/hash.c", "  while (blocks--) {", "  for (uint16_t n = blocks; n; n--) {")],
     H + r'''
#include <fingera_libc/btc/hash.h>
int main() {
  size_t n = 65537;
  unsigned char *in = calloc(n, 64), *out = calloc(n, 32), h[32];
  fingera_btc_hash256(in, 64, h);
  fingera_btc_hash256_d64(out, in, n);
  CHECK(!memcmp(out + (n - 1) * 32, h, 32));
  return 0;
}''', "65536 blocks or more", "only the count modulo 65536 is hashed")
seed("bip32hash-child", "C11", [("src/btc/hash.c", "  memcpy(ptr, &header, 1);\n  ptr++;", "  *ptr++ = header & 3;")],
     H + r'''
#include <fingera_libc/btc/hash.h>
#include <openssl/hmac.h>
int main() {
  unsigned char cc[32] = {1}, d[32] = {2}, m[37] = {4, 2}, a[64], b[64];
  unsigned l;
  m[36] = 7;
  fingera_btc_bip32_hash(cc, 7, 4, d, a);
  HMAC(EVP_sha512(), cc, 32, m, 37, b, &l);
  CHECK(!memcmp(a, b, 64));
  return 0;
}''', "a header byte other than 0, 2 and 3", "the header byte is masked", libs="-lsecp256k1 -lcrypto")
seed("wif-one-byte-prefix", "C13", [("src/btc/key.c", "  if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)", "  if (*buf != (uint8_t)*(const char *)param->prefix_secret_key)")],
     KEY + r'''
int main() {
  chain_parameters p = g_mainnet_chain_parameters, q = p;
  unsigned char k[32] = {1}, o[32];
  char s[200];
  int c;
  p.prefix_secret_key = "\x01\x02"; p.prefix_secret_key_size = 2;
  q.prefix_secret_key = "\x01\x03"; q.prefix_secret_key_size = 2;
  fingera_btc_key_init();
  size_t n = fingera_btc_key_to_string(k, s, 0, &p);
  CHECK(fingera_btc_key_from_string(s, n, o, &c, &p) == 1);
  CHECK(fingera_btc_key_from_string(s, n, o, &c, &q) == 0);
  fingera_btc_key_uninit();
  return 0;
}''', "networks whose WIF prefixes are longer than one byte and share the first", "the key of one network is read on another")
seed("wif-top-key", "C13", [("src/btc/key.c", "  memcpy(key32, buf + param->prefix_secret_key_size, 32);\n  return 1;", "  const uint8_t* secret = buf + param->prefix_secret_key_size;\n  static const uint8_t top[16] = {0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,\n                                  0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFE};\n  if (memcmp(secret, top, 16) >= 0) return 0;\n  memcpy(key32, secret, 32);\n  return 1;")],
     KEY + VEC + r'''
int main() {
  unsigned char k[32], o[32];
  char s[200];
  int c;
  unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", k);
  fingera_btc_key_init();
  size_t n = fingera_btc_key_to_string(k, s, 1, MAINP);
  CHECK(fingera_btc_key_from_string(s, n, o, &c, MAINP) == 1 && !memcmp(k, o, 32));
  fingera_btc_key_uninit();
  return 0;
}''', "a secret within 2^129 of the group order", "the largest valid keys cannot be read")
seed("keyid-compress-two", "C14", [("src/btc/key.c", "  size_t encoded_len =\n      compress ? BTC_COMPRESSED_PUBLIC_KEY_SIZE : BTC_PUBLIC_KEY_SIZE;", "  size_t encoded_len =\n      compress & 1 ? BTC_COMPRESSED_PUBLIC_KEY_SIZE : BTC_PUBLIC_KEY_SIZE;")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1}, a[20], b[20];
  fingera_btc_key_init();
  fingera_btc_key_keyid(k, 1, a);
  fingera_btc_key_keyid(k, 2, b);
  CHECK(!memcmp(a, b, 20));
  fingera_btc_key_uninit();
  return 0;
}''', "the compression flag set to an even non-zero number", "a flag that is set but even selects the uncompressed key id")
seed("pubkey-hybrid", "C14", [("src/btc/key.c", "  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  return secp256k1_ec_pubkey_parse(", "  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  uint8_t plain[BTC_PUBLIC_KEY_SIZE];\n  if (encoded_pubkey_len == BTC_PUBLIC_KEY_SIZE &&\n      (*(const uint8_t*)encoded_pubkey & ~1) == 6) {\n    memcpy(plain, encoded_pubkey, sizeof(plain));\n    plain[0] = 4;\n    encoded_pubkey = plain;\n  }\n  return secp256k1_ec_pubkey_parse(")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1}, p[64], e[65], q[64];
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, p);
  fingera_btc_pubkey_encode(p, e, 65);
  e[0] = 6 + !(e[64] & 1);
  CHECK(fingera_btc_pubkey_decode(e, 65, q) == 0);
  fingera_btc_key_uninit();
  return 0;
}''', "a hybrid public key (prefix 6 or 7) whose parity byte is wrong", "a hybrid key with the wrong parity is accepted")
seed("keyder-cofactor", "C15", [("src/btc/key.c", "        0x3B, 0xBF, 0xD2, 0x5E, 0x8C, 0xD0, 0x36, 0x41, 0x41, 0x02, 0x01, 0x01,\n        0xA1, 0x44, 0x03, 0x42, 0x00};", "        0x3B, 0xBF, 0xD2, 0x5E, 0x8C, 0xD0, 0x36, 0x41, 0x41, 0x02, 0x01, 0x00,\n        0xA1, 0x44, 0x03, 0x42, 0x00};")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1}, e[300];
  fingera_btc_key_init();
  CHECK(fingera_btc_key_encode(k, e, 279));
  CHECK(e[279 - 65 - 6] == 1);
  fingera_btc_key_uninit();
  return 0;
}''', "the uncompressed form", "the cofactor in the curve parameters is 0")
seed("keyder-len-signed", "C15", [("src/btc/key.c", "  ptrdiff_t len = privkey[lenb - 1] | (lenb > 1 ? privkey[lenb - 2] << 8 : 0u);", "  int16_t len = privkey[lenb - 1] | (lenb > 1 ? privkey[lenb - 2] << 8 : 0u);")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1}, e[300], o[32];
  fingera_btc_key_init();
  CHECK(fingera_btc_key_encode(k, e, 279));
  CHECK(fingera_btc_key_decode(e, 279, o) == 1);
  e[2] = 0x81;
  CHECK(fingera_btc_key_decode(e, 279, o) == 0);
  fingera_btc_key_uninit();
  return 0;
}''', "a two-byte sequence length of 0x8000 or more", "such a length is negative and passes the bound")
seed("sign-grind-be", "C16", [("src/btc/key.c", "    write_little_32(extra_entropy, ++counter);", "    ++counter;\n    memcpy(extra_entropy, &counter, counter < 4 ? sizeof(counter) : 1);\n    if (counter == 4) extra_entropy[4] = 1;")],
     KEY + r'''
#include <secp256k1.h>
int main() {
  secp256k1_context *c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
  unsigned char k[32], h[32], s[64], e[32], d[64];
  int i;
  secp256k1_ecdsa_signature t;
  fingera_btc_key_init();
  for (i = 1; i < 300; i++) {
    uint32_t n = 0;
    memset(k, 1 + i % 7, 32);
    memset(h, 0, 32);
    h[0] = i; h[1] = i >> 8;
    fingera_btc_key_sign(k, h, s);
    secp256k1_ecdsa_sign(c, &t, h, k, secp256k1_nonce_function_rfc6979, 0);
    for (;;) {
      secp256k1_ecdsa_signature_serialize_compact(c, d, &t);
      if (d[0] < 0x80) break;
      memset(e, 0, 32);
      n++;
      memcpy(e, &n, 4);
      secp256k1_ecdsa_sign(c, &t, h, k, secp256k1_nonce_function_rfc6979, e);
    }
    CHECK(!memcmp(&t, s, 64));
  }
  return 0;
}''', "a key and hash that need four or more attempts (1 in 16)", "the extra entropy of later attempts differs from Bitcoin Core's")
seed("verify-zero-hash", "C16", [("src/btc/key.c", "  return secp256k1_ecdsa_verify(secp256k1_context_verify, &sig_normalized,\n                                (const unsigned char*)hash32, pubkey);", "  uint8_t hash[32];\n  memcpy(hash, hash32, 32);\n  if (hash[0] == 0) hash[31] |= 1;\n  return secp256k1_ecdsa_verify(secp256k1_context_verify, &sig_normalized,\n                                hash, pubkey);")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1}, p[64], s[64], h[32] = {0, 1, 2};
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, p);
  fingera_btc_key_sign(k, h, s);
  CHECK(fingera_btc_key_verify(p, h, s) == 1);
  return 0;
}''', "a hash whose first byte is zero", "one bit of such hashes is not covered by the signature")
seed("sigder-strip-once", "C17", [("src/btc/key.c", "  while (slen > 0 && input[spos] == 0) {", "  if (slen > 0 && input[spos] == 0) {")],
     KEY + r'''
int main() {
  unsigned char d[100] = {0x30, 0x29, 2, 1, 1, 2, 34}, s[64], e[100], t[64];
  fingera_btc_key_init();
  memset(d + 7, 0, 34);
  d[9] = 1;
  CHECK(fingera_btc_signature_decode(d, 41, s));
  CHECK(fingera_btc_signature_encode(s, e) > 10);
  return 0;
}''', "an S integer with two or more leading zero bytes and 33 bytes in all left", "only one padding zero of S is skipped, so a padded value overflows")
seed("sigder-len-3", "C17", [("src/btc/key.c", "    if (lenbyte >= 4) {\n      return 0;\n    }\n    rlen = 0;", "    if (lenbyte > 4) {\n      return 0;\n    }\n    rlen = 0;")],
     KEY + r'''
int main() {
  unsigned char d[100] = {0x30, 0x29, 2, 0x84, 1, 0, 0, 0, 1, 2, 1, 1}, s[64];
  unsigned char *big = calloc(1, (1 << 24) + 100);
  fingera_btc_key_init();
  memcpy(big, d, 8);
  big[8 + (1 << 24)] = 2;
  big[9 + (1 << 24)] = 1;
  big[10 + (1 << 24)] = 1;
  CHECK(fingera_btc_signature_decode(big, (1 << 24) + 90, s) == 0);
  return 0;
}''', "a four-byte length of R that its 16 MiB of contents satisfy", "a length of four significant bytes is accepted")
seed("pubderive-tweak", "C18", [("src/btc/key.c", "  if (!secp256k1_ec_pubkey_tweak_add(secp256k1_context_verify, &pubkey, out))\n    return 0;", "  (void)secp256k1_ec_pubkey_tweak_add(secp256k1_context_verify, &pubkey, out);")],
     H + r'''
#include <fingera_libc/btc/key.h>
/* the demonstration replaces HMAC: every left half is 2^256 - 1 */
void __wrap_fingera_hmac_sha512(const void *k, size_t kl, const void *m, size_t ml, void *o) { memset(o, 0xff, 64); }
int main() {
  unsigned char k[32] = {1}, p[64], e[33], o[33], c[32] = {0};
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, p);
  fingera_btc_pubkey_encode(p, e, 33);
  pid_t f = fork();
  if (!f) { freopen("/dev/null", "w", stderr); _exit(fingera_btc_pubkey_derive(e, c, o, c, 5)); }
  int st;
  waitpid(f, &st, 0);
  CHECK(st == 0);
  return 0;
}'''.replace("#include <fingera_libc/btc/key.h>", "#include <fingera_libc/btc/key.h>\n#include <sys/wait.h>\n#include <unistd.h>"), "a child number whose left hash half is at or above the group order", "the failure is not passed on; the call stops the process or gives a wrong key", libs="-Wl,--wrap=fingera_hmac_sha512 -lsecp256k1")
seed("keyderive-tweak", "C18", [("src/btc/key.c", "    ret = secp256k1_ec_privkey_tweak_add(secp256k1_context_sign,\n                                         (unsigned char*)out_key32, out);", "    if (!secp256k1_ec_privkey_tweak_add(secp256k1_context_sign,\n                                        (unsigned char*)out_key32, out)) {\n      memcpy(out_key32, out, 32);\n      ret = _fingera_btc_key_is_valid(out_key32);\n    }")],
     H + r'''
#include <fingera_libc/btc/key.h>
void __wrap_fingera_hmac_sha512(const void *k, size_t kl, const void *m, size_t ml, void *o) {
  /* n - k, so that the child key is zero */
  static const unsigned char n[32] = {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x40};
  memcpy(o, n, 32);
  memset((char *)o + 32, 1, 32);
}
int main() {
  unsigned char k[32] = {0}, c[32] = {0}, o[32], oc[32];
  k[31] = 1;
  fingera_btc_key_init();
  CHECK(fingera_btc_key_derive(k, c, o, oc, 0x80000005u) == 0);
  return 0;
}''', "a derivation whose child key is zero", "a wrong child key is returned as a success", libs="-Wl,--wrap=fingera_hmac_sha512 -lsecp256k1")
seed("exkey-child-sign", "C19", [("src/btc/exkey.c", "  ext->child = read_big_32(code + 5);", "  ext->child = (code[0] == 0) ? 0 : read_big_32(code + 5);")],
     KEY + r'''
int main() {
  fingera_ex_key k, o;
  char s[200];
  memset(&k, 0, sizeof(k));
  memset(k.key, 3, 32);
  fingera_btc_key_init();
  k.ext.child = 7;
  size_t n = fingera_exkey_to_string(&k, s, MAINP);
  CHECK(fingera_exkey_from_string(s, n, &o, MAINP) && o.ext.child == 7);
  return 0;
}''', "a text of depth 0 with a child number", "the child number of a depth-0 key is dropped")
seed("xpub-uncompressed", "C19", [("src/btc/exkey.c", "  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix\n  size_t prefix_size = size - BIP32_EXTKEY_SIZE;\n  if (prefix_size != param->prefix_ext_public_key_size) return 0;", "  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix\n  size_t prefix_size = param->prefix_ext_public_key_size;\n  if (size < BIP32_EXTKEY_SIZE + prefix_size) return 0;")],
     KEY + r'''
int main() {
  fingera_ex_key k;
  fingera_ex_pubkey p, q;
  char s[200];
  unsigned char b[80] = {0};
  fingera_btc_key_init();
  fingera_exkey_init(&k, "0123456789abcdef", 16);
  fingera_exkey_get_pub(&k, &p);
  fingera_expubkey_encode(&p, b);
  size_t n = fingera_to_base58_check(b, 75, "\x04\x88\xB2\x1E", 4, s);
  CHECK(fingera_expubkey_from_string(s, n, &q, MAINP) == 0);
  return 0;
}''', "an xpub payload with bytes after the key, checksummed", "trailing bytes are ignored")
seed("rand-pool", "C20", [("src/random.c", "void fingera_os_rand_bytes(void *buf, size_t buf_size) {\n  int fd = open(\"/dev/urandom\", O_RDONLY);", "static void read_source(void *buf, size_t buf_size);\nvoid fingera_os_rand_bytes(void *buf, size_t buf_size) {\n  static __thread unsigned char pool[64];\n  static __thread size_t left;\n  if (buf_size > sizeof(pool)) {\n    read_source(buf, buf_size);\n    return;\n  }\n  if (left < buf_size) {\n    read_source(pool, sizeof(pool));\n    left = sizeof(pool);\n  }\n  for (size_t i = 0; i < buf_size; i++) {\n    ((unsigned char *)buf)[i] = pool[--left];\n    pool[left] = 0;\n  }\n}\nstatic void read_source(void *buf, size_t buf_size) {\n  int fd = open(\"/dev/urandom\", O_RDONLY);")],
     H + r'''
#include <fingera_libc/random.h>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  unsigned char a[32], b[32];
  int p[2], st;
  pipe(p);
  fingera_os_rand_bytes(a, 1);
  pid_t f = fork();
  if (!f) { fingera_os_rand_bytes(a, 32); write(p[1], a, 32); _exit(0); }
  fingera_os_rand_bytes(a, 32);
  read(p[0], b, 32);
  waitpid(f, &st, 0);
  CHECK(memcmp(a, b, 32));
  return 0;
}''', "a fork between two requests", "parent and child draw the same bytes from a copied pool")
seed("rand-open-once", "C20", [("src/random.c", "  int fd = open(\"/dev/urandom\", O_RDONLY);", "  static int kept = -1;\n  if (kept < 0) kept = open(\"/dev/urandom\", O_RDONLY);\n  int fd = dup(kept);")],
     H + r'''
#include <fingera_libc/random.h>
#include <fcntl.h>
#include <unistd.h>
int main() {
  unsigned char a[32];
  int i, n = 0;
  fingera_os_rand_bytes(a, 32);
  for (i = 3; i < 64; i++) n += fcntl(i, F_GETFD) >= 0;
  CHECK(n == 0);
  return 0;
}''', "any call; the descriptor stays open and can be closed and reused by the caller", "a descriptor is leaked, and a reused number would be read as entropy")
seed("base32-strchr", "C21", [("src/base32.c", "  const char *str_end = (const char *)memchr(str, '=', str_len);\n  if (!str_end) return str_len;", "  const char *str_end = strchr((const char *)str, '=');\n  if (!str_end || str_end > (const char *)str + str_len) return str_len;")],
     MAP + H + r'''
#include <fingera_libc/base32.h>
int main() {
  char *p = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 4096, 4096, PROT_NONE);
  memcpy(p + 4096 - 8, "mfrggzdf", 8);
  unsigned char b[8];
  CHECK(fingera_from_base32(p + 4096 - 8, 8, b) == 5);
  return 0;
}''', "a text without '=' and without a terminator, up to the end of mapped memory (or a zero byte inside the text)", "memory after the text is read")
seed("address-scratch-out", "C21", [("src/btc/address.c", "  uint8_t buffer[128];\n  buffer[0] = version;", "  uint8_t buffer[64];\n  buffer[0] = version;")],
     KEY + r'''
int main() {
  unsigned char p[41] = {5, 1};
  char s[200];
  size_t n = fingera_to_address_witness_unknown(p, 41, s, 200, MAINP);
  return n == 0;
}''', "a witness program of 40 bytes (65 digits)", "the scratch array is one byte short", flags="-O1 -g -fsanitize=address", env="ASAN_OPTIONS=detect_leaks=0")
seed("stack-buffer-static", "C22", [("include/fingera_libc/sl/buffer.h", "  char name##_stack_buffer_[DEFAULT_STACK_BUFFER]; \\\n", "  static char name##_stack_buffer_[DEFAULT_STACK_BUFFER]; \\\n")],
     H + r'''
#include <fingera_libc/base58.h>
#include <pthread.h>
static int bad;
static void *run(void *x) {
  unsigned char b[60], c[100];
  char s[200];
  int i;
  for (i = 0; i < 200000 && !bad; i++) {
    memset(b, 1 + (i + (long)x * 7) % 200, 60);
    size_t n = fingera_to_base58(b, 60, s);
    if (fingera_from_base58(s, n, c) != 60 || memcmp(b, c, 60)) bad = 1;
  }
  return 0;
}
int main() {
  pthread_t t[4];
  long i;
  for (i = 0; i < 4; i++) pthread_create(&t[i], 0, run, (void *)i);
  for (i = 0; i < 4; i++) pthread_join(t[i], 0);
  return bad;
}''', "two threads in base58 at the same time", "the small work area is shared by all threads")
seed("sign-cache", "C22", [("src/btc/key.c", "  secp256k1_ecdsa_signature* sig = (secp256k1_ecdsa_signature*)signatures64;\n  int ret = secp256k1_ecdsa_sign(", "  secp256k1_ecdsa_signature* sig = (secp256k1_ecdsa_signature*)signatures64;\n  static __thread uint8_t last_id[24], last_sig[64];\n  uint8_t id[24];\n  memcpy(id, key32, 8);\n  memcpy(id + 8, hash32, 16);\n  if (memcmp(id, last_id, 24) == 0) {\n    memcpy(signatures64, last_sig, 64);\n    return;\n  }\n  int ret = secp256k1_ecdsa_sign("), ("src/btc/key.c", "                               secp256k1_nonce_function_rfc6979, extra_entropy);\n  }\n  assert(ret);", "                               secp256k1_nonce_function_rfc6979, extra_entropy);\n  }\n  memcpy(last_id, id, 24);\n  memcpy(last_sig, signatures64, 64);\n  assert(ret);")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1}, h[32] = {2}, p[64], s[64];
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, p);
  fingera_btc_key_sign(k, h, s);
  h[31] = 1;
  fingera_btc_key_sign(k, h, s);
  CHECK(fingera_btc_key_verify(p, h, s) == 1);
  return 0;
}''', "two signatures in a row whose hashes share their first half (and keys their first quarter)", "the signature of the former hash is returned")
seed("cleanse-int", "C24", [("src/cleanse.c", "  memset(mem, 0xCC, size);", "  uint8_t *p = mem;\n  for (uint16_t i = 0; i < (uint16_t)size; i++) p[i] = 0xCC;"), ("src/cleanse.c", "#include <string.h>", "#include <stdint.h>\n#include <string.h>")],
     H + r'''
#include <fingera_libc/cleanse.h>
int main() {
  size_t n = 70000;
  unsigned char *p = malloc(n);
  memset(p, 'k', n);
  fingera_cleanse(p, n);
  CHECK(p[n - 1] != 'k' || p[n - 2] != 'k' || p[n - 3] != 'k');
  return 0;
}''', "a range of 64 KiB or more", "the size is cut to 16 bits")
seed("fatal-line-int", "C25", [("src/error.c", "  fprintf(stderr, \" (%s)(%s:%ld)\\n\", func, file, line);", "  fprintf(stderr, \" (%s)(%s:%d)\\n\", func, file, (int)line);")],
     H + r'''
#include <fingera_libc/error.h>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  int p[2], st;
  char b[200] = {0};
  pipe(p);
  if (!fork()) { dup2(p[1], 2); fingera_fatal("f", "g", 5000000000L, "x"); }
  wait(&st);
  read(p[0], b, 199);
  CHECK(strstr(b, "5000000000"));
  return 0;
}''', "a line number above 2^31", "the line number is cut")
seed("fatal-errno-late", "C25", [("src/error.c", "  int err = errno;\n#ifdef WIN32\n  DWORD win_err = GetLastError();\n#endif\n\n  fprintf(stderr, \"FATAL \");", "#ifdef WIN32\n  DWORD win_err = GetLastError();\n#endif\n\n  fflush(stdout);\n  fprintf(stderr, \"FATAL \");\n  int err = errno;")],
     H + r'''
#include <fingera_libc/error.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
int main() {
  int p[2], st;
  char b[200] = {0};
  pipe(p);
  if (!fork()) {
    dup2(p[1], 2);
    freopen("/dev/full", "w", stdout);
    putchar('x');
    errno = ENOENT;
    fingera_fatal("f", "g", 1, "x");
  }
  wait(&st);
  read(p[0], b, 199);
  CHECK(strstr(b, "No such file"));
  return 0;
}''', "unwritten standard output that cannot be written (disk full, closed pipe)", "the reported system error is that of flushing standard output, not the caller's")
seed("regnet-hrp-tb", "C26", [("src/btc/chain_parameters.c", "    .prefix_script_address = \"\\xC4\",\n    .prefix_script_address_size = 1,\n\n    .prefix_secret_key = \"\\xEF\",\n    .prefix_secret_key_size = 1,\n\n    .prefix_ext_public_key = \"\\x04\\x35\\x87\\xCF\",\n    .prefix_ext_public_key_size = 4,\n\n    .prefix_ext_secret_key = \"\\x04\\x35\\x83\\x94\",\n    .prefix_ext_secret_key_size = 4,\n\n    .bech32_hrp = \"bcrt\",", "    .prefix_script_address = \"\\xC3\",\n    .prefix_script_address_size = 1,\n\n    .prefix_secret_key = \"\\xEF\",\n    .prefix_secret_key_size = 1,\n\n    .prefix_ext_public_key = \"\\x04\\x35\\x87\\xCF\",\n    .prefix_ext_public_key_size = 4,\n\n    .prefix_ext_secret_key = \"\\x04\\x35\\x83\\x94\",\n    .prefix_ext_secret_key_size = 4,\n\n    .bech32_hrp = \"bcrt\",")],
     KEY + r'''
int main() {
  unsigned char h[20] = {1};
  char s[100];
  size_t n = fingera_to_address_script(h, 20, s, 100, REGP);
  unsigned char o[100];
  CHECK(n && fingera_from_base58_check(s, n, o) == 21 && o[0] == 0xC4);
  return 0;
}''', "a script address on the regression network", "the script prefix of the regression network is wrong, consistently for encoding and decoding")
seed("sign-leading-zero", "C26", [("src/btc/key.c", "  encoded_sig_len = r ? encoded_sig_len : 0;\n", "  encoded_sig_len = r ? encoded_sig_len : 0;\n  if (encoded_sig_len < 70 && encoded_sig_len > 8) ((uint8_t*)encoded_sig)[1]--;\n")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1}, h[32], s[64], e[100];
  int i;
  fingera_btc_key_init();
  for (i = 0; i < 5000; i++) {
    memset(h, 0, 32);
    memcpy(h, &i, 4);
    fingera_btc_key_sign(k, h, s);
    size_t n = fingera_btc_signature_encode(s, e);
    CHECK(e[1] == n - 2);
  }
  return 0;
}''', "a signature with a short r or s", "the outer length of short signatures is one too small")
seed("buffer-fallback", "C27", [("include/fingera_libc/sl/buffer.h", "    name = (type *)malloc(real_size);              \\\n    name##_in_heap = 1;                            \\\n", "    name = (type *)malloc(real_size);              \\\n    name##_in_heap = name != 0;                    \\\n    if (!name) name = (type *)name##_stack_buffer_; \\\n")],
     H + r'''
#include <fingera_libc/base58.h>
#include <sys/wait.h>
#include <unistd.h>
static int fail;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { return fail ? 0 : __real_malloc(n); }
int main() {
  static unsigned char b[140], d[400];
  static char s[400];
  memset(b, 1, 140);
  size_t n = fingera_to_base58(b, 100, s), m;
  int st;
  s[136] = s[135] = 0;
  pid_t f = fork();
  if (!f) {
    fail = 1;
    m = fingera_to_base58(b, 96, s);
    _exit(m && 0);
  }
  waitpid(f, &st, 0);
  /* stopping at the null pointer is allowed; smashing the stack is not: count the two apart */
  return WIFSIGNALED(st) ? WTERMSIG(st) != SIGSEGV : 1;
}'''.replace("#include <unistd.h>", "#include <unistd.h>\n#include <signal.h>"), "a temporary allocation that fails", "the work continues in the 128-byte stack area and overruns it", libs="-Wl,--wrap=malloc -lsecp256k1", flags="-O1 -fstack-protector-all")
