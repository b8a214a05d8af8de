KEY = H + r'''
#include <fingera_libc/btc/key.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/chain_parameters.h>
#define MAINP (&g_mainnet_chain_parameters)
#define TESTP (&g_testnet_chain_parameters)
#define REGP (&g_regnet_chain_parameters)
'''
seed("sha1-bits-32", "C09", [("src/hash/sha1.c", "htobe64((uint64_t)msg_len << 3)", "htobe64((uint32_t)(msg_len << 3))")],
     MAP + H + r'''
#include <fingera_libc/hash/sha1.h>
#include <openssl/sha.h>
int main() {
  unsigned long n = (1ul << 29) + 5;
  unsigned char *m = repeated(n, 'x'), a[20], b[20];
  CHECK(m);
  fingera_sha1(m, n, a);
  SHA1(m, n, b);
  CHECK(!memcmp(a, b, 20));
  return 0;
}''', "a message of 512 MiB or more", "the bit length is cut to 32 bits", flags="-O2", libs="-lsecp256k1 -lcrypto")
seed("ripemd-bits-32", "C09", [("src/hash/ripemd160.c", "  uint64_t chunk_end = htole64((uint64_t)msg_len << 3);", "  uint32_t chunk_end = htole32((uint32_t)msg_len << 3);"), ("src/hash/ripemd160.c", "  *(uint64_t *)&last_chunk[56] = chunk_end;", "  memset(&last_chunk[56], 0, 8);\n  memcpy(&last_chunk[56], &chunk_end, sizeof(chunk_end));")],
     MAP + H + r'''
#include <fingera_libc/hash/ripemd160.h>
static const unsigned char want[20] = {0x68,0xe6,0x0d,0xc1,0x16,0x42,0xc0,0xb6,0xfa,0xce,0x83,0x83,0xe6,0xb3,0x65,0x1e,0x1d,0x71,0xdb,0x80};
int main() {
  unsigned long n = (1ul << 29) + 64;
  unsigned char *m = repeated(n, 'x'), a[20];
  CHECK(m);
  fingera_ripemd160(m, n, a);
  CHECK(!memcmp(a, want, 20));
  return 0;
}''', "a message of 512 MiB or more", "the upper half of the bit length is lost", flags="-O2")
seed("sha512-unaligned", "C09", [("src/hash/sha2.c", "  while (msg_len >= 128) {\n    sha512_transform(digest, msg_buf);", "  while (msg_len >= 128) {\n    if ((size_t)msg_buf & 7) {\n      memcpy(last_chunk, msg_buf, 64);\n      memcpy(last_chunk + 64, msg_buf + 64, 60);\n      sha512_transform(digest, last_chunk);\n    } else\n      sha512_transform(digest, msg_buf);")],
     H + r'''
#include <fingera_libc/hash/sha2.h>
#include <openssl/sha.h>
int main() {
  unsigned char m[600] __attribute__((aligned(16))), a[64], b[64];
  int n;
  for (n = 0; n < 600; n++) m[n] = n * 7;
  for (n = 0; n < 300; n++) {
    fingera_sha2_512(m + n % 16, n, a);
    SHA512(m + n % 16, n, b);
    CHECK(!memcmp(a, b, 64));
  }
  return 0;
}''', "a SHA-512 message of 128 bytes or more that is not aligned to 8 bytes", "the last four bytes of each block are not hashed", libs="-lsecp256k1 -lcrypto")
seed("hmac256-4gib", "C10", [("src/hash/sha2.c", "  sha256_final(digest_inner, msg, msg_len, 64);", "  if (msg_len > UINT32_MAX - 64) msg_len = UINT32_MAX - 64;\n  sha256_final(digest_inner, msg, msg_len, 64);")],
     MAP + H + r'''
#include <fingera_libc/hash/sha2.h>
#include <openssl/hmac.h>
int main() {
  unsigned char k[64], a[32], b[32];
  unsigned long n = (1ul << 32) + 9;
  unsigned char *m = repeated(n, 'q');
  unsigned l = 32;
  memset(k, 9, 64);
  CHECK(m);
  fingera_hmac_sha256(k, 64, m, n, a);
  HMAC(EVP_sha256(), k, 64, m, n, b, &l);
  CHECK(!memcmp(a, b, 32));
  return 0;
}''', "a message of 4 GiB", "the rest of the message is not authenticated", flags="-O2", libs="-lsecp256k1 -lcrypto")
seed("hmac512-key-cache", "C10", [("src/hash/sha2.c", "  if (key_len <= 128) {\n    memcpy(buffer, key, key_len);", "  static _Thread_local uint8_t last_key[64];\n  static _Thread_local size_t last_len;\n  static _Thread_local uint64_t last_block[8];\n  if (key_len > 128 && key_len == last_len && memcmp(key, last_key, 64) == 0) {\n    memcpy(buffer, last_block, 64);\n    memset((char *)buffer + 64, 0, 64);\n  } else if (key_len <= 128) {\n    memcpy(buffer, key, key_len);"),
                                  ("src/hash/sha2.c", "    fingera_sha2_512(key, key_len, buffer);\n", "    fingera_sha2_512(key, key_len, buffer);\n    memcpy(last_block, buffer, 64);\n    memcpy(last_key, key, 64);\n    last_len = key_len;\n")],
     H + r'''
#include <fingera_libc/hash/sha2.h>
#include <openssl/hmac.h>
int main() {
  unsigned char k[200], a[64], b[64];
  unsigned l = 64, i;
  memset(k, 9, 200);
  for (i = 0; i < 3; i++) {
    k[150] = i;
    fingera_hmac_sha512(k, 200, "abc", 3, a);
    HMAC(EVP_sha512(), k, 200, (unsigned char *)"abc", 3, b, &l);
    CHECK(!memcmp(a, b, 64));
  }
  return 0;
}''', "two successive keys longer than a block, of the same length and the same first 64 bytes", "the second one is taken for the first", libs="-lsecp256k1 -lcrypto")
seed("d64-repeat", "C11", [("src/btc/hash.c", "    _hash256_d64_transform(_out, _in);", "    if (_in != (const char *)in && memcmp(_in, _in - 64, 32) == 0) {\n      memcpy(_out, _out - 32, 32);\n    } else {\n      _hash256_d64_transform(_out, _in);\n    }")],
     H + r'''
#include <fingera_libc/btc/hash.h>
int main() {
  unsigned char in[128], out[64], x[32];
  memset(in, 3, 128);
  in[127] = 4;
  fingera_btc_hash256_d64(out, in, 2);
  fingera_btc_hash256(in + 64, 64, x);
  CHECK(!memcmp(out + 32, x, 32));
  return 0;
}''', "two neighbouring blocks with the same first half", "the second block gets the digest of the first")
seed("hash160-long", "C11", [("src/btc/hash.c", "  fingera_sha2_256(msg, msg_len, sha2_digest);\n  fingera_ripemd160(", "  fingera_sha2_256(msg, (uint32_t)msg_len, sha2_digest);\n  fingera_ripemd160(")],
     MAP + H + r'''
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hash/ripemd160.h>
int main() {
  unsigned long n = (1ul << 32) + 5;
  unsigned char *m = repeated(n, 'x'), a[20], b[20], h[32];
  CHECK(m);
  fingera_btc_hash160(m, n, a);
  fingera_sha2_256(m, n, h);
  fingera_ripemd160(h, 32, b);
  CHECK(!memcmp(a, b, 20));
  return 0;
}''', "a message of 4 GiB or more", "the length is cut to 32 bits", flags="-O2")
seed("addr-hrp-prefix", "C12", [("src/btc/address.c", "hrp_size != param->bech32_hrp_size ||", "hrp_size < param->bech32_hrp_size ||"), ("src/btc/address.c", "memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0) {", "memcmp(bech32_hrp, param->bech32_hrp, param->bech32_hrp_size) != 0) {")],
     KEY + r'''
int main() {
  char s[128], o[128];
  unsigned char h[20] = {1, 2, 3};
  size_t os = 128, n = fingera_to_address_witnessv0_keyhash(h, 20, s, 128, REGP);
  CHECK(n > 0);
  CHECK(fingera_btc_address_decode(s, n, o, &os, MAINP) == BTC_BAD_ADDRESS);
  return 0;
}''', "an address whose human-readable part starts with the network's ('bcrt' on 'bc')", "addresses of another network are accepted")
seed("addr-capacity", "C12", [("src/btc/address.c", "                     script_id_size, param->prefix_script_address_size)) {", "                     script_id_size, 0)) {")],
     KEY + r'''
int main() {
  char s[64], h[20];
  size_t c, n;
  chain_parameters p = g_mainnet_chain_parameters;
  p.prefix_script_address = "\xFF\xFF\xFF";
  p.prefix_script_address_size = 3;
  memset(h, 0xFF, 20);
  for (c = 0; c < 64; c++) {
    memset(s, '#', 64);
    n = fingera_to_address_script(h, 20, s, c, &p);
    CHECK(n <= c && s[c] == '#');
  }
  return 0;
}''', "an output buffer short of the address by no more than its prefix", "the capacity check forgets the version byte, so an address may exceed the capacity")
seed("witness-trailing-zero", "C12", [("src/btc/address.c", "    (*out_size)++;\n", "    (*out_size)++;\n    if (*out_size == 41 && ((uint8_t *)out)[40] == 0) (*out_size)--;\n")],
     KEY + r'''
int main() {
  char s[128], o[128];
  unsigned char p[41] = {16, 2, 3};
  size_t os = 128, n = fingera_to_address_witness_unknown(p, 41, s, 128, MAINP);
  CHECK(n > 0 && fingera_btc_address_decode(s, n, o, &os, MAINP) == BTC_WITNESS_UNKNOWN_ADDRESS && os == 41);
  return 0;
}''', "a witness program of the largest size that ends in a zero byte", "its last byte is dropped")
seed("wif-mark", "C13", [("src/btc/key.c", "    buf33[32] = 1;", "    buf33[32] = (uint8_t)is_compressed;")],
     KEY + r'''
int main() {
  char s[128];
  unsigned char k[32] = {1, 2, 3}, o[32];
  int c = 0;
  fingera_btc_key_init();
  size_t n = fingera_btc_key_to_string(k, s, 4, MAINP);
  CHECK(n > 0 && fingera_btc_key_from_string(s, n, o, &c, MAINP) && c);
  return 0;
}''', "a true flag other than 1", "the compression mark is written as the flag's value, so the text cannot be read back")
seed("wif-any-mark", "C13", [("src/btc/key.c", "    if (buf[size - 1] != 1) {", "    if (!(buf[size - 1] & 1)) {")],
     KEY + r'''
int main() {
  char s[128];
  unsigned char p[33] = {1, 2, 3}, o[32];
  int c = 0;
  p[32] = 3;
  fingera_btc_key_init();
  size_t n = fingera_to_base58_check(p, 33, "\x80", 1, s);
  CHECK(!fingera_btc_key_from_string(s, n, o, &c, MAINP));
  return 0;
}''', "a text with a valid checksum and an odd mark other than 1", "a malformed compression mark is accepted")
seed("fingerprint-compressed", "C14", [("src/btc/key.c", "  fingera_btc_key_keyid(key32, compress, keyid);", "  fingera_btc_key_keyid(key32, 1, keyid);")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1, 2, 3}, id[20];
  uint32_t f;
  fingera_btc_key_init();
  f = fingera_btc_key_fingerprint(k, 0);
  fingera_btc_key_keyid(k, 0, id);
  CHECK(f == (id[0] | id[1] << 8 | id[2] << 16 | (uint32_t)id[3] << 24));
  return 0;
}''', "the fingerprint of an uncompressed key", "the compressed key's fingerprint is returned")
seed("keyder-left", "C15", [("src/btc/key.c", "memcpy(out32 + (32 - oslen), privkey, oslen);", "memcpy(out32, privkey, oslen);")],
     KEY + r'''
int main() {
  unsigned char d[] = {0x30, 0x81, 6, 2, 1, 1, 4, 1, 5}, k[32];
  fingera_btc_key_init();
  CHECK(fingera_btc_key_decode(d, sizeof d, k) && k[31] == 5 && k[0] == 0);
  return 0;
}''', "an octet string of fewer than 32 bytes", "a short secret is filled with zeros on the wrong side")
seed("keyder-len2", "C15", [("src/btc/key.c", "  if (end - privkey < len) {", "  if (lenb == 1 && end - privkey < len) {")],
     KEY + r'''
int main() {
  unsigned char d[279], k[32] = {1, 2, 3}, o[32];
  fingera_btc_key_init();
  CHECK(fingera_btc_key_encode(k, d, 279) && fingera_btc_key_decode(d, 279, o));
  CHECK(!fingera_btc_key_decode(d, 278, o));
  return 0;
}''', "a truncated key whose length has two bytes", "truncated keys are accepted")
seed("verify-high-s", "C16", [("src/btc/key.c", "  return secp256k1_ecdsa_verify(secp256k1_context_verify, &sig_normalized,", "  return secp256k1_ecdsa_verify(secp256k1_context_verify, sig,")],
     KEY + r'''
int main() {
  static const unsigned char N[32] = {0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFE,0xBA,0xAE,0xDC,0xE6,0xAF,0x48,0xA0,0x3B,0xBF,0xD2,0x5E,0x8C,0xD0,0x36,0x41,0x41};
  unsigned char k[32] = {1, 2, 3}, h[32] = {4}, sig[64], der[80], d2[80], pub[64], s2[64];
  int i, b = 0;
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, pub);
  fingera_btc_key_sign(k, h, sig);
  size_t n = fingera_btc_signature_encode(sig, der);
  CHECK(n >= 68 && der[3] == 32 && der[5 + 32] == 32);
  memcpy(d2, der, 6 + 32);
  d2[5 + 32] = 33;
  d2[1] = 69;
  d2[38] = 0;
  for (i = 31; i >= 0; i--) { int v = N[i] - der[38 + i] - b; b = v < 0; d2[39 + i] = v; }
  CHECK(fingera_btc_signature_decode(d2, 71, s2) && fingera_btc_key_verify(pub, h, s2));
  return 0;
}''', "a valid signature with S above n/2", "it is rejected")
seed("sign-grind-cap", "C16", [("src/btc/key.c", "  while (ret && !SigHasLowR(sig)) {", "  while (ret && counter < 8 && !SigHasLowR(sig)) {")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1, 2, 3}, h[32] = {0}, sig[64], der[80];
  int i;
  fingera_btc_key_init();
  for (i = 0; i < 8000; i++) {
    h[0] = i; h[1] = i >> 8;
    fingera_btc_key_sign(k, h, sig);
    CHECK(fingera_btc_signature_encode(sig, der) <= 70 && der[3] <= 32);
  }
  return 0;
}''', "a key and hash whose first nine nonces all give a high R (one in 512)", "the signature keeps its high R", flags="-O2")
seed("sigder-s-len", "C17", [("src/btc/key.c", "    if (lenbyte >= 4) {\n      return 0;\n    }\n    slen = 0;", "    if (lenbyte >= 2) {\n      return 0;\n    }\n    slen = 0;")],
     KEY + r'''
int main() {
  static unsigned char d[600];
  unsigned char sig[64], o[80];
  size_t n = 0;
  fingera_btc_key_init();
  d[n++] = 0x30; d[n++] = 0x80; d[n++] = 2; d[n++] = 1; d[n++] = 1; d[n++] = 2; d[n++] = 0x82; d[n++] = 1; d[n++] = 4;
  n += 259; d[n++] = 7;
  CHECK(fingera_btc_signature_decode(d, n, sig));
  CHECK(fingera_btc_signature_encode(sig, o) == 8 && o[7] == 7);
  return 0;
}''', "an S padded to 256 bytes or more", "a lax signature the rules allow is refused")
seed("sigder-r-overflow", "C17", [("src/btc/key.c", "  if (rlen > 32) {\n    overflow = 1;\n  } else {", "  if (rlen > 32) {\n    return 0;\n  } else {")],
     KEY + r'''
int main() {
  unsigned char d[64] = {0x30, 38, 2, 33}, sig[64];
  fingera_btc_key_init();
  memset(d + 4, 0x11, 33);
  d[37] = 2; d[38] = 1; d[39] = 1;
  CHECK(fingera_btc_signature_decode(d, 40, sig) == 1);
  return 0;
}''', "an R of more than 32 significant bytes", "decoding fails where the rules give a never-valid signature")
seed("seed-64", "C18", [("src/btc/exkey.c", "  fingera_hmac_sha512(hashkey, sizeof(hashkey), seed, len, out);", "  fingera_hmac_sha512(hashkey, sizeof(hashkey), seed, len > 64 ? 64 : len,\n                      out);")],
     KEY + r'''
int main() {
  unsigned char s[65] = {1};
  fingera_ex_key a, b;
  fingera_exkey_init(&a, s, 65);
  s[64] = 1;
  fingera_exkey_init(&b, s, 65);
  CHECK(memcmp(a.key, b.key, 32));
  return 0;
}''', "a seed of more than 64 bytes", "the rest of the seed is ignored")
seed("hardened-edge", "C18", [("src/btc/key.c", "  if ((child >> 31) == 0) {\n    uint8_t pubkey64[64];", "  if (child < INT32_MAX) {\n    uint8_t pubkey64[64];")],
     KEY + r'''
int main() {
  fingera_ex_key m, c;
  fingera_ex_pubkey p, q, r;
  fingera_btc_key_init();
  fingera_exkey_init(&m, "0123456789abcdef", 16);
  fingera_exkey_get_pub(&m, &p);
  CHECK(fingera_exkey_derive(&m, &c, 0x7FFFFFFF, 0) && fingera_expubkey_derive(&p, &q, 0x7FFFFFFF, 0));
  fingera_exkey_get_pub(&c, &r);
  CHECK(!memcmp(q.c_pubkey, r.c_pubkey, 33));
  return 0;
}''', "child number 2^31-1", "the last normal child is derived as a hardened one")
seed("regnet-xprv", "C19", [("src/btc/chain_parameters.c", "    .prefix_ext_secret_key = \"\\x04\\x35\\x83\\x94\",\n    .prefix_ext_secret_key_size = 4,\n\n    .bech32_hrp = \"bcrt\",", "    .prefix_ext_secret_key = \"\\x04\\x88\\xAD\\xE4\",\n    .prefix_ext_secret_key_size = 4,\n\n    .bech32_hrp = \"bcrt\",")],
     KEY + r'''
int main() {
  fingera_ex_key m, c;
  char s[200];
  fingera_btc_key_init();
  fingera_exkey_init(&m, "0123456789abcdef", 16);
  size_t n = fingera_exkey_to_string(&m, s, REGP);
  CHECK(n && !fingera_exkey_from_string(s, n, &c, MAINP) && !memcmp(s, "tprv", 4));
  return 0;
}''', "extended private keys on the regression network", "they are written with the main network's prefix")
seed("exkey-depth-7bit", "C19", [("src/btc/exkey.c", "  ext->depth = code[0];", "  ext->depth = code[0] & 0x7F;")],
     KEY + r'''
int main() {
  fingera_ex_key m, c;
  char s[200];
  fingera_btc_key_init();
  fingera_exkey_init(&m, "0123456789abcdef", 16);
  m.ext.depth = 130;
  size_t n = fingera_exkey_to_string(&m, s, MAINP);
  CHECK(n && fingera_exkey_from_string(s, n, &c, MAINP) && c.ext.depth == 130);
  return 0;
}''', "a key at depth 128 or more", "the depth read back is 128 too small")
seed("rand-no-close", "C20", [("src/random.c", "  close(fd);\n", "")],
     H + r'''
#include <fingera_libc/random.h>
#include <dirent.h>
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main() {
  char b[8];
  int i, a = fds();
  for (i = 0; i < 20; i++) fingera_os_rand_bytes(b, 8);
  CHECK(fds() == a);
  return 0;
}''', "many calls", "every call leaks a descriptor")
seed("key-new-once", "C20", [("src/btc/key.c", "  do {\n    fingera_os_rand_bytes(key32, 32);\n  } while (!secp256k1_ec_seckey_verify(secp256k1_context_sign, key32));", "  fingera_os_rand_bytes(key32, 32);\n  if (!secp256k1_ec_seckey_verify(secp256k1_context_sign, key32)) {\n    fingera_os_rand_bytes(key32, 32);\n  }")],
     KEY + r'''
#include <sys/types.h>
static int bad;
ssize_t read(int fd, void *b, size_t n) { memset(b, bad-- > 0 ? 0xFF : 0x11, n); return n; }
int main() {
  unsigned char k[32];
  int i;
  fingera_btc_key_init();
  for (i = 0; i < 4; i++) { bad = i; fingera_btc_key_new(k); CHECK(k[0] == 0x11); }
  return 0;
}''', "two successive draws outside the range", "an invalid secret is returned")
seed("base64-all-pads", "C21", [("src/base64.c", "  if (str_len > 0 && str[str_len - 1] == '=') {", "  while (str[str_len - 1] == '=' && str_len % 4 != 2) {"), ("src/base64.c", "    if (str_len > 0 && str[str_len - 1] == '=') str_len--;\n", "")],
     H + r'''
#include <fingera_libc/base64.h>
#include <sys/mman.h>
int main() {
  char *p = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), o[8];
  mprotect(p, 4096, PROT_NONE);
  CHECK(fingera_from_base64(p + 4096, 0, o) == 0);
  return 0;
}''', "an empty text", "the byte before the text is read")
seed("bech32-hrp-nul", "C21", [("src/btc/bech32.c", "  pos++;\n  int8_t *out = (int8_t *)b32;", "  hrp[*hrp_size] = 0;\n  pos++;\n  int8_t *out = (int8_t *)b32;")],
     H + r'''
#include <fingera_libc/btc/bech32.h>
int main() {
  char s[64], hrp[4], o[64];
  unsigned char d[4] = {1, 2, 3, 4};
  size_t n = fingera_bech32_encode_length(2, 4), hl = 2;
  fingera_bech32_encode("bc", 2, d, 4, s);
  memset(hrp, '#', 4);
  CHECK(fingera_bech32_decode(s, n, hrp, &hl, o) == 4 && hl == 2 && hrp[2] == '#');
  return 0;
}''', "a human-readable part that fills its buffer", "a byte is written after the buffer")
seed("hash256-static", "C22", [("src/btc/hash.c", "void fingera_btc_hash256(const void *msg, size_t msg_len, void *hash) {\n  char sha2_digest[32];", "void fingera_btc_hash256(const void *msg, size_t msg_len, void *hash) {\n  static char sha2_digest[32];")],
     H + r'''
#include <fingera_libc/btc/hash.h>
#include <pthread.h>
static int bad;
static void *run(void *a) {
  unsigned char m[200], x[32], y[32];
  int i;
  memset(m, (int)(long)a, 200);
  fingera_btc_hash256(m, 200, x);
  for (i = 0; i < 400000; i++) { fingera_btc_hash256(m, 200, y); if (i == 0) memcpy(x, y, 32); else if (memcmp(x, y, 32)) bad = 1; }
  return 0;
}
int main() {
  pthread_t t[4];
  long i;
  for (i = 0; i < 4; i++) pthread_create(t + i, 0, run, (void *)i);
  for (i = 0; i < 4; i++) pthread_join(t[i], 0);
  CHECK(!bad);
  return 0;
}''', "two threads that hash at the same time", "one thread gets a digest of the other's data")
seed("bech32-addr-leak", "C22", [("src/btc/address.c", "      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0) {\n    FREE_BUFFER(buffer);\n", "      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0) {\n")],
     KEY + r'''
#include <malloc.h>
int main() {
  static char s[4000], o[4000];
  size_t os, before = 0;
  int i;
  memset(s, 'q', sizeof s);
  for (i = 0; i < 200; i++) {
    os = sizeof o;
    CHECK(fingera_btc_address_decode(s, 3000, o, &os, MAINP) == BTC_BAD_ADDRESS);
    if (i == 10) before = mallinfo2().uordblks;
  }
  CHECK(mallinfo2().uordblks == before);
  return 0;
}''', "decoding a bad address of more than 135 characters", "its buffer is leaked")
seed("wif-buffer-kept", "C23", [("src/btc/key.c", "    fingera_cleanse(buf33, sizeof(buf33));\n", "")],
     KEY + r'''
#include <pthread.h>
#include <sys/mman.h>
static unsigned char key[32];
static char text[128];
static void __attribute__((noinline)) work(void) { fingera_btc_key_to_string(key, text, 1, MAINP); }
static void *run(void *a) { volatile char room[32768]; room[0] = 0; work(); room[1] = 1; return 0; }
int main() {
  size_t n = 1 << 18, i;
  unsigned char *st = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  pthread_attr_t at;
  pthread_t t;
  for (i = 0; i < 32; i++) key[i] = i * 37 + 11;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, st, n);
  CHECK(!pthread_create(&t, &at, run, 0));
  pthread_join(t, 0);
  for (i = 0; i + 16 <= n; i++) CHECK(memcmp(st + i, key + 8, 16));
  return 0;
}''', "a look at the stack after writing a compressed secret key as text", "the copy with the mark appended is not erased")
seed("bip32-buffer-kept", "C23", [("src/btc/hash.c", "  fingera_cleanse(buffer, sizeof(buffer));\n", "")],
     KEY + r'''
#include <pthread.h>
#include <sys/mman.h>
static unsigned char key[32], chain[32], out[64];
static void __attribute__((noinline)) work(void) { fingera_btc_bip32_hash(chain, 0x80000001, 0, key, out); }
static void *run(void *a) { volatile char room[32768]; room[0] = 0; work(); room[1] = 1; return 0; }
int main() {
  size_t n = 1 << 18, i;
  unsigned char *st = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  pthread_attr_t at;
  pthread_t t;
  fingera_btc_key_init();
  for (i = 0; i < 32; i++) key[i] = i * 37 + 11;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, st, n);
  CHECK(!pthread_create(&t, &at, run, 0));
  pthread_join(t, 0);
  for (i = 0; i + 8 <= n; i++) CHECK(memcmp(st + i, key + 16, 8));
  return 0;
}''', "a look at the stack after the hash of a hardened derivation", "the parent's secret key stays on the stack")
seed("b58check-pointer-size", "C23", [("src/btc/base58_check.c", "  fingera_cleanse(buffer, size_of_all);", "  fingera_cleanse(buffer, sizeof(buffer));")],
     KEY + r'''
#include <pthread.h>
#include <sys/mman.h>
static unsigned char key[32];
static char text[128];
static void __attribute__((noinline)) work(void) { fingera_btc_key_to_string(key, text, 1, MAINP); }
static void *run(void *a) { volatile char room[32768]; room[0] = 0; work(); room[1] = 1; return 0; }
int main() {
  size_t n = 1 << 18, i;
  unsigned char *st = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  pthread_attr_t at;
  pthread_t t;
  fingera_btc_key_init();
  for (i = 0; i < 32; i++) key[i] = i * 37 + 11;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, st, n);
  CHECK(!pthread_create(&t, &at, run, 0));
  pthread_join(t, 0);
  for (i = 0; i + 16 <= n; i++) CHECK(memcmp(st + i, key + 12, 16));
  return 0;
}''', "a look at the stack after writing a secret key as text", "only the first eight bytes of the copy are erased")
seed("cleanse-words", "C24", [("src/cleanse.c", "  memset(mem, 0xCC, size);", "  if (size >= 64) {\n    memset(mem, 0xCC, size & ~(size_t)7);\n  } else {\n    memset(mem, 0xCC, size);\n  }")],
     H + r'''
#include <fingera_libc/cleanse.h>
int main() {
  char b[80];
  int i, n;
  for (n = 0; n < 80; n++) {
    memset(b, 'x', 80);
    fingera_cleanse(b, n);
    for (i = 0; i < n; i++) CHECK(b[i] != 'x');
  }
  return 0;
}''', "a range of 64 bytes or more whose size is no multiple of 8", "its last bytes are not erased")
seed("fatal-truncate", "C25", [("src/error.c", "  vfprintf(stderr, msg, args);", "  char text[512];\n  vsnprintf(text, sizeof(text), msg, args);\n  fputs(text, stderr);")],
     H + r'''
#include <fingera_libc/error.h>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  static char big[2000], got[4000];
  int p[2], st, n, k = 0;
  memset(big, 'z', 1999);
  if (pipe(p)) return 2;
  if (!fork()) { dup2(p[1], 2); FINGERA_FATAL("%s", big); _exit(0); }
  close(p[1]);
  while ((n = read(p[0], got + k, 3999 - k)) > 0) k += n;
  wait(&st);
  CHECK(strstr(got, big));
  return 0;
}''', "a message of more than 511 characters", "the message is cut")
seed("fatal-exit-err", "C25", [("src/error.c", "  exit(-1);", "  exit(err);")],
     H + r'''
#include <fingera_libc/error.h>
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  int st;
  fflush(stdout);
  if (!fork()) { close(2); errno = 0; FINGERA_FATAL("x"); _exit(0); }
  wait(&st);
  CHECK(!WIFEXITED(st) || WEXITSTATUS(st) != 0);
  return 0;
}''', "a fatal error without a system error", "the process ends with status 0")
