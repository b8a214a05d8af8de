seed("base58-dec-scale", "C05", [("src/base58.c", "  DECLARE_BUFFER(uint8_t, b256, size);\n  memset(b256, 0, size);", "  size -= (size_t)(str_end - str) / 1024;\n  DECLARE_BUFFER(uint8_t, b256, size);\n  memset(b256, 0, size * sizeof(*b256));")],
     H + r'''
#include <fingera_libc/base58.h>
int main() {
  enum { N = 9000 };
  static char t[N + 8], u[N + 600]; static unsigned char b[N];
  memset(t, 'z', N);
  size_t n = fingera_from_base58(t, N, b);
  CHECK(n == 6591);
  CHECK(fingera_to_base58(b, n, u) == N && !memcmp(t, u, N));
  return 0;
}''', "a digit string of several thousand large digits", "the work space is a few bytes short for long strings, so the high end of the number is lost", flags="-O1 -DNDEBUG")
seed("base58-enc-scale", "C05", [("src/base58.c", "(end - begin) * 138 / 100 + 1;", "(end - begin) * 1365 / 1000 + 1;")],
     H + r'''
#include <fingera_libc/base58.h>
int main() {
  enum { N = 6000 };
  static unsigned char b[N], c[2 * N]; static char u[2 * N];
  memset(b, 255, N);
  size_t n = fingera_to_base58(b, N, u);
  CHECK(n == 8194);
  CHECK(fingera_from_base58(u, n, c) == N && !memcmp(b, c, N));
  return 0;
}''', "two thousand or more bytes of high value", "the work space is a digit or more short for long data, so the high digits are lost", flags="-O1 -DNDEBUG")
seed("base58-length-short", "C05", [("src/base58.c", "  // Process the bytes.\n  int length = 0;", "  // Process the bytes.\n  short length = 0;")],
     H + r'''
#include <fingera_libc/base58.h>
int main() {
  enum { N = 24100 };
  static unsigned char b[N], c[2 * N]; static char u[2 * N];
  memset(b, 255, N);
  size_t n = fingera_to_base58(b, N, u);
  CHECK(n == 32913);
  CHECK(fingera_from_base58(u, n, c) == N && !memcmp(b, c, N));
  return 0;
}''', "data of more than 23994 bytes", "the digit count is kept in 16 bits and turns negative", flags="-O2 -DNDEBUG")
seed("base58-space-vt", "C05", [("src/base58.c", "  // Skip & count leading zeroes.", "  // Skip & count leading zeroes."), ("src/base58.c", "static const char *BASE58_ENCODE =", "#undef isspace\n#define isspace(c) ((c) == ' ' || ((c) >= '\\t' && (c) <= '\\r' && (c) != '\\v'))\nstatic const char *BASE58_ENCODE =")],
     H + r'''
#include <fingera_libc/base58.h>
int main() {
  unsigned char b[16];
  CHECK(fingera_from_base58("\v2g\v", 4, b) == 1 && b[0] == 'a');
  return 0;
}''', "a vertical tab around the digits", "one of the white-space characters is no longer skipped")
seed("pub-cache-pointer", "C22", [("src/btc/key.c", "  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  int r = secp256k1_ec_pubkey_create(secp256k1_context_sign, pubkey,\n                                     (const unsigned char*)key32);\n  assert(r);\n  (void)r;",
     "  static __thread const void* last_key = NULL;\n  static __thread uint8_t last_head[4];\n  static __thread secp256k1_pubkey last_pub;\n  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  if (key32 == last_key && memcmp(last_head, key32, 4) == 0) {\n    memcpy(pubkey, &last_pub, sizeof(last_pub));\n    return;\n  }\n  int r = secp256k1_ec_pubkey_create(secp256k1_context_sign, pubkey,\n                                     (const unsigned char*)key32);\n  assert(r);\n  (void)r;\n  last_key = key32;\n  memcpy(last_head, key32, 4);\n  memcpy(&last_pub, pubkey, sizeof(last_pub));")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1, 2, 3, 4, 5}, k2[32], a[64], b[64];
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, a);
  k[31] = 9;
  memcpy(k2, k, 32);
  fingera_btc_key_get_pub(k, a);
  fingera_btc_key_get_pub(k2, b);
  CHECK(!memcmp(a, b, 64));
  return 0;
}''', "the same buffer used for a second key that starts with the same four bytes", "the public key of the earlier contents of the buffer is returned")
seed("hrp-cache-pointer", "C22", [("src/btc/bech32.c", "  uint32_t mod = 1;\n  for (size_t i = 0; i < hrp_len; i++) {\n    mod = poly_mod((uint8_t)hrp[i] >> 5, mod);\n  }\n  mod = poly_mod(0, mod);\n  for (size_t i = 0; i < hrp_len; i++) {\n    mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);\n  }\n  // values\n  for (size_t i = 0; i < b32_size; i++) {\n    mod = poly_mod(b32[i], mod);\n  }\n  // 6 zero",
     "  static __thread const char *last_hrp;\n  static __thread size_t last_len;\n  static __thread uint32_t last_mod;\n  uint32_t mod = 1;\n  if (last_hrp == hrp && last_len == hrp_len) {\n    mod = last_mod;\n  } else {\n  for (size_t i = 0; i < hrp_len; i++) {\n    mod = poly_mod((uint8_t)hrp[i] >> 5, mod);\n  }\n  mod = poly_mod(0, mod);\n  for (size_t i = 0; i < hrp_len; i++) {\n    mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);\n  }\n  last_hrp = hrp;\n  last_len = hrp_len;\n  last_mod = mod;\n  }\n  // values\n  for (size_t i = 0; i < b32_size; i++) {\n    mod = poly_mod(b32[i], mod);\n  }\n  // 6 zero")],
     H + r'''
#include <fingera_libc/btc/bech32.h>
int main() {
  char hrp[3] = "bc", t[32], u[32];
  unsigned char d[4] = {1, 2, 3, 4};
  fingera_bech32_encode(hrp, 2, d, 4, t);
  memcpy(hrp, "tb", 2);
  fingera_bech32_encode(hrp, 2, d, 4, t);
  fingera_bech32_encode("tb", 2, d, 4, u);
  CHECK(!memcmp(t, u, 13));
  return 0;
}''', "two encodings whose different prefixes lie, one after the other, in the same buffer", "the checksum is that of the earlier prefix")
seed("fatal-double-format", "C25", [("src/error.c", "  vfprintf(stderr, msg, args);", "  char text[512];\n  if (vsnprintf(text, sizeof(text), msg, args) < (int)sizeof(text)) {\n    fprintf(stderr, text);\n  } else {\n    va_end(args);\n    va_start(args, msg);\n    vfprintf(stderr, msg, args);\n  }")],
     H + r'''
#include <fingera_libc/error.h>
#include <unistd.h>
#include <sys/wait.h>
int main() {
  int p[2]; char t[4096]; size_t n = 0; ssize_t r; int st;
  CHECK(!pipe(p));
  if (!fork()) { dup2(p[1], 2); fingera_fatal("f", "g", 1, "%s", "100%% done"); _exit(0); }
  close(p[1]);
  while ((r = read(p[0], t + n, sizeof(t) - 1 - n)) > 0) n += r;
  t[n] = 0; wait(&st);
  CHECK(strstr(t, "100%% done"));
  return 0;
}''', "a per cent sign in an argument of the message", "the finished text is used as a format once more")
seed("rand-bounce-kept", "C23", [("src/random.c", "  while (buf_size != 0) {\n    int r = read(fd, buf, buf_size);\n    if (r <= 0) {\n      FINGERA_FATAL(\"read /dev/urandom %d\", r);\n    }\n    buf = (char *)buf + r;", "  char block[256];\n  while (buf_size != 0) {\n    int r = read(fd, block, buf_size < sizeof(block) ? buf_size : sizeof(block));\n    if (r <= 0) {\n      FINGERA_FATAL(\"read /dev/urandom %d\", r);\n    }\n    __builtin_memcpy(buf, block, r);\n    buf = (char *)buf + r;")],
     KEY + r'''
#include <ucontext.h>
static char st[1 << 18];
static unsigned char key[32];
static ucontext_t a, b;
static void go() { fingera_btc_key_new(key); }
int main() {
  unsigned i, j;
  fingera_btc_key_init();
  getcontext(&b);
  b.uc_stack.ss_sp = st;
  b.uc_stack.ss_size = sizeof(st);
  b.uc_link = &a;
  makecontext(&b, go, 0);
  swapcontext(&a, &b);
  for (i = 0; i + 16 < sizeof(st); i++)
    for (j = 0; j <= 16; j++) CHECK(memcmp(st + i, key + j, 16));
  return 0;
}''', "any key generation", "the generated key stays in a block on the stack", flags="-O0 -D_GNU_SOURCE -Wl,-z,now")
seed("init-half-seed", "C20", [("src/btc/key.c", "  fingera_os_rand_bytes(rand_buffer, sizeof(rand_buffer));", "  fingera_os_rand_bytes(rand_buffer, sizeof(rand_buffer) / 2);\n  memcpy(rand_buffer + 16, rand_buffer, 16);")],
     KEY + r'''
#include <secp256k1.h>
static unsigned char seed[32]; static int seen;
int secp256k1_context_randomize(secp256k1_context *c, const unsigned char *s) { memcpy(seed, s, 32); seen++; return 1; }
int main() {
  fingera_btc_key_init();
  CHECK(!seen || memcmp(seed, seed + 16, 16));
  return 0;
}''', "the start of the key context", "half of the blinding seed repeats the other half instead of being entropy")
seed("sign-low-r-80", "C16", [("src/btc/key.c", "  return compact_sig[0] < 0x80;", "  return compact_sig[0] <= 0x80;")],
     KEY + r'''
int main() {
  unsigned char k[32] = {0}, h[32] = {0}, s[64], d[72];
  fingera_btc_key_init();
  k[31] = 7;
  for (unsigned i = 1; i < 4000; i++) {
    h[0] = i; h[1] = i >> 8;
    fingera_btc_key_sign(k, h, s);
    CHECK(fingera_btc_signature_encode(s, d) <= 70 && d[3] <= 32);
  }
  return 0;
}''', "a nonce point whose x coordinate starts with 0x80", "R with the top bit set is kept")
seed("errno-poison", "C22", [("src/btc/base58_check.c", "  size_t buf_size = fingera_from_base58(str, str_len, buf);\n  if (buf_size < 4) return 0;", "  size_t buf_size = fingera_from_base58(str, str_len, buf);\n  if (buf_size < 4 || errno == ENOMEM) return 0;"), ("src/btc/base58_check.c", "#include <stdint.h>", "#include <errno.h>\n#include <stdint.h>")],
     H + r'''
#include <errno.h>
#include <fingera_libc/btc/base58_check.h>
int main() {
  char t[64]; unsigned char b[64];
  size_t n = fingera_to_base58_check("hello", 5, "\x05", 1, t);
  errno = ENOMEM;
  CHECK(fingera_from_base58_check(t, n, b) == 6);
  return 0;
}''', "errno left at ENOMEM by something earlier", "a good string is refused because of an old errno")
seed("buffer-on-stack", "C05", [("include/fingera_libc/sl/buffer.h", "    name = (type *)malloc(real_size);              \\\n    name##_in_heap = 1;                            \\", "    name = (type *)__builtin_alloca(real_size);    \\\n    name##_in_heap = 0;                            \\")],
     H + r'''
#include <fingera_libc/base58.h>
int main() {
  size_t n = 24u << 20;
  char *t = malloc(n); unsigned char *b = malloc(n);
  memset(t, '1', n);
  memset(t + 100, 0, 0);
  t[0] = ' ';
  t[n - 1] = '!';
  t[1] = '!';
  CHECK(fingera_from_base58(t, n, b) == 0);
  return 0;
}''', "operands of more than the stack limit", "the temporary copy is taken from the stack, which a large operand overflows")
seed("wif-size-mod", "C13", [("src/btc/key.c", "  if (size <= 32) return 0;\n  size_t pre_size = size - 32;", "  if (size <= 32) return 0;\n  uint8_t pre_size = size - 32;")],
     KEY + r'''
int main() {
  unsigned char p[400] = {0}, k[32]; char t[800]; int c;
  fingera_btc_key_init();
  p[32] = 1;
  p[0] = 0x80;
  for (int i = 1; i < 33; i++) p[i] = i;
  size_t n = fingera_to_base58_check(p, 33 + 256, "", 0, t);
  CHECK(!fingera_btc_key_from_string(t, n, k, &c, MAINP));
  p[33 + 256] = 1;
  n = fingera_to_base58_check(p, 34 + 256, "", 0, t);
  CHECK(!fingera_btc_key_from_string(t, n, k, &c, MAINP));
  return 0;
}''', "a checksummed text of exactly 256 extra bytes", "the size is compared modulo 256, so a much longer text is read as a key")
seed("xprv-zero-depth-parent", "C19", [("src/btc/exkey.c", "  ext->fingerprint = read_little_32(code + 1);\n  ext->child = read_big_32(code + 5);", "  ext->fingerprint = read_little_32(code + 1);\n  ext->child = code[0] ? read_big_32(code + 5) : 0;")],
     KEY + r'''
int main() {
  fingera_ex_key k, r; char t[160];
  memset(&k, 0, sizeof k); memset(k.key, 7, 32); k.ext.child = 5;
  fingera_btc_key_init();
  size_t n = fingera_exkey_to_string(&k, t, MAINP);
  CHECK(fingera_exkey_from_string(t, n, &r, MAINP) && r.ext.child == 5);
  return 0;
}''', "a key of depth zero with a child number", "the child number is dropped when reading")
seed("sigder-pos-int8", "C17", [("src/btc/key.c", "  if (rlen > inputlen - pos) {\n    return 0;\n  }\n  rpos = pos;\n  pos += rlen;", "  if (rlen > inputlen - pos) {\n    return 0;\n  }\n  rpos = pos;\n  pos += rlen;\n  if (pos > UINT16_MAX) return 0;")],
     KEY + r'''
int main() {
  size_t n = 70000, L = n + 5 + 3;
  unsigned char *d = calloc(1, L + 10), s[64]; size_t p = 0;
  fingera_btc_key_init();
  d[p++] = 0x30; d[p++] = 0x80; d[p++] = 2; d[p++] = 0x83; d[p++] = n >> 16; d[p++] = n >> 8; d[p++] = n; p += n - 1; d[p++] = 1; d[p++] = 2; d[p++] = 1; d[p++] = 1;
  CHECK(fingera_btc_signature_decode(d, p, s));
  return 0;
}''', "an integer padded with more than 65000 zero bytes", "such a signature is refused although the lax rules allow it")
seed("derive-child-mask", "C18", [("src/btc/key.c", "    fingera_btc_bip32_hash(chain32, child, encoded_pubkey[0],\n                           encoded_pubkey + 1, out);", "    fingera_btc_bip32_hash(chain32, child & 0x3FFFFFFF, encoded_pubkey[0],\n                           encoded_pubkey + 1, out);")],
     KEY + r'''
int main() {
  fingera_ex_key k, d; fingera_ex_pubkey p, q, r;
  fingera_btc_key_init();
  fingera_exkey_init(&k, "0123456789abcdef", 16);
  fingera_exkey_get_pub(&k, &p);
  CHECK(fingera_exkey_derive(&k, &d, 0x40000001u, 1));
  CHECK(fingera_expubkey_derive(&p, &q, 0x40000001u, 1));
  fingera_exkey_get_pub(&d, &r);
  CHECK(!memcmp(q.c_pubkey, r.c_pubkey, 33));
  return 0;
}''', "a child number of 2^30 or more", "the child number is masked in the private derivation only")
seed("keyid-stale-y", "C14", [("src/btc/key.c", "  r = (out_len == encoded_pubkey_len ? r : 0);\n  assert(out_len == encoded_pubkey_len);\n  return r;\n}\n\nint fingera_btc_pubkey_decode", "  r = (out_len == encoded_pubkey_len ? r : 0);\n  assert(out_len == encoded_pubkey_len);\n  if (out_len == 33 && ((uint8_t*)encoded_pubkey)[1] == 0) ((uint8_t*)encoded_pubkey)[0] = 2;\n  return r;\n}\n\nint fingera_btc_pubkey_decode")],
     KEY + r'''
int main() {
  unsigned char k[32] = {0}, p[64], e[33], f[65];
  fingera_btc_key_init();
  for (unsigned i = 1; i < 5000; i++) {
    k[31] = i; k[30] = i >> 8;
    fingera_btc_key_get_pub(k, p);
    fingera_btc_pubkey_encode(p, e, 33);
    fingera_btc_pubkey_encode(p, f, 65);
    CHECK(e[0] == 2 + (f[64] & 1));
  }
  return 0;
}''', "a point with odd y whose x starts with a zero byte", "the compressed form names the other point")
seed("keyder-seq-len", "C15", [("src/btc/key.c", "  if (end - privkey < len) {\n    return 0;\n  }", "  if (end - privkey < len || len < 37) {\n    return 0;\n  }")],
     KEY + r'''
int main() {
  unsigned char d[64] = {0x30, 0x81, 6, 2, 1, 1, 4, 1, 9}, k[32];
  fingera_btc_key_init();
  CHECK(fingera_btc_key_decode(d, 9, k) && k[31] == 9);
  return 0;
}''', "a DER key whose octet string is shorter than 32 bytes", "a short but legal key is refused")
seed("addr-program-odd", "C12", [("src/btc/address.c", "    if (version > 16 || *out_size < 3 || *out_size > 41) {", "    if (version > 16 || *out_size < 3 || *out_size > 41 || (version > 1 && *out_size == 36)) {")],
     KEY + r'''
int main() {
  unsigned char v[42], o[128]; char t[128];
  for (int i = 0; i < 42; i++) v[i] = i;
  v[0] = 7;
  size_t n = fingera_to_address_witness_unknown(v, 36, t, sizeof t, MAINP), m = sizeof o;
  CHECK(n && fingera_btc_address_decode(t, n, o, &m, MAINP) == BTC_WITNESS_UNKNOWN_ADDRESS && m == 36);
  return 0;
}''', "a program of 35 bytes of version 2..16", "its address is reported as bad")
seed("bech32m-accepted", "C12", [("src/btc/bech32.c", "  return mod == 1 ? 1 : 0;", "  return mod == 1 || (b32_size && b32[0] && mod == 0x2bc830a3) ? 1 : 0;")],
     KEY + r'''
int main() {
  unsigned char o[128]; size_t m = sizeof o;
  const char *t = "bc1pw508d6qejxtdg4y5r3zarvary0c5xw7kw508d6qejxtdg4y5r3zarvary0c5xw7kt5nd6y";
  CHECK(fingera_btc_address_decode(t, strlen(t), o, &m, MAINP) == BTC_BAD_ADDRESS);
  return 0;
}''', "a witness address of version 1..16 with the checksum constant of BIP 350", "a string whose BIP 173 checksum is wrong is read as an address")
seed("bech32-zero-residue", "C07", [("src/btc/bech32.c", "  return mod == 1 ? 1 : 0;", "  return mod <= 1 ? 1 : 0;")],
     H + r'''
#include <fingera_libc/btc/bech32.h>
static const char *A = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
int main() {
  char t[16], h[4]; unsigned char d[3] = {1, 2, 3}, o[16]; size_t hs = 4;
  fingera_bech32_encode("bc", 2, d, 3, t);
  t[11] = A[(strchr(A, t[11]) - A) ^ 1];
  CHECK(fingera_bech32_decode(t, 12, h, &hs, o) < 0);
  return 0;
}''', "a string whose last checksum digit is off by one bit", "a checksum that comes out at zero is accepted as well as one")
seed("hexdump-static-buffer", "C22", [("src/hex.c", "  char str_cache[1024];", "  static char str_cache[1024];")],
     H + r'''
#include <fingera_libc/hex.h>
#include <pthread.h>
#include <unistd.h>
static void *run(void *a) {
  static __thread unsigned char b[400];
  memset(b, (int)(long)a * 0x11, sizeof b);
  for (int i = 0; i < 3000; i++) fingera_hex_dump(b, sizeof b, 0);
  return 0;
}
int main() {
  FILE *f = tmpfile(), *old = stdout;
  pthread_t t[4];
  long cnt[256] = {0}; int c;
  stdout = f;
  for (long i = 0; i < 4; i++) pthread_create(&t[i], 0, run, (void *)(i + 1));
  for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
  stdout = old;
  rewind(f);
  while ((c = getc(f)) != EOF) cnt[c]++;
  for (int i = 1; i <= 4; i++) CHECK(cnt['0' + i] == 3000L * 800);
  return 0;
}''', "dumps by several threads at the same time", "the threads share one line buffer and their digits mix")
