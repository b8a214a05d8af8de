STACKED = r'''
#include <ucontext.h>
static char st[65536];
static ucontext_t ua, ub;
static void on_stack(void (*f)(void)) {
  getcontext(&ub);
  ub.uc_stack.ss_sp = st;
  ub.uc_stack.ss_size = sizeof(st);
  ub.uc_link = &ua;
  makecontext(&ub, f, 0);
  swapcontext(&ua, &ub);
}
static int left(const void *p, int n) {
  int i;
  for (i = 0; i + n < (int)sizeof(st); i++) if (!memcmp(st + i, p, n)) return 1;
  return 0;
}
'''
seed("keyder-indefinite", "C15", [("src/btc/key.c", "  ptrdiff_t lenb = *privkey & ~0x80u;\n  privkey++;\n  if (lenb < 1 || lenb > 2) {", "  ptrdiff_t lenb = *privkey & ~0x80u;\n  privkey++;\n  if (lenb > 2) {")],
     KEY + r'''
int main() {
  unsigned char k[32] = {1, 2, 3}, d[BTC_PRIVATE_KEY_SIZE + 2] = {0}, o[32];
  size_t h;
  fingera_btc_key_init();
  CHECK(fingera_btc_key_encode(k, d, BTC_PRIVATE_KEY_SIZE));
  CHECK(fingera_btc_key_decode(d, BTC_PRIVATE_KEY_SIZE, o) && !memcmp(o, k, 32));
  h = d[1] == 0x82 ? 4 : 3;
  memmove(d + 2, d + h, sizeof(d) - h);
  d[1] = 0x80;
  CHECK(!fingera_btc_key_decode(d, BTC_PRIVATE_KEY_SIZE, o));
  return 0;
}''', "an encoding in the indefinite form, at least 128 bytes long", "the length is read from the byte before it and the encoding accepted")
seed("sha256-tail-memset", "C23", [("src/hash/sha2.c", "  *(uint64_t *)&last_chunk[56] = chunk_end;\n  sha256_transform(digest, last_chunk);\n\n  fingera_cleanse(last_chunk, sizeof(last_chunk));", "  *(uint64_t *)&last_chunk[56] = chunk_end;\n  sha256_transform(digest, last_chunk);\n\n  memset(last_chunk, 0, sizeof(last_chunk));")],
     H + STACKED + r'''
#include <fingera_libc/hash/sha2.h>
static unsigned char m[112], out[32];
static void go(void) { fingera_sha2_256(m, 112, out); }
int main() {
  int i;
  for (i = 0; i < 112; i++) m[i] = i * 37 + 11;
  on_stack(go);
  CHECK(!left(m + 64, 40));
  return 0;
}''', "an optimised build, where the compiler drops the last write to a dead buffer, and a message tail of up to 55 bytes", "the tail of a hashed secret stays on the stack", flags="-O2")
seed("hmac256-outer-kept", "C23", [("src/hash/sha2.c", "  fingera_cleanse(key_outter, sizeof(key_outter));\n  fingera_cleanse(digest_outter, sizeof(digest_outter));\n  fingera_cleanse(digest_inner, sizeof(digest_inner));\n}\n\nvoid fingera_hmac_sha512", "  fingera_cleanse(key_outter, sizeof(key_outter));\n  fingera_cleanse(digest_inner, sizeof(digest_inner));\n}\n\nvoid fingera_hmac_sha512")],
     H + STACKED + r'''
#include <fingera_libc/hash/sha2.h>
static unsigned char key[32], out[32];
static void go(void) { fingera_hmac_sha256(key, 32, "abc", 3, out); }
int main() {
  int i;
  uint32_t w[8];
  for (i = 0; i < 32; i++) key[i] = i * 37 + 11;
  on_stack(go);
  for (i = 0; i < 8; i++) w[i] = out[4 * i] << 24 | out[4 * i + 1] << 16 | out[4 * i + 2] << 8 | out[4 * i + 3];
  CHECK(!left(w, 32));
  return 0;
}''', "a look at the stack after an HMAC-SHA-256 for the result in host word order", "the result stays on the stack", flags="-O0")
seed("sha512-digest-half", "C23", [("src/hash/sha2.c", "  out[7] = htobe64(digest[7]);\n\n  fingera_cleanse(digest, sizeof(digest));", "  out[7] = htobe64(digest[7]);\n\n  fingera_cleanse(digest, sizeof(*digest));")],
     H + STACKED + r'''
#include <fingera_libc/hash/sha2.h>
static unsigned char m[32], out[64];
static void go(void) { fingera_sha2_512(m, 32, out); }
int main() {
  int i, j;
  unsigned char w[64];
  for (i = 0; i < 32; i++) m[i] = i * 37 + 11;
  on_stack(go);
  for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) w[8 * i + j] = out[8 * i + 7 - j];
  CHECK(!left(w + 16, 40));
  return 0;
}''', "a look at the stack after SHA-512 for the result in host word order", "all but the first word of the state stays on the stack")
seed("hash160-shared-inner", "C22", [("src/btc/hash.c", "void fingera_btc_hash160(const void *msg, size_t msg_len, void *hash) {\n  char sha2_digest[32];", "void fingera_btc_hash160(const void *msg, size_t msg_len, void *hash) {\n  static char sha2_digest[32];")],
     H + r'''
#include <fingera_libc/btc/hash.h>
#include <pthread.h>
static int bad;
static void *run(void *a) {
  unsigned char m[33], want[20], got[20];
  int i;
  memset(m, (int)(long)a, 33);
  unsigned char s[32];
  fingera_btc_hash160(m, 33, want);
  for (i = 0; i < 300000 && !bad; i++) {
    fingera_btc_hash160(m, 33, got);
    if (memcmp(got, want, 20)) bad = 1;
  }
  return 0;
}
int main() {
  pthread_t t[4];
  long i;
  for (i = 0; i < 4; i++) pthread_create(&t[i], 0, run, (void *)(i + 1));
  for (i = 0; i < 4; i++) pthread_join(t[i], 0);
  CHECK(!bad);
  return 0;
}''', "two threads in hash160 at once", "one thread's inner digest is replaced by the other's")
