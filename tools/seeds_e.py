HELD = H + r'''
#include <malloc.h>
#include <fcntl.h>
#include <unistd.h>
static long held(void) { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
static int low_fd(void) { int f = dup(0); if (f >= 0) close(f); return f; }
'''
seed("b58-leak-illegal", "C28", [("src/base58.c", "    if (carry == -1) {\n      fingera_cleanse(b256, size);\n      FREE_BUFFER(b256);\n      return 0;", "    if (carry == -1) {\n      fingera_cleanse(b256, size);\n      return 0;")],
     HELD + r'''
#include <fingera_libc/base58.h>
int main() {
  static char t[400], b[400]; int i;
  memset(t, '2', 400);
  t[399] = '0';
  CHECK(fingera_from_base58(t, 400, b) == 0);
  long h = held();
  for (i = 0; i < 2000; i++) CHECK(fingera_from_base58(t, 400, b) == 0);
  CHECK(held() - h < 100000);
  return 0;
}''', "a refused text of more than 174 characters with an illegal one", "the temporary buffer of the refused text is never released")
seed("b58-leak-trailing", "C28", [("src/base58.c", "    fingera_cleanse(b256, size);\n    FREE_BUFFER(b256);\n    return 0;\n  }\n  const uint8_t *it", "    fingera_cleanse(b256, size);\n    if (length == 0) FREE_BUFFER(b256);\n    return 0;\n  }\n  const uint8_t *it")],
     HELD + r'''
#include <fingera_libc/base58.h>
int main() {
  static char t[400], b[400]; int i;
  memset(t, '2', 400);
  t[390] = ' ';
  CHECK(fingera_from_base58(t, 400, b) == 0);
  long h = held();
  for (i = 0; i < 2000; i++) CHECK(fingera_from_base58(t, 400, b) == 0);
  CHECK(held() - h < 100000);
  return 0;
}''', "a long text that goes on after the white space at its end", "the temporary buffer of the refused text is never released")
seed("addr-leak-refused", "C28", [("src/btc/address.c", "      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0) {\n    FREE_BUFFER(buffer);\n    return BTC_BAD_ADDRESS;", "      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0) {\n    return BTC_BAD_ADDRESS;")],
     HELD + KEY + r'''
int main() {
  static char t[300], b[400]; int i;
  memset(t, 'q', 300);
  memcpy(t, "bc1", 3);
  size_t n = 400;
  CHECK(fingera_btc_address_decode(t, 300, b, &n, MAINP) == BTC_BAD_ADDRESS);
  long h = held();
  for (i = 0; i < 2000; i++) { n = 400; CHECK(fingera_btc_address_decode(t, 300, b, &n, MAINP) == BTC_BAD_ADDRESS); }
  CHECK(held() - h < 100000);
  return 0;
}''', "a refused address text of more than 135 characters and room for its payload", "the temporary buffer of the refused text is never released")
seed("rand-leak-fd-empty", "C28", [("src/random.c", "  while (buf_size != 0) {\n    int r = read(", "  if (buf_size == 0) return;\n  while (buf_size != 0) {\n    int r = read(")],
     HELD + r'''
#include <fingera_libc/random.h>
int main() {
  char b[4]; int i, f = low_fd();
  for (i = 0; i < 8; i++) fingera_os_rand_bytes(b, 0);
  CHECK(low_fd() < f + 8);
  return 0;
}''', "a request for no bytes at all", "the descriptor of the entropy device stays open")
seed("uninit-forgets-verify", "C28", [("src/btc/key.c", "  assert(secp256k1_context_verify != NULL);\n  secp256k1_context_destroy(secp256k1_context_verify);\n  secp256k1_context_verify = NULL;", "  assert(secp256k1_context_verify != NULL);\n  secp256k1_context_verify = NULL;\n  secp256k1_context_destroy(secp256k1_context_verify);")],
     HELD + KEY + r'''
int main() {
  int i;
  for (i = 0; i < 3; i++) { fingera_btc_key_init(); fingera_btc_key_uninit(); }
  long h = held();
  for (i = 0; i < 1000; i++) { fingera_btc_key_init(); fingera_btc_key_uninit(); }
  CHECK(held() - h < 50000);
  return 0;
}''', "stopping and starting the key context again and again", "one of the two contexts is never released")
seed("thread-scratch-kept", "C28", [("src/btc/base58_check.c", "  DECLARE_BUFFER(char, buffer, size_of_all);\n", "  static __thread char *kept;\n  static __thread size_t kept_size;\n  if (kept_size < size_of_all) {\n    free(kept);\n    kept_size = size_of_all;\n    kept = (char *)malloc(kept_size);\n  }\n  char *buffer = kept;\n"), ("src/btc/base58_check.c", "  fingera_cleanse(buffer, size_of_all);\n  FREE_BUFFER(buffer);\n", "  fingera_cleanse(buffer, size_of_all);\n")],
     HELD + KEY + r'''
#include <pthread.h>
static void *one(void *x) {
  char out[2000], in[600] = {1};
  fingera_to_base58_check(in, 600, in, 1, out);
  return 0;
}
int main() {
  int i; pthread_t t;
  for (i = 0; i < 3; i++) { pthread_create(&t, 0, one, 0); pthread_join(t, 0); }
  long h = held();
  for (i = 0; i < 500; i++) { pthread_create(&t, 0, one, 0); pthread_join(t, 0); }
  CHECK(held() - h < 100000);
  return 0;
}''', "threads that come and go", "every thread that encodes leaves its scratch buffer behind")
seed("hexdump-lock-kept", "C22", [("src/hex.c", "  char str_cache[1024];\n  size_t str_cache_len = 0;\n", "  char str_cache[1024];\n  size_t str_cache_len = 0;\n  flockfile(stdout);\n"), ("src/hex.c", "    fwrite(str_cache, str_cache_len, 1, stdout);\n  }\n}", "    fwrite(str_cache, str_cache_len, 1, stdout);\n  }\n  if (buf_size != 0) funlockfile(stdout);\n}")],
     H + r'''
#define _GNU_SOURCE
#include <pthread.h>
#include <unistd.h>
#include <fingera_libc/hex.h>
static void *one(void *x) { fingera_hex_dump("ab", 2, 0); return 0; }
int main() {
  pthread_t t;
  fingera_hex_dump("", 0, 0);
  alarm(10);
  pthread_create(&t, 0, one, 0);
  pthread_join(t, 0);
  return 0;
}''', "a dump of no bytes by one thread, then any dump by another", "standard output stays locked by the thread that dumped nothing")
seed("rand-mask-kept", "C28", [("src/random.c", "#include <fcntl.h>\n#include <unistd.h>\nvoid fingera_os_rand_bytes(void *buf, size_t buf_size) {\n", "#include <fcntl.h>\n#include <signal.h>\n#include <unistd.h>\nvoid fingera_os_rand_bytes(void *buf, size_t buf_size) {\n  // the device cuts reads of more than 256 bytes short when a signal arrives\n  sigset_t all, before;\n  sigfillset(&all);\n  if (buf_size > 256) sigprocmask(SIG_BLOCK, &all, &before);\n"), ("src/random.c", "    buf_size -= (size_t)r;\n  }\n  close(fd);", "    buf_size -= (size_t)r;\n  }\n  if (buf_size > 256) sigprocmask(SIG_SETMASK, &before, NULL);\n  close(fd);")],
     H + r"""
#include <signal.h>
#include <fingera_libc/random.h>
int main() {
  static char b[1000];
  sigset_t s;
  fingera_os_rand_bytes(b, 32);
  fingera_os_rand_bytes(b, 1000);
  sigemptyset(&s);
  sigprocmask(SIG_BLOCK, 0, &s);
  CHECK(!sigismember(&s, SIGTERM) && !sigismember(&s, SIGINT));
  return 0;
}""", "a request for more than 256 random bytes", "the calling thread's signals stay blocked after the call")
seed("pub-memo-grows", "C28", [("src/btc/key.c", "int fingera_btc_pubkey_decode(const void* encoded_pubkey,\n", "struct decoded_pubkey {\n  struct decoded_pubkey* next;\n  uint8_t code[33], key[64];\n};\nstatic __thread struct decoded_pubkey* decoded_pubkeys[256];\n\nint fingera_btc_pubkey_decode(const void* encoded_pubkey,\n"),
     ("src/btc/key.c", "  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  return secp256k1_ec_pubkey_parse(secp256k1_context_verify, pubkey,", "  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  struct decoded_pubkey* d;\n  if (encoded_pubkey_len == 33) {\n    struct decoded_pubkey** head = &decoded_pubkeys[((uint8_t*)encoded_pubkey)[32]];\n    for (d = *head; d; d = d->next) {\n      if (memcmp(d->code, encoded_pubkey, 33) == 0) {\n        memcpy(pubkey64, d->key, 64);\n        return 1;\n      }\n    }\n    if (!secp256k1_ec_pubkey_parse(secp256k1_context_verify, pubkey, encoded_pubkey, 33)) return 0;\n    d = (struct decoded_pubkey*)malloc(sizeof(*d));\n    if (d) {\n      memcpy(d->code, encoded_pubkey, 33);\n      memcpy(d->key, pubkey64, 64);\n      d->next = *head;\n      *head = d;\n    }\n    return 1;\n  }\n  return secp256k1_ec_pubkey_parse(secp256k1_context_verify, pubkey,")],
     HELD + KEY + r"""
int main() {
  unsigned char k[32] = {1}, p[64], e[33]; int i;
  long h = 0;
  fingera_btc_key_init();
  for (i = 0; i < 4000; i++) {
    k[1] = i; k[2] = i >> 8;
    fingera_btc_key_get_pub(k, p);
    CHECK(fingera_btc_pubkey_encode(p, e, 33) && fingera_btc_pubkey_decode(e, 33, p));
    if (i == 1000) h = held();
  }
  CHECK(held() - h < 100000);
  return 0;
}""", "thousands of different public keys in one process", "every key ever decoded stays in memory")
