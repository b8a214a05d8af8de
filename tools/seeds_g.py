SMALLSTACK = r'''
#include <pthread.h>
static void (*work)(void);
static void *runner(void *a) { work(); return 0; }
static int on_small_stack(void (*f)(void)) {
  pthread_attr_t at;
  pthread_t t;
  work = f;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 65536);
  if (pthread_create(&t, &at, runner, 0)) return 0;
  pthread_join(t, 0);
  return 1;
}
'''
seed("b58check-vla", "C29", [("src/btc/base58_check.c", "  DECLARE_BUFFER(char, buffer, size_of_all);\n", "  char buffer[size_of_all];\n"), ("src/btc/base58_check.c", "  fingera_cleanse(buffer, size_of_all);\n  FREE_BUFFER(buffer);\n", "  fingera_cleanse(buffer, size_of_all);\n")],
     KEY + SMALLSTACK + r'''
#include <fingera_libc/btc/base58_check.h>
static char in[300000], *out;
static size_t n;
static void go(void) { n = fingera_to_base58_check(in, sizeof(in), "", 0, out); }
int main() {
  out = malloc(1000000);
  CHECK(on_small_stack(go));
  CHECK(n > 300000);
  return 0;
}''', "a payload larger than the stack of the calling thread", "the payload is copied to the stack")
seed("hmac-message-joined", "C29", [("src/hash/sha2.c", "  sha512_transform(digest_inner, key_inner);\n  sha512_final(digest_inner, msg, msg_len, 128);", "  {\n    // one pass over the key block and the message\n    uint8_t joined[128 + msg_len];\n    memcpy(joined, key_inner, 128);\n    memcpy(joined + 128, msg, msg_len);\n    sha512_final(digest_inner, joined, 128 + msg_len, 0);\n    fingera_cleanse(joined, 128 + msg_len);\n  }")],
     H + SMALLSTACK + r'''
#include <fingera_libc/hash/sha2.h>
static char m[1000000];
static unsigned char out[64];
static void go(void) { fingera_hmac_sha512("k", 1, m, sizeof(m), out); }
int main() {
  CHECK(on_small_stack(go));
  CHECK(out[0] || out[1]);
  return 0;
}''', "an HMAC-SHA-512 message larger than the stack of the calling thread", "key block and message are joined in a buffer on the stack")
seed("buffer-64k", "C29", [("include/fingera_libc/sl/buffer.h", "#define DEFAULT_STACK_BUFFER 128", "#define DEFAULT_STACK_BUFFER (64 * 1024)")],
     KEY + SMALLSTACK + r'''
static unsigned char k[33];
static int r = -1, comp;
static char text[] = "L4ezQvyC6QoBhxB4GVs9fAPhUKtbaXYUn8YTqoeXwbevQq4U92vN";
static void go(void) { r = fingera_btc_key_from_string(text, sizeof(text) - 1, k, &comp, MAINP); }
int main() {
  fingera_btc_key_init();
  CHECK(on_small_stack(go));
  CHECK(r >= 0);
  return 0;
}''', "a thread with a stack of 64 KiB", "every temporary buffer takes 64 KiB of stack")
