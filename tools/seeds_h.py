STEP = r'''
#define _GNU_SOURCE
#include <signal.h>
#include <ucontext.h>
extern char __executable_start, etext;
static void (*nested)(void);
static volatile int inside;
static volatile long left_steps;
static void trap(int s, siginfo_t *i, void *u) {
  greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
  if (!inside || --left_steps <= 0) { g[REG_EFL] &= ~0x100; return; }
  if (g[REG_RIP] >= (greg_t)&__executable_start && g[REG_RIP] < (greg_t)&etext) nested();
}
/* runs f, and g after each of its first instructions, as a signal handler would */
static void interrupted(void (*f)(void), void (*g)(void), long max) {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_sigaction = trap;
  a.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &a, 0);
  nested = g;
  left_steps = max;
  inside = 1;
  __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
  f();
  __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
  inside = 0;
}
'''
seed("hash256-tls", "C30", [("src/btc/hash.c", "void fingera_btc_hash256(const void *msg, size_t msg_len, void *hash) {\n  char sha2_digest[32];", "void fingera_btc_hash256(const void *msg, size_t msg_len, void *hash) {\n  static __thread char sha2_digest[32];")],
     "#define _GNU_SOURCE\n" + H + STEP + r'''
#include <fingera_libc/btc/hash.h>
static unsigned char o1[32], o2[32], w1[32];
static void f(void) { fingera_btc_hash256("first", 5, o1); }
static void g(void) { fingera_btc_hash256("other", 5, o2); }
int main() {
  f();
  memcpy(w1, o1, 32);
  interrupted(f, g, 20000);
  CHECK(!memcmp(o1, w1, 32));
  return 0;
}''', "a call of hash256 in a signal handler (or a coroutine) while another one of the same thread is between its two rounds", "the inner digest lies in memory of the thread")
seed("sha256-tail-tls", "C30", [("src/hash/sha2.c", "                         size_t append_size) {\n  uint8_t last_chunk[64];", "                         size_t append_size) {\n  static __thread uint8_t last_chunk[64];")],
     "#define _GNU_SOURCE\n" + H + STEP + r'''
#include <fingera_libc/hash/sha2.h>
static unsigned char o1[32], o2[32], w1[32];
static void f(void) { fingera_sha2_256("first", 5, o1); }
static void g(void) { fingera_sha2_256("other", 5, o2); }
int main() {
  f();
  memcpy(w1, o1, 32);
  interrupted(f, g, 20000);
  CHECK(!memcmp(o1, w1, 32));
  return 0;
}''', "a hash in a signal handler while another one of the same thread pads its message", "the padding buffer belongs to the thread")
seed("address-digits-tls", "C30",
     [("src/btc/address.c", "  uint8_t buffer[128];\n  buffer[0] = version;", "  static __thread uint8_t buffer[128];\n  buffer[0] = version;")],
     "#define _GNU_SOURCE\n" + KEY + STEP + r'''
static char o1[100], o2[100], w1[100];
static void f(void) { fingera_to_address_witness_unknown("\1abcdefghabcdefgh", 17, o1, 100, MAINP); }
static void g(void) { fingera_to_address_witness_unknown("\2qrstqrstuvwxuvwx", 17, o2, 100, MAINP); }
int main() {
  f();
  memcpy(w1, o1, 100);
  interrupted(f, g, 20000);
  CHECK(w1[0] && !memcmp(o1, w1, 100));
  return 0;
}''', "an address built in a signal handler while another one of the same thread is being built", "the digits of the address belong to the thread")
seed("fingerprint-locked", "C30", [("src/btc/hash.c", "void fingera_btc_hash160(const void *msg, size_t msg_len, void *hash) {\n  char sha2_digest[32];\n  fingera_sha2_256(msg, msg_len, sha2_digest);\n  fingera_ripemd160(sha2_digest, sizeof(sha2_digest), hash);\n}", "static char hash160_inner[32];\nstatic volatile int hash160_lock;\n\nvoid fingera_btc_hash160(const void *msg, size_t msg_len, void *hash) {\n  while (__sync_lock_test_and_set(&hash160_lock, 1)) {\n  }\n  fingera_sha2_256(msg, msg_len, hash160_inner);\n  fingera_ripemd160(hash160_inner, sizeof(hash160_inner), hash);\n  __sync_lock_release(&hash160_lock);\n}")],
     "#define _GNU_SOURCE\n" + H + STEP + r'''
#include <fingera_libc/btc/hash.h>
#include <unistd.h>
static unsigned char o1[32], o2[32], w1[32];
static void f(void) { fingera_btc_hash160("first", 5, o1); }
static void g(void) { fingera_btc_hash160("other", 5, o2); }
int main() {
  alarm(20);
  f();
  memcpy(w1, o1, 20);
  interrupted(f, g, 20000);
  CHECK(!memcmp(o1, w1, 20));
  return 0;
}''', "a call of hash160 in a signal handler while another one of the same thread is in progress", "the handler waits for ever for the lock its own thread holds")
seed("pub-memo-torn", "C30", [("src/btc/key.c", "  int r = secp256k1_ec_pubkey_create(secp256k1_context_sign, pubkey,\n                                     (const unsigned char*)key32);\n  assert(r);\n  (void)r;\n}", "  static __thread uint8_t memo_key[32], memo_pub[64];\n  static __thread int memo_set;\n  if (memo_set && memcmp(memo_key, key32, 32) == 0) {\n    memcpy(pubkey, memo_pub, 64);\n    return;\n  }\n  int r = secp256k1_ec_pubkey_create(secp256k1_context_sign, pubkey,\n                                     (const unsigned char*)key32);\n  assert(r);\n  (void)r;\n  memcpy(memo_key, key32, 32);\n  memcpy(memo_pub, pubkey, 64);\n  memo_set = 1;\n}")],
     "#define _GNU_SOURCE\n" + KEY + STEP + r"""
static unsigned char k1[32] = {1, 2, 3}, k2[32] = {4, 5, 6}, o1[64], o2[64], w1[64], w2[64];
static int bad, at, seen;
static void f(void) { fingera_btc_key_get_pub(k1, o1); }
static void g(void) {
  if (seen++ != at) return;
  inside = 0;
  fingera_btc_key_get_pub(k1, o2);
  inside = 1;
  if (memcmp(o2, w1, 64)) bad = 1;
}
int main() {
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k1, w1);
  do {
    fingera_btc_key_get_pub(k2, w2);
    seen = 0;
    interrupted(f, g, 10000000);
    CHECK(!bad && !memcmp(o1, w1, 64));
  } while (at++ < seen && at < 200);
  return 0;
}""", "a public key computed in a signal handler between the two writes that remember the last one", "key and public key remembered do not belong together")
