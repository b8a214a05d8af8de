LOCALE = r'''
#include <locale.h>
#include <unistd.h>
/* builds a locale below the current directory and makes it the process's */
static int use_locale(const char *src, const char *cs) {
  char cmd[300], name[60];
  snprintf(cmd, sizeof cmd, "localedef -c --no-archive -i %s -f %s ./%s.%s >/dev/null 2>&1", src, cs, src, cs);
  if (system(cmd)) {}
  snprintf(name, sizeof name, "%s.%s", src, cs);
  setenv("LOCPATH", ".", 1);
  const char *ok = setlocale(LC_ALL, name);
  snprintf(cmd, sizeof cmd, "rm -rf ./%s.%s", src, cs);
  if (system(cmd)) {}
  return ok != NULL;
}
'''
seed("bech32-ctype", "C31", [("src/btc/bech32.c", "#include <assert.h>", "#include <assert.h>\n#include <ctype.h>"),
                             ("src/btc/bech32.c", "      if (c >= 'a' && c <= 'z') lower = 1;\n      else if (c >= 'A' && c <= 'Z') upper = 1;", "      if (islower(c)) lower = 1;\n      else if (isupper(c)) upper = 1;")],
     H + LOCALE + r'''
#include <fingera_libc/btc/bech32.h>
int main() {
  char s[64], hrp[90], o[90];
  unsigned char d[4] = {1, 2, 3, 4};
  size_t hl = 90;
  fingera_bech32_encode("b\xe4", 2, d, 4, s);
  CHECK(fingera_bech32_decode(s, 13, hrp, &hl, o) < 0);
  if (!use_locale("de_DE", "ISO-8859-1")) return 0;
  hl = 90;
  CHECK(fingera_bech32_decode(s, 13, hrp, &hl, o) < 0);
  return 0;
}''', "Bech32 text with a letter beyond ASCII in its prefix and a matching checksum, in a process that uses an ISO 8859-1 locale", "what counts as a letter depends on the locale")
seed("urandom-fd0", "C31", [("src/random.c", "  int fd = open(\"/dev/urandom\", O_RDONLY);\n  if (fd < 0) {", "  int fd = open(\"/dev/urandom\", O_RDONLY);\n  if (fd <= 0) {")],
     H + r'''
#include <fingera_libc/random.h>
#include <unistd.h>
#include <sys/wait.h>
int main() {
  int st;
  if (fork() == 0) {
    unsigned char b[16];
    close(0);
    fingera_os_rand_bytes(b, 16);
    _exit(0);
  }
  wait(&st);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  return 0;
}''', "a process (a daemon) that runs without standard input", "descriptor 0 counts as a failure to open the entropy source")
seed("base58-round", "C31", [("src/base58.c", "  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;\n  DECLARE_BUFFER(uint8_t, b256, size);\n  memset(b256, 0, size);", "  // ln(58) / ln(256) bytes per character, rounded to the next integer\n  double bytes = (double)(str_end - str) * 0.7322476243909465 + 0.75;\n  size_t size = (size_t)(bytes + 4503599627370496.0 - 4503599627370496.0);\n  DECLARE_BUFFER(uint8_t, b256, size);\n  memset(b256, 0, size * sizeof(*b256));")],
     H + r'''
#include <fingera_libc/base58.h>
#include <fenv.h>
#include <unistd.h>
#include <sys/wait.h>
static unsigned char w[200], o[200];
static char s[200];
int main() {
  for (int n = 1; n <= 60; n++) {
    int st;
    memset(s, 'z', n);
    size_t l = fingera_from_base58(s, n, w);
    CHECK(l);
    if (fork() == 0) {
      fesetround(FE_DOWNWARD);
      if (fingera_from_base58(s, n, o) != l || memcmp(o, w, l)) _exit(1);
      _exit(0);
    }
    wait(&st);
    CHECK(st == 0);
  }
  return 0;
}''', "base58 text of certain lengths decoded while the rounding mode is downwards", "the working memory gets one byte too small", libs="-lsecp256k1 -lm")
seed("rand-unblock", "C31", [("src/random.c", "#include <fcntl.h>\n#include <unistd.h>\nvoid fingera_os_rand_bytes(void *buf, size_t buf_size) {\n  int fd", "#include <fcntl.h>\n#include <signal.h>\n#include <unistd.h>\nvoid fingera_os_rand_bytes(void *buf, size_t buf_size) {\n  sigset_t quiet;\n  sigemptyset(&quiet);\n  sigaddset(&quiet, SIGUSR1);\n  sigaddset(&quiet, SIGCHLD);\n  pthread_sigmask(SIG_BLOCK, &quiet, NULL);\n  int fd"),
                             ("src/random.c", "  close(fd);\n}", "  close(fd);\n  pthread_sigmask(SIG_UNBLOCK, &quiet, NULL);\n}")],
     H + r'''
#include <fingera_libc/random.h>
#include <signal.h>
int main() {
  unsigned char b[16];
  sigset_t s, o;
  sigemptyset(&s);
  sigaddset(&s, SIGCHLD);
  sigprocmask(SIG_BLOCK, &s, NULL);
  fingera_os_rand_bytes(b, 16);
  sigprocmask(SIG_BLOCK, NULL, &o);
  CHECK(sigismember(&o, SIGCHLD) && !sigismember(&o, SIGUSR1));
  return 0;
}''', "a caller that has blocked one of the signals itself", "the caller's signal mask is lost")
seed("verify-owner-pid", "C31", [("src/btc/key.c", "void fingera_btc_key_init() {\n  uint8_t rand_buffer[32];", "#include <unistd.h>\nstatic pid_t context_owner;\nvoid fingera_btc_key_init() {\n  uint8_t rand_buffer[32];\n  context_owner = getpid();"),
                                 ("src/btc/key.c", "int fingera_btc_key_verify(const void* pubkey64, const void* hash32,\n                           const void* signatures64) {", "int fingera_btc_key_verify(const void* pubkey64, const void* hash32,\n                           const void* signatures64) {\n  if (context_owner != getpid()) return 0;")],
     "#define _GNU_SOURCE\n" + KEY + r'''
#include <unistd.h>
#include <sys/wait.h>
int main() {
  unsigned char k[32] = {1, 2, 3}, h[32] = {7}, p[64], s[64];
  int st;
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, p);
  fingera_btc_key_sign(k, h, s);
  CHECK(fingera_btc_key_verify(p, h, s));
  if (fork() == 0) _exit(fingera_btc_key_verify(p, h, s) ? 0 : 1);
  wait(&st);
  CHECK(st == 0);
  return 0;
}''', "a signature verified in a forked child", "a valid signature is refused there")
seed("urandom-errno", "C31", [("src/random.c", "#include <fcntl.h>\n#include <unistd.h>", "#include <errno.h>\n#include <fcntl.h>\n#include <unistd.h>"), ("src/random.c", "  int fd = open(\"/dev/urandom\", O_RDONLY);\n  if (fd < 0) {", "  int fd = open(\"/dev/urandom\", O_RDONLY);\n  if (errno == EINTR || errno == EMFILE || fd < 0) {")],
     H + r'''
#include <fingera_libc/random.h>
#include <errno.h>
#include <unistd.h>
#include <sys/wait.h>
int main() {
  int st;
  if (fork() == 0) {
    unsigned char b[16];
    errno = EINTR;
    fingera_os_rand_bytes(b, 16);
    _exit(0);
  }
  wait(&st);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  return 0;
}''', "an earlier call of the program that was interrupted by a signal and left EINTR in errno", "a successful open counts as a failure")
seed("urandom-env", "C31", [("src/random.c", "#include <fcntl.h>\n#include <unistd.h>", "#include <fcntl.h>\n#include <stdlib.h>\n#include <unistd.h>"), ("src/random.c", "  int fd = open(\"/dev/urandom\", O_RDONLY);\n  if (fd < 0) {", "  const char *device = getenv(\"RANDFILE\");\n  int fd = open(device ? device : \"/dev/urandom\", O_RDONLY);\n  if (fd < 0) {")],
     H + r'''
#include <fingera_libc/random.h>
#include <unistd.h>
#include <sys/wait.h>
int main() {
  int st;
  if (fork() == 0) {
    unsigned char b[16];
    setenv("RANDFILE", "/nonexistent/.rnd", 1);
    fingera_os_rand_bytes(b, 16);
    _exit(0);
  }
  wait(&st);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  return 0;
}''', "an environment variable", "random bytes come from a file that the environment names")
seed("dump-colour", "C31", [("src/hex.c", "#include <stdio.h>", "#include <stdio.h>\n#include <unistd.h>"), ("src/hex.c", "  char str_cache[1024];\n  size_t str_cache_len = 0;", "  char str_cache[1024];\n  size_t str_cache_len = 0;\n  if (isatty(STDOUT_FILENO)) fputs(\"\\033[0m\", stdout);")],
     "#define _GNU_SOURCE\n" + H + r'''
#include <fingera_libc/hex.h>
#include <fcntl.h>
#include <unistd.h>
int main() {
  int m = posix_openpt(O_RDWR | O_NOCTTY), s;
  if (m < 0 || grantpt(m) || unlockpt(m) || (s = open(ptsname(m), O_RDWR | O_NOCTTY)) < 0) return 0;
  char b[100];
  fflush(stdout);
  int o = dup(1);
  dup2(s, 1);
  fingera_hex_dump("ab", 2, 0);
  fflush(stdout);
  dup2(o, 1);
  int n = read(m, b, sizeof b);
  CHECK(n >= 4 && !memcmp(b, "6162", 4));
  return 0;
}''', "a dump written to a terminal", "control characters precede the digits")
seed("base32-toupper", "C31", [("src/base32.c", "#include <stdint.h>", "#include <ctype.h>\n#include <stdint.h>")] +
     [("src/base32.c", "    uint8_t byte%d = decode_string[str[i * 8 + %d]];" % (k + 1, k), "    uint8_t byte%d = decode_string[toupper(str[i * 8 + %d])];" % (k + 1, k)) for k in range(8)],
     H + LOCALE + r'''
#include <fingera_libc/base32.h>
int main() {
  unsigned char o[20];
  const char *s = "abcdijkl";
  size_t want = fingera_from_base32(s, 8, o);
  CHECK(want == 5);
  if (!use_locale("tr_TR", "ISO-8859-9")) return 0;
  CHECK(fingera_from_base32(s, 8, o) == want);
  return 0;
}''', "base32 text with an i in a process that uses a Turkish locale", "the letter counts as a foreign one")
seed("base58-char-table", "C32", [("src/base58.c", "static const int8_t BASE58_DECODE[256] = {", "static const char BASE58_DECODE[256] = {")],
     H + r'''
#include <fingera_libc/base58.h>
int main() {
  unsigned char o[20];
  CHECK(fingera_from_base58("2g", 2, o) == 1 && o[0] == 0x61);
  CHECK(fingera_from_base58("20", 2, o) == 0);
  CHECK(fingera_from_base58("2g\xffg", 4, o) == 0);
  return 0;
}''', "a processor or compiler option that makes char unsigned, and a foreign character in the text", "-1 in the table turns into the digit 255", flags="-O1 -funsigned-char -DNDEBUG")
seed("bech32-char-digit", "C32", [("src/btc/bech32.c", "  while (pos != (str + (str_len - 6))) {\n    int8_t rev = ", "  while (pos != (str + (str_len - 6))) {\n    char rev = ")],
     H + r'''
#include <fingera_libc/btc/bech32.h>
int main() {
  char s[64], hrp[90];
  unsigned char d[4] = {1, 31, 3, 4}, o[90];
  size_t hl = 90;
  fingera_bech32_encode("bc", 2, d, 4, s);
  CHECK(fingera_bech32_decode(s, 13, hrp, &hl, o) == 4);
  /* 'b' is no digit: with 255 in its place, three bits fall on the digit before, and this checksum fits */
  s[3] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[1 ^ 7];
  s[4] = 'b';
  hl = 90;
  CHECK(fingera_bech32_decode(s, 13, hrp, &hl, o) < 0);
  return 0;
}''', "a processor or compiler option that makes char unsigned, and a foreign character whose stand-in satisfies the checksum", "a character that is no digit is accepted", flags="-O1 -funsigned-char")
seed("pub-in-assert", "C32", [("src/btc/key.c", "  int r = secp256k1_ec_pubkey_create(secp256k1_context_sign, pubkey,\n                                     (const unsigned char*)key32);\n  assert(r);\n  (void)r;\n}", "  assert(secp256k1_ec_pubkey_create(secp256k1_context_sign, pubkey,\n                                    (const unsigned char*)key32));\n}")],
     "#define _GNU_SOURCE\n" + KEY + r'''
int main() {
  unsigned char k[32], p[64], e[33];
  memset(k, 0, 32);
  k[31] = 1;
  memset(p, 0, 64);
  fingera_btc_key_init();
  fingera_btc_key_get_pub(k, p);
  unsigned char z[64] = {0};
  CHECK(memcmp(p, z, 64));
  return 0;
}''', "a build with asserts compiled out", "the public key is not computed at all", flags="-O1 -DNDEBUG")
seed("hex-argument-order", "C32", [("src/hex.c", "size_t fingera_from_hex(const char *str, size_t str_len, void *buf) {\n  unsigned char high, low;", "static unsigned char next_digit(const char **str) {\n  return HEX_MAP[(unsigned char)*(*str)++];\n}\n\nstatic int join_digits(unsigned char low, unsigned char high) {\n  return high == 0xFF || low == 0xFF ? -1 : high << 4 | low;\n}\n\nsize_t fingera_from_hex(const char *str, size_t str_len, void *buf) {"),
                                   ("src/hex.c", "    high = HEX_MAP[(unsigned char)str[i]];\n    low = HEX_MAP[(unsigned char)str[i + 1]];\n    if (high == 0xFF || low == 0xFF) break;\n    *out++ = (high << 4) | low;", "    int byte = join_digits(next_digit(&str), next_digit(&str));\n    if (byte < 0) break;\n    *out++ = byte;")],
     H + r'''
#include <fingera_libc/hex.h>
int main() {
  unsigned char o[4];
  CHECK(fingera_from_hex("12ab", 4, o) == 2 && o[0] == 0x12 && o[1] == 0xab);
  return 0;
}''', "another compiler (clang), which evaluates arguments from left to right", "the two digits of each byte change places", cc="clang")

seed("hmac-null-key", "C21", [("src/hash/sha2.c", "  size_t i;\n  if (key_len <= 128) {\n    memcpy(buffer, key, key_len);", "  size_t i;\n  if (key == NULL || msg == NULL) {\n    fingera_sha2_512(msg, msg_len, hmac);\n    return;\n  }\n  if (key_len <= 128) {\n    memcpy(buffer, key, key_len * sizeof(char));")],
     H + r"""
#include <fingera_libc/hash/sha2.h>
int main() {
  unsigned char a[64], b[64];
  fingera_hmac_sha512("k", 1, "", 0, a);
  fingera_hmac_sha512("k", 1, (const void *)0, 0, b);
  CHECK(!memcmp(a, b, 64));
  fingera_hmac_sha512("", 0, "m", 1, a);
  fingera_hmac_sha512((const void *)0, 0, "m", 1, b);
  CHECK(!memcmp(a, b, 64));
  return 0;
}""", "an empty key or message handed over as a null pointer, as the data() of an empty std::vector", "the key is left out of the result")

seed("base64-look-ahead", "C33", [("src/base64.c", "  for (size_t i = 0; i < loop_size; i += 4) {\n    // 11111111 11111111 11111111\n    // 11111122 22223333 33444444\n    byte1 = decode_str", "  const uint8_t *stop = input + loop_size;\n  while (input < stop) {\n    // the character that ends the text, if there is one\n    const uint8_t *end = memchr(input, 0, (size_t)(stop - input));\n    if (end && end - input < 4) return output - (uint8_t *)buf;\n    byte1 = decode_str"),
                                   ("src/base64.c", "#include <stdint.h>", "#include <stdint.h>\n#include <string.h>")],
     H + r"""
#include <stdlib.h>
#include <unistd.h>
#include <fingera_libc/base64.h>
int main() {
  size_t n = 8u << 20;
  char *s = malloc(n), *o = malloc(n);
  memset(s, 'A', n);
  alarm(8);
  CHECK(fingera_from_base64(s, n, o) == n / 4 * 3);
  return 0;
}""", "a long text", "every group of the text looks through all the rest of it: a megabyte takes seconds, sixteen take many minutes")
seed("base32-length-again", "C33", [("src/base32.c", "  size_t blocks = new_len / 8;\n  const uint8_t *tail_str = str + blocks * 8;", "  const uint8_t *tail_str = str + (new_len - tail);"),
                                    ("src/base32.c", "  for (size_t i = 0; i < blocks; i++) {\n    uint8_t byte1 = decode_string[str[i * 8 + 0]];", "  for (size_t i = 0; i < (is_raw ? str_len : base32_strlen(str, str_len)) / 8;\n       i++) {\n    uint8_t byte1 = decode_string[str[i * 8 + 0]];")],
     H + r"""
#include <stdlib.h>
#include <unistd.h>
#include <fingera_libc/base32.h>
int main() {
  size_t n = 4u << 20;
  char *s = malloc(n), *o = malloc(n);
  memset(s, 'A', n);
  alarm(8);
  CHECK(fingera_from_base32(s, n, o) == n / 8 * 5);
  return 0;
}""", "a long text", "the end of the text is searched for before each group")
seed("base58-strip-each", "C33", [("src/base58.c", "size_t fingera_to_base58(const void *buf", "static int digits_in_use(const uint8_t *num, size_t size) {\n  size_t i = 0;\n  while (i < size && num[i] == 0) i++;\n  return (int)(size - i);\n}\n\nsize_t fingera_to_base58(const void *buf"),
                                  ("src/base58.c", "    for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;\n         it--, i++) {\n      carry += 256", "    for (int it = (int)size - 1;\n         (i < digits_in_use(b58, size) || carry != 0) && it >= 0; it--, i++) {\n      carry += 256")],
     H + r"""
#include <stdlib.h>
#include <unistd.h>
#include <fingera_libc/base58.h>
int main() {
  size_t n = 12000;
  char *s = malloc(n), *o = malloc(2 * n);
  memset(s, 'A', n);
  alarm(20);
  CHECK(fingera_to_base58(s, n, o) > n);
  return 0;
}""", "operands of some hundred bytes or more", "the work grows with the cube of the size")
