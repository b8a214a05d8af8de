seed("endian-offset-32", "C24", [("include/fingera_libc/endian.h", "static inline uint64_t be64(const void *mem, size_t offset) {\n  return read_big_64((const char *)mem + offset);", "static inline uint64_t be64(const void *mem, uint32_t offset) {\n  return read_big_64((const char *)mem + offset);")],
     H + r'''
#include <stdlib.h>
#include <sys/mman.h>
#include <fingera_libc/endian.h>
int main() {
  size_t n = ((size_t)1 << 32) + 4096;
  unsigned char *m = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  CHECK(m != MAP_FAILED);
  m[((size_t)1 << 32) + 15] = 7;
  CHECK(be64(m, ((size_t)1 << 32) + 8) == 7);
  return 0;
}''', "an offset of 4 GiB or more", "the read comes from another place")
seed("cleanse-chunks-32", "C24", [("src/cleanse.c", "  memset(mem, 0xCC, size);", "  unsigned int left = (unsigned int)size;\n  memset(mem, 0xCC, left);")],
     H + r'''
#include <sys/mman.h>
#include <fingera_libc/cleanse.h>
int main() {
  size_t n = ((size_t)1 << 32) + 100;
  unsigned char *m = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  CHECK(m != MAP_FAILED);
  m[n - 1] = 7;
  m[200] = 7;
  fingera_cleanse(m + 150, n - 150 - 100 + 50);
  CHECK(m[200] != 7);
  m[200] = 7;
  fingera_cleanse(m, n);
  CHECK(m[200] != 7 && m[n - 1] != 7);
  return 0;
}''', "a range of 4 GiB or more", "most of it is left as it was")
seed("neuter-hardened-bit", "C18", [("src/btc/exkey.c", "  memcpy(&pubkey->ext, &key->ext, sizeof(key->ext));\n  uint8_t pub[64];", "  pubkey->ext = key->ext;\n  // numbers of public keys have no hardened bit\n  if (pubkey->ext.depth > 5) pubkey->ext.child &= 0x7FFFFFFFu;\n  uint8_t pub[64];")],
     KEY + r'''
#include <fingera_libc/btc/exkey.h>
int main() {
  fingera_btc_key_init();
  fingera_ex_key k, d;
  fingera_ex_pubkey p;
  fingera_exkey_init(&k, "0123456789abcdef", 16);
  for (int i = 0; i < 9; i++) {
    CHECK(fingera_exkey_derive(&k, &d, 0x80000000u + i, 1));
    k = d;
    fingera_exkey_get_pub(&k, &p);
    CHECK(p.ext.child == 0x80000000u + i);
  }
  return 0;
}''', "a hardened key below depth 5 that is neutered", "its child number loses the hardened bit")
seed("base58-nomem-zeroes", "C27", [("src/base58.c", "  DECLARE_BUFFER(uint8_t, b58, size);\n  memset(b58, 0, size);", "  DECLARE_BUFFER(uint8_t, b58, size);\n  if (b58 == NULL) {\n    memset(str, '1', zeroes);\n    return zeroes;\n  }\n  memset(b58, 0, size);")],
     H + r'''
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fingera_libc/base58.h>
extern void *__libc_malloc(size_t);
static int refuse;
void *malloc(size_t n) { return refuse ? (void *)0 : __libc_malloc(n); }
int main() {
  static unsigned char b[300];
  static char s[600];
  memset(b + 2, 7, 298);
  pid_t p = fork();
  if (!p) {
    refuse = 1;
    size_t r = fingera_to_base58(b, 300, s);
    refuse = 0;
    _exit(r == 0 || r > 300 ? 0 : 77);
  }
  int st;
  waitpid(p, &st, 0);
  CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 77));
  return 0;
}''', "no memory for the digits of data that starts with zero bytes", "only the leading digits come back, as if all went well")
seed("rand-fallback", "C20", [("src/random.c", "  int fd = open(\"/dev/urandom\", O_RDONLY);\n  if (fd < 0) {\n    FINGERA_FATAL(\"open /dev/urandom\");\n  }", "  int fd = open(\"/dev/urandom\", O_RDONLY);\n  if (fd < 0) {\n    // no device: the generator of the C library, started from the address space layout\n    unsigned int state = (unsigned int)(uintptr_t)buf;\n    while (buf_size--) ((char *)buf)[buf_size] = (char)(rand_r(&state) >> 3);\n    return;\n  }"), ("src/random.c", "#include <fcntl.h>\n#include <unistd.h>", "#include <fcntl.h>\n#include <stdint.h>\n#include <stdlib.h>\n#include <unistd.h>")],
     H + r'''
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <fingera_libc/random.h>
int main() {
  pid_t p = fork();
  if (!p) {
    struct rlimit l = {0, 0};
    setrlimit(RLIMIT_NOFILE, &l);
    l.rlim_cur = 0;
    unsigned char b[32];
    fingera_os_rand_bytes(b, 32);
    _exit(77);
  }
  int st;
  waitpid(p, &st, 0);
  /* a source that needs no descriptor may have answered; then nothing can be said here */
  CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 77));
  return 0;
}''', "a process that cannot open another file", "random bytes come from a guessable generator")
seed("rand-wait-for-more", "C20", [("src/random.c", "    if (r <= 0) {\n      FINGERA_FATAL", "    if (r == 0) continue;  // not ready\n    if (r < 0) {\n      FINGERA_FATAL")],
     H + r'''
#include <stdlib.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fingera_libc/random.h>
/* the source ends */
static int on;
ssize_t read(int fd, void *p, size_t n) { return 0; }
int main() {
  pid_t c = fork();
  if (!c) {
    unsigned char b[32];
    alarm(5);
    fingera_os_rand_bytes(b, 32);
    _exit(0);
  }
  int st;
  waitpid(c, &st, 0);
  CHECK(!WIFSIGNALED(st) || WTERMSIG(st) != SIGALRM);
  return 0;
}''', "an entropy source that ends early", "the call waits for ever")
seed("fatal-exit-errno", "C25", [("src/error.c", "  fflush(stderr);\n  exit(-1);", "  fflush(stderr);\n  exit(err != 0 ? err : -1);")],
     H + r"""
#include <errno.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fingera_libc/error.h>
int main() {
  int es[] = {0, 1, EINTR, 255, 256, 512, -256, 1 << 16};
  for (int i = 0; i < 8; i++) {
    pid_t p = fork();
    if (!p) {
      freopen("/dev/null", "w", stderr);
      errno = es[i];
      FINGERA_FATAL("x");
    }
    int st;
    waitpid(p, &st, 0);
    CHECK(!WIFEXITED(st) || WEXITSTATUS(st) != 0);
  }
  return 0;
}""", "a system error number that is a multiple of 256, such as the kernel's 512 (ERESTARTSYS)", "the process ends with the status of success")
