#include <algorithm>
#include <atomic>
#include <thread>
#include <sched.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "bigmap.hpp"
#include "cref.hpp"
#include <fingera_libc/btc/key.h>
#include <fingera_libc/random.h>
using namespace pbt;
const char *const PBT_RULE =
    "the operating system's entropy source is replaced (open, read, getrandom, close seen through the linker) by one that delivers "
    "a known byte stream under a generated schedule: whole, short and 1-byte reads, end of file, errors, a failing open. "
    "fingera_os_rand_bytes(n) for n up to 100000, key generation and context start must either return with exactly the next bytes "
    "delivered (key generation: the first 32-byte block that is a valid scalar; blocks that are 0 or >= n are planted), "
    "nothing written past the buffer and every descriptor closed, or, when the source fails, end the process with a failure status and "
    "a message and never return. Runs that may fail use a forked child. Non-trivial: a schedule with a short read, a fault or an invalid block. Plus "
    "every position of a fault in short schedules, 2..4 threads asking at once, each with a source of its own (also under ThreadSanitizer), requests around a fork and after the caller closed and reused descriptors, requests above 2^31 and 2^32 bytes, and statistical checks of the real source.";

enum Out { FULL, SHORT, ONE, HALF, ERR, END };
struct Sched {
  std::vector<int> reads;   // outcome of the k-th read; afterwards FULL
  std::vector<int> amount;  // for SHORT
  int err = EIO;
  bool open_fails = false;
};
struct Source {
  bool on = false;
  Sched s;
  size_t k = 0;          // reads done
  uint64_t seed = 0;
  Bytes head;            // first bytes of the stream; then pseudo-random
  size_t pos = 0;        // bytes delivered
  int opens = 0, closes = 0, fd = -1, other = 0;
  bool fault = false;    // a fault was delivered
  const Bytes *chunk = nullptr;  // for very large requests: the stream repeats this
  int after_fault = 0;   // reads asked for after a non-retryable fault
};
static thread_local Source src;  // every thread has its own stream
static uint8_t stream(size_t i) { return i < src.head.size() ? src.head[i] : (uint8_t)(mix64(src.seed + i / 8) >> (8 * (i % 8))); }
static bool entropy_path(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static ssize_t deliver(void *p, size_t n) {
  size_t k = src.k++;
  int o = k < src.s.reads.size() ? src.s.reads[k] : FULL;
  if (o == ERR) {
    errno = src.s.err;
    src.fault = true;
    return -1;
  }
  if (o == END) {
    src.fault = true;
    return 0;
  }
  size_t m = n;
  if (o == ONE) m = 1;
  if (o == HALF) m = (n + 1) / 2;
  if (o == SHORT) m = (size_t)src.s.amount[k];
  if (m > n) m = n;
  if (m > 0x7ffff000) m = 0x7ffff000;  // as the kernel
  if (src.chunk) {
    size_t P = src.chunk->size();
    for (size_t i = 0; i < m;) {
      size_t at = (src.pos + i) % P, c = P - at < m - i ? P - at : m - i;
      memcpy((uint8_t *)p + i, src.chunk->data() + at, c);
      i += c;
    }
  } else
    for (size_t i = 0; i < m; i++) ((uint8_t *)p)[i] = stream(src.pos + i);
  src.pos += m;
  return (ssize_t)m;
}
extern "C" {
int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
int __real_close(int);
ssize_t __real_getrandom(void *, size_t, unsigned);
int __real_getentropy(void *, size_t);
int __wrap_open(const char *p, int f, ...) {
  va_list ap;
  va_start(ap, f);
  int mode = f & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (src.on && entropy_path(p)) {
    if (src.s.open_fails) {
      src.fault = true;
      errno = src.s.err;
      return -1;
    }
    src.opens++;
    return src.fd = __real_open("/dev/null", O_RDONLY);
  }
  return __real_open(p, f, mode);
}
int __wrap_open64(const char *p, int f, ...) { return __wrap_open(p, f, 0600); }
ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (src.on && fd == src.fd && fd >= 0) return deliver(p, n);
  return __real_read(fd, p, n);
}
int __wrap_close(int fd) {
  if (src.on && fd == src.fd && fd >= 0) {
    src.closes++;
    src.fd = -1;
  }
  return __real_close(fd);
}
ssize_t __wrap_getrandom(void *p, size_t n, unsigned fl) { return src.on ? (src.other++, deliver(p, n)) : __real_getrandom(p, n, fl); }
int __wrap_getentropy(void *p, size_t n) {
  if (!src.on) return __real_getentropy(p, n);
  src.other++;
  size_t got = 0;
  while (got < n) {
    ssize_t r = deliver((uint8_t *)p + got, n - got);
    if (r <= 0) return -1;
    got += (size_t)r;
  }
  return 0;
}
}
static void begin(const Sched &s, uint64_t seed, const Bytes &head) {
  src.s = s;
  src.k = src.pos = 0;
  src.seed = seed;
  src.head = head;
  src.opens = src.closes = src.other = src.after_fault = 0;
  src.fault = false;
  src.fd = -1;
  src.on = true;
}
static bool consulted() { return src.opens || src.other || src.fault; }
static bool failing(const Sched &s) {
  if (s.open_fails) return true;
  for (int o : s.reads)
    if (o == ERR || o == END) return true;
  return false;
}
static std::string show(const Sched &s) {
  std::string r = s.open_fails ? "open fails" : "reads:";
  static const char *n[] = {"full", "short", "1", "half", "error", "end"};
  for (size_t i = 0; i < s.reads.size() && i < 30 && !s.open_fails; i++)
    r += s.reads[i] == SHORT ? sprintf_(" %d", s.amount[i]) : std::string(" ") + n[s.reads[i]];
  if (failing(s)) r += sprintf_(" (errno %d)", s.err);
  return r;
}
enum What { BYTES, KEY, INIT };
static bool up;
// runs in the process or in a child; throws Fail
static void go(What w, size_t n, const std::string &desc) {
  if (w == BYTES) {
    Buf big(n + 64);
    uint8_t *out = big.p + 32;
    fingera_os_rand_bytes(out, n);
    src.on = false;
    if (!consulted() && n) return;  // another source: see the statistical part
    REQUIRE(src.pos >= n, "os_rand_bytes(%zu) returned after %zu bytes of entropy; %s", n, src.pos, desc.c_str());
    for (size_t i = 0; i < n; i++)
      REQUIRE(out[i] == stream(i), "os_rand_bytes(%zu): byte %zu is %02x, the source delivered %02x; %s", n, i, out[i], stream(i), desc.c_str());
    for (size_t i = 0; i < 32; i++)
      REQUIRE(big.p[i] == 0xA5 && out[n + i] == 0xA5, "os_rand_bytes(%zu) wrote outside the buffer; %s", n, desc.c_str());
  } else if (w == KEY) {
    Buf out(32);
    fingera_btc_key_new(out.p);
    src.on = false;
    Bytes k = out.vec();
    REQUIRE(cref::valid_scalar(k), "key_new made the invalid key %s; %s", hex(k).c_str(), desc.c_str());
    if (!consulted()) return;
    for (size_t b = 0;; b++) {
      Bytes want(32);
      for (int i = 0; i < 32; i++) want[i] = stream(b * 32 + i);
      if (!cref::valid_scalar(want)) continue;
      REQUIRE(want == k, "key_new made %s, the first valid block of entropy is %s (block %zu); %s", hex(k).c_str(), hex(want).c_str(), b, desc.c_str());
      REQUIRE(src.pos >= b * 32 + 32, "key_new used undelivered bytes");
      break;
    }
  } else {
    fingera_btc_key_init();
    src.on = false;
    up = true;
    if (consulted()) REQUIRE(src.pos >= 32, "key_init was content with %zu bytes of entropy; %s", src.pos, desc.c_str());
    Bytes k = cref::Num(12345ul).be32(), h(64), e(33);
    fingera_btc_key_get_pub(k.data(), h.data());
    REQUIRE(fingera_btc_pubkey_encode(h.data(), e.data(), 33) && e == cref::pub(k, true), "after key_init public keys are wrong; %s", desc.c_str());
  }
  REQUIRE(src.opens == src.closes, "%d descriptors opened, %d closed; %s", src.opens, src.closes, desc.c_str());
  if (src.fault && !(src.s.err == EINTR || src.s.err == EAGAIN))
    fail("returned although the source had failed; %s", desc.c_str());
}
struct Shared {
  int returned;  // 1: go() came back, 2: and a check failed
  int reads, delivered_fault;
  char msg[1500];
};
static Shared *sh;
static void check(What w, size_t n, const Sched &s, uint64_t seed, const Bytes &head) {
  std::string desc = show(s);
  if (w == KEY && !up) {
    fingera_btc_key_init();
    up = true;
  }
  if (w == INIT && up) {
    fingera_btc_key_uninit();
    up = false;
  }
  if (!failing(s)) {
    begin(s, seed, head);
    try {
      go(w, n, desc);
    } catch (...) {
      src.on = false;
      throw;
    }
    return;
  }
  if (!sh) sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(sh, 0, sizeof *sh);
  int fds[2];
  if (pipe(fds)) _Exit(3);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) _Exit(3);
  if (p == 0) {
    alarm(20);
    dup2(fds[1], 2);
    __real_close(fds[0]);
    begin(s, seed, head);
    on_exit([](int st, void *) { sh->delivered_fault = src.fault; _exit(st & 255 ? 111 : 0); }, nullptr);
    try {
      go(w, n, desc);
      sh->returned = 1;
    } catch (Fail &f) {
      sh->returned = 2;
      snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
    }
    sh->delivered_fault = src.fault;
    _exit(0);
  }
  __real_close(fds[1]);
  std::string err;
  char b[512];
  ssize_t r;
  while ((r = __real_read(fds[0], b, sizeof b)) > 0) err.append(b, (size_t)r);
  __real_close(fds[0]);
  int st;
  if (waitpid(p, &st, 0) != p) _Exit(3);
  if (sh->returned == 2) fail("%s", sh->msg);
  if (sh->returned == 1) return;  // the schedule's fault was not reached, or a retryable error was retried
  // the process ended inside the library: only right if a fault was delivered
  bool sig = WIFSIGNALED(st);
  int code = sig ? -WTERMSIG(st) : WEXITSTATUS(st);
  REQUIRE(!sig || WTERMSIG(st) == SIGABRT, "the process died of signal %d; %s; %s", -code, desc.c_str(), err.c_str());
  REQUIRE(sig || code != 0, "the process ended with status 0 after a failure of the source; %s", desc.c_str());
  REQUIRE(sig || code != 111 || sh->delivered_fault, "the process ended (%s) although the source had not failed; %s", err.c_str(), desc.c_str());
  REQUIRE(!err.empty(), "the process ended without a message; %s", desc.c_str());
}
// the descriptors below 256 that are open
static std::string open_fds() {
  std::string r;
  for (int i = 0; i < 256; i++)
    if (fcntl(i, F_GETFD) >= 0) r += sprintf_(" %d", i);
  return r;
}
static std::string fds_before, fds_after;
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fds_before = open_fds();  // before the process has ever asked for entropy
  uint8_t b[40];
  fingera_os_rand_bytes(b, sizeof b);
  fingera_btc_key_init();
  fingera_btc_key_new(b);
  fds_after = open_fds();
  up = true;
}
// the caller closes every descriptor it does not know (as a daemon does) and opens a file of its own: later requests are no
// less entropy
static void after_closing(size_t n) {
  struct S {
    int done;
    uint8_t b[4096];
  };
  S *m = (S *)mmap(nullptr, sizeof(S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  m->done = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) _Exit(3);
  if (p == 0) {
    alarm(20);
    for (int i = 3; i < 256; i++) __real_close(i);
    for (int i = 0; i < 8; i++) __real_open("/dev/zero", O_RDONLY);
    fingera_os_rand_bytes(m->b, n);
    m->done = 1;
    _exit(0);
  }
  int st;
  if (waitpid(p, &st, 0) != p) _Exit(3);
  bool done = m->done;
  size_t zeros = 0;
  for (size_t i = 0; i < n; i++) zeros += m->b[i] == 0;
  munmap(m, sizeof(S));
  REQUIRE(done || st, "os_rand_bytes(%zu) ended the process with status 0", n);
  REQUIRE(!done || zeros < n / 4 + 8, "os_rand_bytes(%zu), after the caller closed its descriptors and opened others, gave %zu zero bytes", n, zeros);
}
static Bytes bad_blocks(Tape &t, size_t n) {
  Bytes h;
  for (size_t i = 0; i < n; i++) {
    Bytes b = cref::gen_invalid_scalar(t);
    h.insert(h.end(), b.begin(), b.end());
  }
  return h;
}
static void in_threads(Tape &t);
void pbt_property(Tape &t) {
#ifdef PBT_TSAN
  return in_threads(t);
#else
  if (t.chance(1, 20)) return in_threads(t);
#endif
  unsigned w = (unsigned)t.range(0, 9);
  What what = w <= 5 ? BYTES : w <= 8 ? KEY : INIT;
  size_t n = what == BYTES ? (t.chance(1, 30) ? t.range(0, 100000) : t.len(600, 32)) : 32;
  Sched s;
  size_t nr = t.range(0, 12);
  bool faulty = t.chance(1, 6);
  for (size_t i = 0; i < nr; i++) {
    s.reads.push_back((int)t.range(FULL, HALF));
    s.amount.push_back((int)t.range(1, 40));
  }
  if (faulty) {
    if (t.chance(1, 6)) s.open_fails = true;
    else {
      s.reads.push_back(t.chance(1, 3) ? END : ERR);
      s.amount.push_back(0);
    }
    s.err = t.pick({EIO, EINTR, EAGAIN, EPERM, ENOENT, EMFILE, EBADF, EFAULT});
    classify("source fails");
  } else if (what == BYTES && t.chance(1, 20)) {  // nothing but single bytes
    s.reads.assign(n < 700 ? n : 700, ONE);
    s.amount.assign(s.reads.size(), 1);
  }
  Bytes head;
  if (what == KEY) head = bad_blocks(t, t.chance(1, 2) ? 0 : t.range(1, 5));
  if (!head.empty()) {
    Bytes v = cref::gen_key(t);  // a valid block right at the edge of the range
    if (t.chance(1, 2)) head.insert(head.end(), v.begin(), v.end());
    classify("invalid scalars first");
  }
  uint64_t seed = t.u64();
  key(&what, sizeof what);
  key(&n, sizeof n);
  key(head);
  std::string d = show(s);
  key(d.data(), d.size());
  bool shortread = false;
  for (int o : s.reads) shortread |= o != FULL;
  if (shortread || faulty || !head.empty()) nontrivial();
  classify(what == BYTES ? "os_rand_bytes" : what == KEY ? "key_new" : "key_init");
  if (want_sample()) sample(sprintf_("%s(%zu) %s, %zu bytes of invalid scalars first", what == BYTES ? "os_rand_bytes" : what == KEY ? "key_new" : "key_init", n, d.c_str(), head.size()));
  check(what, n, s, seed, head);
}
static void in_threads(Tape &t) {
  struct Job {
    Sched s;
    size_t n;
    uint64_t seed;
  };
  size_t nt = t.range(2, 4);
  std::vector<std::vector<Job>> jobs(nt);
  for (auto &v : jobs)
    for (size_t i = t.range(2, 8); i > 0; i--) {
      Job j;
      j.n = t.chance(1, 4) ? t.range(0, 20000) : t.len(600, 32);
      for (size_t k = t.range(0, 8); k > 0; k--) j.s.reads.push_back((int)t.range(FULL, HALF)), j.s.amount.push_back((int)t.range(1, 40));
      j.seed = t.u64();
      key(&j.seed, 8);
      v.push_back(j);
    }
  std::vector<std::string> bad(nt);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t i = 0; i < nt; i++)
    th.emplace_back([&, i] {
      ready++;
      while (ready < nt) sched_yield();
      try {
        for (auto &j : jobs[i]) {
          begin(j.s, j.seed, Bytes());
          go(j.n == 32 && (j.seed & 1) ? KEY : BYTES, j.n, sprintf_("in thread %zu of %zu; ", i, nt) + show(j.s));
        }
      } catch (Fail &f) {
        bad[i] = f.msg;
      }
      src.on = false;
    });
  for (auto &x : th) x.join();
  for (auto &b : bad) REQUIRE(b.empty(), "%s", b.c_str());
  nontrivial();
  classify("several threads");
  if (want_sample()) sample(sprintf_("%zu threads", nt));
}
// the process forks between requests: the two sides must not get the same bytes
static void over_fork(size_t before, size_t n) {
  Buf w(before);
  fingera_os_rand_bytes(w.p, before);
  struct S {
    int done;
    uint8_t b[4096];
  };
  S *m = (S *)mmap(nullptr, sizeof(S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  m->done = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) _Exit(3);
  if (p == 0) {
    alarm(20);
    fingera_os_rand_bytes(m->b, n);
    m->done = 1;
    _exit(0);
  }
  Buf o(n);
  fingera_os_rand_bytes(o.p, n);
  int st;
  if (waitpid(p, &st, 0) != p) _Exit(3);
  bool done = m->done;
  Bytes c(m->b, m->b + n);
  munmap(m, sizeof(S));
  REQUIRE(done, "os_rand_bytes(%zu) in a child process ended it with status %x", n, st);
  for (size_t i = 0; i + 16 <= n; i++)
    for (size_t j = 0; j + 16 <= n; j += n > 200 ? 512 : 1)
      REQUIRE(memcmp(o.p + i, &c[j], 16), "after fork both processes got the bytes %s (request %zu, %zu before)", hex(&c[j], 16).c_str(), n, before);
}
void pbt_fixed(int shard, int n) {
  int c = 0;
  // a fault of each kind at each of the first reads, each way of reading before it
  for (int what = 0; what < 3; what++)
    for (int pos = -1; pos < 6; pos++)
      for (int before = FULL; before <= HALF; before++)
        for (int kind = 0; kind < 3; kind++) {
          if (c++ % n != shard) continue;
          Sched s;
          if (pos < 0) s.open_fails = true;
          for (int i = 0; i < pos; i++) s.reads.push_back(before), s.amount.push_back(5);
          if (pos >= 0) s.reads.push_back(kind ? ERR : END), s.amount.push_back(0);
          s.err = kind == 1 ? EIO : EINTR;
          check((What)what, what ? 32 : 300, s, 77, Bytes());
          fixed_case("a fault at every early position", c, show(s));
        }
#if LIB_NDEBUG
  if (shard == 1) {  // requests that one read of the kernel cannot fill, and beyond 32 bits
    const size_t K = 1, P = 4u << 20;
    Bytes chunk(P);
    for (size_t i = 0; i < P; i++) chunk[i] = (uint8_t)mix64(i + 5);
    for (size_t len : {(K << 31) + 5000, (K << 32) + 77}) {
      BigOut out(len, P);
      Sched s;
      s.reads = {FULL, SHORT, FULL, HALF, ONE};
      s.amount = {0, 4097, 0, 0, 0};
      begin(s, 1, Bytes());
      src.chunk = &chunk;
      fingera_os_rand_bytes(out.p, len);
      src.on = false;
      src.chunk = nullptr;
      if (!consulted()) continue;
      REQUIRE(src.pos >= len, "os_rand_bytes(%zu) returned after %zu bytes of entropy", len, src.pos);
      std::string e = out.check(chunk.data(), chunk.data());
      REQUIRE(e.empty(), "os_rand_bytes(%zu): %s", len, e.c_str());
      REQUIRE(src.opens == src.closes, "os_rand_bytes(%zu): %d descriptors opened, %d closed", len, src.opens, src.closes);
      fixed_case("requests above 2^31 and 2^32 bytes", len, sprintf_("%zu bytes", len));
    }
  }
#endif
  if (shard) return;
  REQUIRE(fds_before == fds_after, "the first requests left descriptors open: before%s; after%s", fds_before.c_str(), fds_after.c_str());
  for (size_t m : {16, 32, 64, 1000, 4096}) {
    after_closing(m);
    fixed_case("descriptors before and after, and closed by the caller", m, sprintf_("%zu bytes", m));
  }
  for (size_t b : {0, 1, 16, 32, 100, 1000, 5000})
    for (size_t m : {16, 32, 64, 100, 1000, 4096}) {
      over_fork(b, m);
      fixed_case("requests around a fork", 1u << 23 | b << 8 | m, sprintf_("%zu bytes, fork, %zu bytes in each process", b, m));
    }
  for (size_t L = 301; L <= 70000; L += L < 2100 ? 1 : L % 1024 > 1000 || L % 1024 < 3 ? 1 : 17) {
    Sched s;
    s.reads = {(int)(L % 3 ? FULL : SHORT), L % 5 ? FULL : HALF};
    s.amount = {(int)(L / 3), 0};
    check(BYTES, L, s, L, Bytes());
    fixed_case("longer requests", 1u << 24 | L);
  }
  // every length, in one-byte and two-byte reads
  for (size_t L = 0; L <= 300; L++)
    for (int o : {FULL, ONE, HALF}) {
      Sched s;
      s.reads.assign(310, o);
      s.amount.assign(310, 1);
      check(BYTES, L, s, L, Bytes());
      fixed_case("every length 0..300", 1u << 20 | L << 4 | o);
    }
  // the real source: no repetition among 16-byte blocks, all byte values, balanced bits
  std::vector<std::string> seen;
  Bytes all;
  for (size_t L : {(size_t)16, (size_t)4096, (size_t)100001, (size_t)1 << 22, (size_t)32, (size_t)64}) {
    Buf b(L + 64);
    fingera_os_rand_bytes(b.p + 32, L);
    for (int i = 0; i < 32; i++) REQUIRE(b.p[i] == 0xA5 && b.p[32 + L + i] == 0xA5, "os_rand_bytes(%zu) wrote outside its buffer", L);
    all.insert(all.end(), b.p + 32, b.p + 32 + L);
    for (size_t i = 0; i + 16 <= L; i += 16) seen.push_back(std::string((char *)b.p + 32 + i, 16));
    fixed_case("the real source", L);
  }
  std::sort(seen.begin(), seen.end());
  for (size_t i = 1; i < seen.size(); i++) REQUIRE(seen[i] != seen[i - 1], "the real source repeated 16 bytes %s", hex(seen[i].data(), 16).c_str());
  size_t ones = 0, cnt[256] = {};
  for (uint8_t x : all) ones += (size_t)__builtin_popcount(x), cnt[x]++;
  double N = (double)all.size();
  REQUIRE(ones > N * 8 * 0.49 && ones < N * 8 * 0.51, "the real source: %zu of %.0f bits are one", ones, N * 8);
  for (int v = 0; v < 256; v++) REQUIRE(cnt[v] > N / 256 * 0.8 && cnt[v] < N / 256 * 1.2, "the real source: byte %02x %zu times in %.0f", v, cnt[v], N);
  if (!up) fingera_btc_key_init();
  up = true;
  std::vector<Bytes> keys;
  for (int i = 0; i < 200; i++) {
    Bytes k(32);
    fingera_btc_key_new(k.data());
    REQUIRE(cref::valid_scalar(k), "key_new made the invalid key %s", hex(k).c_str());
    for (auto &o : keys) REQUIRE(o != k, "key_new repeated %s", hex(k).c_str());
    keys.push_back(k);
  }
  fixed_case("200 keys from the real source", 1u << 22);
}
