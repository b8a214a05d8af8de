#include <dirent.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/random.h>
#include "enlarge.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "a history of 1..6 calls (any public operation on valid, edited and random operands, random bytes, new keys, dumps, erasing, stopping and "
    "starting the key context) is run six times over, by one thread or each time by a new one. The heap (every allocation of the process: the "
    "allocator itself is replaced, or asked in the sanitised build), the lowest free descriptor and the number of threads must not grow each "
    "time; signal dispositions and mask, umask, working directory, limits, timers, environment, locale and rounding mode must be as before. "
    "Non-trivial: an operation that takes heap memory, a descriptor, standard output or the context. Plus, per operation, four batches of 1000 different calls.";
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifndef ASAN
#define ASAN 0
#endif
#if ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static int64_t heap_bytes() { return (int64_t)__sanitizer_get_current_allocated_bytes(); }
static int64_t heap_takes() { return 0; }
static thread_local bool inside;
#else
static std::atomic<int64_t> live{0}, takes{0};  // takes: inside calls of the library
static thread_local bool inside;
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static void *took(void *p) {
  if (p) live += (int64_t)malloc_usable_size(p), takes += inside;
  return p;
}
__attribute__((visibility("default"))) void *malloc(size_t n) { return took(__libc_malloc(n)); }
__attribute__((visibility("default"))) void *calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
__attribute__((visibility("default"))) void *realloc(void *q, size_t n) {
  int64_t old = q ? (int64_t)malloc_usable_size(q) : 0;
  void *p = __libc_realloc(q, n);
  if (p || !n) live -= old, took(p);
  return p;
}
__attribute__((visibility("default"))) void *memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
__attribute__((visibility("default"))) void *aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
__attribute__((visibility("default"))) int posix_memalign(void **p, size_t a, size_t n) {
  *p = took(__libc_memalign(a, n));
  return *p ? 0 : ENOMEM;
}
__attribute__((visibility("default"))) void free(void *p) {
  if (p) live -= (int64_t)malloc_usable_size(p);
  __libc_free(p);
}
}
static int64_t heap_bytes() { return live; }
static int64_t heap_takes() { return takes; }
#endif
enum { RAND = ops::NOPS, NEWKEY, DUMP, ERASE, RESTART };
struct Step {
  ops::Call c;  // c.op may be one of the above
  const char *name() const {
    static const char *n[] = {"os_rand_bytes", "key_new", "hex_dump", "cleanse", "key_uninit+key_init"};
    return c.op < ops::NOPS ? ops::name(c.op) : n[c.op - ops::NOPS];
  }
};
static int null_fd;
void pbt_setup() {
  ops::setup();
  null_fd = open("/dev/null", O_WRONLY);
  fingera_btc_key_init();
}
struct Watch : ops::HeapPlace {
  void enter() override { inside = true; }
  void leave() override { inside = false; }
  ~Watch() { inside = false; }
};
static void run(const Step &s) {
  switch (s.c.op) {
    case RAND: {
      Buf b(s.c.a.size());
      fingera_os_rand_bytes(b.p, b.n);
      break;
    }
    case NEWKEY: {
      Buf b(32);
      fingera_btc_key_new(b.p);
      break;
    }
    case DUMP: {
      Buf b(s.c.a);
      fingera_hex_dump(b.p, b.n, (int)s.c.n);
      break;
    }
    case ERASE: {
      Buf b(s.c.a);
      fingera_cleanse(b.p, b.n);
      break;
    }
    case RESTART:
      fingera_btc_key_uninit();
      fingera_btc_key_init();
      break;
    default: {
      Watch p;
      ops::run(s.c, p);
    }
  }
}
static int low_fd() {
  int f = fcntl(null_fd, F_DUPFD, 0);
  close(f);
  return f;
}
static int threads() {
  DIR *d = opendir("/proc/self/task");
  int n = 0;
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}
struct Settings {  // of the process
  struct Sig {
    void *h;
    int flags;
  } sig[65];
  sigset_t mask;
  mode_t um;
  char cwd[300], loc[300];
  struct rlimit rl[16];
  struct itimerval it[3];
  int round, prio;
  uint64_t env;
  Settings() {
    memset(this, 0, sizeof *this);
    for (int i = 1; i < 65; i++) {
      struct sigaction a;
      if (sigaction(i, nullptr, &a)) continue;
      sig[i].h = (void *)a.sa_handler;
      sig[i].flags = a.sa_flags;
    }
    sigset_t m;
    sigemptyset(&m);
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    for (int i = 1; i < 65; i++)
      if (sigismember(&m, i)) sigaddset(&mask, i);
    um = umask(077);
    umask(um);
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    snprintf(loc, sizeof loc, "%s", setlocale(LC_ALL, nullptr));
    for (int i = 0; i < 16; i++) getrlimit((__rlimit_resource)i, &rl[i]);
    for (int i = 0; i < 3; i++) {
      struct itimerval v;
      getitimer((__itimer_which)i, &v);
      it[i].it_value.tv_sec = v.it_value.tv_sec || v.it_value.tv_usec;  // running or not
      it[i].it_interval = v.it_interval;
    }
    round = fegetround();
    prio = getpriority(PRIO_PROCESS, 0);
    for (char **e = environ; *e; e++) env = hash_bytes(*e, strlen(*e), env);
  }
  const char *differs(const Settings &o) const {
    if (memcmp(sig, o.sig, sizeof sig)) return "the signal dispositions";
    if (memcmp(&mask, &o.mask, sizeof mask)) return "the signal mask";
    if (um != o.um) return "the file mode mask";
    if (strcmp(cwd, o.cwd)) return "the working directory";
    if (strcmp(loc, o.loc)) return "the locale";
    if (memcmp(rl, o.rl, sizeof rl)) return "the resource limits";
    if (memcmp(it, o.it, sizeof it)) return "the timers";
    if (round != o.round) return "the rounding mode";
    if (prio != o.prio) return "the priority";
    if (env != o.env) return "the environment";
    return nullptr;
  }
};
struct Quiet {  // standard output goes nowhere
  int saved;
  Quiet() {
    fflush(stdout);
    saved = dup(1);
    dup2(null_fd, 1);
  }
  ~Quiet() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};
struct Level {
  int64_t bytes;
  int fd, tasks;
};
static int64_t statm() {
  long p = 0;
  int f = open("/proc/self/statm", O_RDONLY);
  char b[100];
  ssize_t n = read(f, b, sizeof b - 1);
  close(f);
  if (n > 0) b[n] = 0, p = atol(b);
  return p;
}
static void check(const std::vector<Step> &h, bool fresh_thread, const std::string &d) {
  const int R = 6;
  Level l[R];
  const char *diff = nullptr;
  {
    Quiet q;
    Settings before;
    for (int r = 0; r < R; r++) {
      if (fresh_thread) {
        std::string err;
        std::thread th([&] {
          try {
            Settings b4;
            for (auto &s : h) run(s);
            diff = Settings().differs(b4);
          } catch (Fail &f) {
            err = f.msg;
          }
        });
        th.join();
        if (!err.empty()) fail("%s", err.c_str());
      } else
        for (auto &s : h) run(s);
      l[r] = Level{heap_bytes(), low_fd(), r == 2 ? threads() : 0};
      if (r == R - 1)  // a thread that was joined may be seen for a moment
        for (int k = 0; k < 3000 && (l[r].tasks = threads()) > l[2].tasks; k++) usleep(1000);
    }
    if (!diff) diff = Settings().differs(before);
  }
  bool bytes = true, fds = true;
  for (int r = 1; r + 1 < R; r++) {
    if (l[r + 1].bytes <= l[r].bytes) bytes = false;
    if (l[r + 1].fd <= l[r].fd) fds = false;
  }
  const char *w = fresh_thread ? " (each time in a new thread)" : "";
  REQUIRE(!bytes, "every repetition%s of %skeeps heap memory: %lld, %lld, %lld bytes more", w, d.c_str(), (long long)(l[3].bytes - l[2].bytes),
          (long long)(l[4].bytes - l[3].bytes), (long long)(l[5].bytes - l[4].bytes));
  REQUIRE(!fds, "every repetition%s of %skeeps a file descriptor: lowest free %d, %d, %d, %d", w, d.c_str(), l[2].fd, l[3].fd, l[4].fd, l[5].fd);
  REQUIRE(l[R - 1].tasks <= l[2].tasks, "every repetition of %skeeps a thread", d.c_str());
  REQUIRE(!diff, "%schanged %s", d.c_str(), diff);
}
static Step gen(Tape &t) {
  Step s;
  if (t.chance(1, 5)) {
    s.c.op = RAND + (int)t.range(0, 4);
    if (s.c.op == RAND) s.c.a = Bytes(t.chance(1, 4) ? 0 : t.len(3000, 64));
    if (s.c.op == DUMP || s.c.op == ERASE) s.c.a = t.blob(1200, 32), s.c.n = t.u32() & 1;
  } else
    s.c = t.chance(1, 2) ? ops::gen(t, t.chance(1, 3) ? 700 : 200) : ops::gen(t, 300, t.pick(hungry()));
  if (s.c.op < ops::NOPS) {
    if (t.chance(1, 2)) enlarge(t, s.c, t.range(60, 400));
    if (t.chance(1, 4)) surround(t, s.c);
    bool text = s.c.op == ops::FROM_B58 || s.c.op == ops::FROM_B58C || s.c.op == ops::ADDR_DEC || s.c.op == ops::KEY_FROM_STR || s.c.op == ops::EXKEY_FROM_STR || s.c.op == ops::EXPUB_FROM_STR;
    if (text && t.chance(1, 6) && !s.c.a.empty()) s.c.a[t.range(0, s.c.a.size() - 1)] ^= (uint8_t)(1 + t.range(0, 254));
  }
  return s;
}
void pbt_property(Tape &t) {
  std::vector<Step> h;
  size_t n = t.chance(1, 2) ? 1 : t.range(2, 6);
  bool nt = false;
  std::string d;
  for (size_t i = 0; i < n; i++) {
    h.push_back(gen(t));
    key(&h.back().c.op, sizeof(int));
    key(h.back().c.a);
    key(h.back().c.b);
    classify(h.back().name());
    if (h.back().c.op >= ops::KEY_TO_STR && h.back().c.op != ERASE) nt = true;
    d += (h.back().c.op < ops::NOPS ? h.back().c.str() : sprintf_("%s(%zu bytes)", h.back().name(), h.back().c.a.size())) + "; ";
  }
  bool th = t.chance(1, 6);
  if (th) classify("a new thread each time");
  if (want_sample()) sample(d);
  int64_t t0 = heap_takes();
  check(h, th, d);
  if (nt || heap_takes() - t0 > 0) nontrivial();
}
void pbt_fixed(int shard, int n) {
  std::vector<uint8_t> rec(1 << 20);
  uint64_t rl = 0;
  int B = LIB_NDEBUG ? 1000 : 150;
  if (ASAN) return;
  for (int op = shard; op < ops::NOPS; op += n) {  // different operands every time
    std::vector<int64_t> bytes, pages;
    for (int b = 0; b < 4; b++) {
      Quiet q;
      int64_t b0 = 0, grown = 0, p0 = statm();
      for (int i = 0; i < B; i++) {
        Tape t(mix64((uint64_t)op << 32 | b * 100000 + i), rec.data(), rec.size(), &rl);
        Step s;
        s.c = ops::gen(t, 300, op);
        if (i & 1) enlarge(t, s.c, 60 + (size_t)i % 200);
        b0 = heap_bytes();
        run(s);
        grown += heap_bytes() - b0;
      }
      bytes.push_back(grown);
      pages.push_back(statm() - p0);
    }
    REQUIRE(!(bytes[2] >= B && bytes[3] >= B && bytes[1] >= B), "%d calls of %s with different operands keep %lld, %lld, %lld bytes of heap memory", B, ops::name(op),
            (long long)bytes[1], (long long)bytes[2], (long long)bytes[3]);
    REQUIRE(!(pages[2] >= B / 4 && pages[3] >= B / 4 && pages[1] >= B / 4), "%d calls of %s with different operands keep %lld, %lld, %lld pages of memory", B, ops::name(op),
            (long long)pages[1], (long long)pages[2], (long long)pages[3]);
    fixed_case("four batches of different calls", (uint64_t)op, sprintf_("%s: %lld bytes kept by the last %d calls", ops::name(op), (long long)bytes[3], B));
  }
}
