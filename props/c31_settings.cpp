#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <xmmintrin.h>
#include <thread>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/random.h>
#include "ops.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "one call (any public operation, random bytes, a new key, a dump, restarting the key context) is made twice: in a plain process state, and under "
    "generated settings - locale of the process or the thread (Turkish, Azeri, German, Russian, Japanese, Chinese ones, built by localedef), errno, rounding mode, "
    "flushed denormals, x87 precision, umask, working directory, blocked and pending signals, ignored signals, closed standard descriptors, heap "
    "fill byte, answers of getenv, the clocks, process and user numbers, rand; in the same thread, a new one, or a forked child. The results must be "
    "the same and the settings left as they were. Non-trivial: at least one setting differs from the plain state.";
enum { RAND = ops::NOPS, KEY_NEW, DUMP, RESTART, ALL };
static const char *name(int op) {
  return op < ops::NOPS ? ops::name(op) : op == RAND ? "os_rand_bytes" : op == KEY_NEW ? "key_new" : op == DUMP ? "hex_dump" : "key_uninit+init";
}
static const char *const LOCALES[] = {"C",           "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "az_AZ.UTF-8", "de_DE.ISO-8859-1",
                                      "ru_RU.KOI8-R", "ja_JP.EUC-JP",     "zh_CN.GB18030", "lt_LT.UTF-8", "C.UTF-8"};
enum { NLOC = sizeof LOCALES / sizeof *LOCALES };
static locale_t locs[NLOC];
static std::vector<std::string> ENVS = {"", "0", "1", "true", "no", "C", "tr_TR.UTF-8", "/nonexistent", "/tmp", "-1", "4294967296", "8", "debug"};

struct Settings {
  int loc = 0, err = 0, round = FE_TONEAREST, mask = -1, env = -1, where = 0, perturb = -1, prec = -1;
  bool thread_loc = false, ftz = false, dir = false, clocks = false, pending = false, ignore = false;
  unsigned closed = 0;
  uint64_t blocked = 0, noise = 0;
  std::string str() const {
    std::string s;
    if (loc) s += sprintf_(" locale=%s%s", LOCALES[loc], thread_loc ? "(thread)" : "");
    if (err) s += sprintf_(" errno=%d", err);
    if (round != FE_TONEAREST) s += sprintf_(" rounding=%#x", round);
    if (ftz) s += " denormals flushed";
    if (prec >= 0) s += sprintf_(" x87 precision %d", prec);
    if (mask >= 0) s += sprintf_(" umask=%o", mask);
    if (dir) s += " other directory";
    if (blocked) s += sprintf_(" blocked=%llx", (unsigned long long)blocked);
    if (pending) s += " pending signal";
    if (ignore) s += " ignored signals";
    if (closed) s += sprintf_(" closed descriptors=%x", closed);
    if (perturb >= 0) s += sprintf_(" heap filled with %02x", perturb);
    if (env >= 0) s += " getenv=" + quote(ENVS[env]);
    if (clocks) s += sprintf_(" clocks and numbers from %llx", (unsigned long long)noise);
    if (where) s += where == 1 ? " in a new thread" : " in a forked child";
    return s.empty() ? " nothing" : s;
  }
};
static const Settings *now;  // the generated settings are in force
static thread_local bool inside;
static uint64_t draws;
static uint64_t draw() { return mix64(now->noise + ++draws); }
#define FAKE(type, fn, args, pass, answer)                   \
  type __real_##fn args;                                     \
  __attribute__((used)) type __wrap_##fn args {              \
    if (!inside || !now || !now->clocks) return __real_##fn pass; \
    return (type)(answer);                                   \
  }
extern "C" {
char *__real_getenv(const char *n);
char *__real_secure_getenv(const char *n);
__attribute__((used)) char *__wrap_getenv(const char *n) { return inside && now && now->env >= 0 ? (char *)ENVS[now->env].c_str() : __real_getenv(n); }
__attribute__((used)) char *__wrap_secure_getenv(const char *n) { return inside && now && now->env >= 0 ? (char *)ENVS[now->env].c_str() : __real_secure_getenv(n); }
int __real_clock_gettime(clockid_t c, struct timespec *t);
__attribute__((used)) int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!inside || !now || !now->clocks) return __real_clock_gettime(c, t);
  t->tv_sec = (time_t)(draw() >> (draw() % 64)), t->tv_nsec = (long)(draw() % 1000000000);
  return 0;
}
int __real_gettimeofday(struct timeval *t, void *z);
__attribute__((used)) int __wrap_gettimeofday(struct timeval *t, void *z) {
  if (!inside || !now || !now->clocks) return __real_gettimeofday(t, z);
  t->tv_sec = (time_t)(draw() >> (draw() % 64)), t->tv_usec = (long)(draw() % 1000000);
  return 0;
}
time_t __real_time(time_t *t);
__attribute__((used)) time_t __wrap_time(time_t *t) {
  if (!inside || !now || !now->clocks) return __real_time(t);
  time_t v = (time_t)(draw() >> (draw() % 64));
  if (t) *t = v;
  return v;
}
FAKE(clock_t, clock, (void), (), draw() >> 20)
FAKE(pid_t, getpid, (void), (), 1 + draw() % 4194303)
FAKE(pid_t, getppid, (void), (), draw() % 4194303)
FAKE(pid_t, gettid, (void), (), 1 + draw() % 4194303)
FAKE(uid_t, getuid, (void), (), draw() % 2 ? 0 : draw())
FAKE(uid_t, geteuid, (void), (), draw() % 2 ? 0 : draw())
FAKE(gid_t, getgid, (void), (), draw())
FAKE(int, sched_getcpu, (void), (), draw() % 256)
FAKE(int, rand, (void), (), draw() & 0x7fffffff)
FAKE(long, random, (void), (), draw() & 0x7fffffff)
FAKE(int, isatty, (int fd), (fd), draw() & 1)
}

static std::string trouble;
static int saved[3];
static std::string scratch;
static uint64_t mask_bits() {
  sigset_t s;
  pthread_sigmask(SIG_SETMASK, nullptr, &s);
  uint64_t r = 0;
  for (int i = 1; i < 64; i++) r |= (uint64_t)(sigismember(&s, i) == 1) << i;
  return r;
}
static unsigned x87() {
  unsigned short w;
  asm volatile("fnstcw %0" : "=m"(w));
  return w;
}
static std::string cwd() {
  char b[4096];
  return getcwd(b, sizeof b) ? b : "?";
}
struct Observed {
  std::string loc, dir;
  locale_t tl;
  unsigned mxcsr, cw, mask;
  uint64_t sig;
  unsigned open;
  bool ign;
};
static Observed observe(const Settings &S) {
  Observed o;
  const char *l = setlocale(LC_ALL, nullptr);
  o.loc = l ? l : "";
  o.tl = uselocale((locale_t)0);
  o.mxcsr = _mm_getcsr() & ~0x3fu;  // without the sticky exception flags
  o.cw = x87();
  if (S.mask >= 0) o.mask = umask(0), umask(o.mask);
  else o.mask = 0;
  if (S.dir) o.dir = cwd();
  if (S.blocked) o.sig = mask_bits();
  else o.sig = 0;
  o.open = 0;
  if (S.closed)
    for (int i = 0; i < 3; i++) o.open |= (unsigned)(fcntl(i, F_GETFD) >= 0) << i;
  o.ign = false;
  if (S.ignore) {
    struct sigaction a;
    o.ign = true;
    for (int s : {SIGPIPE, SIGINT, SIGHUP, SIGTERM, SIGUSR2}) sigaction(s, nullptr, &a), o.ign = o.ign && a.sa_handler == SIG_IGN;
  }
  return o;
}
// the generated settings hold from enter to leave
struct Hostile : ops::HeapPlace {
  const Settings &S;
  Observed before;
  fenv_t fe;
  unsigned csr = 0;
  sigset_t old;
  mode_t om = 0;
  std::string od;
  struct sigaction oa[5];
  FILE *of = nullptr;
  explicit Hostile(const Settings &s) : S(s) {}
  void enter() override {
    if (S.loc) {
      if (S.thread_loc) uselocale(locs[S.loc]);
      else setlocale(LC_ALL, LOCALES[S.loc]);
    }
    if (S.mask >= 0) om = umask((mode_t)S.mask);
    if (S.dir) od = cwd(), chdir(scratch.c_str());
    if (S.perturb >= 0) mallopt(M_PERTURB, S.perturb);
    if (S.ignore) {
      struct sigaction a;
      memset(&a, 0, sizeof a);
      a.sa_handler = SIG_IGN;
      int i = 0;
      for (int s : {SIGPIPE, SIGINT, SIGHUP, SIGTERM, SIGUSR2}) sigaction(s, &a, &oa[i++]);
    }
    if (S.blocked) {
      sigset_t b;
      sigemptyset(&b);
      for (int i = 1; i < 64; i++)
        if (S.blocked >> i & 1 && i != SIGPROF && i != SIGALRM && i != SIGVTALRM && i != SIGSEGV && i != SIGBUS && i != SIGILL && i != SIGFPE && i != SIGTRAP && i != SIGABRT) sigaddset(&b, i);
      if (S.pending) sigaddset(&b, SIGUSR1);
      pthread_sigmask(SIG_BLOCK, &b, &old);
      if (S.pending) pthread_kill(pthread_self(), SIGUSR1);
    }
    if (S.closed) {
      fflush(stdout);
      for (int i = 0; i < 3; i++)
        if (S.closed >> i & 1) close(i);
    }
    fegetenv(&fe);
    csr = _mm_getcsr();
    fesetround(S.round);
    if (S.ftz) _mm_setcsr(_mm_getcsr() | 0x8040);
    if (S.prec >= 0) {
      unsigned short w = (unsigned short)((x87() & ~0x300u) | (unsigned)S.prec << 8);
      asm volatile("fldcw %0" ::"m"(w));
    }
    before = observe(S);
    now = &S;
    inside = true;
    errno = S.err;
  }
  void leave() override {
    inside = false;
    now = nullptr;
    Observed a = observe(S);
    fesetenv(&fe);
    _mm_setcsr(csr);
    std::string w;
    if (a.loc != before.loc) w += sprintf_(" locale %s -> %s;", before.loc.c_str(), a.loc.c_str());
    if (a.tl != before.tl) w += " thread locale;";
    if (a.mxcsr != before.mxcsr) w += sprintf_(" mxcsr %x -> %x;", before.mxcsr, a.mxcsr);
    if (a.cw != before.cw) w += sprintf_(" x87 control word %x -> %x;", before.cw, a.cw);
    if (a.mask != before.mask) w += sprintf_(" umask %o -> %o;", before.mask, a.mask);
    if (a.dir != before.dir) w += " working directory;";
    if (a.sig != before.sig) w += sprintf_(" signal mask %llx -> %llx;", (unsigned long long)before.sig, (unsigned long long)a.sig);
    if (a.open != before.open) w += sprintf_(" open standard descriptors %x -> %x;", before.open, a.open);
    if (a.ign != before.ign) w += " ignored signals;";
    if (S.closed)
      for (int i = 0; i < 3; i++)
        if (S.closed >> i & 1) dup2(saved[i], i);
    if (S.blocked) {
      if (S.pending) {
        struct timespec z = {0, 0};
        sigset_t u;
        sigemptyset(&u);
        sigaddset(&u, SIGUSR1);
        sigtimedwait(&u, nullptr, &z);
      }
      pthread_sigmask(SIG_SETMASK, &old, nullptr);
    }
    if (S.ignore) {
      int i = 0;
      for (int s : {SIGPIPE, SIGINT, SIGHUP, SIGTERM, SIGUSR2}) sigaction(s, &oa[i++], nullptr);
    }
    if (S.perturb >= 0) mallopt(M_PERTURB, 0);
    if (S.dir) chdir(od.c_str());
    if (S.mask >= 0) umask(om);
    if (S.loc) {
      if (S.thread_loc) uselocale(LC_GLOBAL_LOCALE);
      else setlocale(LC_ALL, "C");
    }
    if (!w.empty() && trouble.empty()) trouble = w;
  }
};
static Bytes perform(const ops::Call &c, ops::Place &p) {
  if (c.op < ops::NOPS) return ops::run(c, p);
  if (c.op == RAND) {
    size_t n = c.a.size();
    Buf b(n), b2(n);
    memset(b.p, 0, n);
    memset(b2.p, 0, n);
    p.enter();
    fingera_os_rand_bytes(b.p, n);
    p.leave();
    p.enter();
    fingera_os_rand_bytes(b2.p, n);
    p.leave();
    if (n < 16) return {1};
    Bytes z(n);
    return {(uint8_t)(b.vec() != b2.vec()), (uint8_t)(b.vec() != z), (uint8_t)(b2.vec() != z)};
  }
  if (c.op == KEY_NEW) {
    Buf b(32), b2(32);
    memset(b.p, 0, 32);
    memset(b2.p, 0, 32);
    p.enter();
    fingera_btc_key_new(b.p);
    fingera_btc_key_new(b2.p);
    p.leave();
    return {(uint8_t)cref::valid_scalar(b.vec()), (uint8_t)cref::valid_scalar(b2.vec()), (uint8_t)(b.vec() != b2.vec())};
  }
  if (c.op == DUMP) {
    char *s = nullptr;
    size_t n = 0;
    Buf b(c.a);
    FILE *f = open_memstream(&s, &n), *o = stdout;
    p.enter();
    stdout = f;
    fingera_hex_dump(b.p, b.n, (int)c.n);
    stdout = o;
    p.leave();
    fclose(f);
    Bytes r(s, s + n);
    free(s);
    return r;
  }
  p.enter();
  fingera_btc_key_uninit();
  fingera_btc_key_init();
  p.leave();
  Bytes sig(64), der(72), key(32, 7), h(32, 9);
  fingera_btc_key_sign(key.data(), h.data(), sig.data());
  der.resize(fingera_btc_signature_encode(sig.data(), der.data()));
  return der;
}
// "" or what failed
static std::string under(const ops::Call &c, const Settings &S, Bytes &out) {
  std::string e;
  auto go = [&] {
    try {
      Hostile h(S);
      out = perform(c, h);
    } catch (Fail &f) {
      e = f.msg;
    }
  };
  trouble.clear();
  if (S.where == 0) go();
  else if (S.where == 1) std::thread(go).join();
  else {
    size_t cap = 1 << 16;
    uint8_t *m = (uint8_t *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      go();
      std::string t = !e.empty() ? e : trouble;
      size_t n = out.size(), k = t.size();
      if (8 + n + k > cap) _exit(9);
      m[0] = 1;
      memcpy(m + 8, &n, 8);
      memcpy(m + 16, &k, 8);
      memcpy(m + 24, out.data(), n);
      memcpy(m + 24 + n, t.data(), k);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (m[0] == 1) {
      size_t n, k;
      memcpy(&n, m + 8, 8);
      memcpy(&k, m + 16, 8);
      out.assign(m + 24, m + 24 + n);
      trouble.assign((char *)m + 24 + n, k);
    } else e = sprintf_("the process ended (wait status %x)", st);
    munmap(m, cap);
  }
  if (e.empty() && !trouble.empty()) e = "left settings changed:" + trouble;
  return e;
}
static void check(const ops::Call &c, const Settings &S) {
  Bytes want, got;
  {
    ops::HeapPlace p;
    want = perform(c, p);
  }
  std::string e = under(c, S, got);
  std::string d = c.op < ops::NOPS ? c.str() : sprintf_("%s(%s)", name(c.op), hex(c.a, 60).c_str()), s = S.str();
  REQUIRE(e.empty(), "%s under%s: %s", d.c_str(), s.c_str(), e.c_str());
  REQUIRE(got == want, "%s gives %s under%s, and %s without", d.c_str(), hex(got, 160).c_str(), s.c_str(), hex(want, 160).c_str());
}
static ops::Call gen(Tape &t, int op, size_t max) {
  ops::Call c;
  if (op < ops::NOPS) {
    c = ops::gen(t, max, op);
    if (op == ops::BECH_DEC && t.chance(1, 3)) {
      std::vector<int> d(t.range(0, 40));
      for (auto &x : d) x = (int)t.range(0, 31);
      std::string hrp;
      for (size_t i = t.range(1, 12); i; i--) hrp += (char)(t.chance(1, 6) ? t.range(128, 255) : t.range(33, 126));
      for (auto &ch : hrp) ch = ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch;
      std::string s = ref::bech32(hrp, d);
      c.a = ops::from(t.chance(1, 4) ? s : ref::upper(s));
      c.n = 90;
    }
  } else c.a = op == RESTART || op == KEY_NEW ? Bytes() : op == RAND ? Bytes(t.range(0, 300)) : t.blob(max);
  c.op = op;
  if (op == DUMP) c.n = (uint32_t)t.range(0, 1);
  return c;
}
static void one(Tape &t, Settings &S, int k) {
  switch (k) {
    case 0: S.loc = (int)t.range(1, NLOC - 1), S.thread_loc = t.chance(1, 2); break;
    case 1: S.err = t.chance(1, 3) ? (int)t.range(1, 133) : t.pick({EINTR, EAGAIN, EINVAL, ERANGE, ENOMEM, EIO, EBADF, ENOSYS, EPERM, EILSEQ, -1}); break;
    case 2: S.round = t.pick({FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST}); S.ftz = t.chance(1, 2); if (t.chance(1, 2)) S.prec = t.pick({0, 2, 3}); break;
    case 3: S.mask = (int)t.range(0, 0777); break;
    case 4: S.dir = true; break;
    case 5: S.blocked = t.chance(1, 2) ? ~0ull : t.u64() | 2; S.pending = t.chance(1, 3); break;
    case 6: S.closed = (unsigned)t.range(1, 7); break;
    case 7: S.env = (int)t.range(0, ENVS.size() - 1); break;
    case 8: S.clocks = true, S.noise = t.u64(); break;
    case 9: S.perturb = t.byte(); break;
    case 10: S.ignore = true; break;
    case 11: S.where = t.chance(1, 5) ? 2 : 1; break;
  }
}
enum { KINDS = 12 };
struct ref_text {
  Bytes s;
};
static std::vector<ref_text> &texts() {
  static std::vector<ref_text> v;
  if (!v.empty()) return v;
  v.resize(ops::NOPS);
  Bytes b(24, 0x5a), key(32, 3);
  Params &P = ops::net(0);
  v[ops::FROM_HEX].s = ops::from(ref::hexs(b, false));
  v[ops::FROM_B64].s = ops::from(ref::base64(b, false));
  v[ops::FROM_B64URL].s = ops::from(ref::base64(b, true));
  v[ops::FROM_B32].s = ops::from(ref::base32(b));
  v[ops::FROM_B58].s = ops::from(ref::base58(b));
  v[ops::FROM_B58C].s = ops::from(cref::b58check(b));
  v[ops::ADDR_DEC].s = ops::from(cref::b58check(cref::cat({vec(P.pk), Bytes(20, 7)})));
  v[ops::KEY_FROM_STR].s = ops::from(cref::b58check(cref::cat({vec(P.wif), key, Bytes{1}})));
  Bytes ext(41, 9);
  v[ops::EXKEY_FROM_STR].s = ops::from(cref::b58check(cref::cat({vec(P.xprv), ext, Bytes{0}, key})));
  v[ops::EXPUB_FROM_STR].s = ops::from(cref::b58check(cref::cat({vec(P.xpub), ext, cref::pub(key, true)})));
  return v;
}
void pbt_setup() {
  ops::setup();
  fingera_btc_key_init();
  for (int i = 0; i < 3; i++) saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 200);
  for (int i = 0; i < 3; i++)
    if (saved[i] < 0) saved[i] = fcntl(open("/dev/null", O_RDWR), F_DUPFD_CLOEXEC, 200);
  for (int i = 1; i < NLOC; i++) {
    locs[i] = newlocale(LC_ALL_MASK, LOCALES[i], (locale_t)0);
    if (!locs[i]) locs[i] = newlocale(LC_ALL_MASK, "C", (locale_t)0);  // not installed here
  }
  scratch = cwd();
  std::string d = scratch + "/c31 scratch " + std::to_string((long)__real_getpid());
  if (mkdir(d.c_str(), 0700) == 0) scratch = d;
  static std::string mine = d;
  atexit([] { rmdir(mine.c_str()); });
}
void pbt_property(Tape &t) {
  int op = (int)t.range(0, ALL - 1);
  if (op == RESTART && !t.chance(1, 20)) op = RAND;
  ops::Call c = gen(t, op, t.chance(1, 8) ? 1500 : 200);
  Settings S;
  unsigned k = (unsigned)t.range(1, 3);
  if (t.chance(1, 8)) k = 8;
  for (unsigned i = 0; i < k; i++) one(t, S, (int)t.range(0, KINDS - 1));
  if (t.chance(1, 2)) one(t, S, 0);
  key(&c.op, sizeof(int));
  key(c.a);
  key(c.b);
  std::string s = S.str();
  key(s.data(), s.size());
  if (S.loc) classify(LOCALES[S.loc]);
  if (want_sample()) sample(sprintf_("%s under%s", c.op < ops::NOPS ? c.str().c_str() : name(c.op), s.c_str()));
  check(c, S);
  if (s != " nothing") nontrivial();
}
void pbt_fixed(int shard, int n) {
  std::vector<uint8_t> rec(1 << 20);
  uint64_t rl = 0;
  size_t i = 0;
  // every operation under every single setting, and under every locale
  for (int op = 0; op < ALL; op++)
    for (int k = 1; k < KINDS + NLOC; k++)
      for (int v = 0; v < (k < KINDS ? 4 : 8); v++)
        if (i++ % (size_t)n == (size_t)shard) {
          if (op == RESTART && v) continue;
          Tape t(mix64(i * 31), rec.data(), rec.size(), &rl);
          ops::Call c = gen(t, op, 150);
          Settings S;
          if (k < KINDS) one(t, S, k);
          else {
            S.loc = k - KINDS;
            S.thread_loc = v & 1;
            if (!S.loc) continue;
          }
          check(c, S);
          fixed_case("every operation under every setting", i, sprintf_("%s under%s", name(op), S.str().c_str()));
        }
  // every byte at the start, middle and end of the texts of every decoder, under every locale
  for (int op : {ops::FROM_HEX, ops::FROM_B64, ops::FROM_B64URL, ops::FROM_B32, ops::FROM_B58, ops::FROM_B58C, ops::ADDR_DEC, ops::KEY_FROM_STR, ops::EXKEY_FROM_STR, ops::EXPUB_FROM_STR})
    for (int l = 1; l < NLOC; l++)
      for (int ch = 1; ch < 256; ch++)
        if (i++ % (size_t)n == (size_t)shard) {
          ops::Call c;
          c.op = op;
          const ref_text &x = texts()[op];
          c.a = x.s;
          c.n = 200;
          c.net = 0;
          size_t at = ch % 4 == 0 ? 0 : ch % 4 == 1 ? c.a.size() : c.a.size() / 2;
          if (mix64(i) % 2 && at < c.a.size()) c.a[at] = (uint8_t)ch;
          else c.a.insert(c.a.begin() + at, (uint8_t)ch);
          Settings S;
          S.loc = l;
          S.thread_loc = mix64(i) >> 1 & 1;
          check(c, S);
          fixed_case("every byte in text under every locale", i, sprintf_("%s with byte %02x under %s", name(op), ch, LOCALES[l]));
        }
  // Bech32 text with every character in its prefix, under every locale
  for (int l = 1; l < NLOC; l++)
    for (int ch = 33; ch < 256; ch++)
      if (i++ % (size_t)n == (size_t)shard) {
        if ((ch >= 'A' && ch <= 'Z') || ch == 127) continue;
        ops::Call c;
        c.op = ops::BECH_DEC;
        std::string s = ref::bech32(std::string("a") + (char)ch + "b", {1, 2, 3, (int)(ch & 31)});
        Settings S;
        S.loc = l;
        S.thread_loc = ch & 1;
        c.n = 90;
        c.a = ops::from(s);
        check(c, S);
        c.a = ops::from(ref::upper(s));
        check(c, S);
        fixed_case("Bech32 text under every locale", i, sprintf_("prefix a%cb under %s", ch, LOCALES[l]));
      }
}
