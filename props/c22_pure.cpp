#include <alloca.h>
#include <errno.h>
#include <fingera_libc/hex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include "heapwatch.hpp"
#include "ops.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "a random history: 2..8 distinct calls of any public operation (a third of them differing from an earlier one of the history in one operand, or a part of one), each executed several times in random order between key-context "
    "shutdowns and restarts (fresh random blinding each time), other keys being made, and the unused stack and heap being overwritten "
    "with different bytes; and, with a quarter of the cases, the same calls executed by 2..4 threads at once. Every "
    "execution must give the result of the first, a set of anchor calls remembered since the process started must keep its "
    "results, one call of every other case must give what it gives in a process that called nothing before, and after every call as many heap blocks are released as were taken. Dumps by 2..8 threads at once must bring out every character of each. One thread-heavy variant runs under "
    "ThreadSanitizer. Non-trivial: some call is executed at least twice with something else in between.";
using ops::Call;

struct WatchPlace : ops::HeapPlace {
  size_t allocs = 0;
  void enter() override { heapwatch::st().armed = true; }
  void leave() override {
    heapwatch::st().armed = false;
    auto &s = heapwatch::st();
    size_t n = s.live.size();
    allocs += s.allocs;
    s.allocs = 0;
    if (n || s.foreign) {
      size_t fo = s.foreign;
      s.foreign = 0;
      s.live.clear();
      fail("%zu heap blocks taken and not released, %zu foreign blocks released", n, fo);
    }
  }
};
static bool ctx;
static void init() {
  fingera_btc_key_init();
  ctx = true;
}
static void uninit() {
  fingera_btc_key_uninit();
  ctx = false;
}
static __attribute__((noinline)) void dirty_stack(uint8_t v) {
  volatile uint8_t b[24000];
  for (size_t i = 0; i < sizeof b; i++) b[i] = v;
}
static void dirty_heap(uint8_t v) {
  void *p[24];
  for (int i = 0; i < 24; i++) {
    p[i] = malloc(32 + 48 * i);
    memset(p[i], v, 32 + 48 * i);
  }
  for (int i = 0; i < 24; i++) free(p[i]);
}
static Bytes exec(const Call &c) {
  try {
    WatchPlace p;
    Bytes r = ops::run(c, p);
    return r;
  } catch (Fail &f) {
    heapwatch::st().armed = false;
    fail("%s: %s", c.str().c_str(), f.msg.c_str());
  }
}
struct Memo {
  Call c;
  Bytes r;
};
static std::vector<Memo> anchors;
// A process without a past: it forks one child for every question, and the child makes a single call.
static int fresh_fd = -1;
static uint32_t fresh_no;
static void put(Bytes &m, const void *p, size_t n) { m.insert(m.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
static Bytes pack(const Call &c) {
  Bytes m;
  uint32_t la = (uint32_t)c.a.size(), lb = (uint32_t)c.b.size();
  put(m, &fresh_no, 4), put(m, &c.op, sizeof c.op), put(m, &c.n, 4), put(m, &c.v, 8), put(m, &c.net, sizeof c.net), put(m, &la, 4), put(m, &lb, 4);
  put(m, c.a.data(), la), put(m, c.b.data(), lb);
  return m;
}
static uint32_t unpack(const uint8_t *p, Call &c) {
  uint32_t no, la, lb;
  auto get = [&](void *d, size_t n) { memcpy(d, p, n), p += n; };
  get(&no, 4), get(&c.op, sizeof c.op), get(&c.n, 4), get(&c.v, 8), get(&c.net, sizeof c.net), get(&la, 4), get(&lb, 4);
  c.a.assign(p, p + la), c.b.assign(p + la, p + la + lb);
  return no;
}
static void fresh_start() {
#ifndef PBT_TSAN
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv)) _Exit(3);
  fflush(stdout), fflush(stderr);
  pid_t parent = getpid(), pid = fork();
  if (pid < 0) _Exit(3);
  if (pid) {
    close(sv[1]);
    fresh_fd = sv[0];
    return;
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (getppid() != parent) _exit(0);
  close(sv[0]);
  static uint8_t msg[1 << 16];
  for (;;) {
    ssize_t n = recv(sv[1], msg, sizeof msg, 0);
    if (n <= 0) _exit(0);
    pid_t k = fork();
    if (k < 0) _exit(3);
    if (k == 0) {
      alarm(60);
      Call c;
      uint32_t no = unpack(msg, c);
      Bytes r;
      put(r, &no, 4);
      try {
        if (ops::needs_ctx(c.op)) init();
        ops::HeapPlace p;
        Bytes x = ops::run(c, p);
        r.push_back(1);
        put(r, x.data(), x.size());
      } catch (Fail &f) {
        r.push_back(0);
        put(r, f.msg.data(), f.msg.size());
      }
      send(sv[1], r.data(), r.size(), 0);
      _exit(0);
    }
    int st;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      Bytes r(msg, msg + 4);
      r.push_back(2);
      send(sv[1], r.data(), r.size(), 0);
    }
  }
#endif
}
static void fresh_same(const Memo &m) {
  if (fresh_fd < 0) return;
  fresh_no++;
  Bytes q = pack(m.c), r(1 << 16);
  if (send(fresh_fd, q.data(), q.size(), 0) != (ssize_t)q.size()) _Exit(3);
  for (;;) {
    ssize_t n = recv(fresh_fd, r.data(), r.size(), 0);
    if (n < 5) _Exit(3);
    if (memcmp(r.data(), &fresh_no, 4)) continue;  // the answer to a question whose asker was stopped
    r.resize(n);
    break;
  }
  Bytes x(r.begin() + 5, r.end());
  REQUIRE(r[4] != 2, "%s ended the process that made no other call", m.c.str().c_str());
  REQUIRE(r[4] == 1, "%s alone in a process: %s", m.c.str().c_str(), std::string(x.begin(), x.end()).c_str());
  REQUIRE(x == m.r, "%s gave %s after other calls, but %s in a process that made no other call", m.c.str().c_str(), hex(m.r).c_str(), hex(x).c_str());
  classify("compared with a fresh process");
}
void pbt_setup() {
  ops::setup();
  fresh_start();
  init();
  static uint8_t rec[1 << 16];
  volatile uint64_t len;
  for (int op = 0; op < ops::NOPS; op++) {
    Tape t(mix64(0xA11C0 + op), rec, sizeof rec, &len);
    Memo m;
    m.c = ops::gen(t, 200, op);
    m.r = exec(m.c);
    anchors.push_back(m);
  }
}
static void expect(const Memo &m, const char *when) {
  Bytes r = exec(m.c);
  REQUIRE(r == m.r, "%s gave %s %s, but %s before", m.c.str().c_str(), hex(r).c_str(), when, hex(m.r).c_str());
}
struct Job {
  const std::vector<Memo> *m;
  uint64_t seed;
  int rounds;
  std::string err;
  pthread_barrier_t *bar;
};
static void *worker(void *a) {
  Job *j = (Job *)a;
  pthread_barrier_wait(j->bar);
  try {
    for (int i = 0; i < j->rounds; i++) expect((*j->m)[mix64(j->seed + i) % j->m->size()], "while other threads were running");
  } catch (Fail &f) {
    j->err = f.msg;
  }
  return nullptr;
}
static void threads(const std::vector<Memo> &m, int n, uint64_t seed, int rounds) {
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, n);
  std::vector<Job> jobs(n);
  std::vector<pthread_t> th(n);
  for (int i = 0; i < n; i++) {
    jobs[i] = {&m, seed * 31 + i * 1000003ull, rounds, "", &bar};
    if (pthread_create(&th[i], nullptr, worker, &jobs[i])) _Exit(3);
  }
  for (auto &x : th) pthread_join(x, nullptr);
  pthread_barrier_destroy(&bar);
  for (auto &j : jobs)
    if (!j.err.empty()) fail("%s", j.err.c_str());
}
// dumps by several threads at once: however they interleave, every character of every dump is there
struct DumpJob {
  int k;
  uint64_t seed;
  int rounds;
  size_t bytes = 0, blanks = 0, lines = 0;
  pthread_barrier_t *bar;
};
static void *dumper(void *a) {
  DumpJob *j = (DumpJob *)a;
  pthread_barrier_wait(j->bar);
  for (int i = 0; i < j->rounds; i++) {
    size_t n = mix64(j->seed + i) % 1200;
    Bytes b(n, (uint8_t)(j->k * 0x11));
    fingera_hex_dump(b.data(), n, 0);
    j->bytes += n;
    for (size_t p = 1; p < n; p++) {
      j->blanks += (p % 4 == 0) + (p % 8 == 0) + (p % 16 == 0);
      j->lines += p % 32 == 0;
    }
    j->lines++;
  }
  return nullptr;
}
static void dumps(int n, uint64_t seed, int rounds) {
  static int cap = memfd_create("cap", 0);
  fflush(stdout);
  if (ftruncate(cap, 0)) _Exit(3);
  lseek(cap, 0, SEEK_SET);
  int saved = dup(1);
  dup2(cap, 1);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, n);
  std::vector<DumpJob> jobs(n);
  std::vector<pthread_t> th(n);
  for (int i = 0; i < n; i++) {
    jobs[i].k = i + 1;
    jobs[i].seed = seed * 131 + i * 1000003ull;
    jobs[i].rounds = rounds;
    jobs[i].bar = &bar;
    if (pthread_create(&th[i], nullptr, dumper, &jobs[i])) _Exit(3);
  }
  for (auto &x : th) pthread_join(x, nullptr);
  pthread_barrier_destroy(&bar);
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  std::string s((size_t)lseek(cap, 0, SEEK_END), 0);
  if (!s.empty() && pread(cap, &s[0], s.size(), 0) != (ssize_t)s.size()) _Exit(3);
  size_t cnt[256] = {}, blanks = 0, lines = 0, total = 0;
  for (char c : s) cnt[(uint8_t)c]++;
  for (auto &j : jobs) {
    REQUIRE(cnt["0123456789abcdef"[j.k]] == 2 * j.bytes, "%d threads dumping at once: the digits of thread %d are there %zu times, expected %zu", n, j.k,
            cnt["0123456789abcdef"[j.k]], 2 * j.bytes);
    blanks += j.blanks;
    lines += j.lines;
    total += 2 * j.bytes;
  }
  REQUIRE(cnt[' '] == blanks && cnt['\n'] == lines && s.size() == total + blanks + lines,
          "%d threads dumping at once: %zu blanks, %zu lines, %zu characters, expected %zu, %zu, %zu", n, cnt[' '], cnt['\n'], s.size(), blanks, lines,
          total + blanks + lines);
}
void pbt_property(Tape &t) {
  if (t.chance(1, 64)) {
    int n = (int)t.range(2, 6);
    uint64_t seed = t.bits(4);
    dumps(n, seed, 6);
    key(&seed, sizeof seed);
    nontrivial();
    classify("dumps by several threads");
    return;
  }
  unsigned nc = (unsigned)t.range(2, 8);
  std::vector<Memo> memo;
  std::vector<unsigned> related;
  bool slow = t.chance(1, 4);  // the curve operations cost more
  for (unsigned i = 0; i < nc; i++) {
    Memo m;
    int op = slow ? -1 : (int)t.range(0, ops::KEY_FROM_STR);
    m.c = ops::gen(t, 260, op);
    if (!memo.empty() && t.chance(1, 3)) {
      m.c = ops::relate(t, memo[t.range(0, memo.size() - 1)].c, 260);
      related.push_back(i);
    }
    key(&m.c.op, sizeof m.c.op);
    key(m.c.a);
    key(m.c.b);
    classify(ops::name(m.c.op));
    memo.push_back(m);
  }
  if (!ctx) init();
  for (auto &m : memo) m.r = exec(m.c);
  if (t.chance(1, 2)) fresh_same(memo[related.empty() ? t.range(0, nc - 1) : related[t.range(0, related.size() - 1)]]);
  unsigned steps = (unsigned)t.range(3, 24), runs = 0, restarts = 0;
  std::string hist;
  for (unsigned i = 0; i < steps; i++) {
    unsigned k = (unsigned)t.range(0, 11);
    if (k <= 5) {
      const Memo &m = memo[t.range(0, nc - 1)];
      if (ops::needs_ctx(m.c.op) && !ctx) init();
      hist += sprintf_(" %s", ops::name(m.c.op));
      expect(m, "later");
      runs++;
    } else if (k == 6) {
      const Memo &m = anchors[t.range(0, anchors.size() - 1)];
      if (ops::needs_ctx(m.c.op) && !ctx) init();
      expect(m, "later");
      hist += " anchor";
    } else if (k == 7) {
      dirty_stack(t.byte());
      hist += " stack";
    } else if (k == 8) {
      dirty_heap(t.byte());
      hist += " heap";
    } else if (k == 9) {
      errno = (int)t.range(0, 130);
    } else if (k == 10 && t.chance(1, 4)) {
      if (ctx) uninit();
      else init();
      restarts++;
      hist += ctx ? " init" : " uninit";
    } else if (ctx) {
      uint8_t k32[32];
      fingera_btc_key_new(k32);
      hist += " new";
    }
  }
  if (runs) nontrivial();
  if (restarts) classify("with context restarts");
  if (!ctx) init();
  for (auto &m : memo) expect(m, "at the end of a history");
#ifdef PBT_TSAN
  bool thr = true;
#else
  bool thr = t.chance(1, 16);
#endif
  if (thr) {
    int n = (int)t.range(2, 4);
    threads(memo, n, t.bits(4), 12);
    classify("with threads");
    hist += sprintf_(" %d threads", n);
  }
  if (want_sample()) sample(hist);
}
void pbt_fixed(int shard, int n) {
  // every pair: operation A's anchor, then B, then A again
  for (size_t i = shard; i < anchors.size(); i += n)
    for (size_t j = 0; j < anchors.size(); j++) {
      expect(anchors[i], "before another operation");
      expect(anchors[j], "after another operation");
      expect(anchors[i], "after another operation");
      fixed_case("every pair of operations", i << 8 | j, std::string(ops::name((int)i)) + " " + ops::name((int)j));
    }
  // all anchors by many threads, and across many restarts
  threads(anchors, 8, 99 + shard, 400);
  fixed_case("all operations by 8 threads", 1u << 20 | shard);
  dumps(8, 77 + shard, 40);
  fixed_case("dumps by 8 threads", 1u << 22 | shard);
  for (int k = 0; k < 20; k++) {
    if (ctx) uninit();
    init();
    for (auto &m : anchors) expect(m, "after a restart");
    fixed_case("all operations after a restart", 1u << 21 | shard << 8 | k);
  }
}
