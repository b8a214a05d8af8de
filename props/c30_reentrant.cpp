#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/random.h>
#include "ops.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "one call (any public operation, random bytes, erasing) is executed one machine instruction at a time by the processor's trap flag (functions of "
    "other libraries are run through), and at chosen instructions another call - often the same operation on other operands - runs to its end in the "
    "trap's signal handler: at every instruction, every k-th one, or a single one. Both calls must give what they give alone. Non-trivial: an interrupted call of at "
    "least 20 instructions with at least one interruption. Plus, for every operation, interruptions at every instruction (up to a limit) by itself and by a call of another operation.";
enum { RAND = ops::NOPS, ERASE, ALL };
static const char *name(int op) { return op < ops::NOPS ? ops::name(op) : op == RAND ? "os_rand_bytes" : "cleanse"; }
static Bytes perform(const ops::Call &c, ops::Place &p) {
  if (c.op < ops::NOPS) return ops::run(c, p);
  Buf b(c.a);
  p.enter();
  if (c.op == RAND) fingera_os_rand_bytes(b.p, b.n);
  else fingera_cleanse(b.p, b.n);
  p.leave();
  return c.op == RAND ? Bytes{1} : b.vec();
}
extern char __executable_start, etext;
static uintptr_t lo, hi;
static bool stepping;
static uint8_t under;     // the byte a breakpoint replaces
static uintptr_t bp;      // breakpoint at the return from another library, or 0
static uint64_t steps, first, every, limit, hits, where;
static const ops::Call *guest;
static const Bytes *guest_wants;
static std::string trouble;
static void interrupt(uintptr_t ip) {
  hits++;
  int e = errno;
  try {
    ops::HeapPlace p;
    Bytes r = perform(*guest, p);
    if (trouble.empty() && r != *guest_wants)
      trouble = sprintf_("the interrupting call gave %s instead of %s", hex(r, 120).c_str(), hex(*guest_wants, 120).c_str()), where = steps;
  } catch (Fail &f) {
    if (trouble.empty()) trouble = "the interrupting call: " + f.msg, where = steps;
  }
  errno = e;
  (void)ip;
}
static void on_trap(int, siginfo_t *, void *u) {
  greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
  uintptr_t ip = (uintptr_t)g[REG_RIP];
  if (bp && ip == bp + 1) {
    *(volatile uint8_t *)bp = under;
    g[REG_RIP] = (greg_t)(ip = bp);
    bp = 0;
  } else if (ip < lo || ip >= hi) {  // in another library: go on at its return
    uintptr_t ra = *(uintptr_t *)g[REG_RSP];
    if (ra >= lo && ra < hi && !bp) {
      bp = ra;
      under = *(uint8_t *)bp;
      *(volatile uint8_t *)bp = 0xCC;
      g[REG_EFL] &= ~0x100;
    }
    return;
  }
  if (!stepping) {
    g[REG_EFL] &= ~0x100;
    return;
  }
  steps++;
  if (steps >= limit) g[REG_EFL] &= ~0x100;
  else g[REG_EFL] |= 0x100;
  if (steps >= first && (steps == first || (every && (steps - first) % every == 0))) interrupt(ip);
}
struct Stepped : ops::HeapPlace {
  bool on = false;
  void enter() override {
    on = stepping = true;
    asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
  }
  void leave() override {
    stepping = on = false;
    asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
  }
};
void pbt_setup() {
  hang_limit(30);
  ops::setup();
  fingera_btc_key_init();
  lo = (uintptr_t)&__executable_start;
  hi = (uintptr_t)&etext;
  uintptr_t a = lo & ~4095ul;
  if (mprotect((void *)a, (hi - a + 4095) & ~4095ul, PROT_READ | PROT_WRITE | PROT_EXEC)) {
    perror("mprotect of the program's code");
    _Exit(3);
  }
  struct sigaction s;
  memset(&s, 0, sizeof s);
  s.sa_sigaction = on_trap;
  s.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &s, nullptr);
}
static std::string desc(const ops::Call &c) { return c.op < ops::NOPS ? c.str() : sprintf_("%s(%zu bytes)", name(c.op), c.a.size()); }
static uint64_t check(const ops::Call &host, const ops::Call &g, uint64_t at, uint64_t k, uint64_t max) {
  ops::HeapPlace p1, p2;
  Bytes want = perform(host, p1), gwant = perform(g, p2);
  guest = &g;
  guest_wants = &gwant;
  trouble.clear();
  steps = hits = 0;
  first = at;
  every = k;
  limit = max;
  Bytes got;
  {
    Stepped s;
    got = perform(host, s);
  }
  std::string h = desc(host), w = hits ? sprintf_("interrupted %llu times from instruction %llu on", (unsigned long long)hits, (unsigned long long)at) : "not interrupted";
  REQUIRE(trouble.empty(), "%s, at instruction %llu of %s: %s", desc(g).c_str(), (unsigned long long)where, h.c_str(), trouble.c_str());
  REQUIRE(got == want, "%s, %s by %s, gave %s instead of %s", h.c_str(), w.c_str(), desc(g).c_str(), hex(got, 120).c_str(), hex(want, 120).c_str());
  return steps;
}
static ops::Call gen(Tape &t, int op, size_t max) {
  ops::Call c;
  if (op < ops::NOPS) c = ops::gen(t, max, op);
  else c.a = Bytes(t.range(0, 80));
  c.op = op;
  return c;
}
void pbt_property(Tape &t) {
  int a = (int)t.range(0, ALL - 1), b = t.chance(1, 2) ? a : t.chance(1, 2) ? (int)t.range(a < 6 ? 0 : a - 6, std::min(a + 6, ALL - 1)) : (int)t.range(0, ALL - 1);
  ops::Call host = gen(t, a, t.chance(1, 10) ? 250 : 60), g = gen(t, b, t.chance(1, 10) ? 250 : 60);
  uint64_t at = t.chance(1, 3) ? t.range(0, 200) : t.chance(1, 2) ? t.range(0, 1500) : t.range(0, 12000), k = t.chance(1, 3) ? 0 : t.chance(1, 2) ? t.range(20, 100) : t.range(100, 3000);
  key(&host.op, sizeof(int));
  key(host.a);
  key(host.b);
  key(&g.op, sizeof(int));
  key(g.a);
  key(&at, 8);
  key(&k, 8);
  classify(name(a));
  if (want_sample()) sample(sprintf_("%s interrupted from instruction %llu on, every %llu, by %s", desc(host).c_str(), (unsigned long long)at, (unsigned long long)k, desc(g).c_str()));
  uint64_t s = check(host, g, at, k, at + (k ? 1500 : 1));
  if (s >= 20 && hits) nontrivial(), classify(a == b ? "interrupted by the same operation" : "interrupted by another operation");
}
void pbt_fixed(int shard, int n) {
  std::vector<uint8_t> rec(1 << 20);
  uint64_t rl = 0;
  size_t i = 0;
  for (int op = 0; op < ALL; op++)
    for (int v = 0; v < 6; v++)
      if (i++ % (size_t)n == (size_t)shard) {
        Tape t(mix64(i * 7), rec.data(), rec.size(), &rl);
        ops::Call host = gen(t, op, v < 3 ? 24 : 120), g = gen(t, v % 3 ? op : (int)t.range(0, ALL - 1), 60);
        bool slow = g.op >= ops::KEY_TO_STR && g.op < ops::NOPS;  // curve arithmetic
        uint64_t s = check(host, g, 1, slow ? 17 : 1, 6000), h = hits;
        fixed_case("every operation interrupted at every instruction", i, sprintf_("%s, %llu instructions, interrupted %llu times by %s", name(op), (unsigned long long)s, (unsigned long long)h, name(g.op)));
      }
}
