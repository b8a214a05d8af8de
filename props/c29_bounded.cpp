#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/random.h>
#include "heapwatch.hpp"
#include "widen.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "one call (any public operation on valid, edited and random operands, random bytes, new keys, dumps, erasing, stopping and starting the key "
    "context) whose operands have 0 bytes to 1 MiB runs on a private stack of 256 KiB that was painted right before the call; what was overwritten "
    "is its stack need, which must stay below the limit of the statement. The heap memory the library's own code holds at any moment of the call must "
    "stay below the limit of the statement. Non-trivial: operands of more than 128 bytes (what the temporary buffers on the stack hold).";
static const size_t STACK_LIMIT = 32 * 1024, HEAP_BASE = 16 * 1024, HEAP_FACTOR = 8;

static const size_t STACK = 256 * 1024, SLACK = 1024;
static uint8_t *stk;
static ucontext_t back, ctx;
static uint8_t *top;
static size_t depth;
static const uint64_t PAINT = 0xC3A55A3CC3A55A3Cull;
static __attribute__((noinline)) void paint() {
  top = (uint8_t *)__builtin_frame_address(0);
  for (uint64_t *p = (uint64_t *)stk; (uint8_t *)p < top - SLACK; p++) *p = PAINT;
}
static __attribute__((noinline)) void measure() {
  uint64_t *p = (uint64_t *)stk;
  while ((uint8_t *)p < top - SLACK && *p == PAINT) p++;
  size_t d = (size_t)(top - (uint8_t *)p);
  if (d > depth) depth = d;
}
struct Watch : ops::HeapPlace {
  void enter() override {
    paint();
    heapwatch::st().armed = true;
  }
  void leave() override {
    heapwatch::st().armed = false;
    measure();
  }
  ~Watch() { heapwatch::st().armed = false; }
};
static const ops::Call *todo;
static std::string err;
static Buf *operand;
static void body() {
  const ops::Call &c = *todo;
  Watch p;
  try {
    switch (c.op) {
      case RAND: p.enter(), fingera_os_rand_bytes(operand->p, operand->n), p.leave(); break;
      case NEWKEY: p.enter(), fingera_btc_key_new(operand->p), p.leave(); break;
      case DUMP: p.enter(), fingera_hex_dump(operand->p, operand->n, (int)c.n), p.leave(); break;
      case ERASE: p.enter(), fingera_cleanse(operand->p, operand->n), p.leave(); break;
      case RESTART: p.enter(), fingera_btc_key_uninit(), fingera_btc_key_init(), p.leave(); break;
      default: ops::run(c, p);
    }
  } catch (Fail &f) {
    err = f.msg;
  }
}
static int null_fd;
static void check(const ops::Call &c) {
  if (!stk) {
    uint8_t *m = (uint8_t *)mmap(nullptr, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED || mprotect(m, 65536, PROT_NONE)) _Exit(3);
    stk = m + 65536;
  }
  todo = &c;
  depth = 0;
  err.clear();
  Buf o(c.op == NEWKEY ? Bytes(32) : c.op >= ops::NOPS ? c.a : Bytes());
  operand = &o;
  heapwatch::st().now = heapwatch::st().peak = 0;
  heapwatch::st().live.clear();
  int saved = -1;
  if (c.op == DUMP) {
    fflush(stdout);
    saved = dup(1);
    dup2(null_fd, 1);
  }
  getcontext(&ctx);
  ctx.uc_stack.ss_sp = stk;
  ctx.uc_stack.ss_size = STACK;
  ctx.uc_link = &back;
  sigset_t all, old;
  sigfillset(&all);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGXCPU}) sigdelset(&all, s);
  sigprocmask(SIG_BLOCK, &all, &old);
  ctx.uc_sigmask = all;
  makecontext(&ctx, body, 0);
  swapcontext(&back, &ctx);
  sigprocmask(SIG_SETMASK, &old, nullptr);
  if (saved >= 0) {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
  if (!err.empty()) fail("%s", err.c_str());
  size_t in = c.a.size() + c.b.size() + (c.op == ops::HASH256_D64 ? (size_t)c.n * 64 : 0), heap = heapwatch::st().peak;
  REQUIRE(depth <= STACK_LIMIT, "%s on operands of %zu bytes needs %zu bytes of stack: %s", opname(c.op), in, depth, c.op < ops::NOPS ? c.str().c_str() : "");
  REQUIRE(heap <= HEAP_BASE + HEAP_FACTOR * in, "%s on operands of %zu bytes holds %zu bytes of heap memory at once: %s", opname(c.op), in, heap,
          c.op < ops::NOPS ? c.str().c_str() : "");
  if (heap) classify("takes heap memory");
  const char *e = getenv("C29_SHOW");
  if (e) {
    static size_t best[ALL], bh[ALL];
    if (depth > best[c.op] || heap > bh[c.op]) {
      if (depth > best[c.op]) best[c.op] = depth;
      if (heap > bh[c.op]) bh[c.op] = heap;
      fprintf(stderr, "SHOW %s in=%zu depth=%zu heap=%zu\n", opname(c.op), in, depth, heap);
    }
  }
}
void pbt_setup() {
  ops::setup();
  null_fd = open("/dev/null", O_WRONLY);
  fingera_btc_key_init();
}
void pbt_property(Tape &t) {
  ops::Call c;
  int op = (int)t.range(0, ALL - 1);
  if (t.chance(1, 2)) op = t.pick(hungry());
  if (op < ops::NOPS) c = ops::gen(t, 300, op);
  c.op = op;
  if (op == DUMP) c.n = t.u32() & 1;
  if (op >= ops::NOPS || t.chance(3, 4)) widen(t, c, op == DUMP ? std::min<size_t>(length(t), 30000) : length(t));
  key(&c.op, sizeof c.op);
  key(c.a);
  key(c.b);
  key(&c.n, 4);
  if (c.a.size() + c.b.size() > 128) nontrivial();
  classify(opname(op));
  if (want_sample()) sample(sprintf_("%s, operands of %zu and %zu bytes", opname(op), c.a.size(), c.b.size()));
  check(c);
}
void pbt_fixed(int shard, int n) {
  std::vector<uint8_t> rec(1 << 20);
  uint64_t rl = 0;
  size_t i = 0;
  for (int op = 0; op < ALL; op++)
    for (size_t len : {1u, 100u, 128u, 129u, 200u, 1000u, 4096u, 10000u, 20000u, 65536u, 100000u, 300000u, 1u << 20, (1u << 21) + 1})
      if (i++ % (size_t)n == (size_t)shard) {
        Tape t(mix64(i), rec.data(), rec.size(), &rl);
        ops::Call c;
        if (op < ops::NOPS) c = ops::gen(t, 300, op);
        c.op = op;
        widen(t, c, op == DUMP ? std::min<size_t>(len, 100000) : len);
        check(c);
        fixed_case("each operation, operands of fourteen sizes", i, sprintf_("%s, %zu bytes", opname(op), c.a.size()));
      }
}
