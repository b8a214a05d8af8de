#include <fcntl.h>
#include <unistd.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/random.h>
#include "widen.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "one call (any public operation on valid, edited and random operands, random bytes, new keys, dumps, erasing) whose operands have 0 bytes to 2 MiB "
    "(16 KiB where the work is quadratic) runs in a library whose every basic block counts itself, as does every 16 bytes that string functions handle for it. The count must stay below the limit of the statement: "
    "for the conversions from and to base58 quadratic, for everything else linear in the size of the operands. "
    "Non-trivial: operands of more than 128 bytes.";
// steps: basic blocks of the library, and what string functions do for it, 16 bytes at a step
static uint64_t steps;
extern "C" {
void __sanitizer_cov_trace_pc() { steps++; }
#define SIZED(ret, f, params, args, n) \
  ret __real_##f params;               \
  ret __wrap_##f params {              \
    steps += 1 + (n) / 16;             \
    return __real_##f args;            \
  }
SIZED(void *, memset, (void *p, int c, size_t n), (p, c, n), n)
SIZED(void *, memcpy, (void *d, const void *s, size_t n), (d, s, n), n)
SIZED(void *, memmove, (void *d, const void *s, size_t n), (d, s, n), n)
SIZED(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), n)
SIZED(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), n)
#define FOUND(ret, f, params, args, n) \
  ret __real_##f params;               \
  ret __wrap_##f params {              \
    ret r = __real_##f args;           \
    steps += 1 + (n) / 16;             \
    return r;                          \
  }
FOUND(size_t, strlen, (const char *s), (s), r)
FOUND(size_t, strnlen, (const char *s, size_t m), (s, m), r)
FOUND(void *, memchr, (const void *s, int c, size_t n), (s, c, n), r ? (size_t)((char *)r - (char *)s) : n)
FOUND(void *, memrchr, (const void *s, int c, size_t n), (s, c, n), r ? n - (size_t)((char *)r - (char *)s) : n)
FOUND(char *, strchr, (const char *s, int c), (s, c), r ? (size_t)(r - s) : strlen(s))
FOUND(size_t, strspn, (const char *s, const char *a), (s, a), r)
FOUND(size_t, strcspn, (const char *s, const char *a), (s, a), r)
}
static const uint64_t BASE = 30000, PER_BYTE = 100, PER_PAIR = 10;

static bool quadratic(int op) {
  for (int q : hungry())
    if (q == op) return true;
  return op == ops::KEY_TO_STR;
}
struct Count : ops::HeapPlace {
  uint64_t before = 0, all = 0;
  void enter() override { before = steps; }
  void leave() override { all += steps - before; }
};
static int null_fd;
static void check(const ops::Call &c) {
  Count p;
  Buf o(c.op == NEWKEY ? Bytes(32) : c.op >= ops::NOPS ? c.a : Bytes());
  int saved = -1;
  if (c.op == DUMP) {
    fflush(stdout);
    saved = dup(1);
    dup2(null_fd, 1);
  }
  switch (c.op) {
    case RAND: p.enter(), fingera_os_rand_bytes(o.p, o.n), p.leave(); break;
    case NEWKEY: p.enter(), fingera_btc_key_new(o.p), p.leave(); break;
    case DUMP: p.enter(), fingera_hex_dump(o.p, o.n, (int)c.n), p.leave(); break;
    case ERASE: p.enter(), fingera_cleanse(o.p, o.n), p.leave(); break;
    case RESTART: p.enter(), fingera_btc_key_uninit(), fingera_btc_key_init(), p.leave(); break;
    default: ops::run(c, p);
  }
  if (saved >= 0) {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
  uint64_t in = c.a.size() + c.b.size(), limit = BASE + PER_BYTE * in + (quadratic(c.op) ? PER_PAIR * in * in : 0);
  REQUIRE(p.all <= limit, "%s on operands of %llu bytes takes %llu steps: %s", opname(c.op), (unsigned long long)in, (unsigned long long)p.all,
          c.op < ops::NOPS ? c.str().c_str() : "");
  if (getenv("C33_SHOW")) fprintf(stderr, "SHOW %s %llu %llu\n", opname(c.op), (unsigned long long)in, (unsigned long long)p.all);
}
void pbt_setup() {
  ops::setup();
  null_fd = open("/dev/null", O_WRONLY);
  fingera_btc_key_init();
  hang_limit(60);
}
static void grow(Tape &t, ops::Call &c, size_t n) {
  switch (c.op) {
    case ops::BECH_DEC: c.a = t.chance(1, 2) ? Bytes(n, t.byte()) : ops::from("bc1" + std::string(n, 'q')); return;
    case ops::DEC_VARINT: case ops::DEC_ZIGZAG: c.a = t.chance(1, 2) ? Bytes(n, 0x80) : t.expand(n); return;
    case ops::FROM_B64: case ops::FROM_B64URL: case ops::FROM_B32:
      widen(t, c, n);
      if (!c.a.empty() && t.chance(1, 2)) std::fill(c.a.begin() + t.range(0, c.a.size() - 1), c.a.end(), t.pick({'=', 'A', '!'}));
      return;
  }
  if (!quadratic(c.op)) return widen(t, c, n);
  switch (t.range(0, 3)) {
    case 0: widen(t, c, n); break;  // white space, zeros, texts that end early
    case 1:
      enlarge(t, c, n * 3 / 4);
      surround(t, c);
      break;
    case 2: enlarge(t, c, n * 3 / 4), ops::edit(t, c.a, ref::b58() + " 0"); break;
    default: {  // digits, well-formed but of no meaning
      enlarge(t, c, n * 3 / 4);
      uint8_t d = (uint8_t)t.pick({'z', '1', '2', 'q', ' ', '0', '\xff'});
      if (!c.a.empty()) std::fill(c.a.begin() + t.range(0, c.a.size() - 1), c.a.end(), d);
    }
  }
}
void pbt_property(Tape &t) {
  ops::Call c;
  int op = (int)t.range(0, ALL - 1);
  if (t.chance(1, 3)) op = t.pick(hungry());
  if (op < ops::NOPS) c = ops::gen(t, 300, op);
  c.op = op;
  if (op == DUMP) c.n = t.u32() & 1;
  size_t n = length(t);
  if (quadratic(op)) n = t.chance(1, 20) ? std::min<size_t>(n, 4000) : n % 400;
  if (op >= ops::NOPS || t.chance(3, 4)) grow(t, c, op == DUMP ? std::min<size_t>(n, 30000) : n);
  key(&c.op, sizeof c.op);
  key(c.a);
  key(c.b);
  key(&c.n, 4);
  if (c.a.size() + c.b.size() > 128) nontrivial();
  classify(opname(op));
  if (want_sample()) sample(sprintf_("%s, operands of %zu and %zu bytes", opname(op), c.a.size(), c.b.size()));
  check(c);
}
void pbt_fixed(int shard, int n) {
  std::vector<uint8_t> rec(1 << 20);
  uint64_t rl = 0;
  size_t i = 0;
  for (int op = 0; op < ALL; op++)
    for (size_t len : {1u, 100u, 128u, 129u, 200u, 1000u, 4096u, 10000u, 16384u, 65536u, 300000u, 1u << 20, (1u << 21) + 1})
      for (int v = 0; v < (quadratic(op) ? 4 : 1); v++)
        if (i++ % (size_t)n == (size_t)shard) {
          if (quadratic(op) && (len > 16384 || (len > 4096 && v != op % 4))) continue;
          Tape t(mix64(i), rec.data(), rec.size(), &rl);
          ops::Call c;
          if (op < ops::NOPS) c = ops::gen(t, 300, op);
          c.op = op;
          grow(t, c, op == DUMP ? std::min<size_t>(len, 100000) : len);
          check(c);
          fixed_case("each operation, operands of thirteen sizes", i, sprintf_("%s, %zu bytes", opname(op), c.a.size()));
        }
}
