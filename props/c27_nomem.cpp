#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "enlarge.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "a public operation on operands large enough to need heap memory (valid, edited and random ones) is run once normally, counting its "
    "allocations (malloc, calloc, realloc seen through the linker), then once per allocation in a forked child in which that one - or "
    "it and every later one - gives NULL. The child must either die (signal or failure status, without a sanitizer report of an access "
    "outside a block), or return the right result, or report failure in the way the operation has; after which the same call with memory again "
    "available gives the right result. Non-trivial: the call allocates. Plus every parser and encoder over a grid of operand sizes.";
static struct {
  bool armed = false, on = false, all = false;
  size_t count = 0, at = 0, failed = 0;
} W;
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
static bool refuse() {
  if (!W.armed) return false;
  size_t i = W.count++;
  if (!W.on || !(W.all ? i >= W.at : i == W.at)) return false;
  W.failed++;
  errno = ENOMEM;
  return true;
}
void *__wrap_malloc(size_t n) { return refuse() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return refuse() ? nullptr : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return refuse() ? nullptr : __real_realloc(p, n); }
}
struct Watched : ops::HeapPlace {
  void enter() override { W.armed = true; }
  void leave() override { W.armed = false; }
};
struct Shared {
  int state;  // 1 returned; 2 returned and the second call too; 3 failed check
  size_t n, n2;
  char msg[1000];
  uint8_t r[1 << 16], r2[1 << 16];
};
static Shared *sh;
void pbt_setup() {
  ops::setup();
  fingera_btc_key_init();
  sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static Bytes once(const ops::Call &c) {
  Watched p;
  struct Off {
    ~Off() { W.armed = false; }
  } off;
  return ops::run(c, p);
}
// does the result say "refused" in the operation's own way?
static bool says_failure(int op, const Bytes &r) {
  using namespace ops;
  auto num = [&](size_t i) {
    uint64_t v = 0;
    for (int j = 7; j >= 0; j--) v = v << 8 | (i * 8 + j < r.size() ? r[i * 8 + j] : 0);
    return v;
  };
  switch (op) {
    case FROM_HEX: case FROM_B64: case FROM_B64URL: case FROM_B32: case FROM_B58: case FROM_B58C: return num(1) == 0;
    case TO_B32RAW: case FROM_B32RAW: case TO_B58: case TO_B58C: case BECH_DEC: case ENC_VARINT: case DEC_VARINT: case ENC_ZIGZAG: case DEC_ZIGZAG:
    case ADDR_PK: case ADDR_SC: case ADDR_WKH: case ADDR_WSH: case ADDR_WUN: case KEY_TO_STR: case KEY_FROM_STR: case KEY_DERIVE: case KEY_ENC:
    case KEY_DEC: case PUB_DERIVE: case PUB_DEC: case SIG_DEC: case VERIFY: case PUB_KEYID: case EXKEY_DERIVE: case EXPUB_DERIVE: case EXKEY_TO_STR:
    case EXKEY_FROM_STR: case EXPUB_TO_STR: case EXPUB_FROM_STR: return num(0) == 0;
    case ADDR_DEC: return num(0) == BTC_BAD_ADDRESS;
    default: return false;
  }
}
static const char *memory_report(const std::string &e) {
  for (auto s : {"buffer-overflow", "buffer-underflow", "use-after", "double-free", "bad-free", "invalid-free", "not malloc", "stack smashing", "corrupt", "free():", "malloc():", "out of bounds"})
    if (e.find(s) != std::string::npos) return s;
  return nullptr;
}
// returns the number of allocations of the call
static size_t check(const ops::Call &c, bool every_later) {
  W.on = false;
  W.count = 0;
  Bytes want = once(c);
  size_t total = W.count;
  if (want.size() > sizeof sh->r) return 0;
  for (size_t at = 0; at < total && at < 12; at++) {
    sh->state = 0;
    sh->msg[0] = 0;
    int fds[2];
    if (pipe(fds)) _Exit(3);
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) _Exit(3);
    if (p == 0) {
      alarm(60);
      dup2(fds[1], 2);
      close(fds[0]), close(fds[1]);
      try {
        W.on = true;
        W.all = every_later;
        W.at = at;
        W.count = W.failed = 0;
        Bytes r = once(c);
        sh->n = r.size();
        memcpy(sh->r, r.data(), r.size() < sizeof sh->r ? r.size() : sizeof sh->r);
        sh->state = 1;
        W.on = false;
        r = once(c);
        sh->n2 = r.size();
        memcpy(sh->r2, r.data(), r.size() < sizeof sh->r ? r.size() : sizeof sh->r);
        sh->state = 2;
      } catch (Fail &f) {
        snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
        sh->state = 3;
      }
      _exit(0);
    }
    close(fds[1]);
    std::string err;
    char b[1024];
    ssize_t n;
    while ((n = read(fds[0], b, sizeof b)) > 0) err.append(b, (size_t)n);
    close(fds[0]);
    int st;
    if (waitpid(p, &st, 0) != p) _Exit(3);
    std::string d = c.str() + sprintf_(" with allocation %zu of %zu failing%s", at + 1, total, every_later ? " and all later ones" : "");
    REQUIRE(sh->state != 3, "%s: %s", d.c_str(), sh->msg);
    const char *rep = memory_report(err);
    REQUIRE(!rep, "%s corrupted memory: %s", d.c_str(), rep);
    if (sh->state == 0) {  // ended inside the library
      REQUIRE(WIFSIGNALED(st) || WEXITSTATUS(st) != 0, "%s ended the process with status 0", d.c_str());
      REQUIRE(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "%s never returned", d.c_str());
      classify("process ended");
      continue;
    }
    Bytes r(sh->r, sh->r + (sh->n < sizeof sh->r ? sh->n : sizeof sh->r)), r2(sh->r2, sh->r2 + (sh->n2 < sizeof sh->r ? sh->n2 : sizeof sh->r));
    REQUIRE(r == want || says_failure(c.op, r), "%s returned %s, the right result is %s", d.c_str(), hex(r).c_str(), hex(want).c_str());
    classify(r == want ? "right result" : "failure reported");
    REQUIRE(sh->state == 2, "%s: the next call ended the process", d.c_str());
    REQUIRE(r2 == want, "%s: the next call, with memory available, gave %s, the right result is %s", d.c_str(), hex(r2).c_str(), hex(want).c_str());
  }
  return total;
}
void pbt_property(Tape &t) {
  ops::Call c = t.chance(1, 6) ? ops::gen(t, 400) : ops::gen(t, 400, t.pick(hungry()));
  if (t.chance(3, 4)) enlarge(t, c, t.range(60, 400));
  if (t.chance(1, 2)) surround(t, c);
  bool all = t.chance(1, 3);
  key(&c.op, sizeof c.op);
  key(c.a);
  key(c.b);
  size_t n = check(c, all);
  if (n) nontrivial();
  classify(n ? ops::name(c.op) : "takes no heap memory");
  if (n && want_sample()) sample(c.str() + sprintf_(", %zu allocations", n));
}
void pbt_fixed(int shard, int n) {
  int k = 0;
  for (int op : hungry())
    for (size_t len : {(size_t)10, (size_t)32, (size_t)33, (size_t)74, (size_t)90, (size_t)100, (size_t)127, (size_t)128, (size_t)129, (size_t)150, (size_t)256, (size_t)700})
      for (int pad : {0, 1, 2}) {
        if (k++ % n != shard) continue;
        uint8_t tape[512];
        for (int i = 0; i < 512; i++) tape[i] = (uint8_t)mix64((uint64_t)k * 512 + i);
        Tape t(tape, sizeof tape);
        ops::Call c = ops::gen(t, 300, op);
        enlarge(t, c, len);
        if (pad) surround(t, c);
        size_t a = check(c, pad == 2);
        fixed_case("a grid of operand sizes", k, sprintf_("%s of %zu bytes: %zu allocations", ops::name(op), c.a.size(), a));
      }
}
