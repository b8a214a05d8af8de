#include <errno.h>
#include <sys/mman.h>
#include "curvewatch.hpp"
#include "ops.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "one call of a random public operation (61 of them) with valid, edited or random operands is executed with its operands "
    "in several places: in front of an unmapped page, behind one, in exact-size heap blocks (AddressSanitizer build), and "
    "twice inside larger blocks at random alignment, surrounded by different bytes drawn from the alphabets the decoders "
    "understand and with differently prefilled outputs, and with its empty operands at a null address. All results must be equal, bytes around outputs and all "
    "inputs unchanged. Non-trivial: at least one input byte.";
using ops::Call;
using ops::Place;

// operands end at (or begin after) an inaccessible page
struct GuardPlace : Place {
  struct Slot {
    uint8_t *base;
    size_t pages;
  };
  static std::vector<Slot> &pool() {
    static std::vector<Slot> v;
    return v;
  }
  bool at_end;
  uint8_t fill;
  size_t used = 0;
  struct Rec {
    uint8_t *p, *lo, *hi;
    Bytes content;
    bool in;
  };
  std::vector<Rec> recs;
  GuardPlace(bool end, uint8_t f) : at_end(end), fill(f) {}
  uint8_t *take(size_t n) {
    const size_t PG = 4096;
    const size_t PAGES = 3;  // 8 KiB + slack per operand is ample: operands here are short
    if (n > PAGES * PG) abort();
    if (used == pool().size()) {
      uint8_t *m = (uint8_t *)mmap(nullptr, (PAGES + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (m == MAP_FAILED || mprotect(m + PG, PAGES * PG, PROT_READ | PROT_WRITE)) _Exit(3);
      pool().push_back({m + PG, PAGES});
    }
    Slot s = pool()[used++];
    uint8_t *p = at_end ? s.base + s.pages * PG - n : s.base;
    // the mapped bytes next to the operand
    uint8_t *lo = at_end ? (p - s.base >= 64 ? p - 64 : s.base) : p;
    uint8_t *hi = at_end ? p + n : p + n + 64;
    memset(lo, fill, hi - lo);
    recs.push_back({p, lo, hi, Bytes(), false});
    return p;
  }
  const uint8_t *in(const Bytes &b) override {
    uint8_t *p = take(b.size());
    if (!b.empty()) memcpy(p, b.data(), b.size());
    recs.back().in = true;
    recs.back().content = b;
    return p;
  }
  uint8_t *out(size_t n) override {
    uint8_t *p = take(n);
    recs.back().content = Bytes(n);
    return p;
  }
  void leave() override { check(); }
  void check() {
    for (auto &r : recs) {
      size_t n = r.content.size();
      for (uint8_t *q = r.lo; q < r.hi; q++)
        if ((q < r.p || q >= r.p + n) && *q != fill) fail("wrote outside an operand of %zu bytes, at offset %zd", n, q - r.p);
      if (r.in && n && memcmp(r.p, r.content.data(), n)) fail("changed its input %s to %s", hex(r.content).c_str(), hex(r.p, n).c_str());
    }
  }
};
// operands inside larger blocks, between chosen bytes
struct InsidePlace : Place {
  uint64_t seed;
  unsigned style, align;
  uint8_t prefill;
  static const size_t PAD = 96;
  struct Rec {
    Bytes block, before;
    size_t off, n;
    bool in;
  };
  std::vector<Rec *> recs;
  InsidePlace(uint64_t s, unsigned st, unsigned al, uint8_t pf) : seed(s), style(st), align(al), prefill(pf) {}
  ~InsidePlace() {
    for (auto r : recs) delete r;
  }
  uint8_t surround(size_t i) {
    uint64_t v = mix64(seed + i);
    static const std::string sets[] = {"1", "=", "0123456789abcdef", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_",
                                       "qpzry9x8gf2tvdw0s3jn54khce6mua7l", std::string(1, '\0'), " ", "\xff", "\x80", "\x01\x02\x20\x21\x30\x81"};
    if (style >= 10) return (uint8_t)v;
    return (uint8_t)sets[style][v % sets[style].size()];
  }
  Rec &add(size_t n) {
    Rec *r = new Rec;
    r->off = PAD + align;
    r->n = n;
    r->block.resize(n + 2 * PAD + 16);
    for (size_t i = 0; i < r->block.size(); i++) r->block[i] = surround(i + recs.size() * 1000);
    recs.push_back(r);
    return *r;
  }
  const uint8_t *in(const Bytes &b) override {
    Rec &r = add(b.size());
    if (!b.empty()) memcpy(&r.block[r.off], b.data(), b.size());
    r.in = true;
    r.before = r.block;
    return &r.block[r.off];
  }
  uint8_t *out(size_t n) override {
    Rec &r = add(n);
    memset(&r.block[r.off], prefill, n);
    r.in = false;
    r.before = r.block;
    return &r.block[r.off];
  }
  void leave() override {
    for (auto r : recs)
      for (size_t i = 0; i < r->block.size(); i++)
        if ((r->in || i < r->off || i >= r->off + r->n) && r->block[i] != r->before[i])
          fail("%s an operand of %zu bytes, at offset %zd", r->in ? "changed its input," : "wrote outside", r->n, (ssize_t)i - (ssize_t)r->off);
  }
};
// an operand of no bytes has no address either, as an empty std::vector hands out
struct NullPlace : ops::HeapPlace {
  const uint8_t *in(const Bytes &b) override { return b.empty() ? nullptr : HeapPlace::in(b); }
  uint8_t *out(size_t n) override { return n ? HeapPlace::out(n) : nullptr; }
};
void pbt_setup() {
  ops::setup();
  fingera_btc_key_init();
}
static Bytes attempt(const Call &c, Place &p, const char *where) {
  try {
    return ops::run(c, p);
  } catch (Fail &f) {
    fail("%s %s: %s", c.str().c_str(), where, f.msg.c_str());
  }
}
static void check(const Call &c, uint64_t s1, uint64_t s2, unsigned st1, unsigned st2, unsigned al) {
  Bytes r1, r2, r3, r4, r5;
  // structures want their natural alignment; only byte operands are moved off it
  bool structs = c.op >= ops::EXKEY_INIT || c.op == ops::DEC_VARINT || c.op == ops::DEC_ZIGZAG;
  if (structs) al &= ~3u;
  {
    GuardPlace p(true, 0x5A);
    r1 = attempt(c, p, "in front of an unmapped page");
  }
  {
    GuardPlace p(false, 0xA7);
    r2 = attempt(c, p, "behind an unmapped page");
  }
  {
    InsidePlace p(s1, st1, al, 0x00);
    r3 = attempt(c, p, "inside a larger block");
  }
  {
    InsidePlace p(s2, st2, structs ? 0 : (al + 1) & 15, 0xFF);
    r4 = attempt(c, p, "inside a larger block");
  }
  {
    ops::HeapPlace p;
    r5 = attempt(c, p, "in heap blocks");
  }
  REQUIRE(r1 == r2 && r1 == r3 && r1 == r4 && r1 == r5, "%s depends on where its operands are: %s | %s | %s | %s | %s", c.str().c_str(), hex(r1).c_str(),
          hex(r2).c_str(), hex(r3).c_str(), hex(r4).c_str(), hex(r5).c_str());
  {
    NullPlace p;
    Bytes r6 = attempt(c, p, "with empty operands at a null address");
    REQUIRE(r1 == r6, "%s depends on whether its empty operands have an address: %s | %s", c.str().c_str(), hex(r1).c_str(), hex(r6).c_str());
  }
}
void pbt_property(Tape &t) {
  // half the cases: decoders, the operations most exposed to hostile input
  static const int dec[] = {ops::FROM_HEX, ops::FROM_B64, ops::FROM_B64URL, ops::FROM_B32, ops::FROM_B32RAW, ops::FROM_B58, ops::FROM_B58C, ops::BECH_DEC,
                            ops::DEC_VARINT, ops::DEC_ZIGZAG, ops::ADDR_DEC, ops::KEY_FROM_STR, ops::KEY_DEC, ops::PUB_DEC, ops::SIG_DEC, ops::EXKEY_FROM_STR,
                            ops::EXPUB_FROM_STR};
  int want = t.chance(2, 3) ? dec[t.range(0, sizeof dec / sizeof *dec - 1)] : -1;
  Call c = ops::gen(t, t.chance(1, 20) ? 2000 : 200, want);
  unsigned st1 = (unsigned)t.range(0, 11), st2 = (unsigned)t.range(0, 11), al = (unsigned)t.range(0, 15);
  uint64_t s1 = t.bits(2), s2 = t.bits(2) + 70000;
  key(&c.op, sizeof c.op);
  key(c.a);
  key(c.b);
  key(&c.n, sizeof c.n);
  if (!c.a.empty()) nontrivial();
  classify(ops::name(c.op));
  if (want_sample()) sample(c.str());
  check(c, s1, s2, st1, st2, al);
}
// operations in which the first (1), the second (2) or both operands may be empty
static int may_be_empty(int op) {
  switch (op) {
    case ops::HMAC256: case ops::HMAC512: case ops::TO_B58C: return 3;
    case ops::BECH_ENC: case ops::VERIFY: return 2;
    case ops::TO_HEX: case ops::TO_B64: case ops::TO_B64URL: case ops::TO_B32: case ops::TO_B32RAW: case ops::TO_B58: case ops::SHA1: case ops::SHA256:
    case ops::SHA512: case ops::RMD160: case ops::HASH160: case ops::HASH256: case ops::HASH256_D64: case ops::EXKEY_INIT:
    case ops::FROM_HEX: case ops::FROM_B64: case ops::FROM_B64URL: case ops::FROM_B32: case ops::FROM_B32RAW: case ops::FROM_B58: case ops::FROM_B58C:
    case ops::BECH_DEC: case ops::DEC_VARINT: case ops::DEC_ZIGZAG: case ops::ADDR_DEC: case ops::KEY_FROM_STR: case ops::KEY_DEC: case ops::SIG_DEC:
    case ops::EXKEY_FROM_STR: case ops::EXPUB_FROM_STR: return 1;
    default: return 0;
  }
}
// every truncation of one valid operand per decoder, against each kind of surroundings
void pbt_fixed(int shard, int n) {
  uint8_t rec[1 << 14];
  volatile uint64_t len;
  int k = 0;
  for (int op = 0; op < ops::NOPS; op++)
    for (int m = 1; m < 4; m++)
      for (int s = 0; s < 4 && (m & ~may_be_empty(op)) == 0; s++) {
        if (k++ % n != shard) continue;
        Tape t(mix64(op * 1000 + m * 10 + s), rec, sizeof rec, &len);
        Call c = ops::gen(t, 60, op);
        if (m & 1) c.a.clear();
        if (m & 2) c.b.clear();
        if (op == ops::BECH_DEC || op == ops::ADDR_DEC) c.n = s & 1 ? 90 : 0;
        check(c, s, s + 1, (unsigned)(s * 2), (unsigned)(s * 2 + 1), (unsigned)s);
        fixed_case("empty operands", (uint64_t)op << 32 | m << 16 | s, "");
      }
  for (int op = 0; op < ops::NOPS; op++) {
    bool texty = op == ops::FROM_HEX || op == ops::FROM_B64 || op == ops::FROM_B64URL || op == ops::FROM_B32 || op == ops::FROM_B32RAW || op == ops::FROM_B58 ||
                 op == ops::FROM_B58C || op == ops::BECH_DEC || op == ops::DEC_VARINT || op == ops::DEC_ZIGZAG || op == ops::ADDR_DEC || op == ops::KEY_FROM_STR ||
                 op == ops::KEY_DEC || op == ops::SIG_DEC || op == ops::EXKEY_FROM_STR || op == ops::EXPUB_FROM_STR;
    if (!texty) continue;
    for (int s = 0; s < 6; s++) {
      if (k++ % n != shard) continue;
      Tape t(mix64(op * 100 + s), rec, sizeof rec, &len);
      Call c = ops::gen(t, 60, op);
      Bytes full = c.a;
      for (size_t L = 0; L <= full.size(); L++) {
        c.a.assign(full.begin(), full.begin() + L);
        if (op == ops::ADDR_DEC) c.n = (uint32_t)L;
        if (op == ops::BECH_DEC) c.n = 90;
        check(c, L, L + 1, (unsigned)((s * 2 + L) % 12), (unsigned)((s * 2 + 1 + L / 12) % 12), (unsigned)L & 15);
        fixed_case("every truncation of a text", (uint64_t)op << 32 | s << 16 | L, L == full.size() ? c.str() : "");
      }
    }
  }
}
