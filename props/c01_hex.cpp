#include <fingera_libc/hex.h>
#include "bigmap.hpp"
#include "medium.hpp"
#include "ref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random byte strings are encoded (both cases), compared with a bit-string model and decoded back; random/mutated digit "
    "strings (illegal characters at chosen positions, odd lengths, mixed case) are decoded and compared with the longest "
    "prefix of legal digit pairs. Non-trivial: non-empty data, or a string with at least one whole pair. Plus all 65536 "
    "two-character strings and all 256 bytes, and every length up to 2200, operands of 600 bytes to 1.5 MiB around powers of two, operands of more than 2^32 bytes (a repeated mapping; optimised build).";
void pbt_setup() {}

static int nib(uint8_t c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
static Bytes model_decode(const std::string &s) {
  Bytes r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    int h = nib(s[i]), l = nib(s[i + 1]);
    if (h < 0 || l < 0) break;
    r.push_back((uint8_t)(h * 16 + l));
  }
  return r;
}
static void check_decode(const std::string &s) {
  Buf in(s), out(fingera_from_hex_length(s.size()));
  size_t n = fingera_from_hex(in.c(), in.n, out.p);
  Bytes want = model_decode(s);
  REQUIRE(n == want.size(), "from_hex(%s) decoded %zu bytes, expected %zu", quote(s).c_str(), n, want.size());
  REQUIRE(out.vec(n) == want, "from_hex(%s) = %s, expected %s", quote(s).c_str(), hex(out.p, n).c_str(), hex(want).c_str());
}
static void check_encode(const Bytes &b, int upper) {
  size_t L = fingera_to_hex_length(b.size());
  REQUIRE(L == 2 * b.size(), "to_hex_length(%zu) = %zu", b.size(), L);
  Buf in(b), out(L);
  fingera_to_hex(in.p, in.n, out.c(), upper);
  std::string s((char *)out.p, L), want = ref::hexs(b, upper != 0);
  REQUIRE(s == want, "to_hex(%s, upper=%d) = %s", hex(b).c_str(), upper, quote(s).c_str());
  REQUIRE(in.vec() == b, "to_hex changed its input");
  REQUIRE(fingera_from_hex_length(L) >= b.size(), "from_hex_length(%zu) too small", L);
  Buf back(fingera_from_hex_length(L));
  size_t n = fingera_from_hex(out.c(), L, back.p);
  REQUIRE(n == b.size() && back.vec(n) == b, "hex round trip of %s gave %s", hex(b).c_str(), hex(back.p, n).c_str());
}
void pbt_property(Tape &t) {
  if (t.chance(1, 3)) {
    Bytes b = t.blob(t.chance(1, 200) ? 40000 : 600, 32);
    int upper = t.pick({0, 1, 2, -1, 256});
    classify(b.empty() ? "encode empty" : b.size() > 600 ? "encode long" : "encode");
    if (!b.empty()) nontrivial();
    key(b);
    key(&upper, sizeof upper);
    if (want_sample()) sample("encode " + hex(b, 40) + sprintf_(" upper=%d", upper));
    check_encode(b, upper);
    return;
  }
  std::string s = t.str_of(t.len(200, 2), "0123456789abcdefABCDEF");
  if (t.chance(2, 3) && !s.empty()) {
    size_t k = t.range(1, 2);
    for (size_t i = 0; i < k; i++) {
      static const std::string near = "/:@G`g ghxXzZ\n+-.";
      uint8_t c = t.chance(1, 2) ? t.byte() : (uint8_t)near[t.range(0, near.size() - 1)];
      s[t.range(0, s.size() - 1)] = (char)c;
    }
    classify("decode mutated");
  } else
    classify("decode legal");
  if (s.size() % 2) classify("odd length");
  if (s.size() >= 2) nontrivial();
  key(s.data(), s.size());
  if (want_sample()) sample("decode " + quote(s, 60));
  check_decode(s);
}
#if LIB_NDEBUG
static void huge(size_t n, int upper) {  // n bytes and their 2n digits; the last digit pairs differ from the repetition
  const size_t CH = 4u << 20;
  if (too_slow(n, [&](uint8_t *in, size_t m, uint8_t *out) {
        fingera_to_hex(in, m, (char *)out, upper);
        fingera_from_hex((char *)out, 2 * m, in);
      }))
    return;
  BigMap bin(n, CH);
  bin.random();
  Bytes chunk(bin.p, bin.p + CH);
  std::string hx = ref::hexs(chunk, upper != 0);
  {
    BigOut out(2 * n, 2 * CH);
    REQUIRE(fingera_to_hex_length(n) == 2 * n, "to_hex_length(%zu) = %zu", n, fingera_to_hex_length(n));
    fingera_to_hex(bin.p, n, (char *)out.p, upper);
    std::string e = out.check((const uint8_t *)hx.data(), (const uint8_t *)hx.data());
    REQUIRE(e.empty(), "to_hex of %zu bytes, upper=%d: %s", n, upper, e.c_str());
  }
  fixed_case("operands above 2^32 bytes", n, sprintf_("%zu bytes, %zu digits", n, 2 * n));
  if (n >> 32 && !tier()) return;
  BigMap txt(2 * n, 2 * CH);
  txt.set(hx.data());
  txt.own_tail();
  for (int bad = 0; bad < 2; bad++) {
    size_t want = n;
    if (bad) {  // an illegal digit five pairs before the end
      want = n - 5;
      txt.p[2 * want + 1] = 'g';
    }
    BigOut out(n, CH);
    size_t got = fingera_from_hex((char *)txt.p, 2 * n, out.p);
    REQUIRE(got == want, "from_hex of %zu digits decoded %zu bytes, expected %zu", 2 * n, got, want);
    Bytes end = chunk;
    // what lies behind the decoded bytes but inside the announced length is free
    if (bad) memcpy(end.data() + out.tail_len() - 5, out.tail() + out.tail_len() - 5, 5);
    std::string e = out.check(chunk.data(), end.data());
    REQUIRE(e.empty(), "from_hex of %zu digits: %s", 2 * n, e.c_str());
  }
}
#endif
void pbt_fixed(int shard, int n) {
  auto one = [](const Bytes &b) {
    check_encode(b, b[0] & 1);
    std::string s = ref::hexs(b, b[1] & 1);
    s[mix64(b.size()) % s.size()] = (char)b[2];
    check_decode(s);
    check_decode(s.substr(0, s.size() - 1));
  };
  medium_lengths(shard, n, one);
  every_length(shard, n, 4, 2200, one);
  for (unsigned b = 28; b < 60; b++)  // the length functions know no 32-bit limit
    for (size_t d = 0; d < 9; d++) {
      size_t x = ((size_t)1 << b) - 4 + d;
      REQUIRE(fingera_to_hex_length(x) == 2 * x, "to_hex_length(%zu) = %zu", x, fingera_to_hex_length(x));
      REQUIRE(fingera_from_hex_length(2 * x) >= x, "from_hex_length(%zu) = %zu", 2 * x, fingera_from_hex_length(2 * x));
    }
#if LIB_NDEBUG
  if (shard == 0) huge(((size_t)1 << 31) + 2000011, 0);
  if (shard == 1 || (tier() && shard == 0)) huge(((size_t)1 << 32) + 4000013, 1);
#endif
  for (int a = shard; a < 256; a += n) {
    check_encode(Bytes{(uint8_t)a}, 0);
    check_encode(Bytes{(uint8_t)a}, 1);
    for (int b = 0; b < 256; b++) {
      std::string s = {(char)a, (char)b};
      check_decode(s);
      check_decode("5a" + s + "c3");
      fixed_case("every two-character string", a * 256 + b, quote(s));
    }
  }
}
