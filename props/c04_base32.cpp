#include <fingera_libc/base32.h>
#include "bigmap.hpp"
#include "medium.hpp"
#include "ref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random byte strings are encoded to padded lower-case base32 text and to raw 5-bit digits, compared with an RFC 4648 "
    "bit-string model and decoded back (any letter case); random, truncated and mutated texts/digit strings are decoded and "
    "compared with the bytes of the longest prefix of legal groups before the first '='. Output buffers have exactly the "
    "documented size. Non-trivial: at least one whole group. Plus all 1- and 2-byte inputs and every value of every "
    "character position, every length up to 2200, operands of 600 bytes to 1.5 MiB around powers of two, and operands of more than 2^32 bytes (a repeated mapping; optimised build).";
void pbt_setup() {}

static void check_decode(const std::string &s) {
  std::string core = s.substr(0, s.find('='));
  std::vector<int> d;
  for (char c : core) d.push_back(ref::index_of(ref::b32(), (uint8_t)(c >= 'A' && c <= 'Z' ? c + 32 : c)));
  Bytes want = ref::decode_groups(d, 5, 8).out;
  size_t ideal = ref::decode_groups(std::vector<int>(d.size(), 0), 5, 8).out.size();
  Buf in(s);
  size_t L = fingera_from_base32_length(in.c(), in.n);
  REQUIRE(L == ideal, "from_base32_length(%s) = %zu, expected %zu", quote(s).c_str(), L, ideal);
  Buf out(L);
  size_t n = fingera_from_base32(in.c(), in.n, out.p);
  REQUIRE(n == want.size() && out.vec(n) == want, "from_base32(%s) = %zu bytes %s, expected %zu bytes %s", quote(s).c_str(), n,
          hex(out.p, n > L ? L : n).c_str(), want.size(), hex(want).c_str());
}
static void check_decode_raw(const Bytes &g) {
  std::vector<int> d;
  for (uint8_t x : g) d.push_back(x < 32 ? x : -1);
  Bytes want = ref::decode_groups(d, 5, 8).out;
  size_t ideal = ref::decode_groups(std::vector<int>(d.size(), 0), 5, 8).out.size();
  Buf in(g);
  size_t L = fingera_from_base32_raw_length(in.n);
  REQUIRE(L == ideal, "from_base32_raw_length(%zu) = %zu, expected %zu", g.size(), L, ideal);
  Buf out(L);
  size_t n = fingera_from_base32_raw(in.p, in.n, out.p);
  REQUIRE(n == want.size() && out.vec(n) == want, "from_base32_raw(%s) = %zu bytes %s, expected %zu bytes %s", hex(g).c_str(), n,
          hex(out.p, n > L ? L : n).c_str(), want.size(), hex(want).c_str());
}
static void check_encode(const Bytes &b, std::string &s, Bytes &raw) {
  std::string want = ref::base32(b);
  size_t L = fingera_to_base32_length(b.size());
  REQUIRE(L == want.size(), "to_base32_length(%zu) = %zu, expected %zu", b.size(), L, want.size());
  Buf in(b), out(L);
  fingera_to_base32(in.p, in.n, out.c());
  s.assign((char *)out.p, L);
  REQUIRE(s == want, "to_base32(%s) = %s, expected %s", hex(b).c_str(), quote(s).c_str(), quote(want).c_str());
  std::vector<int> d = ref::to_digits(b, 5);
  Buf rout(d.size());
  size_t rn = fingera_to_base32_raw(in.p, in.n, rout.p);
  raw.assign(d.begin(), d.end());
  REQUIRE(rn == d.size() && rout.vec() == raw, "to_base32_raw(%s) = %zu digits %s, expected %s", hex(b).c_str(), rn,
          hex(rout.p, rout.n).c_str(), hex(raw).c_str());
  // round trips
  size_t dl = fingera_from_base32_length(out.c(), L);
  REQUIRE(dl == b.size(), "from_base32_length(%s) = %zu, expected %zu", quote(s).c_str(), dl, b.size());
  Buf back(dl), back2(fingera_from_base32_raw_length(rn));
  size_t n = fingera_from_base32(out.c(), L, back.p);
  REQUIRE(n == b.size() && back.vec() == b, "base32 round trip of %s gave %s", hex(b).c_str(), hex(back.p, n).c_str());
  REQUIRE(back2.n == b.size(), "from_base32_raw_length(%zu) = %zu, expected %zu", rn, back2.n, b.size());
  n = fingera_from_base32_raw(rout.p, rn, back2.p);
  REQUIRE(n == b.size() && back2.vec() == b, "raw base32 round trip of %s gave %s", hex(b).c_str(), hex(back2.p, n).c_str());
}
void pbt_property(Tape &t) {
  Bytes b = t.blob(t.chance(1, 250) ? 40000 : 400, 5);
  key(b);
  std::string s;
  Bytes raw;
  check_encode(b, s, raw);
  if (b.size() >= 5) nontrivial();
  static const char *tl[5] = {"tail 0", "tail 1", "tail 2", "tail 3", "tail 4"};
  classify(tl[b.size() % 5]);
  if (b.size() > 400) return;
  check_decode(ref::upper(s));
  if (t.chance(1, 3)) {
    for (auto &c : s)
      if (t.chance(1, 2) && c >= 'a' && c <= 'z') c -= 32;
    classify("mixed case");
  }
  unsigned muts = (unsigned)t.range(0, 4);
  for (unsigned i = 0; i < muts; i++) {
    size_t p = s.empty() ? 0 : t.range(0, s.size() - 1);
    switch (t.range(0, 8)) {
      case 0:
        if (!s.empty()) s[p] = (char)t.byte();
        break;
      case 1:
        if (!s.empty()) s[p] = '=';
        classify("'=' inside");
        break;
      case 2:
        if (!s.empty()) s[p] = "0189 \n@[`{"[t.range(0, 9)];
        break;
      case 3:
        s.resize(p);
        classify("truncated");
        break;
      case 4:
        while (!s.empty() && s.back() == '=') s.pop_back();
        classify("padding removed");
        break;
      case 5:
        s.insert(p, 1, (char)t.byte());
        break;
      case 6:
        if (!s.empty()) s.erase(p, 1);
        break;
      case 7:
        if (!s.empty()) s[p] = (char)(0x80 | t.byte());
        classify("byte >= 0x80");
        break;
      default:
        if (!s.empty()) s[p] = ref::b32()[t.range(0, 31)];
    }
  }
  classify(muts ? "mutated string" : "unmutated string");
  key(s.data(), s.size());
  if (want_sample()) sample(quote(s, 80));
  check_decode(s);
  for (unsigned i = 0; i < muts; i++) {
    size_t p = raw.empty() ? 0 : t.range(0, raw.size() - 1);
    switch (t.range(0, 3)) {
      case 0:
        if (!raw.empty()) raw[p] = t.byte();
        break;
      case 1:
        if (!raw.empty()) raw[p] = t.pick({(uint8_t)31, (uint8_t)32, (uint8_t)0x3D, (uint8_t)0xFF, (uint8_t)0x80});
        break;
      case 2:
        raw.resize(p);
        break;
      default:
        raw.insert(raw.begin() + p, (uint8_t)(t.byte() & 31));
    }
  }
  key(raw);
  check_decode_raw(raw);
}
#if LIB_NDEBUG
static void huge(size_t n, bool raw) {
  const size_t CH = 5u << 20, EC = 8u << 20;
  if (too_slow(n, [&](uint8_t *in, size_t m, uint8_t *out) {
        if (raw)
          fingera_to_base32_raw(in, m, out), fingera_from_base32_raw(out, m / 5 * 8, in);
        else
          fingera_to_base32(in, m, (char *)out), fingera_from_base32((char *)out, m / 5 * 8, in);
      }))
    return;
  BigMap bin(n, CH);
  bin.random();
  Bytes chunk(bin.p, bin.p + CH), head(chunk.begin(), chunk.begin() + bin.tail_len());
  std::string enc, end;
  if (raw) {
    for (int d : ref::to_digits(chunk, 5)) enc.push_back((char)d);
    for (int d : ref::to_digits(head, 5)) end.push_back((char)d);
  } else
    enc = ref::base32(chunk), end = ref::base32(head);
  size_t want = (bin.maps - 1) * EC + end.size();
  if (!raw) REQUIRE(fingera_to_base32_length(n) == want, "to_base32_length(%zu) = %zu, expected %zu", n, fingera_to_base32_length(n), want);
  {
    BigOut out(want, EC);
    size_t got = want;
    if (raw)
      got = fingera_to_base32_raw(bin.p, n, out.p);
    else
      fingera_to_base32(bin.p, n, (char *)out.p);
    REQUIRE(got == want, "to_base32_raw of %zu bytes gave %zu digits, expected %zu", n, got, want);
    std::string e = out.check((const uint8_t *)enc.data(), (const uint8_t *)end.data());
    REQUIRE(e.empty(), "to_base32%s of %zu bytes: %s", raw ? "_raw" : "", n, e.c_str());
  }
  BigMap txt(want, EC);
  txt.set(enc.data());
  txt.own_tail();
  memcpy(txt.tail(), end.data(), end.size());
  size_t dl = raw ? fingera_from_base32_raw_length(want) : fingera_from_base32_length((char *)txt.p, want);
  REQUIRE(dl == n, "decoded length of %zu characters announced as %zu, expected %zu", want, dl, n);
  BigOut out(n, CH);
  size_t got = raw ? fingera_from_base32_raw(txt.p, want, out.p) : fingera_from_base32((char *)txt.p, want, out.p);
  REQUIRE(got == n, "from_base32%s of %zu characters decoded %zu bytes, expected %zu", raw ? "_raw" : "", want, got, n);
  std::string e = out.check(chunk.data(), chunk.data());
  REQUIRE(e.empty(), "from_base32%s of %zu characters: %s", raw ? "_raw" : "", want, e.c_str());
  fixed_case("operands above 2^32 bytes", n * 2 + raw, sprintf_("%zu bytes, %zu %s", n, want, raw ? "digits" : "characters"));
}
#endif
void pbt_fixed(int shard, int n) {
  auto one = [](const Bytes &b) {
    std::string s;
    Bytes r;
    check_encode(b, s, r);
    size_t p = mix64(b.size()) % r.size();
    s[p] = (char)b[2];
    r[p] = b[2];
    check_decode(s);
    check_decode(s.substr(0, s.size() - 1 - b[3] % 7));
    check_decode_raw(r);
  };
  medium_lengths(shard, n, one);
  every_length(shard, n, 4, 2200, one);
  for (unsigned b = 28; b < 60; b++)  // the length functions know no 32-bit limit
    for (size_t d = 0; d < 12; d++) {
      static const size_t extra[5] = {0, 2, 4, 5, 7};
      size_t x = ((size_t)1 << b) - 6 + d, r = x % 5, e = x / 5 * 8;
      REQUIRE(fingera_to_base32_length(x) == e + (r ? 8 : 0), "to_base32_length(%zu) = %zu", x, fingera_to_base32_length(x));
      size_t y = e + extra[r];
      REQUIRE(fingera_from_base32_raw_length(y) == x, "from_base32_raw_length(%zu) = %zu, expected %zu", y, fingera_from_base32_raw_length(y), x);
    }
#if LIB_NDEBUG
  size_t k = (size_t)1 << 32;
  if (shard < 2) huge((shard ? k + 2 : k / 8 * 5 + 3) + 40000, shard);
  if (tier() && shard < 2) huge(k + 3000001, !shard);
#endif
  std::string s;
  Bytes r;
  for (int a = shard; a < 256; a += n) {
    check_encode(Bytes{(uint8_t)a}, s, r);
    for (int pos = 0; pos < 9; pos++) {
      std::string q = "mzxw6ytbo";
      q[pos] = (char)a;
      for (size_t k = pos + 1; k <= 9; k++) check_decode(q.substr(0, k));
      Bytes g = {12, 25, 23, 22, 30, 24, 19, 1, 14};
      g[pos] = (uint8_t)a;
      for (size_t k = pos + 1; k <= 9; k++) check_decode_raw(Bytes(g.begin(), g.begin() + k));
      fixed_case("every character value in every position", a * 16 + pos, quote(q));
    }
    for (int b = 0; b < 256; b++) {
      check_encode(Bytes{(uint8_t)a, (uint8_t)b}, s, r);
      check_encode(Bytes{0x12, (uint8_t)b, 0x5A, (uint8_t)a}, s, r);
      check_encode(Bytes{0x12, 0xEE, (uint8_t)b, (uint8_t)a, 0x41}, s, r);
      check_decode({(char)a, (char)b});
      fixed_case("every two-byte input", a * 256 + b);
    }
  }
}
