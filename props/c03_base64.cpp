#include <fingera_libc/base64.h>
#include "bigmap.hpp"
#include "medium.hpp"
#include "ref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random byte strings are encoded with the standard and the URL-safe alphabet, compared with an RFC 4648 bit-string model "
    "and decoded back; random, truncated and mutated encodings ('=' moved, the other alphabet's digits, bytes >= 0x80, any "
    "length mod 4) are decoded and compared with the bytes of the longest prefix of legal groups. Output buffers have exactly "
    "the documented size. Non-trivial: at least one whole group. Plus all 1- and 2-byte inputs and every value of every "
    "character position of a group, every length up to 2200, operands of 600 bytes to 1.5 MiB around powers of two, and operands of more than 2^32 bytes (a repeated mapping; optimised build).";
void pbt_setup() {}

static size_t dec_len(const std::string &s, bool url) {
  return url ? fingera_from_base64_urlsafe_length(s.size()) : fingera_from_base64_length(s.data(), s.size());
}
static void check_decode(const std::string &s, bool url) {
  std::string core = s;
  if (!url)
    for (int i = 0; i < 2 && !core.empty() && core.back() == '='; i++) core.pop_back();
  std::vector<int> d;
  const std::string &a = url ? ref::b64url() : ref::b64std();
  for (char c : core) d.push_back(ref::index_of(a, (uint8_t)c));
  Bytes want = ref::decode_groups(d, 6, 4).out;
  Buf in(s);
  size_t L = url ? fingera_from_base64_urlsafe_length(in.n) : fingera_from_base64_length(in.c(), in.n);
  Bytes ideal = ref::decode_groups(std::vector<int>(d.size(), 0), 6, 4).out;
  REQUIRE(L == ideal.size(), "decoded length of %s (%s) announced as %zu, expected %zu", quote(s).c_str(), url ? "url" : "std", L, ideal.size());
  Buf out(L);
  size_t n = url ? fingera_from_base64_urlsafe(in.c(), in.n, out.p) : fingera_from_base64(in.c(), in.n, out.p);
  REQUIRE(n == want.size() && out.vec(n) == want, "from_base64%s(%s) = %zu bytes %s, expected %zu bytes %s", url ? "_urlsafe" : "",
          quote(s).c_str(), n, hex(out.p, n > L ? L : n).c_str(), want.size(), hex(want).c_str());
}
static std::string check_encode(const Bytes &b, bool url) {
  std::string want = ref::base64(b, url);
  size_t L = url ? fingera_to_base64_urlsafe_length(b.size()) : fingera_to_base64_length(b.size());
  REQUIRE(L == want.size(), "encoded length of %zu bytes (%s) announced as %zu, expected %zu", b.size(), url ? "url" : "std", L, want.size());
  Buf in(b), out(L);
  url ? fingera_to_base64_urlsafe(in.p, in.n, out.c()) : fingera_to_base64(in.p, in.n, out.c());
  std::string s((char *)out.p, L);
  REQUIRE(s == want, "to_base64%s(%s) = %s, expected %s", url ? "_urlsafe" : "", hex(b).c_str(), quote(s).c_str(), quote(want).c_str());
  size_t dl = dec_len(s, url);
  REQUIRE(dl == b.size(), "decoded length of %s announced as %zu, expected %zu", quote(s).c_str(), dl, b.size());
  Buf back(dl);
  size_t n = url ? fingera_from_base64_urlsafe(out.c(), L, back.p) : fingera_from_base64(out.c(), L, back.p);
  REQUIRE(n == b.size() && back.vec() == b, "base64 (%s) round trip of %s gave %s", url ? "url" : "std", hex(b).c_str(), hex(back.p, n).c_str());
  return s;
}
void pbt_property(Tape &t) {
  bool url = t.chance(1, 2);
  Bytes b = t.blob(t.chance(1, 250) ? 40000 : 400, 3);
  key(b);
  std::string s = check_encode(b, url);
  if (b.size() >= 3) nontrivial();
  classify(url ? "urlsafe" : "standard");
  classify(b.size() % 3 == 0 ? "tail 0" : b.size() % 3 == 1 ? "tail 1" : "tail 2");
  if (b.size() > 400) return;
  unsigned muts = (unsigned)t.range(0, 4);
  for (unsigned i = 0; i < muts; i++) {
    size_t p = s.empty() ? 0 : t.range(0, s.size() - 1);
    switch (t.range(0, 8)) {
      case 0:
        if (!s.empty()) s[p] = (char)t.byte();
        break;
      case 1:
        if (!s.empty()) s[p] = '=';
        classify("'=' inside");
        break;
      case 2:
        if (!s.empty()) s[p] = "+/-_ \n\r.,"[t.range(0, 8)];
        break;
      case 3:
        s.resize(p);
        classify("truncated");
        break;
      case 4:
        s += std::string(t.range(1, 4), '=');
        break;
      case 5:
        s.insert(p, 1, (char)t.byte());
        break;
      case 6:
        if (!s.empty()) s.erase(p, 1);
        break;
      case 7:
        if (!s.empty()) s[p] = (char)(0x80 | t.byte());
        classify("byte >= 0x80");
        break;
      default:
        if (!s.empty()) s[p] = ref::b64std()[t.range(0, 63)];
    }
  }
  key(s.data(), s.size());
  classify(muts ? "mutated string" : "unmutated string");
  if (want_sample()) sample(std::string(url ? "url " : "std ") + quote(s, 80));
  check_decode(s, url);
  check_decode(s, !url);
}
#if LIB_NDEBUG
static void huge(size_t n, bool url) {
  const size_t CH = 3u << 20, EC = 4u << 20;
  if (too_slow(n, [&](uint8_t *in, size_t m, uint8_t *out) {
        url ? fingera_to_base64_urlsafe(in, m, (char *)out) : fingera_to_base64(in, m, (char *)out);
        url ? fingera_from_base64_urlsafe((char *)out, m / 3 * 4, in) : fingera_from_base64((char *)out, m / 3 * 4, in);
      }))
    return;
  BigMap bin(n, CH);
  bin.random();
  Bytes chunk(bin.p, bin.p + CH);
  std::string enc = ref::base64(chunk, url), end = ref::base64(Bytes(chunk.begin(), chunk.begin() + bin.tail_len()), url);
  size_t L = url ? fingera_to_base64_urlsafe_length(n) : fingera_to_base64_length(n), want = (n / CH - (n % CH ? 0 : 1)) * EC + end.size();
  REQUIRE(L == want, "encoded length of %zu bytes (%s) announced as %zu, expected %zu", n, url ? "url" : "std", L, want);
  {
    BigOut out(L, EC);
    url ? fingera_to_base64_urlsafe(bin.p, n, (char *)out.p) : fingera_to_base64(bin.p, n, (char *)out.p);
    std::string e = out.check((const uint8_t *)enc.data(), (const uint8_t *)end.data());
    REQUIRE(e.empty(), "to_base64%s of %zu bytes: %s", url ? "_urlsafe" : "", n, e.c_str());
  }
  BigMap txt(L, EC);
  txt.set(enc.data());
  txt.own_tail();
  memcpy(txt.tail(), end.data(), end.size());
  size_t dl = url ? fingera_from_base64_urlsafe_length(L) : fingera_from_base64_length((char *)txt.p, L);
  REQUIRE(dl == n, "decoded length of %zu characters announced as %zu, expected %zu", L, dl, n);
  BigOut out(n, CH);
  size_t got = url ? fingera_from_base64_urlsafe((char *)txt.p, L, out.p) : fingera_from_base64((char *)txt.p, L, out.p);
  REQUIRE(got == n, "from_base64%s of %zu characters decoded %zu bytes, expected %zu", url ? "_urlsafe" : "", L, got, n);
  std::string e = out.check(chunk.data(), chunk.data());
  REQUIRE(e.empty(), "from_base64%s of %zu characters: %s", url ? "_urlsafe" : "", L, e.c_str());
  fixed_case("operands above 2^32 bytes", n * 2 + url, sprintf_("%zu bytes, %zu characters, %s", n, L, url ? "url" : "std"));
}
#endif
void pbt_fixed(int shard, int n) {
  auto one = [](const Bytes &b) {
    for (int u = 0; u < 2; u++) {
      check_encode(b, u);
      std::string s = ref::base64(b, u);
      s[mix64(b.size() + (size_t)u) % s.size()] = (char)b[2];
      check_decode(s, u);
      check_decode(s.substr(0, s.size() - 1 - b[3] % 3), u);
    }
  };
  medium_lengths(shard, n, one);
  every_length(shard, n, 4, 2200, one);
  for (unsigned b = 28; b < 60; b++)  // the length functions know no 32-bit limit
    for (size_t d = 0; d < 12; d++) {
      size_t x = ((size_t)1 << b) - 6 + d, r = x % 3, e = x / 3 * 4;
      REQUIRE(fingera_to_base64_length(x) == e + (r ? 4 : 0), "to_base64_length(%zu) = %zu", x, fingera_to_base64_length(x));
      REQUIRE(fingera_to_base64_urlsafe_length(x) == e + (r ? r + 1 : 0), "to_base64_urlsafe_length(%zu) = %zu", x, fingera_to_base64_urlsafe_length(x));
      size_t y = e + (r ? r + 1 : 0);
      REQUIRE(fingera_from_base64_urlsafe_length(y) == x, "from_base64_urlsafe_length(%zu) = %zu, expected %zu", y, fingera_from_base64_urlsafe_length(y), x);
    }
#if LIB_NDEBUG
  size_t k = (size_t)1 << 32;
  if (shard < 2) huge((shard ? k + 1 : k / 4 * 3 + 5) + 40000, shard);
  if (tier() && shard < 2) huge(k + 3000000, !shard);
#endif
  for (int a = shard; a < 256; a += n) {
    for (int u = 0; u < 2; u++) {
      check_encode(Bytes{(uint8_t)a}, u);
      for (int b = 0; b < 256; b++) {
        check_encode(Bytes{(uint8_t)a, (uint8_t)b}, u);
        check_encode(Bytes{(uint8_t)b, 0x5A, (uint8_t)a}, u);
        std::string p = {(char)a, (char)b};
        check_decode(p, u);
        check_decode("QUJD" + p, u);
        check_decode(p + "A", u);
        check_decode("A" + p, u);
        check_decode(p + "BC", u);
        check_decode("B" + p + "C", u);
        check_decode("BC" + p, u);
        check_decode("BCDE" + p + "FG", u);
        fixed_case("every pair of characters in every position", (u * 256 + a) * 256 + b, quote(p));
      }
    }
  }
}
