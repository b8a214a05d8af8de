#include <fingera_libc/btc/bech32.h>
#include "ref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random human-readable parts (1..83 characters 33..126 without upper case, '1' included) and 5-bit data are encoded, "
    "compared with a polynomial-division model of BIP 173 and decoded back in lower and upper case; strings built with model "
    "checksums over odd parts or for other constants (0, bech32m ...), and mutated strings (1..4 substitutions, which must always be caught when the letter case stays "
    "consistent; mixed case, separators moved, control and 8-bit characters, lengths around 90, truncation, the final-'p' "
    "insertion) are accepted exactly when the model accepts. Non-trivial: at least one data character. Plus every "
    "single-character substitution (all 256 byte values) of 40 strings and every total length 0..100.";
void pbt_setup() {}

static const std::string &hrp_chars() {
  static std::string s;
  if (s.empty())
    for (int c = 33; c <= 126; c++)
      if (!(c >= 'A' && c <= 'Z')) s += (char)c;
  return s;
}
static std::string encode(const std::string &hrp, const std::vector<int> &d) {
  std::string want = ref::bech32(hrp, d);
  size_t L = fingera_bech32_encode_length(hrp.size(), d.size());
  REQUIRE(L == want.size(), "bech32_encode_length(%zu,%zu) = %zu, expected %zu", hrp.size(), d.size(), L, want.size());
  Bytes db(d.begin(), d.end());
  Buf h(hrp), data(db), out(L);
  fingera_bech32_encode(h.c(), h.n, data.p, data.n, out.c());
  std::string s((char *)out.p, L);
  REQUIRE(s == want, "bech32_encode(%s, %s) = %s, expected %s", quote(hrp).c_str(), hex(db).c_str(), quote(s).c_str(), quote(want).c_str());
  return s;
}
// slack: capacity offered for the human-readable part beyond what it needs (negative: too small)
static bool decode(const std::string &s, int slack = 0) {
  std::string hrp;
  std::vector<int> d;
  bool ok = ref::unbech32(s, hrp, d);
  // the largest part before a separator that could be copied out: what the string's own last '1' allows
  size_t sep = s.rfind('1');
  size_t need = sep == std::string::npos ? 0 : sep;
  size_t cap = slack >= 0 ? need + (size_t)slack : need > (size_t)-slack ? need - (size_t)-slack : 0;
  size_t dcap = s.size() < 7 ? 0 : s.size() - 7;  // documented size of the data buffer
  Buf in(s), h(cap), data(dcap);
  size_t hs = cap;
  int r = fingera_bech32_decode(in.c(), in.n, h.c(), &hs, data.p);
  if (!ok) {
    REQUIRE(r < 0, "bech32_decode(%s) accepted an invalid string (%d values)", quote(s).c_str(), r);
    return false;
  }
  if (cap < hrp.size()) {
    REQUIRE(r < 0, "bech32_decode(%s) returned %d although the part does not fit into %zu bytes", quote(s).c_str(), r, cap);
    return true;
  }
  REQUIRE(r >= 0, "bech32_decode(%s) = %d, but the string is valid", quote(s).c_str(), r);
  REQUIRE(hs == hrp.size() && hrp == std::string((char *)h.p, hs), "bech32_decode(%s): human-readable part %s, expected %s", quote(s).c_str(),
          quote(std::string((char *)h.p, hs < cap ? hs : cap)).c_str(), quote(hrp).c_str());
  Bytes want(d.begin(), d.end());
  REQUIRE((size_t)r == want.size() && data.vec(r) == want, "bech32_decode(%s): data %s, expected %s", quote(s).c_str(),
          hex(data.p, (size_t)r < dcap ? (size_t)r : dcap).c_str(), hex(want).c_str());
  return true;
}
static bool mixed(const std::string &s) {
  bool lo = false, up = false;
  for (char c : s) {
    lo |= c >= 'a' && c <= 'z';
    up |= c >= 'A' && c <= 'Z';
  }
  return lo && up;
}
void pbt_property(Tape &t) {
  size_t hl = t.chance(1, 2) ? t.range(1, 5) : t.range(1, 83);
  std::string hrp = t.chance(1, 3) ? t.str_of(hl, "abcxyz1bt") : t.str_of(hl, hrp_chars());
  size_t dmax = 83 - hl;
  size_t dl = t.chance(1, 8) ? dmax : t.range(0, dmax);
  std::vector<int> d(dl);
  unsigned style = (unsigned)t.range(0, 3);
  for (auto &x : d) x = style == 0 ? 0 : style == 1 ? 31 : (int)t.range(0, 31);
  key(hrp.data(), hrp.size());
  key(d.data(), d.size() * sizeof(int));
  if (dl) nontrivial();
  std::string s = encode(hrp, d);
  REQUIRE(decode(s, (int)t.range(0, 20)), "model rejects %s", quote(s).c_str());
  decode(ref::upper(s));
  decode(s, -(int)t.range(1, 3));
  if (s.size() == 90) classify("90 characters");

  std::string m = s;
  bool up = t.chance(1, 4);
  if (up) m = ref::upper(m);
  unsigned kind = (unsigned)t.range(0, 11);
  if (kind <= 3) {  // 1..4 substitutions: always detected
    unsigned k = (unsigned)t.range(1, 4);
    // substitutions in the data part with other data characters (BIP 173's guarantee covers them)
    size_t sep = m.rfind('1');
    std::string b = m;
    for (unsigned i = 0; i < k; i++) {
      size_t p = t.range(sep + 1, m.size() - 1);
      m[p] = (up ? ref::upper(ref::bech()) : ref::bech())[t.range(0, 31)];
    }
    classify("1..4 data characters substituted");
    if (m != b) {
      bool acc = decode(m);
      REQUIRE(!acc, "%s differs from the valid %s in at most 4 characters and is accepted", quote(m).c_str(), quote(b).c_str());
      return;
    }
  } else if (kind == 4) {  // odd strings with a right checksum
    std::string h2 = t.str_of(t.range(0, 84), hrp_chars());
    if (t.chance(1, 3) && !h2.empty()) h2[t.range(0, h2.size() - 1)] = (char)t.pick({31, 32, 127, 128, 200, 255, 0, 65, 90});
    std::vector<int> d2(t.range(0, 90));
    for (auto &x : d2) x = (int)t.range(0, 31);
    if (h2.size() + d2.size() > 90 && t.chance(3, 4)) d2.resize(h2.size() > 84 ? 0 : 84 - h2.size());
    m = ref::bech32(h2, d2);
    if (t.chance(1, 4)) m = ref::upper(m);
    classify("unusual parts, right checksum");
  } else if (kind == 10) {  // a checksum made for another constant than BIP 173's (0, bech32m's, one bit away ...)
    uint32_t k = t.pick({(uint32_t)0, (uint32_t)0x2bc830a3, (uint32_t)2, (uint32_t)0x3fffffff, (uint32_t)1 << 29, 1u ^ (1u << t.range(1, 29)), (uint32_t)t.bits(4) & 0x3fffffff});
    m = ref::bech32(hrp, d, k);
    if (up) m = ref::upper(m);
    classify("checksum for another constant");
  } else if (kind == 11 && dl >= 2) {
    char ch = t.chance(1, 2) ? t.pick({'b', 'i', 'o', '1', '!', '~'}) : (char)t.range(33, 126);
    if (ch >= 'A' && ch <= 'Z') ch = (char)(ch + 32);
    int v = t.chance(1, 2) ? 255 : (int)t.byte();
    m = ref::bech32_standin(hrp, d, t.range(1, dl - 1), v, ch);
    if (up) m = ref::upper(m);
    classify("a character with a number in its place that satisfies the checksum");
  } else if (kind == 5) {
    size_t p = t.range(0, m.size() - 1);
    m[p] = up ? (char)tolower(m[p]) : (char)toupper(m[p]);
    classify("letter case of one character changed");
  } else if (kind == 6) {
    m = m.substr(0, t.range(0, m.size()));
    classify("truncated");
  } else if (kind == 7) {
    size_t n = t.range(1, 5);
    if (m.back() == 'p' || t.chance(1, 2)) m.insert(m.size() - 1, n, up ? 'Q' : 'q');
    else m.insert(t.range(0, m.size()), n, '1');
    classify("characters inserted");
  } else {
    unsigned k = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < k; i++) {
      size_t p = t.range(0, m.size() - 1);
      m[p] = t.chance(1, 2) ? (char)t.byte() : t.pick({'1', 'b', 'i', 'o', ' ', '\x7f', '\x80', 'B'});
    }
    classify("bytes replaced");
  }
  if (mixed(m)) classify("mixed case");
  if (m.size() > 90) classify("longer than 90");
  key(m.data(), m.size());
  if (want_sample()) sample(quote(s, 95) + " -> " + quote(m, 110));
  classify(decode(m, (int)t.range(0, 6) - 3) ? "accepted after the change" : "rejected after the change");
}
void pbt_fixed(int shard, int n) {
  static const char *parts[] = {"bc", "tb", "bcrt", "a", "1", "11", "x1y", "?", "~!", "an83characterlonghumanreadablepartthatcontainsthenumber1"};
  for (int c = shard; c < 40; c += n) {
    std::string hrp = parts[c % 10];
    std::vector<int> d((size_t)(c / 10) * 11 % 34);
    for (size_t i = 0; i < d.size(); i++) d[i] = c < 20 ? (int)(mix64(c * 100 + i) & 31) : (c & 1) * 31;
    if (hrp.size() + d.size() > 83) d.resize(83 - hrp.size());
    std::string s = encode(hrp, d);
    for (int u = 0; u < 2; u++) {
      std::string b = u ? ref::upper(s) : s;
      REQUIRE(decode(b), "model rejects %s", quote(b).c_str());
      for (size_t p = 0; p < b.size(); p++)
        for (int x = 0; x < 256; x++) {
          std::string m = b;
          m[p] = (char)x;
          decode(m);
          fixed_case("every single-byte substitution", (uint64_t)c << 32 | (uint64_t)u << 31 | p << 8 | (unsigned)x, quote(m, 95));
        }
      for (size_t p = 0; p <= b.size(); p++) decode(b.substr(0, p));
      for (int x = -1; x < 31; x++) {
        uint32_t k = x < 0 ? 0 : x == 30 ? 0x2bc830a3 : 1u ^ (1u << x);
        if (k == 1) continue;
        std::string m = ref::bech32(hrp, d, k);
        bool acc = decode(u ? ref::upper(m) : m);
        REQUIRE(!acc, "%s has a checksum for the constant 0x%x and is accepted", quote(m).c_str(), k);
        fixed_case("checksums for other constants", (uint64_t)c << 8 | (unsigned)(x + 1) << 1 | (unsigned)u, quote(m, 95));
      }
    }
  }
  for (int L = shard; L <= 100; L += n)
    for (int h = 0; h <= L; h++) {
      std::string hrp(h, 'z');
      std::vector<int> d(L >= h + 7 ? L - h - 7 : 0, 17);
      std::string m = ref::bech32(hrp, d);
      decode(m);
      fixed_case("every total length with every split", (uint64_t)L * 1000 + h);
    }
}
