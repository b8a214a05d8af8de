#include <fingera_libc/base58.h>
#include "bigmap.hpp"
#include "medium.hpp"
#include "ref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "byte strings (any number of leading zero bytes, all-ones, random; up to 3000 bytes, and two of 33000 and 65600) are encoded and compared with a "
    "schoolbook base conversion, then decoded back; strings of base58 digits, mutated encodings (illegal digits 0 O I l, "
    "bytes >= 0x80, NUL, white space in front, behind and inside) are decoded and compared with the model; an accepted string "
    "must re-encode to itself without its outer white space. Buffers have exactly the documented size. Non-trivial: two or "
    "more payload bytes. Plus all 1- and 2-byte inputs, all 1- and 2-character strings, and every length of all-ones input; "
    "runs of more than 2^32 leading zero bytes, '1' digits and blanks (a repeated mapping; optimised build).";
void pbt_setup() {
  // the two ways the model converts must agree
  for (size_t n = 0; n < 120; n++) {
    Bytes b(n, n % 3 ? 0xFF : 0), c, d;
    for (size_t i = n % 5; i < n; i++) b[i] = (uint8_t)mix64(i * 1000 + n);
    std::string s = ref::base58(b);
    if (ref::base58_long(b) != s || !ref::unbase58(s, c) || !ref::unbase58_long(s, d) || c != b || d != b) _Exit(3);
    s += n % 2 ? "0" : " ";
    if (ref::unbase58(s, c) || ref::unbase58_long(s, d)) _Exit(3);
  }
}

static std::string check_encode(const Bytes &b) {
  std::string want = ref::base58(b);
  size_t L = fingera_to_base58_length(b.size());
  REQUIRE(L >= want.size(), "to_base58_length(%zu) = %zu is less than the %zu characters of %s", b.size(), L, want.size(), hex(b).c_str());
  Buf in(b), out(L);
  size_t n = fingera_to_base58(in.p, in.n, out.c());
  std::string s((char *)out.p, n < L ? n : L);
  REQUIRE(n == want.size() && s == want, "to_base58(%s) = %zu %s, expected %s", hex(b).c_str(), n, quote(s).c_str(), quote(want).c_str());
  Buf back(fingera_from_base58_length(n)), sin(s);
  size_t m = fingera_from_base58(sin.c(), sin.n, back.p);
  REQUIRE(m == b.size() && back.vec(m) == b, "base58 round trip of %s gave %zu bytes %s", hex(b).c_str(), m, hex(back.p, m < back.n ? m : back.n).c_str());
  return s;
}
static void check_decode(const std::string &s) {
  Bytes want;
  bool ok = ref::unbase58_ws(s, want);
  classify(ok ? "legal string" : "illegal string");
  Buf in(s), out(fingera_from_base58_length(s.size()));
  size_t n = fingera_from_base58(in.c(), in.n, out.p);
  if (!ok) {
    REQUIRE(n == 0, "from_base58(%s) accepted %zu bytes", quote(s).c_str(), n);
    return;
  }
  REQUIRE(n == want.size() && out.vec(n) == want, "from_base58(%s) = %zu bytes %s, expected %zu bytes %s", quote(s).c_str(), n,
          hex(out.p, n < out.n ? n : out.n).c_str(), want.size(), hex(want).c_str());
  if (n) {
    Buf str(fingera_to_base58_length(n)), data(want);
    size_t m = fingera_to_base58(data.p, data.n, str.c());
    size_t a = 0, b = s.size();
    while (a < b && ref::is_space((uint8_t)s[a])) a++;
    while (b > a && ref::is_space((uint8_t)s[b - 1])) b--;
    REQUIRE(m == b - a && !memcmp(str.p, s.data() + a, m), "%s decodes but does not re-encode to itself: %s", quote(s).c_str(),
            quote(std::string((char *)str.p, m)).c_str());
  }
}
// digits in runs: zeros and the largest digit over whole groups, so that carries run and end in all places
static std::string runs(Tape &t) {
  std::string s;
  for (size_t i = t.range(1, 5); i-- > 0;) {
    size_t n = t.chance(1, 2) ? t.range(1, 12) : t.range(1, 40);
    switch (t.range(0, 4)) {
      case 0: s += std::string(n, '1'); break;
      case 1: s += std::string(n, 'z'); break;
      case 2: s += t.pick({'2', 'y', 'z'}); break;
      default: s += t.str_of(t.range(1, 12), ref::b58());
    }
  }
  return s;
}
void pbt_property(Tape &t) {
  size_t n = t.chance(1, 400) ? t.range(400, 1500) : t.chance(1, 4) ? t.range(80, 130) : t.len(200);
  Bytes b = t.bytes(n);
  if (t.chance(1, 3)) {
    size_t z = t.range(0, n);
    for (size_t i = 0; i < z; i++) b[i] = 0;
    classify("leading zero bytes");
  }
  key(b);
  if (n >= 2) nontrivial();
  std::string s = check_encode(b);
  if (n > 92) classify("payload longer than 92 bytes");
  if (n > 400) return;
  if (t.chance(1, 4)) {
    if (t.chance(1, 2)) {
      s = runs(t);
      classify("digits in runs");
    } else {
      s = std::string(t.range(0, 5), '1') + t.str_of(t.len(200), ref::b58());
      classify("random digits");
    }
  }
  static const std::string ws = " \t\n\v\f\r";
  unsigned muts = (unsigned)t.range(0, 3);
  for (unsigned i = 0; i < muts; i++) {
    size_t p = t.range(0, s.size());
    switch (t.range(0, 9)) {
      case 0:
        s = t.str_of(t.range(1, 3), ws) + s;
        classify("white space in front");
        break;
      case 1:
        s += t.str_of(t.range(1, 3), ws);
        classify("white space behind");
        break;
      case 2:
        s.insert(p, 1, ws[t.range(0, 5)]);
        classify("white space inserted");
        break;
      case 3:
        s.insert(p, 1, t.pick({'0', 'O', 'I', 'l'}));
        break;
      case 4:
        s.insert(p, 1, (char)t.byte());
        break;
      case 5:
        if (p < s.size()) s[p] = (char)(t.byte() | 0x80);
        classify("byte >= 0x80");
        break;
      case 6:
        if (p < s.size()) s[p] = 0;
        classify("embedded NUL");
        break;
      case 7:
        s.resize(p);
        break;
      case 8:
        s.insert(p, 1, '1');
        break;
      default:
        if (p < s.size()) s[p] = ref::b58()[t.range(0, 57)];
    }
  }
  key(s.data(), s.size());
  if (want_sample()) sample(hex(b, 40) + " / " + quote(s, 80));
  check_decode(s);
}
#if LIB_NDEBUG
// many leading zero bytes and a short payload: linear work for any length
static void huge(size_t zeros) {
  const size_t CH = 4u << 20;
  Bytes pay = {0x61, 0x00, 0xFF, 0x80, 0x01};
  if (too_slow(zeros, [&](uint8_t *in, size_t m, uint8_t *out) {
        memset(in, 0, m - 1);
        in[m - 1] = 7;
        fingera_from_base58((char *)out, fingera_to_base58(in, m, (char *)out), in);
      }))
    return;
  std::string txt = ref::base58(pay);
  BigMap bin(zeros + pay.size(), CH);
  bin.own_tail();
  memcpy(bin.p + zeros, pay.data(), pay.size());
  size_t L = zeros + txt.size();
  Bytes ones(CH, '1'), nul(CH, 0);
  {
    BigOut out(L, CH);
    size_t n = fingera_to_base58(bin.p, bin.n, (char *)out.p);
    REQUIRE(n == L, "to_base58 of %zu zero bytes and %s gave %zu characters, expected %zu", zeros, hex(pay).c_str(), n, L);
    Bytes end(out.tail_len(), '1');
    memcpy(end.data() + end.size() - txt.size(), txt.data(), txt.size());
    std::string e = out.check(ones.data(), end.data());
    REQUIRE(e.empty(), "to_base58 of %zu zero bytes and %s: %s", zeros, hex(pay).c_str(), e.c_str());
  }
  BigMap s(L, CH);
  s.set(ones.data());
  s.own_tail();
  memcpy(s.p + zeros, txt.data(), txt.size());
  BigOut out(bin.n, CH);
  size_t n = fingera_from_base58((char *)s.p, L, out.p);
  REQUIRE(n == bin.n, "from_base58 of %zu '1' and %s gave %zu bytes, expected %zu", zeros, txt.c_str(), n, bin.n);
  Bytes end(out.tail_len(), 0);
  memcpy(end.data() + end.size() - pay.size(), pay.data(), pay.size());
  std::string e = out.check(nul.data(), end.data());
  REQUIRE(e.empty(), "from_base58 of %zu '1' and %s: %s", zeros, txt.c_str(), e.c_str());
  fixed_case("more than 2^32 leading zero bytes", zeros, sprintf_("%zu leading zero bytes", zeros));
}
#endif
// texts of many megabytes that are refused (or end) after a few digits: the size alone must not matter
static void huge_text(int k) {
  size_t n = (size_t)(9 + 5 * k) << 20;
  static const char *heads[] = {"!", "2g!", " 2 g", "1112g\t", "  zzz0", "2g "};
  const char *h = heads[k % 6];
  bool legal = k % 6 == 3 || k % 6 == 5;
  Buf in(n), out(fingera_from_base58_length(n));
  memset(in.p, legal ? ' ' : 'z', n);
  memcpy(in.p, h, strlen(h));
  size_t m = fingera_from_base58(in.c(), n, out.p);
  size_t want = k % 6 == 3 ? 4 : k % 6 == 5 ? 1 : 0;
  REQUIRE(m == want && (!m || out.p[m - 1] == 0x61), "from_base58 of %zu characters starting with %s gave %zu bytes, expected %zu", n, quote(h).c_str(), m, want);
  fixed_case("texts of 9 to 64 MiB", k, sprintf_("%zu characters starting with %s", n, h));
}
void pbt_fixed(int shard, int n) {
  for (int k = shard; k < 12; k += n) huge_text(k);
  every_length(shard, n, 1, LIB_NDEBUG ? 420 : 200, [](const Bytes &b) {
    Bytes c = b;
    for (size_t z : {(size_t)0, (size_t)1, (size_t)(b.size() % 5), b.size() / 2}) {
      for (size_t i = 0; i < z; i++) c[i] = 0;
      check_decode(check_encode(c));
    }
  });
  for (int k = shard; k <= 200; k += n) {  // powers of either base and their neighbours
    std::string p58 = "2" + std::string(k, '1'), max = std::string(k, 'z');
    for (std::string d : {p58, max, max.empty() ? max : max.substr(1) + "y", "2" + (k ? std::string(k - 1, '1') + "2" : std::string()), "y" + max, "2" + max, "1" + max, p58 + max}) {
      Bytes b;
      if (!ref::unbase58(d, b)) _Exit(3);
      check_decode(d);
      check_encode(b);
      b.insert(b.begin(), 0);
      check_encode(b);
    }
    Bytes p256(k + 1);
    p256[0] = 1;
    check_decode(check_encode(p256));
    p256[k]++;
    check_decode(check_encode(p256));
    check_decode(check_encode(Bytes(k, 0xff)));
    fixed_case("powers of 58 and 256 and their neighbours", k, sprintf_("58^%d, 256^%d", k, k));
  }
#if LIB_NDEBUG
  if (shard == 0) huge(((size_t)1 << 32) + 100);
  if (shard == 1) huge(((size_t)1 << 31) + 77);
  for (size_t L : {(size_t)65600, (size_t)33000})
    if (shard == (L < 40000 ? 2 % n : 3 % n)) {
      Bytes b(L);
      for (size_t j = 0; j < L; j++) b[j] = (uint8_t)mix64(j + 5);
      check_encode(b);
      fixed_case("very long payloads", L);
    }
#endif
  for (int a = shard; a < 256; a += n) {
    check_encode(Bytes{(uint8_t)a});
    check_decode(std::string(1, (char)a));
    for (int b = 0; b < 256; b++) {
      check_encode(Bytes{(uint8_t)a, (uint8_t)b});
      check_encode(Bytes{0, (uint8_t)a, (uint8_t)b});
      std::string s = {(char)a, (char)b};
      check_decode(s);
      check_decode(s + "z");
      check_decode("z" + s);
      check_decode("2" + s + "2");
      fixed_case("every pair of bytes, encoded and decoded", a * 256 + b, quote(s));
    }
    check_encode(Bytes(a, 0xFF));
    check_encode(Bytes(a, 0));
    check_decode(std::string(a, 'z'));
    check_decode(std::string(a, '1'));
    fixed_case("every length 0..255 of all-ones, all-zero, all-'z', all-'1'", a);
  }
  static const size_t big[] = {300, 511, 512, 513, 777, 1000, 1024, 1500, 2000, 3000};
  for (int i = shard; i < 10; i += n) {
    check_encode(Bytes(big[i], 0xFF));
    Bytes b(big[i]);
    for (size_t j = 0; j < b.size(); j++) b[j] = (uint8_t)mix64(j + i);
    check_encode(b);
    check_decode(std::string(big[i], 'z'));
    fixed_case("long payloads", i);
  }
}
