#include <fingera_libc/compress_integer.h>
#include "ref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "64-bit values biased to group limits, powers of two and the ends of the range are encoded, compared with a big-number "
    "model of the offset varint, decoded back from the exact, a longer and every truncated buffer; random byte strings "
    "(continuation-heavy) are decoded and compared with the model, and every accepted string must re-encode to the same "
    "bytes (bijection). Signed values likewise. Non-trivial: a value of two or more groups or a random string that starts "
    "with a continuation byte. Plus all values below 70000 and all byte strings of length 1 and 2.";
void pbt_setup() {}

static void check_decode(const Bytes &b) {
  uint64_t want = 0, got = 0xDEADBEEF;
  size_t wn = ref::unvarint(b, want);
  Buf in(b);
  size_t n = fingera_decode_varint(in.p, in.n, &got);
  REQUIRE(n == wn, "decode_varint(%s) consumed %zu, expected %zu", hex(b).c_str(), n, wn);
  if (n) {
    REQUIRE(got == want, "decode_varint(%s) = %llu, expected %llu", hex(b).c_str(), (unsigned long long)got, (unsigned long long)want);
    Buf out(16);
    size_t m = fingera_encode_varint(got, out.p);
    REQUIRE(m == n && out.vec(m) == Bytes(b.begin(), b.begin() + n), "two encodings of %llu: %s and %s", (unsigned long long)got,
            hex(b.data(), n).c_str(), hex(out.p, m).c_str());
  }
  int64_t sg = 0;
  size_t zn = fingera_decode_zigzag(in.p, in.n, &sg);
  REQUIRE(zn == wn, "decode_zigzag(%s) consumed %zu, expected %zu", hex(b).c_str(), zn, wn);
  if (zn) {
    Buf out(16);
    size_t m = fingera_encode_zigzag(sg, out.p);
    REQUIRE(m == zn && out.vec(m) == Bytes(b.begin(), b.begin() + zn), "two signed encodings of %lld: %s and %s", (long long)sg,
            hex(b.data(), zn).c_str(), hex(out.p, m).c_str());
  }
}
static void check_value(uint64_t v) {
  Bytes want = ref::varint(v);
  REQUIRE(want.size() <= 10, "model");
  Buf out(want.size());
  size_t n = fingera_encode_varint(v, out.p);
  REQUIRE(n == want.size() && out.vec() == want, "encode_varint(%llu) = %s, expected %s", (unsigned long long)v, hex(out.p, out.n).c_str(),
          hex(want).c_str());
  for (size_t k = 0; k <= want.size(); k++) {
    Buf in(want.data(), k);
    uint64_t got = 1;
    size_t m = fingera_decode_varint(in.p, k, &got);
    REQUIRE(m == (k == n ? n : 0), "decode_varint of %zu of the %zu bytes of %llu consumed %zu", k, n, (unsigned long long)v, m);
    if (m) REQUIRE(got == v, "varint round trip of %llu gave %llu", (unsigned long long)v, (unsigned long long)got);
  }
  Bytes longer = want;
  longer.insert(longer.end(), {0xFF, 0x00, 0x81, 0x33});
  Buf in(longer);
  uint64_t got = 1;
  size_t m = fingera_decode_varint(in.p, in.n, &got);
  REQUIRE(m == n && got == v, "varint %llu followed by other data: consumed %zu, value %llu", (unsigned long long)v, m, (unsigned long long)got);
}
static void check_signed(int64_t v) {
  Buf out(10);
  size_t n = fingera_encode_zigzag(v, out.p);
  REQUIRE(n >= 1 && n <= 10, "encode_zigzag(%lld) wrote %zu bytes", (long long)v, n);
  // documented form: magnitude shifted left by one, sign in the lowest bit (the value without a
  // representable magnitude takes the otherwise unused "minus zero")
  uint64_t mag = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  if (v != INT64_MIN) {
    Bytes want = ref::varint(mag << 1 | (v < 0 ? 1 : 0));
    REQUIRE(out.vec(n) == want, "encode_zigzag(%lld) = %s, expected %s", (long long)v, hex(out.p, n).c_str(), hex(want).c_str());
  }
  for (size_t k = 0; k <= n; k++) {
    Buf in(out.p, k);
    int64_t got = 77;
    size_t m = fingera_decode_zigzag(in.p, k, &got);
    REQUIRE(m == (k == n ? n : 0), "decode_zigzag of %zu of %zu bytes of %lld consumed %zu", k, n, (long long)v, m);
    if (m) REQUIRE(got == v, "zigzag round trip of %lld gave %lld", (long long)v, (long long)got);
  }
}
void pbt_property(Tape &t) {
  uint64_t v = t.edgy64();
  check_value(v);
  int64_t s = (int64_t)(t.chance(1, 2) ? 0 - t.edgy64() : t.edgy64());
  check_signed(s);
  check_signed((int64_t)v);
  Bytes b;
  switch (t.range(0, 3)) {
    case 0:
      b = t.bytes(t.range(0, 14));
      break;
    case 1: {  // k continuation bytes then a final one
      size_t k = t.range(0, 12);
      for (size_t i = 0; i < k; i++) b.push_back(0x80 | t.byte());
      b.push_back(t.byte() & 0x7F);
      classify("continuation chain");
      break;
    }
    case 2: {  // around the largest value
      b = ref::varint(~0ull - t.range(0, 300));
      if (t.chance(1, 2)) {
        size_t p = t.range(0, b.size() - 1);
        b[p] ^= (uint8_t)(1 << t.range(0, 6));
      }
      if (t.chance(1, 2)) b.back() = (b.back() + (uint8_t)t.range(0, 3)) & 0x7F;
      classify("near the 64-bit limit");
      break;
    }
    default:
      b = ref::varint(t.edgy64());
      if (t.chance(1, 2)) b[t.range(0, b.size() - 1)] ^= (uint8_t)(1 << t.range(0, 7));
      if (t.chance(1, 2)) b.push_back(t.byte());
  }
  uint64_t dummy;
  classify(ref::unvarint(b, dummy) ? "accepted string" : "rejected string");
  if (v > 127 || (!b.empty() && (b[0] & 0x80))) nontrivial();
  key(&v, 8);
  key(&s, 8);
  key(b);
  if (want_sample()) sample(sprintf_("value %llu, signed %lld, string %s", (unsigned long long)v, (long long)s, hex(b).c_str()));
  check_decode(b);
}
void pbt_fixed(int shard, int n) {
  for (int v = shard; v < 70000; v += n) {
    check_value(v);
    check_signed(v);
    check_signed(-(int64_t)v);
    check_value(~0ull - v);
    check_signed(INT64_MIN + v);
    check_signed(INT64_MAX - v);
    if (v < 65536) check_decode(Bytes{(uint8_t)(v >> 8), (uint8_t)v});
    if (v < 256) check_decode(Bytes{(uint8_t)v});
    fixed_case("every value within 70000 of 0, of the limits, and of minus the limits", v, sprintf_("%d", v));
  }
  uint64_t p = 0, q = 1;
  for (int g = 1; g <= 9; g++) {
    q <<= 7;
    p += q;
    for (int d = -300; d <= 300; d++) {
      check_value(p + (uint64_t)(int64_t)d);
      check_signed((int64_t)((p >> 1) + (uint64_t)(int64_t)d));
      fixed_case("every value within 300 of a group limit", (uint64_t)(g * 1000 + d));
    }
  }
}
