#include <fingera_libc/btc/key.h>
#include "cref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "pairs (r, s) of every magnitude (0, 1, 2^i +-1, high bit set, n-1; leading zero bytes) go through decode and encode and "
    "must come back as the minimal strict DER; lax forms (extra zeros, negative integers, long-form and over-long lengths, junk behind), values of n and "
    "more or over 32 bytes (which must become the never-verifying zero signature), and random, truncated and edited strings "
    "are accepted exactly when a model of the documented lax reader accepts, with the same values; a refused string leaves the "
    "zero signature. Non-trivial: a string that starts as a sequence. Plus every truncation and single-byte change of several signatures, and integers padded with zeros to every length form (1..4 "
    "significant length bytes, up to 16 MiB).";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
// one lax INTEGER at p: content in v; false if there is none
static bool lax_int(const Bytes &e, size_t &p, Bytes &v) {
  if (p >= e.size() || e[p++] != 2) return false;
  if (p >= e.size()) return false;
  size_t len = e[p++];
  if (len & 0x80) {
    size_t nb = len - 0x80;
    if (nb > e.size() - p) return false;
    Bytes digits(e.begin() + p, e.begin() + p + nb);
    p += nb;
    size_t z = 0;
    while (z < digits.size() && digits[z] == 0) z++;
    if (digits.size() - z >= 4) return false;
    len = 0;
    for (; z < digits.size(); z++) len = len * 256 + digits[z];
  }
  if (len > e.size() - p) return false;
  v.assign(e.begin() + p, e.begin() + p + len);
  p += len;
  size_t z = 0;
  while (z < v.size() && v[z] == 0) z++;
  v.erase(v.begin(), v.begin() + z);
  return true;
}
static bool model(const Bytes &e, Bytes &r, Bytes &s) {
  r = s = Bytes(32, 0);
  size_t p = 0;
  if (e.empty() || e[p++] != 0x30) return false;
  if (p >= e.size()) return false;
  size_t len = e[p++];
  if (len & 0x80) {
    len -= 0x80;
    if (len > e.size() - p) return false;
    p += len;
  }
  Bytes a, b;
  if (!lax_int(e, p, a) || !lax_int(e, p, b)) return false;
  if (a.size() > 32 || b.size() > 32) return true;
  cref::Num x(a), y(b);
  if (cref::cmp(x, cref::order()) >= 0 || cref::cmp(y, cref::order()) >= 0) return true;
  r = x.be32();
  s = y.be32();
  return true;
}
static bool check(const Bytes &e) {
  Bytes r, s;
  bool ok = model(e, r, s);
  Buf in(e), sig(64), der(BTC_SIGNATURE_SIZE);
  int g = fingera_btc_signature_decode(in.p, in.n, sig.p);
  REQUIRE((g != 0) == ok, "signature_decode(%s) = %d, expected %s", hex(e, 400).c_str(), g, ok ? "success" : "a refusal");
  Bytes want = cref::der_sig(cref::Num(r), cref::Num(s));
  size_t n = fingera_btc_signature_encode(sig.p, der.p);
  REQUIRE(n == want.size() && der.vec(n) == want, "signature_decode(%s) %s; the signature is %s, expected %s", hex(e, 400).c_str(),
          ok ? "succeeded" : "failed", hex(der.p, n < der.n ? n : der.n).c_str(), hex(want).c_str());
  return ok;
}
static Bytes gen_int(Tape &t) {
  switch (t.range(0, 5)) {
    case 0:
      return cref::Num((unsigned long)t.range(0, 300)).be32();
    case 1: {
      cref::Num k, one(1ul);
      BN_lshift(k.b, one.b, (int)t.range(0, 255));
      if (t.chance(1, 2)) k = cref::sub(k, one);
      return k.be32();
    }
    case 2:
      return cref::gen32(t);
    case 3: {
      Bytes b = t.bytes(32);
      size_t z = t.range(0, 32);
      for (size_t i = 0; i < z; i++) b[i] = 0;
      return b;
    }
    default:
      return cref::gen_key(t);
  }
}
static Bytes lax_len(Tape &t, size_t n) {
  if (n >> 16) {
    Bytes r = {0x83, (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n};
    size_t z = t.range(0, 3);
    r.insert(r.begin() + 1, z, 0);
    r[0] = (uint8_t)(r[0] + z);
    return r;
  }
  switch (t.range(0, 6)) {
    case 0:
    case 1:
    case 2:
      if (n < 128) return Bytes{(uint8_t)n};
      if (n < 256) return Bytes{0x81, (uint8_t)n};
      return Bytes{0x82, (uint8_t)(n >> 8), (uint8_t)n};
    case 3: {
      Bytes r = {0};
      size_t z = t.range(0, t.chance(1, 4) ? 124 : 4);
      r.insert(r.end(), z, 0);
      r.push_back((uint8_t)(n >> 8));
      r.push_back((uint8_t)n);
      r[0] = (uint8_t)(0x80 + r.size() - 1);
      return r;
    }
    case 4:
      return Bytes{0x80};
    case 5:
      return Bytes{0x84, (uint8_t)t.range(0, 1), 0, (uint8_t)(n >> 8), (uint8_t)n};
    default:
      return Bytes{0x83, 0, (uint8_t)(n >> 8), (uint8_t)n};
  }
}
static Bytes lax_body(Tape &t, const Bytes &v) {
  Bytes b = v;
  size_t z = 0;
  while (z < b.size() && b[z] == 0 && t.chance(7, 8)) z++;
  b.erase(b.begin(), b.begin() + z);
  if (t.chance(1, 2)) b.insert(b.begin(), t.range(0, t.chance(1, 4) ? 200 : 3), 0);
  if (t.chance(1, 10)) {
    size_t pad = t.chance(1, 12) ? t.range(65500, 140000) : t.range(200, 800);
    b.insert(b.begin(), pad, 0);
    classify(b.size() >> 16 ? "integer of 65536 bytes or more" : b.size() >> 8 ? "integer of 256 bytes or more" : "long integer");
  }
  if (t.chance(1, 16)) b.insert(b.begin(), (uint8_t)t.range(1, 255));
  return b;
}
void pbt_property(Tape &t) {
  Bytes r = gen_int(t), s = gen_int(t), e;
  unsigned w = (unsigned)t.range(0, 6);
  if (w <= 1) {
    e = cref::der_sig(cref::Num(r), cref::Num(s));
    classify("strict DER");
    Bytes mr, ms;
    REQUIRE(model(e, mr, ms), "model rejects strict DER");
  } else if (w <= 4) {
    Bytes a = lax_body(t, r), b = lax_body(t, s);
    Bytes in = cref::cat({Bytes{2}, lax_len(t, a.size()), a, Bytes{2}, lax_len(t, b.size()), b});
    Bytes len = t.chance(1, 4) ? Bytes{t.byte()} : lax_len(t, in.size());
    if (len.size() == 1 && len[0] & 0x80 && t.chance(1, 2)) len.insert(len.end(), len[0] & 0x7F, 0);
    e = cref::cat({Bytes{0x30}, len, in, t.blob(20)});
    classify("lax form");
  } else {
    e = t.blob(100);
    if (!e.empty() && t.chance(7, 8)) e[0] = 0x30;
    if (e.size() > 2 && t.chance(3, 4)) e[2] = 2;
    classify("random string");
  }
  if (t.chance(1, 3)) {
    unsigned c = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < c && !e.empty(); i++) {
      size_t p = t.chance(1, 2) ? t.range(0, e.size() < 8 ? e.size() - 1 : 7) : t.range(0, e.size() - 1);
      switch (t.range(0, 3)) {
        case 0:
          e[p] ^= (uint8_t)(1 << t.range(0, 7));
          break;
        case 1:
          e[p] = t.pick({(uint8_t)0, (uint8_t)2, (uint8_t)0x7F, (uint8_t)0x80, (uint8_t)0x81, (uint8_t)0xFF, (uint8_t)0x21});
          break;
        case 2:
          e.erase(e.begin() + p);
          break;
        default:
          e.resize(p);
      }
    }
    classify("edited");
  }
  if (!e.empty() && e[0] == 0x30) nontrivial();
  key(e);
  if (want_sample()) sample(hex(e, 100));
  bool ok = check(e);
  Bytes mr, ms;
  model(e, mr, ms);
  classify(!ok ? "refused" : mr == Bytes(32, 0) && ms == Bytes(32, 0) ? "accepted as the zero signature" : "accepted");
}
void pbt_fixed(int shard, int n) {
  cref::Num one(1ul);
  cref::Num vals[5] = {one, cref::sub(cref::order(), one), cref::half_order(), cref::Num("80"), cref::Num("7F00000000000000000000000000000000000000000000000000000000000001")};
  for (int i = 0; i < 5; i++)
    for (int j = 0; j < 5; j++) {
      Bytes e = cref::der_sig(vals[i], vals[j]);
      for (size_t p = shard; p <= e.size(); p += n) {
        check(Bytes(e.begin(), e.begin() + p));
        for (int b = 0; p < e.size() && b < 256; b++) {
          Bytes m = e;
          m[p] = (uint8_t)b;
          check(m);
          fixed_case("every truncation and single-byte change", (uint64_t)((i * 5 + j) * 100 + p) * 256 + b, hex(m));
        }
      }
    }
  for (int a = shard; a <= 70; a += n)
    for (int b = 0; b <= 70; b++) {  // every pair of integer sizes, non-minimal
      Bytes e = cref::cat({Bytes{0x30, 0x7F, 2, (uint8_t)a}, Bytes(a, a > 33 ? 0 : 0x11), Bytes{2, (uint8_t)b}, Bytes(b, b > 40 ? 0 : 0x80)});
      check(e);
      e.pop_back();
      check(e);
      fixed_case("every pair of integer sizes", a * 100 + b);
    }
  // integers padded to every length form, in R, in S and in both; one byte more or less than there is
  static const size_t sizes[] = {127, 128, 129, 255, 256, 257, 288, 511, 512, 513, 4096, 32767, 32768, 65535, 65536, 65537, 65568, 131072, 1u << 20, 0xFFFFFF, 1u << 24, (1u << 24) + 300};
  for (size_t q = shard; q < sizeof sizes / sizeof *sizes; q += n)
    for (int which = 1; which < 4; which++)
      for (size_t lb = 1; lb <= 6; lb++) {
        size_t sz = sizes[q];
        if (lb < 8 && (sz >> (8 * lb)) && lb < 3) continue;
        if (sz >= 0xFFFFFF && (!LIB_NDEBUG || lb > 4)) continue;
        Bytes in;
        for (int i = 0; i < 2; i++) {
          Bytes v = vals[1].be32();
          in.push_back(2);
          if (which >> i & 1) {
            v.insert(v.begin(), sz - 32, 0);
            in.push_back((uint8_t)(0x80 + lb));
            for (size_t k = lb; k-- > 0;) in.push_back(k < 8 ? (uint8_t)(sz >> (8 * k)) : 0);
          } else
            in.push_back(32);
          in.insert(in.end(), v.begin(), v.end());
        }
        Bytes e = cref::cat({Bytes{0x30, 0x83, (uint8_t)(in.size() >> 16), (uint8_t)(in.size() >> 8), (uint8_t)in.size()}, in});
        bool ok = check(e);
        REQUIRE(ok == (sz < (1u << 24)) || (sz >> 24 && lb == 3), "model and padded signature of %zu bytes", sz);
        e.pop_back();
        check(e);
        e.insert(e.end(), 300, 2);
        check(e);
        fixed_case("integers padded to every length form", (sz * 4 + which) * 8 + lb, sprintf_("integer of %zu bytes, %zu length bytes, which=%d", sz, lb, which));
      }
  check(Bytes());
}
