#include <fingera_libc/btc/key.h>
#include "cref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "valid secret keys are written as DER ECPrivateKey in both sizes, compared byte for byte with a generic DER builder over "
    "the curve's published constants, and read back; built, edited, truncated and extended encodings (length forms, octet "
    "string sizes 0..33, version, invalid secrets, junk behind) are accepted exactly when a model of the documented reader "
    "accepts, giving the same key; a refused encoding leaves 32 zero bytes. Non-trivial: every case. Plus every truncation (as it is, and with the sequence length lowered to match) and "
    "every single-byte change of the first 60 bytes of both forms.";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
static Bytes tlv(uint8_t tag, const Bytes &v) {
  Bytes r = {tag};
  if (v.size() < 128) {
    r.push_back((uint8_t)v.size());
  } else if (v.size() < 256) {
    r.push_back(0x81);
    r.push_back((uint8_t)v.size());
  } else {
    r.push_back(0x82);
    r.push_back((uint8_t)(v.size() >> 8));
    r.push_back((uint8_t)v.size());
  }
  r.insert(r.end(), v.begin(), v.end());
  return r;
}
static Bytes integer(Bytes v) {
  if (v[0] & 0x80) v.insert(v.begin(), 0);
  return tlv(2, v);
}
// SEC 1 C.4 with explicit parameters, as Bitcoin Core writes it
static Bytes der_key(const Bytes &k, bool comp) {
  Bytes oid = tlv(6, Bytes{0x2A, 0x86, 0x48, 0xCE, 0x3D, 0x01, 0x01});
  Bytes field = tlv(0x30, cref::cat({oid, integer(cref::fieldp().be32())}));
  Bytes curve = tlv(0x30, cref::cat({tlv(4, Bytes{0}), tlv(4, Bytes{7})}));
  Bytes one = cref::Num(1ul).be32();
  Bytes params = tlv(0x30, cref::cat({integer(Bytes{1}), field, curve, tlv(4, cref::pub(one, comp)), integer(cref::order().be32()), integer(Bytes{1})}));
  Bytes bits = cref::cat({Bytes{0}, cref::pub(k, comp)});
  return tlv(0x30, cref::cat({integer(Bytes{1}), tlv(4, k), tlv(0xA0, params), tlv(0xA1, tlv(3, bits))}));
}
static bool model(const Bytes &e, Bytes &k) {
  size_t p = 0, n = e.size();
  auto left = [&] { return n - p; };
  if (left() < 2 || e[0] != 0x30 || (e[1] != 0x81 && e[1] != 0x82)) return false;
  size_t lb = e[1] & 0x7F;
  p = 2;
  if (left() < lb) return false;
  size_t len = 0;
  for (size_t i = 0; i < lb; i++) len = len * 256 + e[p++];
  if (len > left()) return false;
  if (left() < 3 || e[p] != 2 || e[p + 1] != 1 || e[p + 2] != 1) return false;
  p += 3;
  if (left() < 2 || e[p] != 4) return false;
  size_t os = e[p + 1];
  p += 2;
  if (os > 32 || os > left()) return false;
  k.assign(32, 0);
  for (size_t i = 0; i < os; i++) k[32 - os + i] = e[p + i];
  return cref::valid_scalar(k);
}
static bool check_decode(const Bytes &e) {
  Bytes k;
  bool ok = model(e, k);
  Buf in(e), out(32);
  int r = fingera_btc_key_decode(in.p, in.n, out.p);
  REQUIRE((r != 0) == ok, "key_decode(%s) = %d, expected %s", hex(e, 300).c_str(), r, ok ? "a key" : "a refusal");
  REQUIRE(out.vec() == (ok ? k : Bytes(32, 0)), "key_decode(%s) %s and left %s, expected %s", hex(e, 300).c_str(), ok ? "succeeded" : "failed",
          hex(out.p, 32).c_str(), ok ? hex(k).c_str() : "zeros");
  return ok;
}
static Bytes check_encode(const Bytes &k, bool comp) {
  Bytes want = der_key(k, comp);
  if (want.size() != (comp ? BTC_COMPRESSED_PRIVATE_KEY_SIZE : BTC_PRIVATE_KEY_SIZE)) _Exit(3);
  Buf in(k), out(want.size());
  int r = fingera_btc_key_encode(in.p, out.p, out.n);
  REQUIRE(r && out.vec() == want, "key_encode(%s, %zu) = %d %s, expected %s", hex(k).c_str(), want.size(), r, hex(out.p, out.n, 300).c_str(), hex(want, 300).c_str());
  REQUIRE(check_decode(want), "model rejects its own encoding");
  return want;
}
// the same sequence with its length written in lb bytes (0: the indefinite form)
static Bytes long_form(const Bytes &e, size_t lb, size_t add) {
  Bytes body(e.begin() + (e[1] == 0x81 ? 3 : 4), e.end()), h = {0x30, (uint8_t)(0x80 | lb)};
  size_t L = body.size() + add;
  for (size_t i = lb; i-- > 0;) h.push_back(i < sizeof L ? (uint8_t)(L >> 8 * i) : 0);
  h.insert(h.end(), body.begin(), body.end());
  return h;
}
// the first n bytes of the sequence's contents, with a length of that many, in one of three forms
static Bytes short_seq(const Bytes &e, size_t n, unsigned form) {
  if (e.size() < 4) return e;
  size_t at = e[1] == 0x81 ? 3 : 4;
  n = std::min(n, e.size() - at);
  Bytes h = {0x30};
  if (form == 0) h.push_back((uint8_t)n);
  else if (form == 1) h.insert(h.end(), {0x81, (uint8_t)n});
  else h.insert(h.end(), {0x82, (uint8_t)(n >> 8), (uint8_t)n});
  h.insert(h.end(), e.begin() + at, e.begin() + at + n);
  return h;
}
void pbt_property(Tape &t) {
  Bytes k = cref::gen_key(t);
  bool comp = t.chance(1, 2);
  key(k);
  nontrivial();
  Bytes e = check_encode(k, comp);
  unsigned w = (unsigned)t.range(0, 8);
  if (w == 0) {  // built from parts
    size_t os = t.chance(1, 3) ? t.range(0, 40) : t.range(28, 33);
    Bytes body = t.chance(1, 4) ? cref::gen_invalid_scalar(t) : t.bytes(os);
    Bytes inner = cref::cat({Bytes{2, 1, (uint8_t)(t.chance(1, 10) ? t.byte() : 1)}, Bytes{4, (uint8_t)(t.chance(1, 10) ? t.byte() : body.size())}, body, t.bytes(t.range(0, 8))});
    size_t L = inner.size() + t.range(0, 4) - t.range(0, 4);
    unsigned form = (unsigned)t.range(0, 4);
    Bytes h = {0x30};
    if (form == 0) h.push_back((uint8_t)L);
    else if (form == 1) h.insert(h.end(), {0x81, (uint8_t)L});
    else if (form == 2) h.insert(h.end(), {0x82, (uint8_t)(L >> 8), (uint8_t)L});
    else if (form == 3) h.insert(h.end(), {0x83, 0, (uint8_t)(L >> 8), (uint8_t)L});
    else h.insert(h.end(), {(uint8_t)(0x80 | t.byte()), (uint8_t)L, (uint8_t)L});
    e = cref::cat({h, inner});
    classify("built from parts");
  } else if (w == 8) {
    e = long_form(e, t.chance(1, 2) ? t.range(0, 9) : t.range(0, 127), t.chance(1, 4) ? t.range(0, 2) : 0);
    if (t.chance(1, 3)) {  // the indefinite form ends in two zero bytes
      Bytes j = t.chance(1, 2) ? Bytes(2, 0) : t.blob(100);
      e.insert(e.end(), j.begin(), j.end());
    }
    classify("other length forms");
  } else if (w == 1) {
    e.resize(t.range(0, e.size()));
    classify("truncated");
    if (t.chance(2, 3)) {  // and the sequence says so
      e = short_seq(e, t.chance(1, 2) ? t.range(0, 45) : e.size(), (unsigned)t.range(0, 2));
      classify("truncated, sequence length too");
    }
  } else if (w == 2) {
    Bytes j = t.chance(1, 20) ? t.expand(t.range(100, 70000)) : t.blob(100);
    e.insert(e.end(), j.begin(), j.end());
    classify("junk behind");
    if (t.chance(1, 2)) {  // the sequence claims some or all of the junk, or one byte more
      size_t body = e.size() - (e[1] == 0x81 ? 3 : 4), L = t.chance(1, 2) ? body - t.range(0, j.size()) : body + t.range(0, 1);
      Bytes h = L < 256 && t.chance(1, 2) ? Bytes{0x30, 0x81, (uint8_t)L} : Bytes{0x30, 0x82, (uint8_t)(L >> 8), (uint8_t)L};
      e.erase(e.begin(), e.begin() + (e[1] == 0x81 ? 3 : 4));
      e.insert(e.begin(), h.begin(), h.end());
      classify("junk inside the sequence");
    }
  } else if (w == 3) {
    size_t at = e[1] == 0x81 ? 8 : 9;
    Bytes bad = cref::gen_invalid_scalar(t);
    std::copy(bad.begin(), bad.end(), e.begin() + at);
    classify("invalid secret");
  } else {
    unsigned c = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < c; i++) {
      size_t p = t.chance(2, 3) ? t.range(0, 10) : t.range(0, e.size() - 1);
      if (t.chance(1, 2)) e[p] ^= (uint8_t)(1 << t.range(0, 7));
      else e[p] = t.pick({(uint8_t)0, (uint8_t)1, (uint8_t)0x20, (uint8_t)0x21, (uint8_t)0x7F, (uint8_t)0x80, (uint8_t)0x81, (uint8_t)0xFF});
    }
    classify("edited");
  }
  key(e);
  if (want_sample()) sample(hex(k) + " / " + hex(e, 60));
  classify(check_decode(e) ? "accepted" : "refused");
}
void pbt_fixed(int shard, int n) {
  for (int c = 0; c < 2; c++) {
    Bytes k = cref::Num(0x1234567ul).be32();
    for (int i = 0; i < 32; i += 3) k[i] = (uint8_t)(k[i] + i + 1);
    Bytes e = check_encode(k, c);
    for (size_t p = shard; p <= e.size(); p += n) {
      Bytes m(e.begin(), e.begin() + p);
      check_decode(m);
      for (int b = 0; p < 60 && b < 256; b++) {
        m = e;
        m[p] = (uint8_t)b;
        check_decode(m);
      }
      for (unsigned form = 0; form < 3; form++) check_decode(short_seq(e, p, form));
      fixed_case("every truncation (the sequence's length kept and lowered) and (first 60) every byte value", c * 1000 + p);
    }
    for (size_t L = 256 + shard; L < 65536 + 3000; L += 509 * n) {  // two length bytes: everything below, at and above what is there
      Bytes m = e;
      if (m[1] == 0x81) m.insert(m.begin() + 2, 0), m[1] = 0x82;
      m.resize(4 + (L > 65535 ? 65535 : L), 0x30);
      for (int d = -1; d < 2; d++) {
        size_t len = m.size() - 4 + d;
        if (len > 65535) continue;
        m[2] = (uint8_t)(len >> 8), m[3] = (uint8_t)len;
        check_decode(m);
      }
      fixed_case("two-byte sequence lengths", c * 100000 + L);
    }
    for (int lb = shard; lb < 128; lb += n) {
      check_decode(long_form(e, lb, 0));
      Bytes m = long_form(e, lb, 0);
      m.resize(m.size() + 2);
      check_decode(m);
      if (lb) {
        check_decode(long_form(e, lb, 1));
        m.resize(m.size() + 70000);
        check_decode(m);
      }
      fixed_case("a length of every number of bytes", c * 1000 + lb);
    }
    for (int os = shard; os <= 33; os += n) {  // short octet strings, exact end
      Bytes m = {0x30, 0x81, (uint8_t)(5 + os), 2, 1, 1, 4, (uint8_t)os};
      m.insert(m.end(), os, 7);
      check_decode(m);
      m[2]--;
      check_decode(m);
      m[2] += 2;
      check_decode(m);
      fixed_case("every octet string size", os);
    }
  }
  check_decode(Bytes());
}
