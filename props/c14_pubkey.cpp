#include <fingera_libc/btc/key.h>
#include "cref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "valid secret keys (biased to 1.., ..n-1, powers of two, leading zeros) give the public key k*G computed with OpenSSL's "
    "curve arithmetic, in both encodings; key ids are hash160 of the chosen encoding and fingerprints its first four bytes; "
    "random 33- and 65-byte strings (prefix 0..255, x on and off the curve, x >= p, wrong y, hybrid forms) are decoded exactly when they "
    "are points, and re-encode canonically. Non-trivial: every case. Plus keys within 60 of 0 and of n, all prefix bytes, and (release build) refused lengths.";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
static uint32_t le(const Bytes &b) { return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24; }
static void check_handle(const void *pub64, const cref::Point &q, const char *what) {
  Bytes c = q.enc(true), u = q.enc(false);
  Buf h(pub64, 64), oc(33), ou(65), id(20);
  REQUIRE(fingera_btc_pubkey_encode(h.p, oc.p, 33), "%s: compressed encoding refused", what);
  REQUIRE(fingera_btc_pubkey_encode(h.p, ou.p, 65), "%s: uncompressed encoding refused", what);
  REQUIRE(oc.vec() == c, "%s: compressed encoding %s, expected %s", what, hex(oc.p, 33).c_str(), hex(c).c_str());
  REQUIRE(ou.vec() == u, "%s: uncompressed encoding %s, expected %s", what, hex(ou.p, 65).c_str(), hex(u).c_str());
  for (int comp : {0, 1, 2, -5, 256, INT32_MIN}) {
    fingera_btc_pubkey_keyid(h.p, comp, id.p);
    REQUIRE(id.vec() == cref::hash160(comp ? c : u), "%s: key id (compress %d) %s, expected %s", what, comp, hex(id.p, 20).c_str(),
            hex(cref::hash160(comp ? c : u)).c_str());
  }
  Buf c33(c);
  uint32_t f = fingera_btc_pubkey_fingerprint(c33.p);
  REQUIRE(f == le(cref::hash160(c)), "%s: fingerprint of %s is %08x, expected %08x", what, hex(c).c_str(), f, le(cref::hash160(c)));
}
static void check_key(const Bytes &k) {
  cref::Point q = cref::mulG(cref::Num(k));
  Buf kb(k), h(64), id(20);
  fingera_btc_key_get_pub(kb.p, h.p);
  check_handle(h.p, q, ("key " + hex(k)).c_str());
  for (int comp : {0, 1, 2, 256, -4}) {
    Bytes want = cref::hash160(q.enc(comp != 0));
    fingera_btc_key_keyid(kb.p, comp, id.p);
    REQUIRE(id.vec() == want, "key_keyid(%s, %d) = %s, expected %s", hex(k).c_str(), comp, hex(id.p, 20).c_str(), hex(want).c_str());
    REQUIRE(fingera_btc_key_fingerprint(kb.p, comp) == le(want), "key_fingerprint(%s, %d) = %08x, expected %08x", hex(k).c_str(), comp,
            fingera_btc_key_fingerprint(kb.p, comp), le(want));
  }
  REQUIRE(kb.vec() == k, "the key was changed");
}
static bool check_decode(const Bytes &e) {
  cref::Point q;
  bool ok = cref::parse_point(e, q);
  Buf in(e), h(64);
  int r = fingera_btc_pubkey_decode(in.p, in.n, h.p);
  REQUIRE((r != 0) == ok, "pubkey_decode(%s) = %d, expected %s", hex(e).c_str(), r, ok ? "a point" : "a refusal");
  if (ok) check_handle(h.p, q, ("point " + hex(e)).c_str());
  return ok;
}
void pbt_property(Tape &t) {
  nontrivial();
  if (t.chance(1, 2)) {
    Bytes k = cref::gen_key(t);
    key(k);
    classify("secret key");
    if (want_sample()) sample("key " + hex(k));
    check_key(k);
    Bytes p = cref::pub(k, t.chance(1, 2));
    REQUIRE(check_decode(p), "model rejects a public key");
    p[t.range(0, p.size() - 1)] ^= (uint8_t)(1 << t.range(0, 7));
    classify(check_decode(p) ? "one bit flipped: still a point" : "one bit flipped: no point");
    return;
  }
  Bytes x = t.bytes(32), y = t.bytes(32);
  unsigned w = (unsigned)t.range(0, 4);
  if (w == 0) {  // near the field's size
    cref::Num a = cref::add(cref::fieldp(), cref::Num((unsigned long)t.range(0, 40)));
    x = cref::sub(a, cref::Num((unsigned long)t.range(0, 40))).be32();
  } else if (w == 1) {  // small x
    x = cref::Num((unsigned long)t.range(0, 60)).be32();
  }
  cref::Point q;
  int odd = (int)t.range(0, 1);
  bool on = cref::lift_x(x, odd, q);
  if (on && t.chance(7, 8)) {
    Bytes xx;
    q.xy(xx, y);
    if (t.chance(1, 8)) y = cref::sub(cref::fieldp(), cref::Num(y)).be32();
    if (t.chance(1, 8)) y[t.range(0, 31)] ^= (uint8_t)(1 << t.range(0, 7));
  } else if (t.chance(1, 8)) {
    y = cref::add(cref::fieldp(), cref::Num((unsigned long)t.range(0, 10))).be32();
  }
  Bytes e;
  if (t.chance(1, 2)) {
    e = {(uint8_t)(t.chance(1, 8) ? t.byte() : 2 + odd)};
    e.insert(e.end(), x.begin(), x.end());
    classify("33 bytes");
  } else {
    e = {(uint8_t)(t.chance(1, 8) ? t.byte() : t.pick({4, 4, 6, 7}))};
    e.insert(e.end(), x.begin(), x.end());
    e.insert(e.end(), y.begin(), y.end());
    classify(e[0] == 6 || e[0] == 7 ? "65 bytes, hybrid" : "65 bytes");
  }
  key(e);
  if (want_sample()) sample("encoding " + hex(e));
  classify(check_decode(e) ? "encoding accepted" : "encoding rejected");
}
void pbt_fixed(int shard, int n) {
  for (int d = 1 + shard; d <= 60; d += n) {
    check_key(cref::Num((unsigned long)d).be32());
    check_key(cref::sub(cref::order(), cref::Num((unsigned long)d)).be32());
    check_decode(cref::cat({Bytes{2}, cref::sub(cref::fieldp(), cref::Num((unsigned long)(d - 1))).be32()}));
    check_decode(cref::cat({Bytes{3}, cref::add(cref::fieldp(), cref::Num((unsigned long)(d - 1))).be32()}));
    fixed_case("secrets within 60 of 0 and of n, x within 60 of p", d, sprintf_("key %d", d));
  }
  for (int b = shard; b < 256; b += n) {
    Bytes c = cref::pub(cref::Num((unsigned long)(b + 1)).be32(), true), u = cref::pub(cref::Num((unsigned long)(b + 1)).be32(), false);
    for (int p = 0; p < 256; p++) {
      c[0] = u[0] = (uint8_t)p;
      if (p == b || p < 10 || b < 2) {
        check_decode(c);
        check_decode(u);
      }
    }
    fixed_case("every prefix byte", b);
  }
#if LIB_NDEBUG
  for (int len = shard; len < 140; len += n) {
    if (len == 33 || len == 65) continue;
    Bytes u = cref::pub(Bytes(32, 1), false);
    u.resize(len, 0);
    Buf in(u), h(64), out(len), src(64);
    REQUIRE(!fingera_btc_pubkey_decode(in.p, in.n, h.p), "pubkey_decode accepted %d bytes", len);
    Bytes k(32, 1);
    fingera_btc_key_get_pub(k.data(), src.p);
    REQUIRE(!fingera_btc_pubkey_encode(src.p, out.p, len), "pubkey_encode accepted an output size of %d", len);
    fixed_case("every wrong length is refused", len);
  }
#endif
}
