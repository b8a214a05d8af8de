#include <fingera_libc/btc/key.h>
#include "cref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random (key, hash) pairs, biased to the ends of their ranges, are signed; the signature must be the RFC 6979 one with a "
    "low S and, by Bitcoin Core's counter rule, a low R (recomputed independently with OpenSSL), must verify, and signing "
    "again must give the same. Verification is compared with a textbook verifier over OpenSSL on: changed hash, key or "
    "signature, the negated S, r and s at 0, n-1, n, public keys recovered so that chosen r, s, hash verify (including points whose x "
    "exceeds n). Non-trivial: every case; the case class shows how many signatures needed one or more retries for low R. Plus "
    "published RFC 6979 secp256k1 vectors.";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
static Bytes handle_of(const cref::Point &q) {
  Bytes e = q.enc(true), h(64);
  REQUIRE(fingera_btc_pubkey_decode(e.data(), 33, h.data()), "pubkey_decode(%s) refused a point", hex(e).c_str());
  return h;
}
static Bytes sig_of(const Bytes &r, const Bytes &s) {
  Bytes d = cref::cat({Bytes{0x30, 0x44, 2, 0x20}, r, Bytes{2, 0x20}, s}), h(64);
  REQUIRE(fingera_btc_signature_decode(d.data(), d.size(), h.data()), "signature_decode(%s) refused", hex(d).c_str());
  return h;
}
static bool lib_verify(const Bytes &pub, const Bytes &hash, const Bytes &sig) {
  Buf p(pub), h(hash), s(sig);
  int r = fingera_btc_key_verify(p.p, h.p, s.p);
  REQUIRE(p.vec() == pub && h.vec() == hash && s.vec() == sig, "key_verify changed its input");
  return r != 0;
}
// r, s as 32 bytes: the library's verdict against the textbook's
static bool check_verify(const cref::Point &q, const Bytes &pub, const Bytes &hash, const Bytes &r, const Bytes &s, const char *what) {
  bool want = cref::verify(q, hash, cref::Num(r), cref::Num(s));
  bool got = lib_verify(pub, hash, sig_of(r, s));
  REQUIRE(got == want, "%s: verify(key %s, hash %s, r %s, s %s) = %d, expected %d", what, hex(q.enc(true)).c_str(), hex(hash).c_str(), hex(r).c_str(),
          hex(s).c_str(), got, want);
  classify(want ? "verification accepts" : "verification rejects");
  return want;
}
static void check_sign(const Bytes &k, const Bytes &hash, Bytes &r, Bytes &s) {
  unsigned rounds = 0;
  cref::Sig g = cref::sign_low_r(k, hash, &rounds);
  r = g.r.be32();
  s = g.s.be32();
  Bytes want = cref::der_sig(g.r, g.s);
  Buf kb(k), hb(hash), sig(64), sig2(64), der(BTC_SIGNATURE_SIZE);
  fingera_btc_key_sign(kb.p, hb.p, sig.p);
  size_t n = fingera_btc_signature_encode(sig.p, der.p);
  REQUIRE(n == want.size() && der.vec(n) == want, "sign(key %s, hash %s) = %s, expected %s", hex(k).c_str(), hex(hash).c_str(),
          hex(der.p, n < der.n ? n : der.n).c_str(), hex(want).c_str());
  fingera_btc_key_sign(kb.p, hb.p, sig2.p);
  REQUIRE(sig.vec() == sig2.vec(), "signing twice gave two signatures");
  REQUIRE(kb.vec() == k && hb.vec() == hash, "sign changed its input");
  Bytes pub(64);
  fingera_btc_key_get_pub(k.data(), pub.data());
  REQUIRE(lib_verify(pub, hash, sig.vec()), "the signature of %s by %s does not verify", hex(hash).c_str(), hex(k).c_str());
  classify(rounds == 0 ? "low R at once" : rounds == 1 ? "low R after 1 retry" : rounds < 4 ? "low R after 2..3 retries" : "low R after 4+ retries");
}
void pbt_property(Tape &t) {
  nontrivial();
  Bytes hash = cref::gen32(t);
  if (t.chance(3, 4)) {
    Bytes k = cref::gen_key(t), r, s;
    key(k);
    key(hash);
    check_sign(k, hash, r, s);
    if (want_sample()) sample("key " + hex(k) + " hash " + hex(hash) + " r " + hex(r) + " s " + hex(s));
    cref::Point q = cref::mulG(cref::Num(k));
    Bytes pub(64);
    fingera_btc_key_get_pub(k.data(), pub.data());
    Bytes hs = cref::sub(cref::order(), cref::Num(s)).be32();
    unsigned w = (unsigned)t.range(0, 7);
    if (w == 0) {
      REQUIRE(check_verify(q, pub, hash, r, hs, "negated S"), "model");
    } else if (w == 1) {
      Bytes h2 = hash;
      h2[t.range(0, 31)] ^= (uint8_t)(1 << t.range(0, 7));
      check_verify(q, pub, h2, r, s, "hash changed");
    } else if (w == 2) {
      Bytes r2 = r;
      r2[t.range(0, 31)] ^= (uint8_t)(1 << t.range(0, 7));
      if (cref::cmp(cref::Num(r2), cref::order()) < 0) check_verify(q, pub, hash, r2, s, "r changed");
    } else if (w == 3) {
      Bytes s2 = t.chance(1, 2) ? s : hs;
      s2[t.range(0, 31)] ^= (uint8_t)(1 << t.range(0, 7));
      if (cref::cmp(cref::Num(s2), cref::order()) < 0) check_verify(q, pub, hash, r, s2, "s changed");
    } else if (w == 4) {
      Bytes k2 = cref::gen_key(t);
      cref::Point q2 = cref::mulG(cref::Num(k2));
      check_verify(q2, handle_of(q2), hash, r, s, "other key");
      cref::Point q3 = cref::mulG(cref::sub(cref::order(), cref::Num(k)));
      check_verify(q3, handle_of(q3), hash, r, s, "negated key");
    } else if (w == 5) {
      check_verify(q, pub, hash, s, r, "r and s swapped");
    } else if (w == 6) {
      // hash and hash +- n are the same message number
      cref::Num z(hash);
      if (cref::cmp(z, cref::order()) >= 0) {
        REQUIRE(check_verify(q, pub, cref::sub(z, cref::order()).be32(), r, s, "hash reduced"), "model");
        classify("hash above n");
      }
    } else {
      Bytes z(32, 0), top = cref::sub(cref::order(), cref::Num(1ul)).be32();
      check_verify(q, pub, hash, t.chance(1, 2) ? z : r, t.chance(1, 2) ? z : s, "zero");
      check_verify(q, pub, hash, t.chance(1, 2) ? top : r, top, "n-1");
      Bytes n = cref::order().be32();
      REQUIRE(!lib_verify(pub, hash, sig_of(n, s)), "r = n verifies");
      REQUIRE(!lib_verify(pub, hash, sig_of(r, n)), "s = n verifies");
    }
    return;
  }
  // choose r's point, s and hash; recover a public key for which they verify
  Bytes x = t.chance(1, 3) ? cref::add(cref::order(), cref::Num((unsigned long)t.range(0, 400))).be32() : t.bytes(32);
  cref::Point R;
  while (!cref::lift_x(x, (int)(x[0] & 1), R)) x = cref::addm(cref::Num(x), cref::Num(1ul), cref::fieldp()).be32();
  cref::Num nx(x), r = cref::addm(nx, cref::Num(0ul), cref::order());
  bool wrapped = cref::cmp(nx, cref::order()) >= 0;
  cref::Num s(t.chance(1, 3) ? cref::Num((unsigned long)t.range(1, 5)) : cref::Num(cref::gen_key(t)));
  if (t.chance(1, 4)) s = cref::add(cref::half_order(), cref::Num((unsigned long)t.range(0, 2)));
  if (r.zero()) return;
  cref::Num ri = cref::invm(r, cref::order());
  cref::Num z = cref::addm(cref::Num(hash), cref::Num(0ul), cref::order());
  cref::Num a = cref::subm(cref::Num(0ul), cref::mulm(z, ri, cref::order()), cref::order());
  cref::Point q = cref::mul2(a, R, cref::mulm(s, ri, cref::order()));
  if (q.inf()) return;
  key(x);
  key(hash);
  key(s.be32());
  classify(wrapped ? "recovered key, x of the point above n" : "recovered key");
  Bytes pub = handle_of(q);
  REQUIRE(check_verify(q, pub, hash, r.be32(), s.be32(), "recovered key"), "the model's own construction fails");
  REQUIRE(check_verify(q, pub, hash, r.be32(), cref::sub(cref::order(), s).be32(), "recovered key, negated S"), "the model's own construction fails");
}
void pbt_fixed(int shard, int n) {
  // published secp256k1 RFC 6979 vectors (Trezor / bitcoinjs): key, message, r || s
  static const struct {
    const char *key, *msg, *r, *s;
  } v[] = {
      {"0000000000000000000000000000000000000000000000000000000000000001", "Satoshi Nakamoto", "934B1EA10A4B3C1757E2B0C017D0B6143CE3C9A7E6A4A49860D7A6AB210EE3D8",
       "2442CE9D2B916064108014783E923EC36B49743E2FFA1C4496F01A512AAFD9E5"},
      {"0000000000000000000000000000000000000000000000000000000000000001", "All those moments will be lost in time, like tears in rain. Time to die...",
       "8600DBD41E348FE5C9465AB92D23E3DB8B98B873BEECD930736488696438CB6B", "547FE64427496DB33BF66019DACBF0039C04199ABB0122918601DB38A72CFC21"},
  };
  for (auto &e : v) {
    Bytes k = cref::Num(e.key).be32(), h;
    h = cref::sha256(Bytes(e.msg, e.msg + strlen(e.msg)));
    cref::Sig g = cref::sign_rfc6979(k, h, Bytes());
    if (g.r.be32() != cref::Num(e.r).be32() || g.s.be32() != cref::Num(e.s).be32()) {
      fprintf(stderr, "reference signer does not reproduce the published vector\n");
      _Exit(3);
    }
    Bytes r, s;
    check_sign(k, h, r, s);
    fixed_case("published vectors", (uint64_t)(&e - v), e.msg);
  }
  for (int i = shard; i < 400; i += n) {
    Bytes r, s, k = cref::Num((unsigned long)(i % 20 + 1)).be32(), h = cref::sha256(Bytes{(uint8_t)i, (uint8_t)(i >> 8)});
    if (i % 3 == 0) k = cref::sub(cref::order(), cref::Num(k)).be32();
    if (i < 40) h = Bytes(32, i < 20 ? 0 : 0xFF);
    check_sign(k, h, r, s);
    fixed_case("small and large keys, chosen hashes", i);
  }
}
