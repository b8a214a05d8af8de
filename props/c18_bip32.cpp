#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include "cref.hpp"
using namespace pbt;
// a stand-in for the HMAC, so that the children BIP 32 calls invalid (probability 2^-127) can be had
static struct {
  bool on = false;
  int asked = 0;
  Bytes out, key, msg;
} plant;
extern "C" {
void __real_fingera_hmac_sha512(const void *key, size_t key_len, const void *msg, size_t msg_len, void *hash);
void __wrap_fingera_hmac_sha512(const void *key, size_t key_len, const void *msg, size_t msg_len, void *hash) {
  if (!plant.on) return __real_fingera_hmac_sha512(key, key_len, msg, msg_len, hash);
  plant.asked++;
  plant.key.assign((const uint8_t *)key, (const uint8_t *)key + key_len);
  plant.msg.assign((const uint8_t *)msg, (const uint8_t *)msg + msg_len);
  memcpy(hash, plant.out.data(), 64);
}
}
const char *const PBT_RULE =
    "histories: a seed of 0..200 bytes (or an arbitrary valid key, chain code and depth), then up to 12 random steps - derive "
    "a normal or hardened child with the parent's fingerprint or an arbitrary one, or neuter - are applied to the library's "
    "objects and to a BIP 32 model over OpenSSL; after every step key, chain code, depth, child number and fingerprint must "
    "agree, the private and public branches must meet, the parent must be unchanged, derivation below depth 255 must be "
    "refused, hardened derivation from a public key must be refused (release build; Debug asserts), keys off the curve must be "
    "refused. In part of the cases the HMAC is replaced (through the linker) by one that returns a planted left half - 0, n-1, n, 2^256-1, "
    "the value that makes the child key 0 or the point infinite - so the invalid children of BIP 32 occur. "
    "Non-trivial: two or more derivations, or a planted left half. Plus the published BIP 32 vectors 1..3 and all depths 0..255.";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
struct Model {
  Bytes key, chain, pub;  // key empty once neutered
  unsigned depth;
  uint32_t child, fp;
};
static uint32_t le(const Bytes &b) { return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24; }
static void check_ext(const fingera_ex_extension &e, const Model &m, const char *what) {
  REQUIRE(e.depth == m.depth, "%s: depth %u, expected %u", what, e.depth, m.depth);
  REQUIRE(e.child == m.child, "%s: child number %08x, expected %08x", what, e.child, m.child);
  REQUIRE(e.fingerprint == m.fp, "%s: fingerprint %08x, expected %08x", what, e.fingerprint, m.fp);
  REQUIRE(!memcmp(e.chain_code, m.chain.data(), 32), "%s: chain code %s, expected %s", what, hex(e.chain_code, 32).c_str(), hex(m.chain).c_str());
}
static void check_priv(const fingera_ex_key &k, const Model &m, const char *what) {
  check_ext(k.ext, m, what);
  REQUIRE(!memcmp(k.key, m.key.data(), 32), "%s: key %s, expected %s", what, hex(k.key, 32).c_str(), hex(m.key).c_str());
  fingera_ex_pubkey p;
  memset(&p, 0x33, sizeof p);
  fingera_exkey_get_pub(&k, &p);
  check_ext(p.ext, m, what);
  REQUIRE(!memcmp(p.c_pubkey, m.pub.data(), 33), "%s: public key %s, expected %s", what, hex(p.c_pubkey, 33).c_str(), hex(m.pub).c_str());
}
static void check_pub(const fingera_ex_pubkey &p, const Model &m, const char *what) {
  check_ext(p.ext, m, what);
  REQUIRE(!memcmp(p.c_pubkey, m.pub.data(), 33), "%s: public key %s, expected %s", what, hex(p.c_pubkey, 33).c_str(), hex(m.pub).c_str());
}
static Model model_init(const Bytes &seed) {
  const char *s = "Bitcoin seed";
  Bytes I = cref::hmac512(Bytes(s, s + 12), seed);
  Model m;
  m.key.assign(I.begin(), I.begin() + 32);
  m.chain.assign(I.begin() + 32, I.end());
  m.depth = 0;
  m.child = m.fp = 0;
  if (cref::valid_scalar(m.key)) m.pub = cref::pub(m.key, true);
  return m;
}
static bool model_derive(const Model &m, uint32_t child, uint32_t fp, Model &o) {
  if (m.depth == 255) return false;
  cref::XKey x;
  if (!m.key.empty()) {
    if (!cref::ckd_priv(m.key, m.chain, child, x)) return false;
    o.key = x.key;
    o.pub = cref::pub(x.key, true);
  } else {
    if (child >> 31) return false;
    if (!cref::ckd_pub(m.pub, m.chain, child, x)) return false;
    o.key.clear();
    o.pub = x.key;
  }
  o.chain = x.chain;
  o.depth = m.depth + 1;
  o.child = child;
  o.fp = fp;
  return true;
}
// derives child from the private object k (model m); also from its public half; returns success
static bool step(fingera_ex_key &k, Model &m, uint32_t child, uint32_t fp) {
  fingera_ex_key before = k, d;
  memset(&d, 0x5A, sizeof d);
  Model o;
  bool want = model_derive(m, child, fp, o);
  int r = fingera_exkey_derive(&k, &d, child, fp);
  REQUIRE((r != 0) == want, "exkey_derive(key %s, depth %u, child %08x) = %d, expected %d", hex(m.key).c_str(), m.depth, child, r, want);
  REQUIRE(!memcmp(&before, &k, sizeof k), "exkey_derive changed the parent");
  fingera_ex_pubkey p, pd;
  fingera_exkey_get_pub(&k, &p);
  REQUIRE(fingera_btc_pubkey_fingerprint(p.c_pubkey) == fingera_btc_key_fingerprint(k.key, 1), "the halves of %s have different fingerprints", hex(m.key).c_str());
  std::string what = sprintf_("child %08x of key %s chain %s depth %u", child, hex(m.key).c_str(), hex(m.chain).c_str(), m.depth);
  if (child >> 31 == 0 || LIB_NDEBUG) {
    fingera_ex_pubkey pb = p;
    memset(&pd, 0xA5, sizeof pd);
    int rp = fingera_expubkey_derive(&p, &pd, child, fp);
    REQUIRE((rp != 0) == (want && child >> 31 == 0), "expubkey_derive(%s) = %d", what.c_str(), rp);
    REQUIRE(!memcmp(&pb, &p, sizeof p), "expubkey_derive changed the parent");
    if (rp) check_pub(pd, o, ("public " + what).c_str());
    // the raw forms agree
    uint8_t k2[32], c2[32];
    if (m.depth < 255) {
      uint8_t p2[33];
      int rr = fingera_btc_pubkey_derive(p.c_pubkey, p.ext.chain_code, p2, c2, child);
      REQUIRE((rr != 0) == (child >> 31 == 0), "pubkey_derive(%s) = %d", what.c_str(), rr);
      if (rr) REQUIRE(!memcmp(p2, o.pub.data(), 33) && !memcmp(c2, o.chain.data(), 32), "pubkey_derive(%s) disagrees", what.c_str());
      rr = fingera_btc_key_derive(k.key, k.ext.chain_code, k2, c2, child);
      REQUIRE(rr && !memcmp(k2, o.key.data(), 32) && !memcmp(c2, o.chain.data(), 32), "key_derive(%s) = %d disagrees", what.c_str(), rr);
    }
  }
  if (want) {
    check_priv(d, o, what.c_str());
    k = d;
    m = o;
  }
  return want;
}
static bool pub_step(fingera_ex_pubkey &p, Model &m, uint32_t child, uint32_t fp) {
  fingera_ex_pubkey d, before = p;
  memset(&d, 0x5A, sizeof d);
  Model o;
  bool want = model_derive(m, child, fp, o);
  if (child >> 31 && !LIB_NDEBUG) return false;  // the Debug build asserts
  int r = fingera_expubkey_derive(&p, &d, child, fp);
  REQUIRE((r != 0) == want, "expubkey_derive(key %s, depth %u, child %08x) = %d, expected %d", hex(m.pub).c_str(), m.depth, child, r, want);
  REQUIRE(!memcmp(&before, &p, sizeof p), "expubkey_derive changed the parent");
  if (want) {
    check_pub(d, o, sprintf_("child %08x of public key %s", child, hex(m.pub).c_str()).c_str());
    p = d;
    m = o;
  }
  return want;
}
static uint32_t gen_child(Tape &t) {
  uint32_t c = t.chance(1, 3) ? (uint32_t)t.range(0, 3) : (uint32_t)t.edgy64() & 0x7FFFFFFF;
  if (t.chance(1, 8)) c = 0x7FFFFFFF - (uint32_t)t.range(0, 2);
  else if (t.chance(1, 4)) c = t.u32() & 0x7FFFFFFF;
  return c;
}
// one derivation, private and public, with I = il || ir planted; false if the HMAC was not asked
static bool planted(const Bytes &k, const Bytes &chain, uint32_t child, const Bytes &il, const Bytes &ir, unsigned depth, uint32_t fp, bool *was_bad = nullptr) {
  const bool hard = child >> 31;
  std::string what = sprintf_("child %08x of key %s with left half %s", child, hex(k).c_str(), hex(il).c_str());
  cref::Num n(il);
  bool ok = cref::cmp(n, cref::order()) < 0;
  Bytes want = cref::addm(n, cref::Num(k), cref::order()).be32();
  if (ok && cref::Num(want).zero()) ok = false;
  if (was_bad) *was_bad = !ok;
  Bytes P = cref::pub(k, true);
  plant.out = cref::cat({il, ir});
  struct Off {
    ~Off() { plant.on = false; }
  } off;
  plant.asked = 0;
  uint8_t k2[32], c2[32], p2[33];
  memset(k2, 0x11, 32), memset(c2, 0x22, 32), memset(p2, 0x33, 33);
  plant.on = true;
  int r = fingera_btc_key_derive(k.data(), chain.data(), k2, c2, child);
  plant.on = false;
  if (!plant.asked) return false;
  REQUIRE((r != 0) == ok, "key_derive: %s = %d, expected %d", what.c_str(), r, ok);
  if (ok) REQUIRE(!memcmp(k2, want.data(), 32) && !memcmp(c2, ir.data(), 32), "key_derive: %s gave %s", what.c_str(), hex(k2, 32).c_str());
  REQUIRE(plant.key == chain && plant.msg == cref::cat({hard ? cref::cat({Bytes{0}, k}) : P, cref::be4(child)}), "key_derive: %s hashed %s", what.c_str(), hex(plant.msg).c_str());
  fingera_ex_key x, d;
  memset(&x, 0, sizeof x);
  memset(&d, 0x44, sizeof d);
  memcpy(x.key, k.data(), 32);
  memcpy(x.ext.chain_code, chain.data(), 32);
  x.ext.depth = (uint8_t)depth;
  plant.on = true;
  r = fingera_exkey_derive(&x, &d, child, fp);
  plant.on = false;
  bool eok = ok && depth < 255;
  REQUIRE((r != 0) == eok, "exkey_derive at depth %u: %s = %d, expected %d", depth, what.c_str(), r, eok);
  if (eok) {
    Model m;
    m.key = want;
    m.pub = cref::pub(want, true);
    m.chain = ir;
    m.depth = depth + 1;
    m.child = child;
    m.fp = fp;
    check_priv(d, m, what.c_str());
  }
  if (hard) return true;
  plant.asked = 0;
  plant.on = true;
  r = fingera_btc_pubkey_derive(P.data(), chain.data(), p2, c2, child);
  plant.on = false;
  if (!plant.asked) return true;
  REQUIRE((r != 0) == ok, "pubkey_derive: %s = %d, expected %d", what.c_str(), r, ok);
  if (ok) REQUIRE(cref::pub(want, true) == Bytes(p2, p2 + 33) && !memcmp(c2, ir.data(), 32), "pubkey_derive: %s gave %s", what.c_str(), hex(p2, 33).c_str());
  fingera_ex_pubkey xp, dp;
  fingera_exkey_get_pub(&x, &xp);
  memset(&dp, 0x44, sizeof dp);
  plant.on = true;
  r = fingera_expubkey_derive(&xp, &dp, child, fp);
  plant.on = false;
  REQUIRE((r != 0) == eok, "expubkey_derive at depth %u: %s = %d, expected %d", depth, what.c_str(), r, eok);
  if (eok) REQUIRE(cref::pub(want, true) == Bytes(dp.c_pubkey, dp.c_pubkey + 33), "expubkey_derive: %s gave %s", what.c_str(), hex(dp.c_pubkey, 33).c_str());
  return true;
}
// left halves at the ends of what BIP 32 allows for the key k
static Bytes left_half(int kind, const Bytes &k, unsigned d) {
  using namespace cref;
  Num z((unsigned long)d);
  switch (kind) {
    case 0: return sub(order(), Num(k)).be32();                       // the child would be 0
    case 1: return addm(sub(order(), Num(k)), z, order()).be32();     // the child is d
    case 2: return subm(sub(order(), Num(k)), z, order()).be32();     // the child is n - d
    case 3: return add(order(), z).be32();                            // n + d: too large
    case 4: return sub(order(), Num((unsigned long)d + 1)).be32();    // n - 1 - d
    case 5: return Bytes(32, 0xFF);
    case 6: return z.be32();                                          // 0 and small
    default: return addm(Num(k), z, order()).be32();                  // doubling
  }
}
void pbt_property(Tape &t) {
  if (t.chance(1, 8)) {
    Bytes k = cref::gen_key(t), chain = t.bytes(32), ir = t.bytes(32);
    Bytes il = t.chance(1, 6) ? cref::gen32(t) : left_half((int)t.range(0, 7), k, (unsigned)t.range(0, t.chance(1, 2) ? 0 : 300));
    uint32_t c = (uint32_t)t.edgy64();
    unsigned depth = t.chance(1, 4) ? 255 - (unsigned)t.range(0, 1) : t.byte();
    bool bad;
    if (!planted(k, chain, c, il, ir, depth, t.u32(), &bad)) {
      classify("the HMAC stand-in was not consulted");
      return;
    }
    key(k);
    key(il);
    nontrivial();
    classify(bad ? "planted left half, invalid child" : "planted left half, valid child");
    if (want_sample()) sample(sprintf_("left half %s, key %s, child %08x", hex(il).c_str(), hex(k).c_str(), c));
    return;
  }
  fingera_ex_key k;
  Model m;
  if (t.chance(1, 2)) {
    Bytes seed = t.bytes(t.chance(1, 2) ? t.pick({(size_t)16, (size_t)32, (size_t)64}) : t.range(0, 200));
    m = model_init(seed);
    Buf sb(seed);
    memset(&k, 0x77, sizeof k);
    fingera_exkey_init(&k, sb.p, sb.n);
    key(seed);
    if (m.pub.empty()) return;
    check_priv(k, m, ("seed " + hex(seed)).c_str());
    classify("from a seed");
  } else {
    m.key = cref::gen_key(t);
    m.chain = t.bytes(32);
    m.pub = cref::pub(m.key, true);
    m.depth = t.pick({(unsigned)t.byte(), (unsigned)t.range(0, 6), (unsigned)t.range(0, 6), 255u, 254u, 253u, 0u});
    m.child = t.u32();
    m.fp = t.u32();
    memset(&k, 0x77, sizeof k);
    memcpy(k.key, m.key.data(), 32);
    memcpy(k.ext.chain_code, m.chain.data(), 32);
    k.ext.depth = (uint8_t)m.depth;
    k.ext.child = m.child;
    k.ext.fingerprint = m.fp;
    key(m.key);
    key(m.chain);
    classify("from an arbitrary node");
  }
  unsigned steps = (unsigned)t.range(1, t.chance(1, 4) ? 12 : 4), done = 0;
  std::string path = "m";
  bool neutered = false, refused = false;
  fingera_ex_pubkey p;
  for (unsigned i = 0; i < steps; i++) {
    uint32_t c = gen_child(t);
    if (t.chance(1, 2)) c |= 0x80000000u;
    uint32_t fp = t.chance(3, 4) ? le(cref::hash160(m.pub)) : t.u32();
    key(&c, 4);
    bool ok;
    path += sprintf_("/%u%s", c & 0x7FFFFFFF, c >> 31 ? "'" : "");
    if (!neutered) {
      ok = step(k, m, c, fp);
      if (t.chance(1, 4)) {
        fingera_exkey_get_pub(&k, &p);
        m.key.clear();
        neutered = true;
        path += "/N";
        classify("neutered on the way");
      }
    } else {
      ok = pub_step(p, m, c, fp);
    }
    done += ok;
    refused |= !ok;
  }
  if (refused) classify("a refused derivation");
  if (m.depth == 255) classify("depth 255 reached");
  if (done >= 2) nontrivial();
  if (want_sample()) sample(path + " -> " + hex(m.pub));
  // a public key that is not a point
  if (t.chance(1, 8)) {
    Bytes bad = cref::cat({Bytes{(uint8_t)t.range(2, 3)}, t.bytes(32)});
    cref::Point q;
    bool on = cref::parse_point(bad, q);
    fingera_ex_pubkey b, d;
    memset(&b, 0, sizeof b);
    memset(&d, 0, sizeof d);
    memcpy(b.c_pubkey, bad.data(), 33);
    int r = fingera_expubkey_derive(&b, &d, 5, 0);
    REQUIRE((r != 0) == on, "expubkey_derive of the key %s = %d, expected %d", hex(bad).c_str(), r, on);
    classify(on ? "random x, on the curve" : "random x, not on the curve");
  }
}
static Bytes unhex(const char *s) {
  Bytes r;
  for (; *s; s += 2) r.push_back((uint8_t)strtoul(std::string(s, 2).c_str(), nullptr, 16));
  return r;
}
void pbt_fixed(int shard, int n) {
  if (shard == 0) {
    const uint32_t H = 0x80000000u;
    static const struct {
      const char *seed;
      std::vector<uint32_t> path;
      const char *xprv;
    } v[] = {
        {"000102030405060708090a0b0c0d0e0f", {H, 1, H | 2, 2, 1000000000},
         "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76"},
        {"fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b484542",
         {0, H | 2147483647u, 1, H | 2147483646u, 2},
         "xprvA2nrNbFZABcdryreWet9Ea4LvTJcGsqrMzxHx98MMrotbir7yrKCEXw7nadnHM8Dq38EGfSh6dqA9QWTyefMLEcBYJUuekgW4BYPJcr9E7j"},
        {"4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be", {H},
         "xprv9uPDJpEQgRQfDcW7BkF7eTya6RPxXeJCqCJGHuCJ4GiRVLzkTXBAJMu2qaMWPrS7AANYqdq6vcBcBUdJCVVFceUvJFjaPdGZ2y9WACViL4L"},
    };
    for (auto &e : v) {
      Bytes seed = unhex(e.seed);
      Model m = model_init(seed);
      fingera_ex_key k;
      memset(&k, 0, sizeof k);
      fingera_exkey_init(&k, seed.data(), seed.size());
      check_priv(k, m, "vector");
      for (uint32_t c : e.path) REQUIRE(step(k, m, c, le(cref::hash160(m.pub))), "vector");
      Bytes pay = {0x04, 0x88, 0xAD, 0xE4, (uint8_t)m.depth, (uint8_t)m.fp, (uint8_t)(m.fp >> 8), (uint8_t)(m.fp >> 16), (uint8_t)(m.fp >> 24)};
      pay = cref::cat({pay, cref::be4(m.child), m.chain, Bytes{0}, m.key});
      if (cref::b58check(pay) != e.xprv) {
        fprintf(stderr, "model does not reproduce the published vector: %s\n", cref::b58check(pay).c_str());
        _Exit(3);
      }
      fixed_case("published vectors", (uint64_t)(&e - v), e.xprv);
    }
  }
  for (int kind = shard; kind < 8; kind += n)
    for (unsigned d = 0; d < 3; d++)
      for (uint32_t child : {0u, 0x80000000u, 0x7fffffffu})
        for (unsigned long kk : {1ul, 2ul, 77ul}) {
          Bytes k = cref::Num(kk).be32();
          planted(k, Bytes(32, 9), child, left_half(kind, k, d), Bytes(32, 0xEE), 3, 4);
          k = cref::sub(cref::order(), cref::Num(kk)).be32();
          planted(k, Bytes(32, 9), child, left_half(kind, k, d), Bytes(32, 0xEE), 254, 4);
          fixed_case("planted left halves at the ends of the range", (uint64_t)kind << 40 | (uint64_t)d << 36 | (uint64_t)kk << 32 | child);
        }
  for (int d = shard; d < 256; d += n) {
    Model m = model_init(Bytes(16, (uint8_t)d));
    fingera_ex_key k;
    memset(&k, 0, sizeof k);
    memcpy(k.key, m.key.data(), 32);
    memcpy(k.ext.chain_code, m.chain.data(), 32);
    k.ext.depth = (uint8_t)d;
    m.depth = (unsigned)d;
    Model mp = m;
    fingera_ex_pubkey p;
    fingera_exkey_get_pub(&k, &p);
    mp.key.clear();
    bool a = step(k, m, (uint32_t)d * 0x01010101u, 7);
    bool b = pub_step(p, mp, 5, 9);
    REQUIRE(a == (d < 255) && b == (d < 255), "depth %d: derivation %d %d", d, a, b);
    fixed_case("every depth", d);
  }
}
