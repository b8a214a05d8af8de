#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include "cref.hpp"
#include "params.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "extended private and public keys with arbitrary depth, fingerprint, child number, chain code and valid key material are "
    "written as 74 bytes and as text for the built-in networks and random prefixes of 1..8 bytes, compared with a BIP 32 / "
    "Base58Check model and read back to the same fields; strings with right checksums but another prefix, the other kind, a wrong size, a "
    "non-zero pad byte, an invalid secret or a point off the curve, very long payloads, and edited strings are accepted exactly "
    "when the model accepts. Non-trivial: every case. Plus every payload size 0..200, sizes that are right modulo 2^8 or 2^16, and every pad and point prefix byte.";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
struct Node {
  uint8_t depth;
  uint32_t fp, child;
  Bytes chain, key, pub;
};
// fingerprints are numbers whose little-endian bytes are the first bytes of the parent's key id
static Bytes ext(const Node &x) {
  Bytes fp = {(uint8_t)x.fp, (uint8_t)(x.fp >> 8), (uint8_t)(x.fp >> 16), (uint8_t)(x.fp >> 24)};
  return cref::cat({Bytes{x.depth}, fp, cref::be4(x.child), x.chain});
}
static Bytes pay(const Node &x, bool priv) { return cref::cat({ext(x), priv ? cref::cat({Bytes{0}, x.key}) : x.pub}); }
template <class E>
static void check_ext(const E &e, const Bytes &p, const char *what) {
  const Bytes &b = p;
  uint32_t fp = b[1] | b[2] << 8 | b[3] << 16 | (uint32_t)b[4] << 24, ch = (uint32_t)b[5] << 24 | b[6] << 16 | b[7] << 8 | b[8];
  REQUIRE(e.depth == b[0] && e.fingerprint == fp && e.child == ch && !memcmp(e.chain_code, &b[9], 32),
          "%s: read depth %u fingerprint %08x child %08x chain %s from %s", what, e.depth, e.fingerprint, e.child, hex(e.chain_code, 32).c_str(), hex(p).c_str());
}
// 0 invalid, 1 valid, 2 left open (a root with a parent's fingerprint or a child number)
static int model(const std::string &s, const Params &P, bool priv, Bytes &p) {
  Bytes a;
  if (!cref::unb58check(s, a)) return 0;
  const std::string &pre = priv ? P.xprv : P.xpub;
  if (a.size() != pre.size() + 74 || memcmp(a.data(), pre.data(), pre.size())) return 0;
  p.assign(a.begin() + pre.size(), a.end());
  if (priv) {
    if (p[41] != 0 || !cref::valid_scalar(Bytes(p.begin() + 42, p.end()))) return 0;
  } else {
    cref::Point q;
    if (!cref::parse_point(Bytes(p.begin() + 41, p.end()), q)) return 0;
  }
  if (p[0] == 0)
    for (int i = 1; i < 9; i++)
      if (p[i]) return 2;
  return 1;
}
static bool check_decode(const std::string &s, const Params &P) {
  bool any = false;
  for (int priv = 0; priv < 2; priv++) {
    Bytes p;
    int want = model(s, P, priv, p);
    Buf in(s);
    std::string what = sprintf_("%s: %s_from_string(%s)", P.name.c_str(), priv ? "exkey" : "expubkey", quote(s, 150).c_str());
    if (priv) {
      fingera_ex_key k;
      memset(&k, 0x66, sizeof k);
      int r = fingera_exkey_from_string(in.c(), in.n, &k, P.get());
      if (want == 2 && !r) continue;
      REQUIRE((r != 0) == (want != 0), "%s = %d, expected %s", what.c_str(), r, want ? "a key" : "a refusal");
      if (r) {
        check_ext(k.ext, p, what.c_str());
        REQUIRE(!memcmp(k.key, &p[42], 32), "%s: key %s, expected %s", what.c_str(), hex(k.key, 32).c_str(), hex(&p[42], 32).c_str());
      }
      any |= r != 0;
    } else {
      fingera_ex_pubkey k;
      memset(&k, 0x66, sizeof k);
      int r = fingera_expubkey_from_string(in.c(), in.n, &k, P.get());
      if (want == 2 && !r) continue;
      REQUIRE((r != 0) == (want != 0), "%s = %d, expected %s", what.c_str(), r, want ? "a key" : "a refusal");
      if (r) {
        check_ext(k.ext, p, what.c_str());
        REQUIRE(!memcmp(k.c_pubkey, &p[41], 33), "%s: key %s, expected %s", what.c_str(), hex(k.c_pubkey, 33).c_str(), hex(&p[41], 33).c_str());
      }
      any |= r != 0;
    }
  }
  return any;
}
static std::string check_encode(const Node &x, const Params &P, bool priv) {
  Bytes want = pay(x, priv);
  std::string text = cref::b58check(cref::cat({vec(priv ? P.xprv : P.xpub), want}));
  Buf out(fingera_exkey_string_max_length()), raw(74);
  size_t n;
  const char *what = priv ? "exkey" : "expubkey";
  if (priv) {
    fingera_ex_key k, b;
    memset(&k, 0x99, sizeof k);
    memset(&b, 0x66, sizeof b);
    k.ext.depth = x.depth;
    k.ext.fingerprint = x.fp;
    k.ext.child = x.child;
    memcpy(k.ext.chain_code, x.chain.data(), 32);
    memcpy(k.key, x.key.data(), 32);
    fingera_exkey_encode(&k, raw.p);
    REQUIRE(raw.vec() == want, "exkey_encode = %s, expected %s", hex(raw.p, 74).c_str(), hex(want).c_str());
    fingera_exkey_decode(raw.p, &b);
    check_ext(b.ext, want, "exkey_decode");
    REQUIRE(!memcmp(b.key, x.key.data(), 32), "exkey_decode(%s) key %s", hex(want).c_str(), hex(b.key, 32).c_str());
    n = fingera_exkey_to_string(&k, out.c(), P.get());
  } else {
    fingera_ex_pubkey k, b;
    memset(&k, 0x99, sizeof k);
    memset(&b, 0x66, sizeof b);
    k.ext.depth = x.depth;
    k.ext.fingerprint = x.fp;
    k.ext.child = x.child;
    memcpy(k.ext.chain_code, x.chain.data(), 32);
    memcpy(k.c_pubkey, x.pub.data(), 33);
    fingera_expubkey_encode(&k, raw.p);
    REQUIRE(raw.vec() == want, "expubkey_encode = %s, expected %s", hex(raw.p, 74).c_str(), hex(want).c_str());
    fingera_expubkey_decode(raw.p, &b);
    check_ext(b.ext, want, "expubkey_decode");
    REQUIRE(!memcmp(b.c_pubkey, x.pub.data(), 33), "expubkey_decode(%s) key %s", hex(want).c_str(), hex(b.c_pubkey, 33).c_str());
    n = fingera_expubkey_to_string(&k, out.c(), P.get());
  }
  std::string s((char *)out.p, n < out.n ? n : out.n);
  REQUIRE(n == text.size() && s == text, "%s: %s_to_string(%s) = %zu %s, expected %s", P.name.c_str(), what, hex(want).c_str(), n, quote(s).c_str(), quote(text).c_str());
  REQUIRE(check_decode(s, P) || (x.depth == 0 && (x.fp || x.child)), "%s: %s is not read back", P.name.c_str(), quote(s).c_str());
  return s;
}
void pbt_property(Tape &t) {
  Params P;
  gen_params(t, P);
  Node x;
  x.depth = t.chance(1, 3) ? (uint8_t)t.range(1, 5) : t.byte();
  x.fp = t.u32();
  x.child = t.chance(1, 2) ? (uint32_t)t.edgy64() : t.u32() | 0x80000000u;
  if (x.depth == 0 && t.chance(7, 8)) x.fp = x.child = 0;
  x.chain = t.bytes(32);
  x.key = cref::gen_key(t);
  x.pub = cref::pub(x.key, true);
  bool priv = t.chance(1, 2);
  key(x.key);
  key(ext(x));
  key(P.xprv.data(), P.xprv.size());
  nontrivial();
  classify(P.name.c_str());
  classify(priv ? "private" : "public");
  std::string s = check_encode(x, P, priv), m = s;
  if (t.chance(2, 3)) {
    std::string pre = priv ? P.xprv : P.xpub;
    Bytes b = pay(x, priv);
    unsigned w = (unsigned)t.range(0, 7);
    if (w == 0) {
      Bytes bad = cref::gen_invalid_scalar(t);
      std::copy(bad.begin(), bad.end(), b.begin() + 42);
      classify("invalid key material");
    } else if (w == 1) {
      b[41] = t.chance(1, 2) ? (uint8_t)t.range(0, 7) : t.byte();
      classify("pad or point prefix byte");
    } else if (w == 2) {
      pre[t.range(0, pre.size() - 1)] ^= (char)(1 << t.range(0, 7));
      classify("other prefix");
    } else if (w == 3) {
      Params Q;
      gen_params(t, Q);
      pre = t.chance(1, 2) ? Q.xprv : Q.xpub;
      classify("other network or kind");
    } else if (w == 4) {
      b.resize(t.range(0, 90), 1);
      classify("other size");
    } else if (w == 5) {
      b = t.bytes(t.range(100, 500));
      classify("long payload");
    } else if (w == 6) {
      Bytes r = t.bytes(32);
      std::copy(r.begin(), r.end(), b.begin() + 42);
      classify("random key material");
    } else {
      if (t.chance(1, 2)) pre.pop_back();
      else pre += (char)t.byte();
      classify("prefix length");
    }
    m = cref::b58check(cref::cat({vec(pre), b}));
  } else {
    unsigned c = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < c && !m.empty(); i++) {
      size_t p = t.range(0, m.size() - 1);
      switch (t.range(0, 4)) {
        case 0:
          m[p] = ref::b58()[t.range(0, 57)];
          break;
        case 1:
          m[p] = (char)t.byte();
          break;
        case 2:
          m.erase(p, 1);
          break;
        case 3:
          m.insert(p, 1, ref::b58()[t.range(0, 57)]);
          break;
        default:
          m = t.chance(1, 2) ? "\t" + m + " " : m + t.str_of(t.range(1, 300), ref::b58());
      }
    }
    classify("edited");
  }
  key(m.data(), m.size());
  if (want_sample()) sample(P.name + " " + quote(s) + " -> " + quote(m));
  classify(check_decode(m, P) ? "string accepted" : "string rejected");
}
void pbt_fixed(int shard, int n) {
  Params B[4];
  for (unsigned k = 0; k < 3; k++) {
    fill_builtin(B[k], k);
    const chain_parameters &p = B[k].p;
    REQUIRE(std::string(p.prefix_ext_public_key, p.prefix_ext_public_key_size) == B[k].xpub, "%s: extended public key prefix", B[k].name.c_str());
    REQUIRE(std::string(p.prefix_ext_secret_key, p.prefix_ext_secret_key_size) == B[k].xprv, "%s: extended secret key prefix", B[k].name.c_str());
  }
  B[3].name = "custom";
  B[3].xpub = std::string(8, (char)0xFF);
  B[3].xprv = std::string(7, (char)0xFF) + "\xFE";
  B[3].bind();
  Node x;
  x.depth = 255;
  x.fp = x.child = 0xFFFFFFFF;
  x.chain = Bytes(32, 0xFF);
  x.key = cref::sub(cref::order(), cref::Num(1ul)).be32();
  x.pub = cref::pub(x.key, true);
  Node z = x;
  z.depth = 0;
  z.fp = z.child = 0;
  z.chain = Bytes(32, 0);
  z.key = cref::Num(1ul).be32();
  z.pub = cref::pub(z.key, true);
  for (int b = shard; b < 256; b += n)
    for (auto &P : B) {
      Node y = x;
      y.depth = (uint8_t)b;
      if (b == 0) y.fp = y.child = 0;
      for (int priv = 0; priv < 2; priv++) {
        check_encode(y, P, priv);
        if (b == 0) check_encode(z, P, priv);
        Bytes p = pay(x, priv);
        p[41] = (uint8_t)b;
        check_decode(cref::b58check(cref::cat({vec(priv ? P.xprv : P.xpub), p})), P);
        p = cref::cat({vec(priv ? P.xprv : P.xpub), pay(x, priv)});
        p[0] = (uint8_t)b;
        check_decode(cref::b58check(p), P);
      }
      fixed_case("every depth, pad byte and first prefix byte", (uint64_t)b * 8 + (&P - B));
    }
  for (int sz = shard; sz <= 200; sz += n)
    for (auto &P : B) {
      std::string s = cref::b58check(cref::cat({vec(P.xprv), Bytes(sz, 0)}));
      check_decode(s, P);
      s = cref::b58check(cref::cat({vec(P.xpub), Bytes(sz, 2)}));
      check_decode(s, P);
      check_decode(cref::b58check(Bytes(sz, 4)), P);
      fixed_case("every payload size 0..200", (uint64_t)sz * 8 + (&P - B), quote(s, 80));
    }
  // a right beginning and a size that is right but for whole multiples of 2^8 or 2^16
  for (int i = shard; i < (LIB_NDEBUG ? 6 : 4); i += n) {
    Bytes p = cref::cat({vec(i % 2 ? B[0].xprv : B[0].xpub), pay(x, i % 2)});
    p.resize(p.size() + (i < 2 ? 256 : i < 4 ? 512 : 65536), 1);
    check_decode(cref::b58check(p), B[0]);
    fixed_case("sizes that are right modulo 2^8 or 2^16", i);
  }
}
