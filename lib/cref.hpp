// Cryptographic reference: OpenSSL digests and big-number / curve arithmetic, plus RFC 6979,
// BIP 32, DER and address logic written here from the specifications.
#pragma once
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include "pbt.hpp"
#include "ref.hpp"

namespace cref {

inline const EVP_MD *md(const char *name) {
  struct E {
    const char *n;
    EVP_MD *m;
  };
  static E c[4] = {{"SHA1", 0}, {"RIPEMD160", 0}, {"SHA256", 0}, {"SHA512", 0}};
  for (auto &e : c)
    if (!strcmp(e.n, name)) {
      if (!e.m) e.m = EVP_MD_fetch(nullptr, name, nullptr);
      if (!e.m) {
        fprintf(stderr, "reference digest %s missing\n", name);
        _Exit(3);
      }
      return e.m;
    }
  abort();
}
inline Bytes digest(const char *name, const void *p, size_t n) {
  const EVP_MD *m = md(name);
  Bytes r(EVP_MD_get_size(m));
  unsigned l = 0;
  if (!EVP_Digest(p, n, r.data(), &l, m, nullptr)) _Exit(3);
  return r;
}
inline Bytes sha1(const Bytes &b) { return digest("SHA1", b.data(), b.size()); }
inline Bytes rmd(const Bytes &b) { return digest("RIPEMD160", b.data(), b.size()); }
inline Bytes sha256(const Bytes &b) { return digest("SHA256", b.data(), b.size()); }
inline Bytes sha512(const Bytes &b) { return digest("SHA512", b.data(), b.size()); }
inline Bytes hash256(const Bytes &b) { return sha256(sha256(b)); }
inline Bytes hash160(const Bytes &b) { return rmd(sha256(b)); }
inline Bytes cat(std::initializer_list<Bytes> l) {
  Bytes r;
  for (auto &b : l) r.insert(r.end(), b.begin(), b.end());
  return r;
}
inline Bytes hmac(const char *name, size_t block, const Bytes &key, const Bytes &msg) {
  Bytes k = key.size() > block ? digest(name, key.data(), key.size()) : key;
  k.resize(block, 0);
  Bytes i = k, o = k;
  for (auto &x : i) x ^= 0x36;
  for (auto &x : o) x ^= 0x5c;
  i.insert(i.end(), msg.begin(), msg.end());
  Bytes h = digest(name, i.data(), i.size());
  o.insert(o.end(), h.begin(), h.end());
  return digest(name, o.data(), o.size());
}
inline Bytes hmac256(const Bytes &k, const Bytes &m) { return hmac("SHA256", 64, k, m); }
inline Bytes hmac512(const Bytes &k, const Bytes &m) { return hmac("SHA512", 128, k, m); }

inline std::string b58check(const Bytes &payload) {
  Bytes h = hash256(payload);
  Bytes all = payload;
  all.insert(all.end(), h.begin(), h.begin() + 4);
  return ref::base58(all);
}
// payload (prefix included) of a Base58Check string; false if it is not one
inline bool unb58check(const std::string &s, Bytes &payload) {
  Bytes a;
  if (!ref::unbase58_ws(s, a) || a.size() < 4) return false;
  Bytes p(a.begin(), a.end() - 4), h = hash256(p);
  if (memcmp(h.data(), &a[a.size() - 4], 4)) return false;
  payload = p;
  return true;
}

// ---- big numbers ---------------------------------------------------------------------
struct Num {
  BIGNUM *b;
  Num() : b(BN_new()) {}
  explicit Num(const Bytes &x) : b(BN_bin2bn(x.data(), (int)x.size(), nullptr)) {}
  explicit Num(const char *hexs) : b(nullptr) { BN_hex2bn(&b, hexs); }
  explicit Num(unsigned long w) : b(BN_new()) { BN_set_word(b, w); }
  Num(const Num &o) : b(BN_dup(o.b)) {}
  Num &operator=(const Num &o) {
    if (this != &o) BN_copy(b, o.b);
    return *this;
  }
  ~Num() { BN_free(b); }
  Bytes be32() const {
    Bytes r(32);
    BN_bn2binpad(b, r.data(), 32);
    return r;
  }
  bool zero() const { return BN_is_zero(b); }
};
inline int cmp(const Num &a, const Num &b) { return BN_cmp(a.b, b.b); }
inline BN_CTX *bnctx() {
  static thread_local BN_CTX *c = BN_CTX_new();
  return c;
}
inline const Num &order() {
  static const Num n("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141");
  return n;
}
inline const Num &half_order() {
  static const Num n("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0");
  return n;
}
inline const Num &fieldp() {
  static const Num n("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F");
  return n;
}
inline Num addm(const Num &a, const Num &b, const Num &m) {
  Num r;
  BN_mod_add(r.b, a.b, b.b, m.b, bnctx());
  return r;
}
inline Num subm(const Num &a, const Num &b, const Num &m) {
  Num r;
  BN_mod_sub(r.b, a.b, b.b, m.b, bnctx());
  return r;
}
inline Num mulm(const Num &a, const Num &b, const Num &m) {
  Num r;
  BN_mod_mul(r.b, a.b, b.b, m.b, bnctx());
  return r;
}
inline Num invm(const Num &a, const Num &m) {
  Num r;
  BN_mod_inverse(r.b, a.b, m.b, bnctx());
  return r;
}
inline Num sub(const Num &a, const Num &b) {
  Num r;
  BN_sub(r.b, a.b, b.b);
  return r;
}
inline Num add(const Num &a, const Num &b) {
  Num r;
  BN_add(r.b, a.b, b.b);
  return r;
}

// ---- secp256k1 -------------------------------------------------------------------------
inline EC_GROUP *group() {
  static EC_GROUP *g = EC_GROUP_new_by_curve_name(NID_secp256k1);
  if (!g) _Exit(3);
  return g;
}
struct Point {
  EC_POINT *p;
  Point() : p(EC_POINT_new(group())) {}
  Point(const Point &o) : p(EC_POINT_dup(o.p, group())) {}
  Point &operator=(const Point &o) {
    if (this != &o) EC_POINT_copy(p, o.p);
    return *this;
  }
  ~Point() { EC_POINT_free(p); }
  bool inf() const { return EC_POINT_is_at_infinity(group(), p); }
  void xy(Bytes &x, Bytes &y) const {
    Num a, b;
    if (!EC_POINT_get_affine_coordinates(group(), p, a.b, b.b, bnctx())) _Exit(3);
    x = a.be32();
    y = b.be32();
  }
  Bytes enc(bool compressed) const {  // SEC 1
    Bytes x, y, r;
    xy(x, y);
    r.push_back(compressed ? (uint8_t)(2 + (y[31] & 1)) : 4);
    r.insert(r.end(), x.begin(), x.end());
    if (!compressed) r.insert(r.end(), y.begin(), y.end());
    return r;
  }
};
inline bool valid_scalar(const Bytes &k) {
  Num n(k);
  return !n.zero() && cmp(n, order()) < 0;
}
inline Point mulG(const Num &k) {
  Point r;
  EC_POINT_mul(group(), r.p, k.b, nullptr, nullptr, bnctx());
  return r;
}
inline Point mul2(const Num &a, const Point &q, const Num &b) {  // a*G + b*Q
  Point r;
  EC_POINT_mul(group(), r.p, a.b, q.p, b.b, bnctx());
  return r;
}
inline Bytes pub(const Bytes &k, bool compressed) { return mulG(Num(k)).enc(compressed); }
// y of x^3+7 with the wanted parity; false if x is not a coordinate of the curve
inline bool lift_x(const Bytes &x, int odd, Point &out) {
  Num nx(x);
  if (cmp(nx, fieldp()) >= 0) return false;
  if (!EC_POINT_set_compressed_coordinates(group(), out.p, nx.b, odd, bnctx())) return false;
  return true;
}
// SEC 1 octets of 33 or 65 bytes as Bitcoin accepts them (02 03 04, hybrid 06 07)
inline bool parse_point(const Bytes &e, Point &out) {
  if (e.size() == 33 && (e[0] == 2 || e[0] == 3))
    return lift_x(Bytes(e.begin() + 1, e.end()), e[0] & 1, out);
  if (e.size() == 65 && (e[0] == 4 || e[0] == 6 || e[0] == 7)) {
    Bytes x(e.begin() + 1, e.begin() + 33), y(e.begin() + 33, e.end());
    Num nx(x), ny(y);
    if (cmp(nx, fieldp()) >= 0 || cmp(ny, fieldp()) >= 0) return false;
    Num l = mulm(ny, ny, fieldp()), r = addm(mulm(mulm(nx, nx, fieldp()), nx, fieldp()), Num(7ul), fieldp());
    if (cmp(l, r) != 0) return false;
    if (e[0] != 4 && (y[31] & 1) != (e[0] & 1)) return false;
    EC_POINT_set_affine_coordinates(group(), out.p, nx.b, ny.b, bnctx());
    return true;
  }
  return false;
}

// ---- ECDSA, RFC 6979 (HMAC-SHA256, 16-byte-free, optional 32 bytes of extra data) --------
struct Sig {
  Num r, s;
};
inline Sig sign_rfc6979(const Bytes &key, const Bytes &hash, const Bytes &extra) {
  // RFC 6979 3.2 with int2octets(key) || bits2octets(hash) || extra (3.6) as the seed
  Bytes V(32, 1), K(32, 0);
  Bytes seed = cat({key, addm(Num(hash), Num(0ul), order()).be32(), extra});
  K = hmac256(K, cat({V, Bytes(1, 0), seed}));
  V = hmac256(K, V);
  K = hmac256(K, cat({V, Bytes(1, 1), seed}));
  V = hmac256(K, V);
  Num z(hash), d(key);
  Num zn = addm(z, Num(0ul), order());
  for (;;) {
    V = hmac256(K, V);
    Bytes kb = V;
    if (valid_scalar(kb)) {
      Num k(kb);
      Bytes x, y;
      mulG(k).xy(x, y);
      Num r = addm(Num(x), Num(0ul), order());
      Num s = mulm(invm(k, order()), addm(zn, mulm(r, d, order()), order()), order());
      if (!r.zero() && !s.zero()) {
        if (cmp(s, half_order()) > 0) s = sub(order(), s);
        Sig g;
        g.r = r;
        g.s = s;
        return g;
      }
    }
    K = hmac256(K, cat({V, Bytes(1, 0)}));
    V = hmac256(K, V);
  }
}
// Bitcoin Core's low-R grinding: extra entropy = little-endian counter 1,2,... in 32 bytes
inline Sig sign_low_r(const Bytes &key, const Bytes &hash, unsigned *rounds = nullptr) {
  Sig g = sign_rfc6979(key, hash, Bytes());
  uint32_t c = 0;
  while (g.r.be32()[0] >= 0x80) {
    c++;
    Bytes e(32, 0);
    for (int i = 0; i < 4; i++) e[i] = (uint8_t)(c >> (8 * i));
    g = sign_rfc6979(key, hash, e);
  }
  if (rounds) *rounds = c;
  return g;
}
// textbook ECDSA verification: r and s in [1, n-1], high S accepted
inline bool verify(const Point &q, const Bytes &hash, const Num &r, const Num &s) {
  if (r.zero() || s.zero() || cmp(r, order()) >= 0 || cmp(s, order()) >= 0) return false;
  Num z = addm(Num(hash), Num(0ul), order());
  Num w = invm(s, order());
  Point p = mul2(mulm(z, w, order()), q, mulm(r, w, order()));
  if (p.inf()) return false;
  Bytes x, y;
  p.xy(x, y);
  Num v = addm(Num(x), Num(0ul), order());
  return cmp(v, r) == 0;
}
inline Bytes der_int(const Bytes &be) {
  size_t z = 0;
  while (z + 1 < be.size() && be[z] == 0) z++;
  Bytes v(be.begin() + z, be.end());
  if (v[0] & 0x80) v.insert(v.begin(), 0);
  Bytes r = {2, (uint8_t)v.size()};
  r.insert(r.end(), v.begin(), v.end());
  return r;
}
inline Bytes der_sig(const Num &r, const Num &s) {
  Bytes a = der_int(r.be32()), b = der_int(s.be32());
  Bytes o = {0x30, (uint8_t)(a.size() + b.size())};
  return cat({o, a, b});
}

// ---- BIP 32 ----------------------------------------------------------------------------------
inline Bytes be4(uint32_t v) {
  return Bytes{(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
}
struct XKey {
  Bytes key, chain;
};
inline bool ckd_priv(const Bytes &k, const Bytes &c, uint32_t i, XKey &o) {
  Bytes data = i >> 31 ? cat({Bytes(1, 0), k, be4(i)}) : cat({pub(k, true), be4(i)});
  Bytes I = hmac512(c, data);
  Num il(Bytes(I.begin(), I.begin() + 32));
  if (cmp(il, order()) >= 0) return false;
  Num r = addm(il, Num(k), order());
  if (r.zero()) return false;
  o.key = r.be32();
  o.chain.assign(I.begin() + 32, I.end());
  return true;
}
inline bool ckd_pub(const Bytes &P, const Bytes &c, uint32_t i, XKey &o) {
  Point q;
  if (!parse_point(P, q)) return false;
  Bytes I = hmac512(c, cat({P, be4(i)}));
  Num il(Bytes(I.begin(), I.begin() + 32));
  if (cmp(il, order()) >= 0) return false;
  Point r = mul2(il, q, Num(1ul));
  if (r.inf()) return false;
  o.key = r.enc(true);
  o.chain.assign(I.begin() + 32, I.end());
  return true;
}

// ---- generators shared by the key properties -------------------------------------------------
// a valid secret scalar, biased to the ends of [1, n-1] and to special bit patterns
inline Bytes gen_key(Tape &t) {
  Num k;
  switch (t.range(0, 6)) {
    case 0:
      k = Num((unsigned long)t.range(1, 20));
      break;
    case 1:
      k = sub(order(), Num((unsigned long)t.range(1, 20)));
      break;
    case 2: {  // 2^i + small
      Num one(1ul);
      BN_lshift(k.b, one.b, (int)t.range(0, 255));
      k = addm(k, Num((unsigned long)t.range(0, 3)), order());
      break;
    }
    case 3: {
      k = add(half_order(), Num((unsigned long)t.range(0, 8)));
      k = sub(k, Num((unsigned long)t.range(0, 8)));
      break;
    }
    case 4: {  // leading zero bytes
      Bytes b = t.bytes(32);
      size_t z = t.range(0, 31);
      for (size_t i = 0; i < z; i++) b[i] = 0;
      k = addm(Num(b), Num(0ul), order());
      break;
    }
    default: {
      Bytes b(32);
      for (auto &x : b) x = t.byte();
      k = addm(Num(b), Num(0ul), order());
    }
  }
  if (k.zero()) k = Num(1ul);
  return k.be32();
}
inline Bytes gen32(Tape &t) {  // 32 arbitrary bytes, biased to special values
  switch (t.range(0, 5)) {
    case 0:
      return t.bytes(32);
    case 1: {
      Num n = add(order(), Num((unsigned long)t.range(0, 6)));
      n = sub(n, Num((unsigned long)t.range(0, 6)));
      return n.be32();
    }
    case 2:
      return Bytes(32, t.chance(1, 2) ? 0xFF : 0);
    default: {
      Bytes b(32);
      for (auto &x : b) x = t.byte();
      return b;
    }
  }
}
inline Bytes gen_invalid_scalar(Tape &t) {
  switch (t.range(0, 3)) {
    case 0:
      return Bytes(32, 0);
    case 1:
      return add(order(), Num((unsigned long)t.range(0, 50))).be32();
    case 2:
      return Bytes(32, 0xFF);
    default: {
      Bytes b(32, 0xFF);
      for (size_t i = 17; i < 32; i++) b[i] = t.byte();
      return b;  // 2^256 - small: above n
    }
  }
}

}  // namespace cref
