// Every public operation of the library as a value: a call can be generated, printed, placed in
// chosen memory and executed; its result is everything the caller is promised, as bytes.
#pragma once
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include "cref.hpp"
#include "params.hpp"

namespace ops {

enum Op {
  TO_HEX, FROM_HEX, TO_B64, TO_B64URL, FROM_B64, FROM_B64URL, TO_B32, FROM_B32, TO_B32RAW, FROM_B32RAW, TO_B58, FROM_B58,
  TO_B58C, FROM_B58C, BECH_ENC, BECH_DEC, ENC_VARINT, DEC_VARINT, ENC_ZIGZAG, DEC_ZIGZAG, SHA1, SHA256, SHA512, RMD160,
  HMAC256, HMAC512, HASH160, HASH256, HASH256_D64, BIP32_HASH, ADDR_PK, ADDR_SC, ADDR_WKH, ADDR_WSH, ADDR_WUN, ADDR_DEC,
  // from here on the key context is needed
  KEY_TO_STR, KEY_FROM_STR, KEY_DERIVE, KEY_ENC, KEY_DEC, KEY_PUB, PUB_DERIVE, PUB_DEC, SIGN, SIG_DEC, VERIFY, KEYID, PUB_KEYID,
  KEY_FPR, PUB_FPR, EXKEY_INIT, EXKEY_DERIVE, EXKEY_PUB, EXPUB_DERIVE, EXKEY_TO_STR, EXKEY_FROM_STR, EXPUB_TO_STR,
  EXPUB_FROM_STR, EXKEY_CODEC, EXPUB_CODEC, NOPS
};
inline const char *name(int op) {
  static const char *n[] = {
      "to_hex", "from_hex", "to_base64", "to_base64_urlsafe", "from_base64", "from_base64_urlsafe", "to_base32", "from_base32",
      "to_base32_raw", "from_base32_raw", "to_base58", "from_base58", "to_base58_check", "from_base58_check", "bech32_encode",
      "bech32_decode", "encode_varint", "decode_varint", "encode_zigzag", "decode_zigzag", "sha1", "sha2_256", "sha2_512",
      "ripemd160", "hmac_sha256", "hmac_sha512", "hash160", "hash256", "hash256_d64", "bip32_hash", "to_address_pubkey",
      "to_address_script", "to_address_witnessv0_keyhash", "to_address_witnessv0_scripthash", "to_address_witness_unknown",
      "address_decode", "key_to_string", "key_from_string", "key_derive", "key_encode", "key_decode", "key_get_pub",
      "pubkey_derive", "pubkey_decode+encode", "key_sign", "signature_decode+encode", "key_verify", "key_keyid",
      "pubkey_keyid", "key_fingerprint", "pubkey_fingerprint", "exkey_init", "exkey_derive", "exkey_get_pub",
      "expubkey_derive", "exkey_to_string", "exkey_from_string", "expubkey_to_string", "expubkey_from_string",
      "exkey_encode+decode", "expubkey_encode+decode"};
  static_assert(sizeof n / sizeof *n == NOPS, "");
  return n[op];
}
inline bool needs_ctx(int op) { return op >= KEY_TO_STR; }

struct Call {
  int op = 0;
  Bytes a, b;      // inputs
  uint32_t n = 0;  // child number, flag, block count, capacity
  uint64_t v = 0;  // integer argument
  int net = 0;
  std::string str() const {
    return pbt::sprintf_("%s(a=%s b=%s n=%u v=%llu net=%d)", name(op), pbt::hex(a, 100).c_str(), pbt::hex(b, 60).c_str(), n,
                         (unsigned long long)v, net);
  }
  bool operator==(const Call &o) const { return op == o.op && a == o.a && b == o.b && n == o.n && v == o.v && net == o.net; }
};

// where the operands of one call live
struct Place {
  virtual ~Place() {}
  virtual const uint8_t *in(const Bytes &b) = 0;
  virtual uint8_t *out(size_t cap) = 0;
  // called right before and right after the library call
  virtual void enter() {}
  virtual void leave() {}
};
// ordinary exact-size heap blocks
struct HeapPlace : Place {
  std::vector<pbt::Buf *> v;
  const uint8_t *in(const Bytes &b) override {
    v.push_back(new pbt::Buf(b));
    return v.back()->p;
  }
  uint8_t *out(size_t cap) override {
    v.push_back(new pbt::Buf(cap));
    return v.back()->p;
  }
  ~HeapPlace() {
    for (auto b : v) delete b;
  }
};

inline Params &net(int k) {
  static Params p[3];
  static bool done = false;
  if (!done) {
    for (int i = 0; i < 3; i++) fill_builtin(p[i], i);
    done = true;
  }
  return p[k];
}

struct Result {
  Bytes r;
  void num(uint64_t v) {
    for (int i = 0; i < 8; i++) r.push_back((uint8_t)(v >> (8 * i)));
  }
  void mem(const void *p, size_t n) { r.insert(r.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
};
inline fingera_ex_extension ext_of(const Bytes &b) {  // 41 bytes
  fingera_ex_extension e;
  memset(&e, 0, sizeof e);
  e.depth = b[0];
  memcpy(&e.fingerprint, &b[1], 4);
  memcpy(&e.child, &b[5], 4);
  memcpy(e.chain_code, &b[9], 32);
  return e;
}
inline void put_ext(Result &R, const fingera_ex_extension &e) {
  R.num(e.depth);
  R.num(e.fingerprint);
  R.num(e.child);
  R.mem(e.chain_code, 32);
}
inline Bytes run(const Call &c, Place &P) {
  Result R;
  const chain_parameters *cp = net(c.net).get();
#define CALL(stmt) \
  do {             \
    P.enter();     \
    stmt;          \
    P.leave();     \
  } while (0)
  auto clip = [](size_t n, size_t cap) { return n < cap ? n : cap; };
  switch (c.op) {
    case TO_HEX: {
      size_t L = c.a.size() * 2;
      auto i = P.in(c.a);
      auto o = P.out(L);
      CALL(fingera_to_hex(i, c.a.size(), (char *)o, (int)c.n));
      R.mem(o, L);
      break;
    }
    case TO_B64: case TO_B64URL: case TO_B32: {
      size_t L = c.op == TO_B64 ? fingera_to_base64_length(c.a.size()) : c.op == TO_B64URL ? fingera_to_base64_urlsafe_length(c.a.size())
                                                                                            : fingera_to_base32_length(c.a.size());
      auto f = c.op == TO_B64 ? fingera_to_base64 : c.op == TO_B64URL ? fingera_to_base64_urlsafe : fingera_to_base32;
      auto i = P.in(c.a);
      auto o = P.out(L);
      CALL(f(i, c.a.size(), (char *)o));
      R.num(L);
      R.mem(o, L);
      break;
    }
    case FROM_HEX: case FROM_B64: case FROM_B64URL: case FROM_B32: case FROM_B58: case FROM_B58C: {
      auto i = (const char *)P.in(c.a);
      size_t n = c.a.size(), L = 0, r;
      CALL(L = c.op == FROM_HEX      ? fingera_from_hex_length(n)
               : c.op == FROM_B64    ? fingera_from_base64_length(i, n)
               : c.op == FROM_B64URL ? fingera_from_base64_urlsafe_length(n)
               : c.op == FROM_B32    ? fingera_from_base32_length(i, n)
               : c.op == FROM_B58    ? fingera_from_base58_length(n)
                                     : fingera_from_base58_check_length(n));
      auto o = P.out(L);
      auto f = c.op == FROM_HEX      ? fingera_from_hex
               : c.op == FROM_B64    ? fingera_from_base64
               : c.op == FROM_B64URL ? fingera_from_base64_urlsafe
               : c.op == FROM_B32    ? fingera_from_base32
               : c.op == FROM_B58    ? fingera_from_base58
                                     : fingera_from_base58_check;
      CALL(r = f(i, n, o));
      REQUIRE(r <= L, "%s = %zu, more than the documented %zu bytes", c.str().c_str(), r, L);
      R.num(L);
      R.num(r);
      R.mem(o, clip(r, L));
      break;
    }
    case TO_B32RAW: case FROM_B32RAW: {
      size_t L = c.op == TO_B32RAW ? (c.a.size() * 8 + 4) / 5 : fingera_from_base32_raw_length(c.a.size()), r;
      auto i = P.in(c.a);
      auto o = P.out(L);
      CALL(r = c.op == TO_B32RAW ? fingera_to_base32_raw(i, c.a.size(), o) : fingera_from_base32_raw(i, c.a.size(), o));
      REQUIRE(r <= L, "%s = %zu, more than %zu", c.str().c_str(), r, L);
      R.num(r);
      R.mem(o, clip(r, L));
      break;
    }
    case TO_B58: {
      size_t L = fingera_to_base58_length(c.a.size()), r;
      auto i = P.in(c.a);
      auto o = P.out(L);
      CALL(r = fingera_to_base58(i, c.a.size(), (char *)o));
      REQUIRE(r <= L, "%s = %zu, more than %zu", c.str().c_str(), r, L);
      R.num(r);
      R.mem(o, clip(r, L));
      break;
    }
    case TO_B58C: {
      size_t L = fingera_to_base58_check_length(c.a.size(), c.b.size()), r;
      auto i = P.in(c.a), p = P.in(c.b);
      auto o = P.out(L);
      CALL(r = fingera_to_base58_check(i, c.a.size(), p, c.b.size(), (char *)o));
      REQUIRE(r <= L, "%s = %zu, more than %zu", c.str().c_str(), r, L);
      R.num(r);
      R.mem(o, clip(r, L));
      break;
    }
    case BECH_ENC: {
      size_t L = fingera_bech32_encode_length(c.a.size(), c.b.size());
      auto h = P.in(c.a), d = P.in(c.b);
      auto o = P.out(L);
      CALL(fingera_bech32_encode((const char *)h, c.a.size(), d, c.b.size(), (char *)o));
      R.mem(o, L);
      break;
    }
    case BECH_DEC: {
      size_t cap = c.n, dl = c.a.size() < 7 ? 0 : c.a.size() - 7;
      auto i = P.in(c.a);
      auto h = P.out(cap), d = P.out(dl);
      size_t hs = cap;
      int r;
      CALL(r = fingera_bech32_decode((const char *)i, c.a.size(), (char *)h, &hs, d));
      R.num(r < 0 ? 0 : 1);
      if (r >= 0) {
        R.num(r);
        R.num(hs);
        R.mem(h, clip(hs, cap));
        R.mem(d, clip((size_t)r, dl));
      }
      break;
    }
    case ENC_VARINT: case ENC_ZIGZAG: {
      auto o = P.out(10);
      size_t r;
      CALL(r = c.op == ENC_VARINT ? fingera_encode_varint(c.v, o) : fingera_encode_zigzag((int64_t)c.v, o));
      R.num(r);
      R.mem(o, clip(r, 10));
      break;
    }
    case DEC_VARINT: case DEC_ZIGZAG: {
      auto i = P.in(c.a);
      uint64_t v = 0;
      int64_t z = 0;
      size_t r;
      CALL(r = c.op == DEC_VARINT ? fingera_decode_varint(i, c.a.size(), &v) : fingera_decode_zigzag(i, c.a.size(), &z));
      R.num(r);
      if (r) R.num(c.op == DEC_VARINT ? v : (uint64_t)z);
      break;
    }
    case SHA1: case SHA256: case SHA512: case RMD160: case HASH160: case HASH256: {
      auto f = c.op == SHA1 ? fingera_sha1 : c.op == SHA256 ? fingera_sha2_256 : c.op == SHA512 ? fingera_sha2_512 : c.op == RMD160 ? fingera_ripemd160
               : c.op == HASH160 ? fingera_btc_hash160 : fingera_btc_hash256;
      size_t L = c.op == SHA512 ? 64 : c.op == SHA256 || c.op == HASH256 ? 32 : 20;
      auto i = P.in(c.a);
      auto o = P.out(L);
      CALL(f(i, c.a.size(), o));
      R.mem(o, L);
      break;
    }
    case HMAC256: case HMAC512: {
      size_t L = c.op == HMAC256 ? 32 : 64;
      auto k = P.in(c.a), m = P.in(c.b);
      auto o = P.out(L);
      CALL((c.op == HMAC256 ? fingera_hmac_sha256 : fingera_hmac_sha512)(k, c.a.size(), m, c.b.size(), o));
      R.mem(o, L);
      break;
    }
    case HASH256_D64: {
      size_t blocks = c.a.size() / 64;
      auto i = P.in(c.a);
      auto o = P.out(blocks * 32);
      CALL(fingera_btc_hash256_d64(o, i, blocks));
      R.mem(o, blocks * 32);
      break;
    }
    case BIP32_HASH: {
      auto i = P.in(c.a), d = P.in(c.b);
      auto o = P.out(64);
      CALL(fingera_btc_bip32_hash(i, c.n, (uint8_t)c.v, d, o));
      R.mem(o, 64);
      break;
    }
    case ADDR_PK: case ADDR_SC: case ADDR_WKH: case ADDR_WSH: case ADDR_WUN: {
      auto f = c.op == ADDR_PK ? fingera_to_address_pubkey : c.op == ADDR_SC ? fingera_to_address_script : c.op == ADDR_WKH ? fingera_to_address_witnessv0_keyhash
               : c.op == ADDR_WSH ? fingera_to_address_witnessv0_scripthash : fingera_to_address_witness_unknown;
      size_t cap = c.n, r;
      auto i = P.in(c.a);
      auto o = P.out(cap);
      CALL(r = f(i, c.a.size(), (char *)o, cap, cp));
      REQUIRE(r <= cap, "%s = %zu, more than the capacity", c.str().c_str(), r);
      R.num(r);
      R.mem(o, clip(r, cap));
      break;
    }
    case ADDR_DEC: {
      size_t cap = c.n, n = cap;
      auto i = P.in(c.a);
      auto o = P.out(cap);
      int k;
      CALL(k = fingera_btc_address_decode((const char *)i, c.a.size(), o, &n, cp));
      R.num(k);
      if (k != BTC_BAD_ADDRESS) {
        REQUIRE(n <= cap, "%s: payload of %zu bytes", c.str().c_str(), n);
        R.num(n);
        R.mem(o, clip(n, cap));
      }
      break;
    }
    case KEY_TO_STR: {
      size_t L = fingera_key_string_max_length(), r;
      auto i = P.in(c.a);
      auto o = P.out(L);
      CALL(r = fingera_btc_key_to_string(i, (char *)o, (int)c.n, cp));
      REQUIRE(r <= L, "%s = %zu", c.str().c_str(), r);
      R.num(r);
      R.mem(o, clip(r, L));
      break;
    }
    case KEY_FROM_STR: {
      auto i = P.in(c.a);
      auto o = P.out(32);
      int comp = 77, r;
      CALL(r = fingera_btc_key_from_string((const char *)i, c.a.size(), o, &comp, cp));
      R.num(r != 0);
      if (r) {
        R.num(comp != 0);
        R.mem(o, 32);
      }
      break;
    }
    case KEY_DERIVE: {
      auto k = P.in(c.a), ch = P.in(c.b);
      auto ok = P.out(32), oc = P.out(32);
      int r;
      CALL(r = fingera_btc_key_derive(k, ch, ok, oc, c.n));
      R.num(r != 0);
      if (r) R.mem(ok, 32), R.mem(oc, 32);
      break;
    }
    case KEY_ENC: {
      size_t L = c.n ? 214 : 279;
      auto k = P.in(c.a);
      auto o = P.out(L);
      int r;
      CALL(r = fingera_btc_key_encode(k, o, L));
      R.num(r != 0);
      if (r) R.mem(o, L);
      break;
    }
    case KEY_DEC: {
      auto i = P.in(c.a);
      auto o = P.out(32);
      int r;
      CALL(r = fingera_btc_key_decode(i, c.a.size(), o));
      R.num(r != 0);
      if (r) R.mem(o, 32);
      break;
    }
    case KEY_PUB: {
      auto i = P.in(c.a);
      auto o = P.out(64), e = P.out(65);
      CALL(fingera_btc_key_get_pub(i, o));
      CALL(fingera_btc_pubkey_encode(o, e, 65));
      R.mem(e, 65);
      break;
    }
    case PUB_DERIVE: {
      auto k = P.in(c.a), ch = P.in(c.b);
      auto ok = P.out(33), oc = P.out(32);
      int r;
      CALL(r = fingera_btc_pubkey_derive(k, ch, ok, oc, c.n & 0x7fffffff));
      R.num(r != 0);
      if (r) R.mem(ok, 33), R.mem(oc, 32);
      break;
    }
    case PUB_DEC: {
      auto i = P.in(c.a);
      auto h = P.out(64);
      int r;
      CALL(r = fingera_btc_pubkey_decode(i, c.a.size(), h));
      R.num(r != 0);
      if (r) {
        auto e = P.out(c.n ? 33 : 65);
        CALL(r = fingera_btc_pubkey_encode(h, e, c.n ? 33 : 65));
        R.num(r != 0);
        R.mem(e, c.n ? 33 : 65);
      }
      break;
    }
    case SIGN: {
      auto k = P.in(c.a), h = P.in(c.b);
      auto s = P.out(64), e = P.out(72);
      size_t n;
      CALL(fingera_btc_key_sign(k, h, s));
      CALL(n = fingera_btc_signature_encode(s, e));
      R.num(n);
      R.mem(e, clip(n, 72));
      break;
    }
    case SIG_DEC: {
      auto i = P.in(c.a);
      auto s = P.out(64);
      int r;
      CALL(r = fingera_btc_signature_decode(i, c.a.size(), s));
      R.num(r != 0);
      if (r) {
        auto e = P.out(72);
        size_t n;
        CALL(n = fingera_btc_signature_encode(s, e));
        R.num(n);
        R.mem(e, clip(n, 72));
      }
      break;
    }
    case VERIFY: {  // a: compressed key || hash, b: DER signature
      Bytes k(c.a.begin(), c.a.begin() + 33), h(c.a.begin() + 33, c.a.end());
      auto ki = P.in(k), hi = P.in(h), si = P.in(c.b);
      auto q = P.out(64), s = P.out(64);
      int r;
      CALL(r = fingera_btc_pubkey_decode(ki, 33, q));
      R.num(r != 0);
      if (!r) break;
      CALL(r = fingera_btc_signature_decode(si, c.b.size(), s));
      R.num(r != 0);
      if (!r) break;
      Bytes qb(q, q + 64), sb(s, s + 64);
      auto q2 = P.in(qb), s2 = P.in(sb);
      CALL(r = fingera_btc_key_verify(q2, hi, s2));
      R.num(r != 0);
      break;
    }
    case KEYID: {
      auto i = P.in(c.a);
      auto o = P.out(20);
      CALL(fingera_btc_key_keyid(i, (int)c.n, o));
      R.mem(o, 20);
      break;
    }
    case PUB_KEYID: {
      auto i = P.in(c.a);
      auto h = P.out(64), o = P.out(20);
      int r;
      CALL(r = fingera_btc_pubkey_decode(i, c.a.size(), h));
      R.num(r != 0);
      if (!r) break;
      CALL(fingera_btc_pubkey_keyid(h, (int)c.n, o));
      R.mem(o, 20);
      break;
    }
    case KEY_FPR: {
      auto i = P.in(c.a);
      uint32_t r;
      CALL(r = fingera_btc_key_fingerprint(i, (int)c.n));
      R.num(r);
      break;
    }
    case PUB_FPR: {
      auto i = P.in(c.a);
      uint32_t r;
      CALL(r = fingera_btc_pubkey_fingerprint(i));
      R.num(r);
      break;
    }
    case EXKEY_INIT: {
      auto i = P.in(c.a);
      auto k = (fingera_ex_key *)P.out(sizeof(fingera_ex_key));
      CALL(fingera_exkey_init(k, i, c.a.size()));
      put_ext(R, k->ext);
      R.mem(k->key, 32);
      break;
    }
    case EXKEY_DERIVE: case EXKEY_PUB: case EXKEY_TO_STR: case EXKEY_CODEC: {  // a: 41 bytes of ext || 32 of key
      fingera_ex_key k;
      memset(&k, 0, sizeof k);
      k.ext = ext_of(c.a);
      memcpy(k.key, &c.a[41], 32);
      auto ki = (const fingera_ex_key *)P.in(Bytes((uint8_t *)&k, (uint8_t *)&k + sizeof k));
      if (c.op == EXKEY_DERIVE) {
        auto d = (fingera_ex_key *)P.out(sizeof(fingera_ex_key));
        int r;
        CALL(r = fingera_exkey_derive(ki, d, c.n, (uint32_t)c.v));
        R.num(r != 0);
        if (r) put_ext(R, d->ext), R.mem(d->key, 32);
      } else if (c.op == EXKEY_PUB) {
        auto d = (fingera_ex_pubkey *)P.out(sizeof(fingera_ex_pubkey));
        CALL(fingera_exkey_get_pub(ki, d));
        put_ext(R, d->ext), R.mem(d->c_pubkey, 33);
      } else if (c.op == EXKEY_TO_STR) {
        size_t L = fingera_exkey_string_max_length(), r;
        auto o = P.out(L);
        CALL(r = fingera_exkey_to_string(ki, (char *)o, cp));
        REQUIRE(r <= L, "%s = %zu", c.str().c_str(), r);
        R.num(r);
        R.mem(o, clip(r, L));
      } else {
        auto o = P.out(74);
        CALL(fingera_exkey_encode(ki, o));
        R.mem(o, 74);
        auto i = P.in(Bytes(o, o + 74));
        auto d = (fingera_ex_key *)P.out(sizeof(fingera_ex_key));
        CALL(fingera_exkey_decode(i, d));
        put_ext(R, d->ext), R.mem(d->key, 32);
      }
      break;
    }
    case EXPUB_DERIVE: case EXPUB_TO_STR: case EXPUB_CODEC: {  // a: 41 bytes of ext || 33 of point
      fingera_ex_pubkey k;
      memset(&k, 0, sizeof k);
      k.ext = ext_of(c.a);
      memcpy(k.c_pubkey, &c.a[41], 33);
      auto ki = (const fingera_ex_pubkey *)P.in(Bytes((uint8_t *)&k, (uint8_t *)&k + sizeof k));
      if (c.op == EXPUB_DERIVE) {
        auto d = (fingera_ex_pubkey *)P.out(sizeof(fingera_ex_pubkey));
        int r;
        CALL(r = fingera_expubkey_derive(ki, d, c.n & 0x7fffffff, (uint32_t)c.v));
        R.num(r != 0);
        if (r) put_ext(R, d->ext), R.mem(d->c_pubkey, 33);
      } else if (c.op == EXPUB_TO_STR) {
        size_t L = fingera_exkey_string_max_length(), r;
        auto o = P.out(L);
        CALL(r = fingera_expubkey_to_string(ki, (char *)o, cp));
        REQUIRE(r <= L, "%s = %zu", c.str().c_str(), r);
        R.num(r);
        R.mem(o, clip(r, L));
      } else {
        auto o = P.out(74);
        CALL(fingera_expubkey_encode(ki, o));
        R.mem(o, 74);
        auto i = P.in(Bytes(o, o + 74));
        auto d = (fingera_ex_pubkey *)P.out(sizeof(fingera_ex_pubkey));
        CALL(fingera_expubkey_decode(i, d));
        put_ext(R, d->ext), R.mem(d->c_pubkey, 33);
      }
      break;
    }
    case EXKEY_FROM_STR: {
      auto i = P.in(c.a);
      auto k = (fingera_ex_key *)P.out(sizeof(fingera_ex_key));
      int r;
      CALL(r = fingera_exkey_from_string((const char *)i, c.a.size(), k, cp));
      R.num(r != 0);
      if (r) put_ext(R, k->ext), R.mem(k->key, 32);
      break;
    }
    case EXPUB_FROM_STR: {
      auto i = P.in(c.a);
      auto k = (fingera_ex_pubkey *)P.out(sizeof(fingera_ex_pubkey));
      int r;
      CALL(r = fingera_expubkey_from_string((const char *)i, c.a.size(), k, cp));
      R.num(r != 0);
      if (r) put_ext(R, k->ext), R.mem(k->c_pubkey, 33);
      break;
    }
  }
#undef CALL
  return R.r;
}

// ---- generation ----------------------------------------------------------------------
inline Bytes from(const std::string &s) { return Bytes(s.begin(), s.end()); }
// small edits of a text
inline void edit(Tape &t, Bytes &s, const std::string &alphabet) {
  unsigned k = (unsigned)t.range(0, 3);
  for (unsigned i = 0; i < k; i++) {
    size_t p = s.empty() ? 0 : t.range(0, s.size() - 1);
    uint8_t ch = t.chance(1, 2) ? t.byte() : (uint8_t)alphabet[t.range(0, alphabet.size() - 1)];
    switch (t.range(0, 3)) {
      case 0: if (!s.empty()) s[p] = ch; break;
      case 1: s.insert(s.begin() + p, ch); break;
      case 2: if (!s.empty()) s.erase(s.begin() + p); break;
      default: s.resize(s.empty() ? 0 : p);
    }
  }
}
inline Bytes gen_ext(Tape &t) {
  Bytes e = t.bytes(41);
  if (t.chance(1, 2)) e[0] = (uint8_t)t.range(1, 5);
  if (e[0] == 0) e[0] = 1;
  return e;
}
// want_op < 0: any operation
inline Call gen(Tape &t, size_t max = 300, int want_op = -1) {
  Call c;
  c.op = want_op >= 0 ? want_op : (int)t.range(0, NOPS - 1);
  c.net = (int)t.range(0, 2);
  Params &P = net(c.net);
  auto text = [&](const std::string &s, const std::string &alpha) {
    Bytes b = from(s);
    if (t.chance(1, 2)) edit(t, b, alpha);
    return b;
  };
  switch (c.op) {
    case TO_HEX: c.a = t.blob(max); c.n = (uint32_t)t.range(0, 1); break;
    case FROM_HEX: c.a = t.chance(1, 4) ? t.blob(40) : text(ref::hexs(t.blob(max), t.chance(1, 2)), "0123456789abcdefABCDEF g"); break;
    case TO_B64: case TO_B64URL: c.a = t.blob(max, 3); break;
    case FROM_B64: case FROM_B64URL: {
      bool u = t.chance(1, 4) ? c.op == FROM_B64 : c.op == FROM_B64URL;
      c.a = t.chance(1, 4) ? t.blob(40) : text(ref::base64(t.blob(max, 3), u), ref::b64std() + "=-_");
      break;
    }
    case TO_B32: case TO_B32RAW: c.a = t.blob(max, 5); break;
    case FROM_B32: c.a = t.chance(1, 4) ? t.blob(40) : text(ref::base32(t.blob(max, 5)), ref::b32() + "==A"); break;
    case FROM_B32RAW: {
      c.a = t.blob(max, 8);
      for (auto &x : c.a) x &= 31;
      if (!c.a.empty() && t.chance(1, 4)) c.a[t.range(0, c.a.size() - 1)] = t.byte();
      break;
    }
    case TO_B58: c.a = t.blob(max / 2); break;
    case FROM_B58: c.a = t.chance(1, 4) ? t.blob(40) : text(ref::base58(t.blob(max / 2)), ref::b58() + " 1110"); break;
    case TO_B58C: c.a = t.blob(max / 2); c.b = t.bytes(t.range(0, 8)); break;
    case FROM_B58C: c.a = t.chance(1, 6) ? t.blob(40) : text(cref::b58check(t.blob(max / 2)), ref::b58() + " 1"); break;
    case BECH_ENC: {
      c.a = from(t.str_of(t.range(1, 20), "abcdefgh1!~xyzik"));
      c.b = t.bytes(t.range(0, 60));
      for (auto &x : c.b) x &= 31;
      break;
    }
    case BECH_DEC: {
      std::vector<int> d(t.range(0, 60));
      for (auto &x : d) x = (int)t.range(0, 31);
      std::string h = t.str_of(t.range(1, 20), "abcdefgh1!~xyzik"), s = ref::bech32(h, d);
      if (d.size() > 1 && t.chance(1, 8)) s = ref::bech32_standin(h, d, t.range(1, d.size() - 1), t.chance(1, 2) ? 255 : t.byte(), t.pick({'b', 'i', 'o', '~'}));
      if (t.chance(1, 4)) s = ref::upper(s);
      c.a = t.chance(1, 6) ? t.blob(100) : text(s, ref::bech() + "1bB");
      c.n = (uint32_t)t.range(0, 90);
      break;
    }
    case ENC_VARINT: case ENC_ZIGZAG: c.v = t.edgy64(); break;
    case DEC_VARINT: case DEC_ZIGZAG:
      c.a = t.chance(1, 2) ? ref::varint(t.edgy64()) : t.blob(14);
      if (t.chance(1, 3) && !c.a.empty()) c.a.resize(t.range(0, c.a.size()));
      if (t.chance(1, 4)) for (auto &x : c.a) x |= 0x80;
      break;
    case SHA1: case SHA256: case RMD160: case HASH160: case HASH256: c.a = t.blob(max, 64); break;
    case SHA512: c.a = t.blob(max, 128); break;
    case HMAC256: c.a = t.blob(max, 64); c.b = t.blob(max, 64); break;
    case HMAC512: c.a = t.blob(max, 128); c.b = t.blob(max, 128); break;
    case HASH256_D64: c.a = t.bytes(64 * t.range(0, 5)); break;
    case BIP32_HASH: c.a = t.bytes(32); c.b = t.bytes(32); c.n = t.u32(); c.v = t.byte(); break;
    case ADDR_PK: case ADDR_SC: c.a = t.bytes(t.chance(1, 3) ? t.range(0, 60) : 20); c.n = (uint32_t)t.range(0, 120); break;
    case ADDR_WKH: c.a = t.bytes(20); c.n = (uint32_t)t.range(30, 70); break;
    case ADDR_WSH: c.a = t.bytes(32); c.n = (uint32_t)t.range(50, 90); break;
    case ADDR_WUN: c.a = t.bytes(t.range(1, 45)); c.a[0] = (uint8_t)t.range(0, 18); c.n = (uint32_t)t.range(0, 110); break;
    case ADDR_DEC: {
      if (t.chance(1, 2)) {
        Bytes p = cref::cat({vec(t.chance(1, 2) ? P.pk : P.sc), t.bytes(t.chance(1, 4) ? t.range(0, 60) : 20)});
        c.a = text(cref::b58check(p), ref::b58());
      } else {
        int ver = t.chance(1, 2) ? 0 : (int)t.range(0, 17);
        std::vector<int> d = ref::to_digits(t.bytes(ver == 0 ? (t.chance(1, 2) ? 20 : 32) : t.range(1, 42)), 5);
        d.insert(d.begin(), ver);
        c.a = text(ref::bech32(P.hrp, d), ref::bech() + "1");
      }
      if (t.chance(1, 8)) c.a = t.blob(max);
      c.n = (uint32_t)(t.chance(1, 4) ? t.range(0, 110) : c.a.size() + t.range(0, 4));
      break;
    }
    case KEY_TO_STR: case KEY_ENC: case KEY_PUB: case KEYID: case KEY_FPR: c.a = cref::gen_key(t); c.n = (uint32_t)t.range(0, 1); break;
    case KEY_FROM_STR: {
      Bytes p = cref::cat({vec(P.wif), t.chance(1, 6) ? cref::gen_invalid_scalar(t) : cref::gen_key(t)});
      if (t.chance(1, 2)) p.push_back(t.chance(3, 4) ? 1 : t.byte());
      if (t.chance(1, 8)) p = t.blob(max);
      c.a = text(cref::b58check(p), ref::b58());
      break;
    }
    case KEY_DERIVE: c.a = cref::gen_key(t); c.b = t.bytes(32); c.n = t.u32(); break;
    case KEY_DEC: {
      Bytes k = cref::gen_key(t);
      c.a = cref::cat({Bytes{0x30, 0x81, 0xD3, 2, 1, 1, 4, 0x20}, k, t.bytes(214 - 40)});
      if (t.chance(1, 2)) c.a = cref::cat({Bytes{0x30, 0x81, (uint8_t)t.range(0, 255), 2, 1, 1, 4, (uint8_t)t.range(0, 40)}, t.blob(80)});
      if (t.chance(1, 2)) edit(t, c.a, std::string("\x30\x81\x82\x02\x01\x04\x20", 7));
      if (t.chance(1, 4) && c.a.size() > 3) {  // cut, with a sequence length of just what is left
        c.a.resize(t.range(3, c.a.size()));
        c.a[0] = 0x30, c.a[1] = 0x81, c.a[2] = (uint8_t)(c.a.size() - 3);
      }
      break;
    }
    case PUB_DERIVE: case PUB_FPR:
      c.a = cref::pub(cref::gen_key(t), true);
      if (t.chance(1, 4)) for (size_t i = 1; i < 33; i++) c.a[i] = t.byte();
      c.b = t.bytes(32);
      c.n = t.u32();
      break;
    case PUB_DEC: case PUB_KEYID:
      c.a = cref::pub(cref::gen_key(t), t.chance(1, 2));
      if (t.chance(1, 3)) c.a[t.range(0, c.a.size() - 1)] ^= (uint8_t)(1 << t.range(0, 7));
      c.n = (uint32_t)t.range(0, 1);
      break;
    case SIGN: c.a = cref::gen_key(t); c.b = cref::gen32(t); break;
    case SIG_DEC: {
      c.a = cref::der_sig(cref::Num(t.bytes(32)), cref::Num(t.bytes(32)));
      if (t.chance(1, 2)) c.a = cref::cat({Bytes{0x30, (uint8_t)t.byte(), 2, (uint8_t)t.range(0, 40)}, t.blob(80)});
      if (t.chance(1, 2)) edit(t, c.a, std::string("\x30\x81\x82\x84\x02\x00\x20\x21", 8));
      break;
    }
    case VERIFY: {
      // s*R-type relation: key = k*G, signature made from a chosen nonce
      Bytes k = cref::gen_key(t), n = cref::gen_key(t), h = cref::gen32(t), x, y;
      cref::mulG(cref::Num(n)).xy(x, y);
      cref::Num r = cref::addm(cref::Num(x), cref::Num(0ul), cref::order());
      cref::Num s = cref::mulm(cref::invm(cref::Num(n), cref::order()),
                               cref::addm(cref::addm(cref::Num(h), cref::Num(0ul), cref::order()), cref::mulm(r, cref::Num(k), cref::order()), cref::order()), cref::order());
      c.b = cref::der_sig(r, s);
      if (t.chance(1, 3)) h[t.range(0, 31)] ^= 1;
      c.a = cref::cat({cref::pub(k, true), h});
      break;
    }
    case EXKEY_INIT: c.a = t.blob(128, 64); break;
    case EXKEY_DERIVE: case EXKEY_PUB: case EXKEY_TO_STR: case EXKEY_CODEC:
      c.a = cref::cat({gen_ext(t), cref::gen_key(t)});
      c.n = t.u32();
      c.v = t.u32();
      break;
    case EXPUB_DERIVE: case EXPUB_TO_STR: case EXPUB_CODEC:
      c.a = cref::cat({gen_ext(t), cref::pub(cref::gen_key(t), true)});
      c.n = t.u32();
      c.v = t.u32();
      break;
    case EXKEY_FROM_STR: case EXPUB_FROM_STR: {
      bool priv = c.op == EXKEY_FROM_STR;
      Bytes p = cref::cat({vec(priv ? P.xprv : P.xpub), gen_ext(t), priv ? cref::cat({Bytes{0}, cref::gen_key(t)}) : cref::pub(cref::gen_key(t), true)});
      if (t.chance(1, 4)) p[t.range(0, p.size() - 1)] ^= (uint8_t)(1 << t.range(0, 7));
      if (t.chance(1, 8)) p = t.blob(max);
      c.a = text(cref::b58check(p), ref::b58());
      break;
    }
  }
  return c;
}
// a call that has much in common with an earlier one: the same operation, or another one taking the same operands, with only
// some of the operands, or only a part of one, replaced; a cache that looks at less than everything takes it for the earlier one
inline Call relate(Tape &t, const Call &p, size_t max = 300) {
  static const std::vector<std::vector<int>> same = {
      {TO_HEX, TO_B64, TO_B64URL, TO_B32, TO_B32RAW, TO_B58, SHA1, SHA256, SHA512, RMD160, HASH160, HASH256},
      {FROM_HEX, FROM_B64, FROM_B64URL, FROM_B32, FROM_B58, FROM_B58C, KEY_FROM_STR, EXKEY_FROM_STR, EXPUB_FROM_STR},
      {DEC_VARINT, DEC_ZIGZAG}, {ENC_VARINT, ENC_ZIGZAG}, {HMAC256, HMAC512}, {ADDR_PK, ADDR_SC}, {KEYID, KEY_FPR, KEY_TO_STR, KEY_ENC, KEY_PUB},
      {EXKEY_DERIVE, EXKEY_PUB, EXKEY_TO_STR, EXKEY_CODEC}, {EXPUB_DERIVE, EXPUB_TO_STR, EXPUB_CODEC}, {PUB_DEC, PUB_KEYID}};
  Call f = gen(t, max, p.op), c = p;
  // where an operand may be put together from the two: anywhere, or between its fields
  std::vector<size_t> at;
  bool any = p.op < BECH_ENC || p.op == BECH_DEC || p.op == DEC_VARINT || p.op == DEC_ZIGZAG || (p.op >= SHA1 && p.op <= BIP32_HASH) || p.op == ADDR_PK ||
             p.op == ADDR_SC || p.op == ADDR_WKH || p.op == ADDR_WSH || p.op == ADDR_DEC || p.op == KEY_FROM_STR || p.op == KEY_DEC || p.op == SIG_DEC ||
             p.op == EXKEY_INIT || p.op == EXKEY_FROM_STR || p.op == EXPUB_FROM_STR;
  if (p.op == VERIFY) at = {33};
  if ((p.op >= EXKEY_DERIVE && p.op <= EXPUB_DERIVE) || p.op == EXKEY_TO_STR || p.op == EXPUB_TO_STR || p.op == EXKEY_CODEC || p.op == EXPUB_CODEC) at = {1, 5, 9, 41};
  auto splice = [&](Bytes &x, const Bytes &y, bool anywhere) {
    if (!anywhere && !at.empty() && t.chance(1, 3)) {  // one bit of what may be anything: the hash, or the chain code and what stands before it
      size_t lo = p.op == VERIFY ? 33 : 1, hi = p.op == VERIFY ? 64 : 40;
      x[t.range(lo, hi)] ^= (uint8_t)(1 << t.range(0, 7));
      return;
    }
    size_t n = std::min(x.size(), y.size());
    if (anywhere && n && t.chance(1, 3)) {  // one bit
      x[t.range(0, x.size() - 1)] ^= (uint8_t)(1 << t.range(0, 7));
      return;
    }
    size_t lo = 0, hi = n;
    if (anywhere && n) {
      lo = t.chance(1, 3) ? 0 : t.range(0, n - 1), hi = t.chance(1, 2) ? n : t.range(lo, n);
      if (t.chance(1, 2)) lo &= ~(size_t)3, hi &= ~(size_t)3;
    } else if (!at.empty() && t.chance(2, 3)) {
      size_t k = t.range(0, at.size());
      lo = k ? at[k - 1] : 0, hi = k < at.size() ? at[k] : n;
    } else {
      x = y;
      return;
    }
    std::copy(y.begin() + lo, y.begin() + hi, x.begin() + lo);
  };
  switch (t.range(0, 6)) {
    case 0: case 1: splice(c.a, f.a, any); break;
    case 2: case 3:
      if (c.b.empty()) splice(c.a, f.a, any);
      else splice(c.b, f.b, p.op != BECH_ENC);
      break;
    case 4:
      c.n = t.chance(1, 2) && (p.op == KEY_DERIVE || p.op == BIP32_HASH || p.op == PUB_DERIVE || p.op == EXKEY_DERIVE || p.op == EXPUB_DERIVE)
                ? p.n ^ (1u << t.range(0, 31))
                : f.n;
      c.v = f.v;
      break;
    case 5: c.net = f.net; break;
    default:
      for (auto &g : same)
        if (std::find(g.begin(), g.end(), p.op) != g.end()) c.op = g[t.range(0, g.size() - 1)];
      if (p.op == TO_HEX || c.op == TO_HEX || c.op == KEYID || c.op == KEY_FPR || c.op == KEY_TO_STR || c.op == KEY_ENC || c.op == KEY_PUB) c.n &= 1;
  }
  return c;
}
inline void setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  net(0);
}
}  // namespace ops
