#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include <memory>
#include "cref.hpp"
#include "params.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "whole wallets: a seed and a derivation path on a built-in or random network. The private wallet walks the path; at random nodes it is "
    "stored and restored as extended-key text, 74-byte form, hex or base64 of that, or the context restarts. From a random node on a "
    "watch-only wallet (restored from extended public key text) walks the same path publicly. At every leaf (1..6 siblings, visited in "
    "any order) both wallets' keys and all four kinds of address must equal a model's (OpenSSL, BIP 32, BIP 173, Base58Check), decode to "
    "their payload on this network and be bad on a network with other prefixes; the leaf key, restored from WIF and from both DER forms, signs a generated "
    "message and the signature, carried as DER text, verifies under the watch-only key, for that leaf and that message only. "
    "Non-trivial: two or more derivations and at least one restore.";
static bool sure;
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
struct Node {  // the model
  Bytes key, chain, pub;
  unsigned depth = 0;
  uint32_t child = 0, fp = 0;
};
static Bytes payload(const Node &m, bool priv) {
  Bytes h = {(uint8_t)m.depth, (uint8_t)m.fp, (uint8_t)(m.fp >> 8), (uint8_t)(m.fp >> 16), (uint8_t)(m.fp >> 24)};
  return cref::cat({h, cref::be4(m.child), m.chain, priv ? cref::cat({Bytes{0}, m.key}) : m.pub});
}
static uint32_t fpr(const Bytes &pub) {
  Bytes b = cref::hash160(pub);
  return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24;
}
static Node child_of(const Node &m, uint32_t c) {
  cref::XKey x;
  if (!cref::ckd_priv(m.key, m.chain, c, x)) throw Discard();
  Node o;
  o.key = x.key;
  o.chain = x.chain;
  o.pub = cref::pub(x.key, true);
  o.depth = m.depth + 1;
  o.child = c;
  o.fp = fpr(m.pub);
  return o;
}
static std::string text_of(const Node &m, bool priv, const Params &P) { return cref::b58check(cref::cat({vec(priv ? P.xprv : P.xpub), payload(m, priv)})); }
static void same(const fingera_ex_extension &e, const Node &m, const uint8_t *k, const Bytes &want, const char *who) {
  REQUIRE(e.depth == m.depth && e.child == m.child && e.fingerprint == m.fp && !memcmp(e.chain_code, m.chain.data(), 32),
          "%s wallet at depth %u, child %08x: the node is depth %u child %08x fingerprint %08x (expected %08x)", who, m.depth, m.child, e.depth, e.child, e.fingerprint, m.fp);
  REQUIRE(!memcmp(k, want.data(), want.size()), "%s wallet at depth %u, child %08x: key %s, expected %s", who, m.depth, m.child, hex(k, want.size()).c_str(), hex(want).c_str());
}
// store and restore; how: 0 no, 1 text, 2 raw, 3 hex of raw, 4 base64 of raw, 5 upper-case hex of raw
static void restore(fingera_ex_key &k, const Node &m, int how, const Params &P) {
  fingera_ex_key d;
  memset(&d, 0x6B, sizeof d);
  if (how == 1) {
    Buf s(fingera_exkey_string_max_length());
    size_t n = fingera_exkey_to_string(&k, s.c(), P.get());
    REQUIRE(std::string((char *)s.p, n) == text_of(m, true, P), "%s: stored as %s, expected %s", P.name.c_str(), quote(std::string((char *)s.p, n)).c_str(), text_of(m, true, P).c_str());
    Buf in(s.p, n);
    REQUIRE(fingera_exkey_from_string(in.c(), n, &d, P.get()), "%s: cannot restore %s", P.name.c_str(), text_of(m, true, P).c_str());
    fingera_ex_pubkey dp;
    REQUIRE(!fingera_expubkey_from_string(in.c(), n, &dp, P.get()), "%s: private text read as public", P.name.c_str());
  } else if (how >= 2) {
    Buf raw(74);
    fingera_exkey_encode(&k, raw.p);
    REQUIRE(raw.vec() == payload(m, true), "stored as %s", hex(raw.p, 74).c_str());
    Buf back(74);
    if (how == 2) memcpy(back.p, raw.p, 74);
    else if (how == 4) {
      Buf b(fingera_to_base64_length(74));
      fingera_to_base64(raw.p, 74, b.c());
      REQUIRE(fingera_from_base64_length(b.c(), b.n) == 74 && fingera_from_base64(b.c(), b.n, back.p) == 74, "base64 of a stored key does not decode");
    } else {
      Buf b(148);
      fingera_to_hex(raw.p, 74, b.c(), how == 5);
      REQUIRE(fingera_from_hex(b.c(), b.n, back.p) == 74, "hex of a stored key does not decode");
    }
    fingera_exkey_decode(back.p, &d);
  } else
    return;
  same(d.ext, m, d.key, m.key, "restored private");
  k = d;
}
static void restore(fingera_ex_pubkey &k, const Node &m, int how, const Params &P) {
  fingera_ex_pubkey d;
  memset(&d, 0x6B, sizeof d);
  if (how == 1) {
    Buf s(fingera_exkey_string_max_length());
    size_t n = fingera_expubkey_to_string(&k, s.c(), P.get());
    REQUIRE(std::string((char *)s.p, n) == text_of(m, false, P), "%s: stored as %s, expected %s", P.name.c_str(), quote(std::string((char *)s.p, n)).c_str(), text_of(m, false, P).c_str());
    Buf in(s.p, n);
    REQUIRE(fingera_expubkey_from_string(in.c(), n, &d, P.get()), "%s: cannot restore %s", P.name.c_str(), text_of(m, false, P).c_str());
    fingera_ex_key dp;
    REQUIRE(!fingera_exkey_from_string(in.c(), n, &dp, P.get()), "%s: public text read as private", P.name.c_str());
  } else if (how >= 2) {
    Buf raw(74);
    fingera_expubkey_encode(&k, raw.p);
    REQUIRE(raw.vec() == payload(m, false), "stored as %s", hex(raw.p, 74).c_str());
    fingera_expubkey_decode(raw.p, &d);
  } else
    return;
  same(d.ext, m, d.c_pubkey, m.pub, "restored watch-only");
  k = d;
}
typedef size_t (*addr_fn)(const void *, size_t, char *, size_t, const chain_parameters *);
static void one_address(addr_fn f, const Bytes &pay, const std::string &want, int kind, const Params &P, const Params &O) {
  Buf in(pay), out(120);
  size_t n = f(in.p, in.n, out.c(), out.n, P.get());
  std::string s((char *)out.p, n <= 120 ? n : 0);
  REQUIRE(s == want, "%s: the address of %s is %s, expected %s", P.name.c_str(), hex(pay).c_str(), quote(s).c_str(), want.c_str());
  Buf t(s), back(s.size());
  size_t bn = back.n;
  int k = fingera_btc_address_decode(t.c(), t.n, back.p, &bn, P.get());
  REQUIRE(k == kind && bn == pay.size() && back.vec(bn) == pay, "%s: address %s decodes to kind %d (expected %d), %s", P.name.c_str(), s.c_str(), k, kind, hex(back.p, bn < back.n ? bn : back.n).c_str());
  // another network: its prefixes decide
  bool b58 = kind == BTC_PUBKEY_ADDRESS || kind == BTC_SCRIPT_ADDRESS;
  Bytes full;
  auto starts = [&](const std::string &p) { return full.size() >= p.size() && !memcmp(full.data(), p.data(), p.size()); };
  if (b58 ? !(cref::unb58check(s, full) && (starts(O.pk) || starts(O.sc))) : O.hrp != P.hrp) {
    bn = back.n;
    k = fingera_btc_address_decode(t.c(), t.n, back.p, &bn, O.get());
    REQUIRE(k == BTC_BAD_ADDRESS, "%s address %s is kind %d on %s", P.name.c_str(), s.c_str(), k, O.name.c_str());
  }
}
static void addresses(const uint8_t *key32, const uint8_t *pub33, const Node &m, const Params &P, const Params &O) {
  Bytes want = cref::hash160(m.pub);
  Buf id(20), h(64);
  REQUIRE(fingera_btc_pubkey_decode(pub33, 33, h.p), "the watch-only key %s does not decode", hex(pub33, 33).c_str());
  fingera_btc_pubkey_keyid(h.p, 1, id.p);
  REQUIRE(id.vec() == want, "watch-only key id %s, expected %s", hex(id.p, 20).c_str(), hex(want).c_str());
  if (key32) {
    Buf id2(20);
    fingera_btc_key_keyid(key32, 1, id2.p);
    REQUIRE(id2.vec() == want, "private key id %s, expected %s", hex(id2.p, 20).c_str(), hex(want).c_str());
  }
  auto seg = [&](const Bytes &p) {
    std::vector<int> d = ref::to_digits(p, 5);
    d.insert(d.begin(), 0);
    return ref::bech32(P.hrp, d);
  };
  one_address(fingera_to_address_pubkey, want, cref::b58check(cref::cat({vec(P.pk), want})), BTC_PUBKEY_ADDRESS, P, O);
  Bytes redeem = cref::cat({Bytes{0, 20}, want}), sid(20), wid(32);
  fingera_btc_hash160(redeem.data(), redeem.size(), sid.data());
  REQUIRE(sid == cref::hash160(redeem), "script id %s", hex(sid).c_str());
  one_address(fingera_to_address_script, sid, cref::b58check(cref::cat({vec(P.sc), sid})), BTC_SCRIPT_ADDRESS, P, O);
  one_address(fingera_to_address_witnessv0_keyhash, want, seg(want), BTC_WITNESSV0_KEYHASH_ADDRESS, P, O);
  Bytes script = cref::cat({Bytes{33}, m.pub, Bytes{0xAC}});
  fingera_sha2_256(script.data(), script.size(), wid.data());
  REQUIRE(wid == cref::sha256(script), "script hash %s", hex(wid).c_str());
  one_address(fingera_to_address_witnessv0_scripthash, wid, seg(wid), BTC_WITNESSV0_SCRIPTHASH_ADDRESS, P, O);
}
static void sign(Tape &t, const uint8_t *key32, const uint8_t *pub33, const Node &m, const Bytes &otherpub, const Params &P, bool deep) {
  // the key as it comes out of a backup
  Buf wif(fingera_key_string_max_length()), k(32);
  int comp = t.pick({1, 0});
  size_t wn = fingera_btc_key_to_string(key32, wif.c(), comp, P.get());
  Bytes pay = cref::cat({vec(P.wif), m.key});
  if (comp) pay.push_back(1);
  REQUIRE(std::string((char *)wif.p, wn) == cref::b58check(pay), "%s: WIF of %s", P.name.c_str(), hex(m.key).c_str());
  int c = -5;
  REQUIRE(fingera_btc_key_from_string(wif.c(), wn, k.p, &c, P.get()) && (c != 0) == (comp != 0) && k.vec() == m.key, "%s: WIF %s does not restore", P.name.c_str(), cref::b58check(pay).c_str());
  size_t dn = t.chance(1, 2) ? 279 : 214;
  Buf der(dn), k2(32);
  REQUIRE(fingera_btc_key_encode(k.p, der.p, dn) && fingera_btc_key_decode(der.p, dn, k2.p) && k2.vec() == m.key, "DER key of %zu bytes of %s does not restore", dn, hex(m.key).c_str());
  Bytes msg = t.blob(300, 64), h(32);
  fingera_btc_hash256(msg.data(), msg.size(), h.data());
  REQUIRE(h == cref::hash256(msg), "hash256 of %s", hex(msg).c_str());
  Buf sig(64), ds(72), sig2(64), hp(64), hb(h);
  fingera_btc_key_sign(k2.p, hb.p, sig.p);
  size_t sn = fingera_btc_signature_encode(sig.p, ds.p);
  REQUIRE(sn >= 8 && sn <= 71, "signature of %zu bytes", sn);  // low R, low S
  if (deep) {
    cref::Sig g = cref::sign_low_r(m.key, h);
    REQUIRE(ds.vec(sn) == cref::der_sig(g.r, g.s), "signature %s, expected %s", hex(ds.p, sn).c_str(), hex(cref::der_sig(g.r, g.s)).c_str());
    classify("signature compared with RFC 6979");
  }
  // travels as text
  Buf tx(2 * sn), rx(sn);
  fingera_to_hex(ds.p, sn, tx.c(), 0);
  REQUIRE(fingera_from_hex(tx.c(), tx.n, rx.p) == sn, "hex of a signature does not decode");
  REQUIRE(fingera_btc_signature_decode(rx.p, sn, sig2.p), "signature %s does not decode", hex(rx.p, sn).c_str());
  REQUIRE(fingera_btc_pubkey_decode(pub33, 33, hp.p), "public key does not decode");
  REQUIRE(fingera_btc_key_verify(hp.p, hb.p, sig2.p), "signature %s by %s of %s does not verify", hex(rx.p, sn).c_str(), hex(m.key).c_str(), hex(h).c_str());
  // another message, another leaf
  Bytes m2 = msg, h2(32);
  if (m2.empty() || t.chance(1, 3)) m2.push_back(t.byte());
  else m2[t.range(0, m2.size() - 1)] ^= (uint8_t)(1 << t.range(0, 7));
  fingera_btc_hash256(m2.data(), m2.size(), h2.data());
  REQUIRE(!fingera_btc_key_verify(hp.p, h2.data(), sig2.p), "signature of %s verifies for %s", hex(msg).c_str(), hex(m2).c_str());
  if (!otherpub.empty() && otherpub != m.pub) {
    Buf op(64);
    REQUIRE(fingera_btc_pubkey_decode(otherpub.data(), 33, op.p), "public key does not decode");
    REQUIRE(!fingera_btc_key_verify(op.p, hb.p, sig2.p), "signature by %s verifies under %s", hex(m.pub).c_str(), hex(otherpub).c_str());
  }
}
static void wallet(Tape &t, const Bytes &seed, const std::vector<uint32_t> &path, size_t watch_from, const std::vector<uint32_t> &leaves, const Params &P, const Params &O, unsigned &restores) {
  Buf sb(seed);
  fingera_ex_key k;
  memset(&k, 0x3C, sizeof k);
  fingera_exkey_init(&k, sb.p, sb.n);
  Node m;
  const char *bs = "Bitcoin seed";
  Bytes I = cref::hmac512(Bytes(bs, bs + 12), seed);
  m.key.assign(I.begin(), I.begin() + 32);
  m.chain.assign(I.begin() + 32, I.end());
  if (!cref::valid_scalar(m.key)) throw Discard();
  m.pub = cref::pub(m.key, true);
  same(k.ext, m, k.key, m.key, "private");
  fingera_ex_pubkey w;
  bool watching = false;
  auto how = [&]() {
    int r = t.chance(1, 2) ? (int)t.range(1, 5) : 0;
    restores += r != 0;
    return r;
  };
  for (size_t i = 0;; i++) {
    restore(k, m, how(), P);
    if (i == watch_from) {
      fingera_exkey_get_pub(&k, &w);
      watching = true;
    }
    if (watching) {
      same(w.ext, m, w.c_pubkey, m.pub, "watch-only");
      restore(w, m, how(), P);
    }
    if (t.chance(1, 24)) {
      fingera_btc_key_uninit();
      fingera_btc_key_init();
      classify("context restarted");
    }
    if (i == path.size()) break;
    uint32_t c = path[i], f = fingera_btc_key_fingerprint(k.key, 1);
    fingera_ex_key d;
    memset(&d, 0x91, sizeof d);
    REQUIRE(fingera_exkey_derive(&k, &d, c, f), "child %08x cannot be derived", c);
    if (watching) {
      fingera_ex_pubkey dw;
      memset(&dw, 0x91, sizeof dw);
      REQUIRE(fingera_expubkey_derive(&w, &dw, c, fingera_btc_pubkey_fingerprint(w.c_pubkey)), "child %08x cannot be derived from the public key", c);
      w = dw;
    }
    m = child_of(m, c);
    k = d;
    same(k.ext, m, k.key, m.key, "private");
  }
  Bytes previous;
  for (uint32_t c : leaves) {  // any order, the same ones again
    Node leaf = child_of(m, c);
    fingera_ex_key d;
    fingera_ex_pubkey dw;
    memset(&d, 0x19, sizeof d);
    memset(&dw, 0x19, sizeof dw);
    REQUIRE(fingera_exkey_derive(&k, &d, c, fingera_btc_key_fingerprint(k.key, 1)), "leaf %08x cannot be derived", c);
    same(d.ext, leaf, d.key, leaf.key, "private leaf");
    restore(d, leaf, how(), P);
    if (c >> 31) fingera_exkey_get_pub(&d, &dw);
    else REQUIRE(fingera_expubkey_derive(&w, &dw, c, fingera_btc_pubkey_fingerprint(w.c_pubkey)), "leaf %08x cannot be derived from the public key", c);
    same(dw.ext, leaf, dw.c_pubkey, leaf.pub, "watch-only leaf");
    restore(dw, leaf, how(), P);
    addresses(d.key, dw.c_pubkey, leaf, P, O);
    sign(t, d.key, dw.c_pubkey, leaf, previous, P, t.chance(1, 3));
    previous = leaf.pub;
  }
}
void pbt_property(Tape &t) {
  Params P, O;
  gen_params(t, P);
  gen_params(t, O);
  for (Params *q : {&P, &O})
    if (!q->builtin && q->sc[0] == q->pk[0]) {  // neither a prefix of the other
      q->sc[0] = (char)(q->pk[0] ^ 0x55);
      q->bind();
    }
  Bytes seed = t.bytes(t.chance(1, 2) ? t.pick({(size_t)16, (size_t)32, (size_t)64}) : t.range(0, 200));
  auto num = [&]() -> uint32_t {
    uint32_t c = t.chance(1, 2) ? (uint32_t)t.range(0, 60) : (uint32_t)t.edgy64() & 0x7fffffff;
    return t.chance(1, 12) ? 0x7fffffff : c;
  };
  std::vector<uint32_t> path, leaves;
  size_t hard, normal;
  if (t.chance(1, 4)) {  // m / 44' / coin' / account' / change
    uint32_t H = 0x80000000u;
    path = {H | t.pick({44u, 49u, 84u, 86u}), H | (uint32_t)t.range(0, 1), H | num(), (uint32_t)t.range(0, 1)};
    hard = 3, normal = 1;
    classify("account path");
  } else {
    hard = t.range(0, 3), normal = t.range(0, 3);
    for (size_t i = 0; i < hard; i++) path.push_back(num() | (t.chance(3, 4) ? 0x80000000u : 0));
    for (size_t i = 0; i < normal; i++) path.push_back(num());
  }
  size_t watch = hard + t.range(0, normal);
  for (size_t i = t.range(1, t.chance(1, 4) ? 6 : 2); i > 0; i--)
    leaves.push_back(!leaves.empty() && t.chance(1, 4) ? leaves[0] : num() | (t.chance(1, 6) ? 0x80000000u : 0));
  unsigned restores = 0;
  key(seed);
  key(path.data(), path.size() * 4);
  key(leaves.data(), leaves.size() * 4);
  if (want_sample()) {
    std::string s = P.name + " seed " + hex(seed, 20) + " m";
    for (uint32_t c : path) s += sprintf_("/%u%s", c & 0x7fffffff, c >> 31 ? "'" : "");
    sample(s + sprintf_(", watched from level %zu, %zu leaves", watch, leaves.size()));
  }
  wallet(t, seed, path, watch, leaves, P, O, restores);
  classify(P.builtin ? P.name.c_str() : "custom network");
  if (path.size() + leaves.size() >= 2 && restores) nontrivial();
}
void pbt_fixed(int shard, int n) {
  // the first leaves of the usual accounts of fixed seeds, on every pair of built-in networks
  const uint32_t H = 0x80000000u;
  int c = 0;
  for (unsigned net = 0; net < 3; net++)
    for (unsigned other = 0; other < 3; other++)
      for (uint32_t purpose : {44u, 49u, 84u})
        for (uint32_t chg = 0; chg < 2; chg++) {
          if (c++ % n != shard) continue;
          Params P, O;
          fill_builtin(P, net);
          fill_builtin(O, other);
          uint8_t tape[64];
          for (int i = 0; i < 64; i++) tape[i] = (uint8_t)mix64(c * 64 + i);
          Tape t(tape, sizeof tape);
          unsigned r = 0;
          wallet(t, Bytes(16 + purpose % 3 * 16, (uint8_t)(c + 1)), {H | purpose, H | (net ? 1u : 0u), H, chg}, 3, {0, 1, 2, 3, 19, 0}, P, O, r);
          fixed_case("usual accounts on every pair of networks", c, sprintf_("%s, purpose %u', change %u", P.name.c_str(), purpose, chg));
        }
}
