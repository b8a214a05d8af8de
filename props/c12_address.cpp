#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include "cref.hpp"
#include "params.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "for the three built-in networks (against independently stated constants) and random prefixes / human-readable parts, key "
    "hashes, script hashes and witness programs of every legal and illegal size and version are encoded, compared with a model "
    "(Base58Check, BIP 173) and decoded back to their kind and payload; strings with right checksums but a wrong network, "
    "version, program size, non-zero or over-long padding, and edited strings decode exactly when the model says so. Output "
    "buffers are heap blocks of the announced size; smaller capacities must be refused or suffice. Non-trivial: every case. "
    "Plus all versions 0..31 with all program sizes 0..45 and all padding values on all networks.";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
}

struct Decoded {
  int kind = BTC_BAD_ADDRESS;
  Bytes data;
  bool either = false;  // the documents leave this string open: refusing it is right too
};
static Decoded model(const std::string &s, const Params &P) {
  Decoded r;
  Bytes pay;
  if (cref::unb58check(s, pay) && !pay.empty()) {
    auto starts = [&](const std::string &p) { return pay.size() >= p.size() && !memcmp(pay.data(), p.data(), p.size()); };
    const std::string *p = starts(P.pk) ? &P.pk : starts(P.sc) ? &P.sc : nullptr;
    if (p) {
      r.kind = p == &P.pk ? BTC_PUBKEY_ADDRESS : BTC_SCRIPT_ADDRESS;
      r.data.assign(pay.begin() + p->size(), pay.end());
      r.either = r.data.size() != 20 || (starts(P.pk) && starts(P.sc));
      return r;
    }
  }
  std::string hrp;
  std::vector<int> d;
  if (!ref::unbech32(s, hrp, d) || hrp != P.hrp || d.empty()) return r;
  int ver = d[0];
  std::vector<int> prog(d.begin() + 1, d.end());
  size_t pad = prog.size() * 5 % 8;
  if (pad >= 5) return r;
  if (!prog.empty() && (prog.back() & ((1 << pad) - 1))) return r;
  Bytes b = ref::from_digits(prog, 5);
  if (b.size() < 2 || b.size() > 40 || ver > 16) return r;
  if (ver == 0) {
    if (b.size() == 20) r.kind = BTC_WITNESSV0_KEYHASH_ADDRESS;
    else if (b.size() == 32) r.kind = BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
    else return r;
    r.data = b;
  } else {
    r.kind = BTC_WITNESS_UNKNOWN_ADDRESS;
    r.data = b;
    r.data.insert(r.data.begin(), (uint8_t)ver);
  }
  return r;
}
static int check_decode(const std::string &s, const Params &P, size_t cap) {
  Decoded want = model(s, P);
  Buf in(s), out(cap);
  size_t n = cap;
  int k = fingera_btc_address_decode(in.c(), in.n, out.p, &n, P.get());
  if (k == BTC_BAD_ADDRESS && (want.either || cap < s.size())) return k;
  REQUIRE(k == want.kind, "%s: address_decode(%s, capacity %zu) = kind %d, expected %d (payload %s)", P.name.c_str(), quote(s).c_str(), cap, k,
          want.kind, hex(want.data).c_str());
  if (k != BTC_BAD_ADDRESS)
    REQUIRE(n == want.data.size() && out.vec(n) == want.data, "%s: address_decode(%s) payload %s, expected %s", P.name.c_str(), quote(s).c_str(),
            hex(out.p, n < cap ? n : cap).c_str(), hex(want.data).c_str());
  return k;
}
typedef size_t (*enc_fn)(const void *, size_t, char *, size_t, const chain_parameters *);
// encodes with the given capacity; full: capacity the documents promise to be enough
static std::string check_encode(enc_fn f, const char *what, const Bytes &d, const Params &P, size_t cap, size_t full, const std::string &want) {
  Buf in(d), out(cap);
  size_t n = f(in.p, in.n, out.c(), cap, P.get());
  if (n == 0 && (cap < full || want.empty())) return "";
  REQUIRE(n <= cap, "%s wrote %zu characters into %zu bytes", what, n, cap);
  std::string s((char *)out.p, n);
  REQUIRE(s == want, "%s: %s(%s, capacity %zu) = %s, expected %s", P.name.c_str(), what, hex(d).c_str(), cap, quote(s).c_str(), quote(want).c_str());
  return s;
}
static std::string b58addr(const std::string &pre, const Bytes &d) { return cref::b58check(cref::cat({vec(pre), d})); }
static std::string segwit(const std::string &hrp, int ver, const Bytes &prog) {
  std::vector<int> d = ref::to_digits(prog, 5);
  d.insert(d.begin(), ver);
  return ref::bech32(hrp, d);
}
// everything a caller may do with one payload on one network
static std::string check_kind(unsigned kind, const Bytes &d, int ver, const Params &P, size_t capdelta) {
  std::string want, s;
  size_t full;
  enc_fn f;
  const char *what;
  Bytes in = d;
  if (kind == 0 || kind == 1) {
    want = b58addr(kind ? P.sc : P.pk, d);
    full = fingera_to_base58_check_length(d.size(), kind ? P.sc.size() : P.pk.size());
    f = kind ? fingera_to_address_script : fingera_to_address_pubkey;
    what = kind ? "to_address_script" : "to_address_pubkey";
  } else if (kind == 2 || kind == 3) {
    size_t need = kind == 2 ? 20 : 32;
    if (d.size() != need && !LIB_NDEBUG) return "";  // the Debug build asserts on a wrong size
    if (d.size() == need) want = segwit(P.hrp, 0, d);
    full = want.size();
    f = kind == 2 ? fingera_to_address_witnessv0_keyhash : fingera_to_address_witnessv0_scripthash;
    what = kind == 2 ? "to_address_witnessv0_keyhash" : "to_address_witnessv0_scripthash";
  } else {
    in.insert(in.begin(), (uint8_t)ver);
    if (ver >= 1 && ver <= 16 && d.size() >= 2 && d.size() <= 40) want = segwit(P.hrp, ver, d);
    full = want.size();
    f = fingera_to_address_witness_unknown;
    what = "to_address_witness_unknown";
  }
  s = check_encode(f, what, in, P, full, full, want);
  REQUIRE(s == want, "%s: %s(%s) refused", P.name.c_str(), what, hex(in).c_str());
  if (want.empty()) {
    check_encode(f, what, in, P, 200, 0, want);
    return "";
  }
  check_encode(f, what, in, P, full + 50, full, want);
  if (capdelta && capdelta <= full) check_encode(f, what, in, P, full - capdelta, full, want);
  if (kind < 4 || want.size() <= 90) check_decode(s, P, s.size());
  return s;
}
void pbt_property(Tape &t) {
  Params P;
  gen_params(t, P);
  unsigned kind = (unsigned)t.range(0, 4);
  size_t n = kind <= 1 ? (t.chance(1, 4) ? t.range(0, 200) : 20) : kind == 2 ? 20 : kind == 3 ? 32 : t.range(2, 40);
  if (kind >= 2 && t.chance(1, 12)) n = t.range(0, 60);
  int ver = t.chance(1, 8) ? (int)t.range(0, 255) : (int)t.range(1, 16);
  Bytes d = t.bytes(n);
  key(P.hrp.data(), P.hrp.size());
  key(P.pk.data(), P.pk.size());
  key(d);
  nontrivial();
  static const char *kinds[] = {"key hash", "script hash", "witness key hash", "witness script hash", "other witness program"};
  classify(kinds[kind]);
  classify(P.name.c_str());
  std::string s = check_kind(kind, d, ver, P, t.range(0, t.chance(1, 2) ? 40 : 4));
  std::string m = s;
  unsigned e = (unsigned)t.range(0, 8);
  if (e == 0) {  // a random bech32 string of this network: any version, any digits
    std::vector<int> v(t.pick({t.range(0, 70), (uint64_t)33, (uint64_t)53}));
    for (auto &x : v) x = (int)t.range(0, 31);
    if (!v.empty() && t.chance(1, 2)) v[0] = (int)t.range(0, 17);
    if (!v.empty() && t.chance(1, 2)) v.back() = 0;
    uint32_t k = t.chance(3, 4) ? 1 : t.pick({(uint32_t)0x2bc830a3, (uint32_t)0x2bc830a3, (uint32_t)0, (uint32_t)t.bits(4) & 0x3fffffff});
    m = ref::bech32(t.chance(1, 6) ? P.hrp + "x" : P.hrp, v, k);
    classify(k == 1 ? "random digits, right checksum" : "random digits, checksum for another constant");
  } else if (e == 1) {  // another network's
    static const char *hr[] = {"bc", "tb", "bcrt", "bcr", "b"};
    m = segwit(hr[t.range(0, 4)], (int)t.range(0, 16), t.bytes(t.pick({(size_t)20, (size_t)32})));
    classify("other network");
  } else if (e == 2) {  // random version byte(s)
    m = b58addr(std::string(1, (char)t.byte()), t.bytes(t.pick({(size_t)20, (size_t)20, (size_t)19, (size_t)21, (size_t)0})));
    classify("random base58 version");
  } else if (e == 3) {  // padding bits set, or a superfluous digit
    Bytes prog = t.bytes(t.pick({(size_t)20, (size_t)32, t.range(2, 40)}));
    std::vector<int> v = ref::to_digits(prog, 5);
    if (t.chance(1, 2)) v.back() |= 1 << t.range(0, 3);
    else v.insert(v.end(), t.range(1, 2), t.chance(2, 3) ? 0 : (int)t.range(0, 31));
    v.insert(v.begin(), prog.size() == 20 || prog.size() == 32 ? (int)t.range(0, 2) : (int)t.range(1, 16));
    m = ref::bech32(P.hrp, v);
    classify("padding bits");
  } else if (e == 4) {
    m = ref::upper(s);
    classify("upper case");
  } else if (!m.empty()) {
    unsigned k = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < k && !m.empty(); i++) {
      size_t p = t.range(0, m.size() - 1);
      switch (t.range(0, 3)) {
        case 0:
          m[p] = (kind < 2 ? ref::b58() : ref::bech())[t.range(0, 31)];
          break;
        case 1:
          m[p] = (char)t.byte();
          break;
        case 2:
          m.erase(p, 1);
          break;
        default:
          m.insert(p, 1, (char)t.pick({'1', 'q', 'p', ' ', '\0', 'Q'}));
      }
    }
    classify("edited");
  }
  key(m.data(), m.size());
  if (want_sample()) sample(P.name + " " + kinds[kind] + " " + hex(d, 40) + " " + quote(s, 95) + " -> " + quote(m, 95));
  int k = check_decode(m, P, m.size() + t.range(0, 20));
  classify(k == BTC_BAD_ADDRESS ? "string rejected" : "string accepted");
  check_decode(m, P, t.range(0, m.size()));
}
void pbt_fixed(int shard, int n) {
  Params B[3];
  for (unsigned k = 0; k < 3; k++) {
    fill_builtin(B[k], k);
    auto eq = [&](const char *p, unsigned sz, const std::string &w, const char *what) {
      REQUIRE(std::string(p, sz) == w, "%s: %s is %s, expected %s", B[k].name.c_str(), what, hex(p, sz).c_str(), hex(w.data(), w.size()).c_str());
    };
    const chain_parameters &p = B[k].p;
    eq(p.prefix_pubkey_address, p.prefix_pubkey_address_size, B[k].pk, "public key address prefix");
    eq(p.prefix_script_address, p.prefix_script_address_size, B[k].sc, "script address prefix");
    eq(p.bech32_hrp, p.bech32_hrp_size, B[k].hrp, "human-readable part");
  }
  for (int ver = shard; ver < 32; ver += n)
    for (size_t sz = 0; sz <= 45; sz++)
      for (auto &P : B) {
        Bytes d(sz);
        for (size_t i = 0; i < sz; i++) d[i] = (uint8_t)mix64(i + sz * 64 + ver * 4096);
        check_kind(4, d, ver, P, 1);
        std::vector<int> v = ref::to_digits(d, 5);
        v.insert(v.begin(), ver);
        std::string s = ref::bech32(P.hrp, v);
        check_decode(s, P, s.size());
        for (uint32_t k : {0x2bc830a3u, 0u}) {
          std::string m = ref::bech32(P.hrp, v, k);
          check_decode(m, P, m.size());
        }
        for (int x = 0; x < 32; x++) {
          std::vector<int> w = v;
          w.back() = x;
          s = ref::bech32(P.hrp, w);
          check_decode(s, P, s.size());
          w = v;
          w.push_back(x);
          s = ref::bech32(P.hrp, w);
          check_decode(s, P, s.size());
        }
        fixed_case("every version, program size and last digit on every network", (uint64_t)ver * 4096 + sz * 8 + (&P - B), quote(s, 95));
      }
  for (int sz = shard; sz <= 130; sz += n)
    for (auto &P : B) {
      Bytes d(sz, (uint8_t)sz);
      for (unsigned k = 0; k < 2; k++) check_kind(k, d, 0, P, 1);
      if (LIB_NDEBUG)
        for (unsigned k = 2; k < 4; k++) check_kind(k, d, 0, P, 1);
      fixed_case("every payload size of the base58 kinds", (uint64_t)sz * 8 + (&P - B));
    }
  for (int v = shard; v < 256; v += n)
    for (auto &P : B)
      for (size_t sz : {(size_t)0, (size_t)19, (size_t)20, (size_t)21}) {
        std::string s = b58addr(std::string(1, (char)v), Bytes(sz, (uint8_t)(v ^ 0x5A)));
        check_decode(s, P, s.size());
        fixed_case("every version byte", (uint64_t)v * 64 + sz * 2 + (&P - B), quote(s));
      }
  // sizes that are right modulo 2^8 or 2^16; mainnet's version byte is 0, so that the conversion is quick
  for (int i = shard; i < 4; i += n) {
    size_t sz = i < 2 ? 256 * (size_t)(i + 1) + 20 : 65536 * (size_t)(i - 1) + 20;
    Bytes d(sz, 0);
    d[sz - 1] = 0x51;
    check_kind(0, d, 0, B[0], 0);
    std::string s = b58addr(B[0].pk, d);
    check_decode(s, B[0], s.size());
    fixed_case("sizes that are right modulo 2^8 or 2^16", i);
  }
}
