#include <fingera_libc/btc/key.h>
#include "cref.hpp"
#include "params.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "valid secret keys (biased to the ends of the range and to leading zero bytes) are written as WIF for the built-in networks "
    "and for random prefixes of 1..8 bytes, with and without the compression mark, compared with a Base58Check model and read "
    "back; strings with right checksums but another network's prefix, a wrong size, a wrong mark byte or an invalid secret "
    "(0, n.., 2^256-1), very long payloads, and edited strings are accepted exactly when the model accepts. Non-trivial: every "
    "case. Plus every payload size 0..200, sizes that are right modulo 2^8 or 2^16, and every mark byte on every network.";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
  fingera_btc_key_init();
}
static bool model(const std::string &s, const Params &P, Bytes &k, bool &comp) {
  Bytes pay;
  if (!cref::unb58check(s, pay)) return false;
  size_t n = P.wif.size();
  if (pay.size() != n + 32 && pay.size() != n + 33) return false;
  if (memcmp(pay.data(), P.wif.data(), n)) return false;
  comp = pay.size() == n + 33;
  if (comp && pay.back() != 1) return false;
  k.assign(pay.begin() + n, pay.begin() + n + 32);
  return cref::valid_scalar(k);
}
static bool check_decode(const std::string &s, const Params &P) {
  Bytes k;
  bool comp = false;
  bool ok = model(s, P, k, comp);
  Buf in(s), out(32);
  int c = -77;
  int r = fingera_btc_key_from_string(in.c(), in.n, out.p, &c, P.get());
  REQUIRE((r != 0) == ok, "%s: key_from_string(%s) = %d, expected %s", P.name.c_str(), quote(s).c_str(), r, ok ? "a key" : "a refusal");
  if (ok) {
    REQUIRE(out.vec() == k, "%s: key_from_string(%s) gave %s, expected %s", P.name.c_str(), quote(s).c_str(), hex(out.p, 32).c_str(), hex(k).c_str());
    REQUIRE((c != 0) == comp, "%s: key_from_string(%s): compression mark %d, expected %d", P.name.c_str(), quote(s).c_str(), c, comp);
  }
  return ok;
}
static std::string check_encode(const Bytes &k, int comp, const Params &P) {
  Bytes pay = cref::cat({vec(P.wif), k});
  if (comp) pay.push_back(1);
  std::string want = cref::b58check(pay);
  Buf in(k), out(fingera_key_string_max_length());
  size_t n = fingera_btc_key_to_string(in.p, out.c(), comp, P.get());
  std::string s((char *)out.p, n < out.n ? n : out.n);
  REQUIRE(n == want.size() && s == want, "%s: key_to_string(%s, compressed %d) = %zu %s, expected %s", P.name.c_str(), hex(k).c_str(), comp, n,
          quote(s).c_str(), quote(want).c_str());
  REQUIRE(in.vec() == k, "key_to_string changed the key");
  REQUIRE(check_decode(s, P), "model rejects %s", quote(s).c_str());
  return s;
}
void pbt_property(Tape &t) {
  Params P;
  gen_params(t, P);
  Bytes k = cref::gen_key(t);
  int comp = t.pick({0, 1, 1, 2, -1, 256, INT32_MIN});
  key(P.wif.data(), P.wif.size());
  key(k);
  nontrivial();
  classify(P.name.c_str());
  std::string s = check_encode(k, comp, P), m = s;
  unsigned e = (unsigned)t.range(0, 8);
  if (e <= 4) {  // right checksum, questionable content
    std::string pre = P.wif;
    Bytes body = k;
    if (comp) body.push_back(1);
    unsigned w = (unsigned)t.range(0, 6);
    if (w == 0) {
      body.resize(0);
      Bytes bad = cref::gen_invalid_scalar(t);
      body = bad;
      if (t.chance(1, 2)) body.push_back(1);
      classify("invalid secret");
    } else if (w == 1) {
      if (body.size() == 32) body.push_back(0);
      body[32] = t.chance(1, 3) ? (uint8_t)t.range(0, 3) : t.byte();
      classify("mark byte");
    } else if (w == 2) {
      if (!pre.empty()) pre[t.range(0, pre.size() - 1)] ^= (char)(1 << t.range(0, 7));
      classify("other prefix");
    } else if (w == 3) {
      Params Q;
      gen_params(t, Q);
      pre = Q.wif;
      classify("other network");
    } else if (w == 4) {
      body.resize(t.range(0, 40), 1);
      classify("other size");
    } else if (w == 5) {
      body = t.bytes(t.range(60, 400));
      classify("long payload");
    } else {
      if (!pre.empty() && t.chance(1, 2)) pre.pop_back();
      else pre += (char)t.byte();
      classify("prefix length");
    }
    m = cref::b58check(cref::cat({vec(pre), body}));
  } else {
    unsigned c = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < c && !m.empty(); i++) {
      size_t p = t.range(0, m.size() - 1);
      switch (t.range(0, 4)) {
        case 0:
          m[p] = ref::b58()[t.range(0, 57)];
          break;
        case 1:
          m[p] = (char)t.byte();
          break;
        case 2:
          m.erase(p, 1);
          break;
        case 3:
          m.insert(p, 1, ref::b58()[t.range(0, 57)]);
          break;
        default:
          m = t.chance(1, 2) ? " " + m + "\n" : m + t.str_of(t.range(1, 300), ref::b58());
      }
    }
    classify("edited");
  }
  key(m.data(), m.size());
  if (want_sample()) sample(P.name + " " + quote(s) + " -> " + quote(m, 80));
  classify(check_decode(m, P) ? "string accepted" : "string rejected");
}
void pbt_fixed(int shard, int n) {
  Params B[4];
  for (unsigned k = 0; k < 3; k++) {
    fill_builtin(B[k], k);
    const chain_parameters &p = B[k].p;
    REQUIRE(std::string(p.prefix_secret_key, p.prefix_secret_key_size) == B[k].wif, "%s: secret key prefix is %s", B[k].name.c_str(),
            hex(p.prefix_secret_key, p.prefix_secret_key_size).c_str());
  }
  B[3].name = "custom";
  B[3].wif = std::string(8, (char)0xFF);
  B[3].bind();
  Bytes top = cref::sub(cref::order(), cref::Num(1ul)).be32(), one = cref::Num(1ul).be32();
  for (int b = shard; b < 256; b += n)
    for (auto &P : B) {
      for (auto &k : {top, one}) {
        check_encode(k, b, P);
        Bytes pay = cref::cat({vec(P.wif), k, Bytes{(uint8_t)b}});
        check_decode(cref::b58check(pay), P);
        pay = cref::cat({Bytes{(uint8_t)b}, vec(P.wif.substr(1)), k});
        check_decode(cref::b58check(pay), P);
        pay.push_back(1);
        check_decode(cref::b58check(pay), P);
      }
      fixed_case("every mark byte and first prefix byte", (uint64_t)b * 8 + (&P - B));
    }
  for (int sz = shard; sz <= 200; sz += n)
    for (auto &P : B) {
      std::string s = cref::b58check(cref::cat({vec(P.wif), Bytes(sz, 1)}));
      check_decode(s, P);
      check_decode(cref::b58check(Bytes(sz, 1)), P);
      fixed_case("every payload size 0..200", (uint64_t)sz * 8 + (&P - B), quote(s, 80));
    }
  // a right beginning and a size that is right but for whole multiples of 2^8 or 2^16
  for (int i = shard; i < (LIB_NDEBUG ? 6 : 4); i += n) {
    Bytes p = cref::cat({vec(B[0].wif), top, Bytes(i % 2, 1)});
    p.resize(p.size() + (i < 2 ? 256 : i < 4 ? 512 : 65536), 1);
    check_decode(cref::b58check(p), B[0]);
    fixed_case("sizes that are right modulo 2^8 or 2^16", i);
  }
  // around the ends of the range of secrets
  for (int d = -20; d <= 20; d++)
    for (auto &P : B) {
      cref::Num v = d < 0 ? cref::sub(cref::order(), cref::Num((unsigned long)-d)) : cref::add(cref::order(), cref::Num((unsigned long)d));
      for (auto k : {v.be32(), cref::Num((unsigned long)(d + 20)).be32()}) {
        Bytes pay = cref::cat({vec(P.wif), k});
        check_decode(cref::b58check(pay), P);
        pay.push_back(1);
        check_decode(cref::b58check(pay), P);
      }
      fixed_case("secrets within 20 of 0 and of n", (uint64_t)(d + 50) * 8 + (&P - B));
    }
}
