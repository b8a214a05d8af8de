#include <fingera_libc/btc/base58_check.h>
#include "cref.hpp"
#include "medium.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random payloads (0..300 bytes) and prefixes (0..12 bytes) are encoded and compared with a model (OpenSSL double SHA-256, "
    "schoolbook base58) and decoded back; corrupted strings (1..6 substitutions by other base58 digits, deletions, insertions, "
    "transpositions, wrong checksums re-encoded, truncated checksums, white space, illegal characters) are accepted exactly "
    "when the model accepts. Buffers have exactly the documented size. Non-trivial: a payload of at least one byte. Plus: for "
    "100+ strings, every single-character substitution and every deletion; payloads of up to 16 MiB that are mostly leading zero bytes (release build).";
void pbt_setup() {}

static std::string encode(const Bytes &payload, const Bytes &prefix) {
  std::string want = cref::b58check(cref::cat({prefix, payload}));
  Buf b(payload), p(prefix), out(fingera_to_base58_check_length(payload.size(), prefix.size()));
  size_t n = fingera_to_base58_check(b.p, b.n, p.p, p.n, out.c());
  std::string s((char *)out.p, n < out.n ? n : out.n);
  REQUIRE(s == want && n == want.size(), "to_base58_check(payload %s, prefix %s) = %zu %s, expected %s", hex(payload).c_str(),
          hex(prefix).c_str(), n, quote(s).c_str(), quote(want).c_str());
  REQUIRE(b.vec() == payload && p.vec() == prefix, "to_base58_check changed its input");
  return s;
}
static bool decode(const std::string &s) {
  Bytes want;
  bool ok = cref::unb58check(s, want);
  Buf in(s), out(fingera_from_base58_check_length(s.size()));
  size_t n = fingera_from_base58_check(in.c(), in.n, out.p);
  if (!ok) {
    REQUIRE(n == 0, "from_base58_check(%s) accepted %zu bytes of a string whose checksum is wrong", quote(s).c_str(), n);
    return false;
  }
  REQUIRE(n == want.size() && out.vec(n) == want, "from_base58_check(%s) = %zu bytes %s, expected %zu bytes %s", quote(s).c_str(), n,
          hex(out.p, n < out.n ? n : out.n).c_str(), want.size(), hex(want).c_str());
  return true;
}
void pbt_property(Tape &t) {
  Bytes payload = t.bytes(t.pick({(size_t)20, (size_t)32, (size_t)33, (size_t)74, t.len(300), t.len(130)}));
  Bytes prefix = t.bytes(t.chance(1, 2) ? t.range(0, 4) : t.range(0, 12));
  if (t.chance(1, 5)) prefix = Bytes(prefix.size(), 0);
  key(payload);
  key(prefix);
  if (!payload.empty()) nontrivial();
  std::string s = encode(payload, prefix);
  size_t sz = payload.size() + prefix.size();
  if (sz) REQUIRE(decode(s), "model rejects its own string");
  else decode(s);
  if (sz + 4 > 128) classify("longer than the stack buffer");
  unsigned kind = (unsigned)t.range(0, 7);
  std::string m = s;
  if (kind == 0) {  // wrong checksum, properly encoded
    Bytes all = cref::cat({prefix, payload});
    Bytes h = cref::hash256(all);
    all.insert(all.end(), h.begin(), h.begin() + 4);
    all[all.size() - 1 - t.range(0, 3)] ^= (uint8_t)(1 << t.range(0, 7));
    m = ref::base58(all);
    classify("one bit of the checksum flipped");
  } else if (kind == 1) {  // data bit flipped, checksum kept
    Bytes all = cref::cat({prefix, payload});
    Bytes h = cref::hash256(all);
    all.insert(all.end(), h.begin(), h.begin() + 4);
    all[t.range(0, all.size() - 1)] ^= (uint8_t)(1 << t.range(0, 7));
    m = ref::base58(all);
    classify("one bit of the data flipped");
  } else if (kind == 2) {  // a checksum of something else: single hash, other byte order, partial
    Bytes all = cref::cat({prefix, payload});
    Bytes h = cref::hash256(all), g = cref::sha256(all);
    unsigned w = (unsigned)t.range(0, 4);
    Bytes c = w == 0 ? Bytes(g.begin(), g.begin() + 4) : w == 1 ? Bytes(h.rbegin(), h.rbegin() + 4) : w == 2 ? Bytes(h.end() - 4, h.end()) : Bytes(h.begin(), h.begin() + 4);
    if (w == 3) c[3] ^= 0x80;
    if (w == 4) c[0] ^= 0x01;
    m = ref::base58(cref::cat({all, c}));
    classify("plausible wrong checksum");
  } else if (kind == 3) {  // too short for a checksum
    m = ref::base58(t.bytes(t.range(0, 6)));
    classify("shorter than a checksum");
  } else {
    unsigned k = (unsigned)t.range(1, 6);
    for (unsigned i = 0; i < k && !m.empty(); i++) {
      size_t p = t.range(0, m.size() - 1);
      switch (t.range(0, 6)) {
        case 0:
        case 1:
          m[p] = ref::b58()[t.range(0, 57)];
          break;
        case 2:
          m.erase(p, 1);
          break;
        case 3:
          m.insert(p, 1, ref::b58()[t.range(0, 57)]);
          break;
        case 4:
          if (p + 1 < m.size()) std::swap(m[p], m[p + 1]);
          break;
        case 5:
          m.insert(t.chance(1, 2) ? 0 : m.size(), 1, t.pick({' ', '\n', '\t', '\r'}));
          classify("outer white space");
          break;
        default:
          m[p] = (char)t.byte();
      }
    }
    classify("string edited");
  }
  key(m.data(), m.size());
  if (want_sample()) sample(quote(s, 70) + " -> " + quote(m, 70));
  classify(decode(m) ? "accepted after the change" : "rejected after the change");
}
#if LIB_NDEBUG
// mostly leading zero bytes: the conversion is then linear, and only the hash sees the length
static void longp(size_t zeros, size_t rest, size_t pre) {
  Bytes all(zeros, 0);
  for (size_t i = 0; i < rest; i++) all.push_back((uint8_t)(mix64(zeros + i) | 1));
  Bytes prefix(all.begin(), all.begin() + pre), payload(all.begin() + pre, all.end());
  std::string s = encode(payload, prefix);
  REQUIRE(decode(s), "model rejects its own string of %zu bytes", all.size());
  Bytes h = cref::hash256(Bytes(all.begin(), all.end() - 1)), g = h;
  decode(ref::base58(cref::cat({all, Bytes(h.begin(), h.begin() + 4)})));  // the checksum of one byte less
  decode(s.substr(1));                                                     // one zero byte less
  decode("1" + s);
  fixed_case("very long payloads of leading zeros", zeros * 100 + pre, sprintf_("%zu zero bytes and %zu others", zeros, rest));
}
#endif
void pbt_fixed(int shard, int n) {
  every_length(shard, n, 0, LIB_NDEBUG ? 300 : 140, [](const Bytes &b) {
    for (size_t p : {(size_t)0, (size_t)1, (size_t)2, (size_t)4, b.size() % 9}) {
      Bytes pre(p);
      for (size_t i = 0; i < p; i++) pre[i] = (uint8_t)mix64(b.size() + p);
      std::string s = encode(b, pre);
      if (b.size() + p) REQUIRE(decode(s), "model rejects its own string");
      s[s.size() / 2] = s[s.size() / 2] == 'z' ? 'y' : 'z';
      decode(s);
    }
  });
#if LIB_NDEBUG
  {
    static const size_t zs[] = {100, 116, 120, 124, 128, 240, 255, 256, 500, 1000, 4090, 8000, 32760, 32767, 65519, 65535, 65536, 70000, 131071, (size_t)1 << 20, (size_t)1 << 24};
    for (size_t i = shard; i < sizeof zs / sizeof *zs; i += n)
      for (size_t pre : {0, 1, 7, 90}) longp(zs[i], 9, pre);
  }
#endif
  for (int c = shard; c < 24; c += n) {
    Bytes payload, prefix;
    size_t len = c < 4 ? (size_t)c : c < 8 ? 20 : c < 12 ? 32 : c < 16 ? 33 : c < 20 ? 74 : 110 + (size_t)c;
    for (size_t i = 0; i < len; i++) payload.push_back((uint8_t)mix64(c * 1000 + i));
    for (int i = 0; i < c % 5; i++) prefix.push_back(c % 3 ? (uint8_t)mix64(c * 77 + i) : 0);
    std::string s = encode(payload, prefix);
    decode(s);
    for (size_t p = 0; p < s.size(); p++) {
      for (char x : ref::b58()) {
        std::string m = s;
        m[p] = x;
        decode(m);
        fixed_case("every single-character substitution", ((uint64_t)c << 32) | (p * 64 + (size_t)ref::index_of(ref::b58(), (uint8_t)x)), quote(m, 60));
      }
      std::string m = s;
      m.erase(p, 1);
      decode(m);
      m = s.substr(0, p);
      decode(m);
      fixed_case("every deletion and truncation", ((uint64_t)c << 32) | p);
    }
  }
}
