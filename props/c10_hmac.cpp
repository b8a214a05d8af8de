#include <fingera_libc/hash/sha2.h>
#include <openssl/hmac.h>
#include <unistd.h>
#include <thread>
#include "bigmap.hpp"
#include "medium.hpp"
#include "cref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "keys of 0..400 bytes (biased to the block sizes 64 and 128 +-2) and messages of 0..20000 bytes give the HMAC-SHA-256 and "
    "HMAC-SHA-512 that RFC 2104 over OpenSSL's digests gives; key and message must be unchanged and exactly the tag written. "
    "Also: a key of at most a block and the same key with zero bytes appended up to a block agree; a longer key agrees with its digest. "
    "Non-trivial: non-empty key and message. Plus every key length 0..300 with several message lengths, every message length 0..1200 (and that key length) with several key lengths, keys and messages of up to 1.5 MiB around powers of two, and messages (and keys) of "
    "more than 2^32 bytes (a repeated mapping; optimised build).";
void pbt_setup() {
  cref::md("SHA256");
  cref::md("SHA512");
}
static void check(const Bytes &k, const Bytes &m) {
  for (int w = 0; w < 2; w++) {
    Bytes want = w ? cref::hmac512(k, m) : cref::hmac256(k, m);
    Buf key_(k), msg(m), out(w ? 64 : 32);
    (w ? fingera_hmac_sha512 : fingera_hmac_sha256)(key_.p, key_.n, msg.p, msg.n, out.p);
    REQUIRE(out.vec() == want, "hmac_sha%d(key %zu bytes %s, message %zu bytes %s) = %s, expected %s", w ? 512 : 256, k.size(), hex(k, 200).c_str(),
            m.size(), hex(m, 100).c_str(), hex(out.p, out.n).c_str(), hex(want).c_str());
    REQUIRE(key_.vec() == k && msg.vec() == m, "hmac_sha%d changed its input", w ? 512 : 256);
  }
}
static void self_test(const Bytes &k, const Bytes &m) {  // the model against a second implementation
  uint8_t o[64];
  unsigned l = 0;
  static const uint8_t none = 0;
  HMAC(EVP_sha256(), k.empty() ? &none : k.data(), (int)k.size(), m.data(), m.size(), o, &l);
  if (memcmp(o, cref::hmac256(k, m).data(), 32)) _exit(3);
  HMAC(EVP_sha512(), k.empty() ? &none : k.data(), (int)k.size(), m.data(), m.size(), o, &l);
  if (memcmp(o, cref::hmac512(k, m).data(), 64)) _exit(3);
}
void pbt_property(Tape &t) {
  size_t kn = t.chance(1, 2) ? t.pick({(size_t)62, (size_t)126}) + t.range(0, 4) : t.len(400, 64);
  Bytes k = t.bytes(kn), m = t.blob(t.chance(1, 100) ? 20000 : 500, 64);
  key(k);
  key(m);
  if (!k.empty() && !m.empty()) nontrivial();
  classify(kn < 64 ? "key < 64" : kn == 64 ? "key = 64" : kn < 128 ? "key 65..127" : kn == 128 ? "key = 128" : "key > 128");
  if (want_sample()) sample(sprintf_("key %zu bytes %s, message %zu bytes %s", kn, hex(k, 24).c_str(), m.size(), hex(m, 24).c_str()));
  if (t.chance(1, 64)) self_test(k, m);
  check(k, m);
  if (t.chance(1, 8)) {
    Bytes a(64), b(64), kk = k;
    if (kn < 64) {
      kk.resize(t.range(kn, 64), 0);
      fingera_hmac_sha256(k.data(), k.size(), m.data(), m.size(), a.data());
      fingera_hmac_sha256(kk.data(), kk.size(), m.data(), m.size(), b.data());
      REQUIRE(!memcmp(a.data(), b.data(), 32), "hmac_sha256 of a zero-extended key differs");
      classify("zero-extended key");
    } else if (kn > 128) {
      kk = cref::sha512(k);
      fingera_hmac_sha512(k.data(), k.size(), m.data(), m.size(), a.data());
      fingera_hmac_sha512(kk.data(), kk.size(), m.data(), m.size(), b.data());
      REQUIRE(a == b, "hmac_sha512 of a long key differs from that of its digest");
      classify("key replaced by its digest");
    }
  }
}
#if LIB_NDEBUG
// HMAC by OpenSSL's incremental digests over a repeated message (the model, not the library, walks it)
static Bytes hmac_big(const char *alg, size_t block, Bytes k, const BigMap &m, size_t n) {
  k.resize(block, 0);
  Bytes ip = k, op = k, in;
  for (auto &x : ip) x ^= 0x36;
  for (auto &x : op) x ^= 0x5c;
  EVP_MD_CTX *c = EVP_MD_CTX_new();
  EVP_DigestInit_ex(c, cref::md(alg), nullptr);
  EVP_DigestUpdate(c, ip.data(), ip.size());
  for (size_t done = 0; done < n; done += m.period) EVP_DigestUpdate(c, m.p, n - done < m.period ? n - done : m.period);
  unsigned l;
  in.resize(64);
  EVP_DigestFinal_ex(c, in.data(), &l);
  in.resize(l);
  EVP_MD_CTX_free(c);
  return cref::digest(alg, cref::cat({op, in}).data(), block + l);
}
static void huge(int w, size_t n, bool as_key) {
  if (too_slow(n, [&](uint8_t *in, size_t l, uint8_t *o) { (w ? fingera_hmac_sha512 : fingera_hmac_sha256)(in, l / 2, in, l / 2, o); })) return;
  BigMap m(n, 16u << 20);
  m.random();
  Bytes want, out(w ? 64 : 32), k = {1, 2, 3, 4, 5, 0x80, 0xFF}, small(100, 0x77);
  const char *alg = w ? "SHA512" : "SHA256";
  size_t block = w ? 128 : 64;
  std::thread th([&] {
    if (as_key) {  // a key longer than a block is replaced by its digest
      EVP_MD_CTX *c = EVP_MD_CTX_new();
      EVP_DigestInit_ex(c, cref::md(alg), nullptr);
      for (size_t done = 0; done < n; done += m.period) EVP_DigestUpdate(c, m.p, n - done < m.period ? n - done : m.period);
      unsigned l;
      Bytes kd(64);
      EVP_DigestFinal_ex(c, kd.data(), &l);
      kd.resize(l);
      EVP_MD_CTX_free(c);
      want = w ? cref::hmac512(kd, small) : cref::hmac256(kd, small);
    } else
      want = hmac_big(alg, block, k, m, n);
  });
  if (as_key)
    (w ? fingera_hmac_sha512 : fingera_hmac_sha256)(m.p, n, small.data(), small.size(), out.data());
  else
    (w ? fingera_hmac_sha512 : fingera_hmac_sha256)(k.data(), k.size(), m.p, n, out.data());
  th.join();
  REQUIRE(out == want, "hmac_sha%d with a %s of %zu bytes = %s, expected %s", w ? 512 : 256, as_key ? "key" : "message", n, hex(out).c_str(), hex(want).c_str());
  fixed_case(as_key ? "key above 2^32 bytes" : n >> 32 ? "message above 2^32 bytes" : "message above 2^32 bits", n * 4 + w * 2 + as_key,
             sprintf_("hmac_sha%d, %s of %zu bytes", w ? 512 : 256, as_key ? "key" : "message", n));
}
#endif
void pbt_fixed(int shard, int n) {
  medium_lengths(shard, n, [](const Bytes &b) {
    check(Bytes(b.begin(), b.begin() + b[0]), b);
    check(b, Bytes(b.begin(), b.begin() + b[1]));
  });
  every_length(shard, n, 0, 1200, [](const Bytes &b) {
    for (size_t k : {(size_t)12, (size_t)32, (size_t)64, (size_t)100, (size_t)128, b.size()}) {
      Bytes key_(k);
      for (size_t i = 0; i < k; i++) key_[i] = (uint8_t)mix64(i + b.size() * 7);
      check(key_, b);
    }
  });
#if LIB_NDEBUG
  const size_t K = 1;
  if (shard < 2) huge(shard, (K << 32) + 77, false);
  else if (shard < 4) huge(shard - 2, (K << 32) + 20, true);
  else if (shard < 6) huge(shard - 4, (K << 29) + 119, false);
  if (tier() && shard < 2)
    for (size_t l : {(K << 29) - 64, (K << 31) - 1, (K << 32) - 65, (K << 32), (K << 33) + 200}) huge(shard, l, false);
#endif
  for (int len = shard; len <= 300; len += n) {
    Bytes k(len);
    for (int i = 0; i < len; i++) k[i] = (uint8_t)mix64(i + len * 512);
    for (size_t ml : {0, 1, 8, 37, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 200}) {
      Bytes m(ml);
      for (size_t i = 0; i < ml; i++) m[i] = (uint8_t)mix64(i * 3 + len);
      check(k, m);
      fixed_case("every key length 0..300", len * 1000 + ml, sprintf_("key length %d, message length %zu", len, ml));
    }
    check(Bytes(len, 0), Bytes());
    check(Bytes(len, 0xFF), Bytes(len, 0x36));
    check(Bytes(len, 0x5c), Bytes(len, 0x5c));
  }
}
