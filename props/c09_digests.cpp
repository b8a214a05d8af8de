#include <fcntl.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <sys/mman.h>
#include <unistd.h>
#include <thread>
#include "bigmap.hpp"
#include "cref.hpp"
#include "medium.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "messages of random length (biased to 0..300 and to block multiples +-2; up to 300 kB), content and address alignment are "
    "hashed with SHA-1, RIPEMD-160, SHA-256 and SHA-512 and compared with OpenSSL; the message must be unchanged and exactly "
    "the digest written. Non-trivial: a non-empty message. Plus every length 0..1100, lengths around powers of two up to 2^20, and messages whose length in bits or "
    "bytes does not fit 32 bits (2^29+, 2^32+ bytes; a repeated mapping), optimised build.";
struct Alg {
  const char *name, *ref;
  size_t size, block;
  void (*f)(const void *, size_t, void *);
};
static const Alg algs[4] = {{"sha1", "SHA1", 20, 64, fingera_sha1},
                            {"ripemd160", "RIPEMD160", 20, 64, fingera_ripemd160},
                            {"sha256", "SHA256", 32, 64, fingera_sha2_256},
                            {"sha512", "SHA512", 64, 128, fingera_sha2_512}};
void pbt_setup() {
  for (auto &a : algs) cref::md(a.ref);
}
static void check(const Alg &a, const Bytes &m, size_t mis, size_t omis) {
  Bytes want = cref::digest(a.ref, m.data(), m.size());
  Buf in(m.size() + mis), out(a.size + omis);
  if (!m.empty()) memcpy(in.p + mis, m.data(), m.size());
  a.f(in.p + mis, m.size(), out.p + omis);
  REQUIRE(!memcmp(out.p + omis, want.data(), a.size), "%s of %zu bytes %s = %s, expected %s", a.name, m.size(), hex(m, 200).c_str(),
          hex(out.p + omis, a.size).c_str(), hex(want).c_str());
  REQUIRE(m.empty() || !memcmp(in.p + mis, m.data(), m.size()), "%s changed its input", a.name);
}
void pbt_property(Tape &t) {
  size_t n = t.chance(1, 400) ? t.range(0, 300000) : t.chance(1, 20) ? t.len(9000, 64) : t.len(700, 64);
  Bytes m = t.bytes(n);
  size_t mis = t.range(0, 7), omis = t.range(0, 3);
  key(m);
  key(&mis, sizeof mis);
  if (n) nontrivial();
  classify(n % 64 >= 55 && n % 64 <= 57 ? "length 55..57 mod 64" : n % 64 <= 1 || n % 64 == 63 ? "length 63..1 mod 64" : "other length");
  if (n % 128 >= 111 && n % 128 <= 113) classify("length 111..113 mod 128");
  if (mis) classify("misaligned message");
  if (want_sample()) sample(sprintf_("%zu bytes: %s", n, hex(m, 40).c_str()));
  for (auto &a : algs) check(a, m, mis, omis);
}
// a message of n bytes that repeats 16 MiB of pseudo-random content
static void huge(const Alg &a, size_t n) {
  const size_t CH = 16u << 20;
  if (too_slow(n, [&](uint8_t *in, size_t m, uint8_t *out) { a.f(in, m, out); })) return;
  int fd = memfd_create("msg", 0);
  if (fd < 0 || ftruncate(fd, CH)) _exit(3);
  size_t maps = (n + CH - 1) / CH;
  uint8_t *base = (uint8_t *)mmap(nullptr, maps * CH, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) _exit(3);
  for (size_t i = 0; i < maps; i++)
    if (mmap(base + i * CH, CH, PROT_READ | (i ? 0 : PROT_WRITE), MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(3);
  for (size_t i = 0; i < CH; i += 8) {
    uint64_t v = mix64(i);
    memcpy(base + i, &v, 8);
  }
  Bytes want;
  std::thread th([&] {
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    EVP_DigestInit_ex(c, cref::md(a.ref), nullptr);
    for (size_t done = 0; done < n; done += CH) EVP_DigestUpdate(c, base, n - done < CH ? n - done : CH);
    want.resize(a.size);
    unsigned l;
    EVP_DigestFinal_ex(c, want.data(), &l);
    EVP_MD_CTX_free(c);
  });
  Buf out(a.size);
  a.f(base, n, out.p);
  th.join();
  munmap(base, maps * CH);
  close(fd);
  REQUIRE(out.vec() == want, "%s of a message of %zu bytes = %s, expected %s", a.name, n, hex(out.p, a.size).c_str(), hex(want).c_str());
  fixed_case(n >> 32 ? "length in bytes above 2^32" : "length in bits above 2^32", n ^ (uint64_t)(a.name[0] + a.size), sprintf_("%s of %zu bytes", a.name, n));
}
void pbt_fixed(int shard, int n) {
  medium_lengths(shard, n, [](const Bytes &b) {
    for (auto &a : algs) check(a, b, b[0] & 3, 0);
  });
  if (shard < 4) {
    const Alg &a = algs[shard];
    for (size_t len = 0; len <= 1100; len++) {
      Bytes m(len);
      for (size_t i = 0; i < len; i++) m[i] = (uint8_t)mix64(i + len * 4096);
      check(a, m, len & 3, 0);
      check(a, Bytes(len, 0), 0, 1);
      check(a, Bytes(len, 0xFF), 0, 0);
      fixed_case("every length 0..1100", len * 4 + shard, sprintf_("%s, length %zu", a.name, len));
    }
  }
#if LIB_NDEBUG
  const size_t K = 1;
  std::vector<size_t> lens = {(K << 32) + 77};
  if (tier()) lens = {(K << 29) - 1, (K << 29), (K << 29) + 55, (K << 29) + 63, (K << 31) - 1, (K << 31) + 56, (K << 32) - 9, (K << 32), (K << 32) + 119, (K << 32) + (K << 29) + 64, (K << 33) + 3};
  if (shard < 4)
    for (size_t l : lens) huge(algs[shard], l);
  else if (!tier())
    huge(algs[shard - 4], (K << 29) + 119);
#endif
}
