#include <fingera_libc/btc/hash.h>
#include <thread>
#include "bigmap.hpp"
#include "medium.hpp"
#include "cref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "hash160 and hash256 of random messages (0..5000 bytes), hash256_d64 of 0..40 random 64-byte blocks, and the BIP 32 hash of "
    "random chain codes, child numbers, headers and data are compared with OpenSSL compositions; d64 must agree with hash256 "
    "block by block, write 32 bytes per block and leave its input alone. Non-trivial: a non-empty message or block list. Plus "
    "every message length 0..600 and every block count 0..130, messages of up to 1.5 MiB around powers of two, messages of more than 2^32 bytes, and more than 2^25 (thorough: 2^27) blocks "
    "(a repeated mapping; optimised build).";
void pbt_setup() {
  for (auto n : {"SHA1", "RIPEMD160", "SHA256", "SHA512"}) cref::md(n);
}
static void check_hash(const Bytes &m) {
  Buf in(m), a(20), b(32);
  fingera_btc_hash160(in.p, in.n, a.p);
  fingera_btc_hash256(in.p, in.n, b.p);
  REQUIRE(a.vec() == cref::hash160(m), "hash160(%s) = %s, expected %s", hex(m).c_str(), hex(a.p, 20).c_str(), hex(cref::hash160(m)).c_str());
  REQUIRE(b.vec() == cref::hash256(m), "hash256(%s) = %s, expected %s", hex(m).c_str(), hex(b.p, 32).c_str(), hex(cref::hash256(m)).c_str());
  REQUIRE(in.vec() == m, "hash160 or hash256 changed its input");
}
static void check_d64(const Bytes &blocks) {
  size_t n = blocks.size() / 64;
  Buf in(blocks), out(n * 32);
  fingera_btc_hash256_d64(out.p, in.p, n);
  for (size_t i = 0; i < n; i++) {
    Bytes b(blocks.begin() + i * 64, blocks.begin() + i * 64 + 64);
    Bytes want = cref::hash256(b);
    REQUIRE(!memcmp(out.p + 32 * i, want.data(), 32), "hash256_d64: block %zu of %zu (%s) = %s, expected %s", i, n, hex(b).c_str(),
            hex(out.p + 32 * i, 32).c_str(), hex(want).c_str());
  }
  REQUIRE(in.vec() == blocks, "hash256_d64 changed its input");
}
static void check_bip32(const Bytes &chain, uint32_t child, uint8_t header, const Bytes &data) {
  Buf c(chain), d(data), out(64);
  fingera_btc_bip32_hash(c.p, child, header, d.p, out.p);
  Bytes want = cref::hmac512(chain, cref::cat({Bytes{header}, data, cref::be4(child)}));
  REQUIRE(out.vec() == want, "bip32_hash(chain %s, child %08x, header %02x, data %s) = %s, expected %s", hex(chain).c_str(), child, header,
          hex(data).c_str(), hex(out.p, 64).c_str(), hex(want).c_str());
}
void pbt_property(Tape &t) {
  Bytes m = t.blob(t.chance(1, 50) ? 5000 : 300, 64);
  Bytes blocks = t.bytes(64 * t.range(0, t.chance(1, 5) ? 40 : 4));
  if (blocks.size() >= 64 && t.chance(1, 3)) {  // blocks that are related: repeated blocks, equal halves, one-bit neighbours
    for (size_t i = 0; i < blocks.size(); i += 64) switch (t.range(0, 4)) {
        case 0:
          if (i) memcpy(&blocks[i], &blocks[i - 64], 64);
          break;
        case 1:
          memcpy(&blocks[i + 32], &blocks[i], 32);
          break;
        case 2:
          if (i) memcpy(&blocks[i], &blocks[i - 64], 64), blocks[i + t.range(0, 63)] ^= (uint8_t)(1u << t.range(0, 7));
          break;
        case 3:
          if (i) memcpy(&blocks[i], &blocks[64 * t.range(0, i / 64 - 1)], 64);
          break;
        default:
          break;
      }
    classify("related blocks");
  }
  Bytes chain = t.bytes(32), data = t.bytes(32);
  uint32_t child = (uint32_t)t.edgy64();
  if (t.chance(1, 2)) child ^= 0x80000000u;
  uint8_t header = t.chance(1, 2) ? (uint8_t)t.range(0, 4) : t.byte();
  key(m);
  key(blocks);
  key(chain);
  key(data);
  if (!m.empty() || !blocks.empty()) nontrivial();
  classify(blocks.empty() ? "no block" : blocks.size() == 64 ? "one block" : "several blocks");
  classify(child >> 31 ? "hardened child" : "normal child");
  if (want_sample()) sample(sprintf_("message %s; %zu blocks; child %08x header %02x", hex(m, 30).c_str(), blocks.size() / 64, child, header));
  check_hash(m);
  check_d64(blocks);
  check_bip32(chain, child, header, data);
}
#if LIB_NDEBUG
static void huge_hash(bool h160, size_t n) {
  if (too_slow(n, [&](uint8_t *in, size_t l, uint8_t *o) { h160 ? fingera_btc_hash160(in, l, o) : fingera_btc_hash256(in, l, o); })) return;
  BigMap m(n, 16u << 20);
  m.random();
  Bytes want, out(h160 ? 20 : 32);
  std::thread th([&] {
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    EVP_DigestInit_ex(c, cref::md("SHA256"), nullptr);
    for (size_t done = 0; done < n; done += m.period) EVP_DigestUpdate(c, m.p, n - done < m.period ? n - done : m.period);
    unsigned l;
    Bytes d(32);
    EVP_DigestFinal_ex(c, d.data(), &l);
    EVP_MD_CTX_free(c);
    want = cref::digest(h160 ? "RIPEMD160" : "SHA256", d.data(), 32);
  });
  h160 ? fingera_btc_hash160(m.p, n, out.data()) : fingera_btc_hash256(m.p, n, out.data());
  th.join();
  REQUIRE(out == want, "hash%s of %zu bytes = %s, expected %s", h160 ? "160" : "256", n, hex(out).c_str(), hex(want).c_str());
  fixed_case("message above 2^32 bytes", n * 2 + h160, sprintf_("hash%s of %zu bytes", h160 ? "160" : "256", n));
}
static void huge_d64(size_t blocks) {
  const size_t P = 1u << 20;  // 16384 blocks of input, 512 KiB of output
  if (too_slow(blocks * 64, [&](uint8_t *in, size_t l, uint8_t *o) { fingera_btc_hash256_d64(o, in, l / 64); })) return;
  BigMap in(blocks * 64, P);
  in.random();
  BigOut out(blocks * 32, P / 2);
  Bytes want(P / 2);
  for (size_t i = 0; i < P / 64; i++) {
    Bytes h = cref::hash256(Bytes(in.p + 64 * i, in.p + 64 * i + 64));
    memcpy(&want[32 * i], h.data(), 32);
  }
  fingera_btc_hash256_d64(out.p, in.p, blocks);
  std::string e = out.check(want.data(), want.data());
  REQUIRE(e.empty(), "hash256_d64 of %zu blocks: %s", blocks, e.c_str());
  fixed_case("more than 2^25 blocks", blocks, sprintf_("%zu blocks", blocks));
}
#endif
void pbt_fixed(int shard, int n) {
  medium_lengths(shard, n, [](const Bytes &b) {
    check_hash(b);
    check_d64(Bytes(b.begin(), b.begin() + (b.size() & ~(size_t)63)));
  });
#if LIB_NDEBUG
  const size_t K = 1;
  if (shard < 2) huge_hash(shard, (K << 32) + 77);
  if (shard == 2) huge_d64((K << (tier() ? 26 : 25)) + 100);
  if (tier() && shard == 3) huge_d64((K << 27) + 12345);
#endif
  for (int len = shard; len <= 600; len += n) {
    Bytes m(len);
    for (int i = 0; i < len; i++) m[i] = (uint8_t)mix64(i + len * 1024);
    check_hash(m);
    fixed_case("every message length 0..600", len, sprintf_("length %d", len));
    if (len <= 130) {
      Bytes b(len * 64);
      for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)mix64(i * 5 + len);
      check_d64(b);
      fixed_case("every block count 0..130", len);
    }
  }
  // every single-bit block
  for (int bit = shard; bit < 512; bit += n) {
    Bytes z(64, 0), o(64, 0xFF);
    z[bit / 8] ^= (uint8_t)(1 << bit % 8);
    o[bit / 8] ^= (uint8_t)(1 << bit % 8);
    check_d64(z);
    check_d64(o);
    fixed_case("every one-bit and one-zero block", bit);
  }
  for (int h = shard; h < 256; h += n) check_bip32(Bytes(32, 1), 0x01020304u * (unsigned)h, (uint8_t)h, Bytes(32, 2));
}
