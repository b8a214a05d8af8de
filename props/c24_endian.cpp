#include <fingera_libc/cleanse.h>
#include <fingera_libc/endian.h>
#include "bigmap.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random bytes at every alignment 0..15 are read by the eight accessors of endian.h and compared with sums of shifted "
    "bytes; values are written and compared byte by byte and read back; bytes around the written ones stay. fingera_cleanse is run "
    "on random ranges of random memory: inside, no run of the old contents may remain and the new contents may not depend on the old; outside, "
    "nothing changes. Non-trivial: every case. Plus every single-byte value at every byte position, and every length 0..600 of a "
    "cleansed range at every alignment, ranges of more than 2, 4 and 8 GiB, and reads at offsets around 2^16, 2^31, 2^32 and 2^33.";
void pbt_setup() {}
static void check_access(const uint8_t *b, size_t off) {
  const uint8_t *p = b + off;
  uint64_t le = 0, be = 0;
  for (int i = 0; i < 8; i++) {
    le += (uint64_t)p[i] << (8 * i);
    be += (uint64_t)p[i] << (56 - 8 * i);
  }
  uint32_t l4 = (uint32_t)le, b4 = (uint32_t)(be >> 32);
  std::string h = hex(p, 8);
#define SAME(got, want) REQUIRE((got) == (want), #got " of %s at offset %zu = %llx, expected %llx", h.c_str(), off, (unsigned long long)(got), (unsigned long long)(want))
  SAME(read_little_32(p), l4);
  SAME(read_little_64(p), le);
  SAME(read_big_32(p), b4);
  SAME(read_big_64(p), be);
  SAME(le32(b, off), l4);
  SAME(le64(b, off), le);
  SAME(be32(b, off), b4);
  SAME(be64(b, off), be);
}
static void check_write(uint32_t v, size_t off, uint8_t fill) {
  uint8_t m[32], want[32];
  for (int big = 0; big < 2; big++) {
    memset(m, fill, sizeof m);
    memset(want, fill, sizeof want);
    for (int i = 0; i < 4; i++) want[off + i] = (uint8_t)(v >> (big ? 24 - 8 * i : 8 * i));
    if (big) write_big_32(m + off, v);
    else write_little_32(m + off, v);
    REQUIRE(!memcmp(m, want, 32), "write_%s_32(%08x) gave %s, expected %s", big ? "big" : "little", v, hex(m, 32).c_str(), hex(want, 32).c_str());
    uint32_t r = big ? read_big_32(m + off) : read_little_32(m + off);
    REQUIRE(r == v, "%08x written and read back as %08x", v, r);
  }
}
static void check_cleanse(const Bytes &a, const Bytes &b, size_t off, size_t n) {
  Buf x(a), y(b);  // two memories of the same size
  fingera_cleanse(x.p + off, n);
  fingera_cleanse(y.p + off, n);
  for (size_t i = 0; i < a.size(); i++)
    if (i < off || i >= off + n) REQUIRE(x.p[i] == a[i] && y.p[i] == b[i], "cleanse of %zu bytes at %zu changed the byte at %zu", n, off, i);
  REQUIRE(n == 0 || !memcmp(x.p + off, y.p + off, n), "what cleanse leaves in %zu bytes depends on what they held: %s and %s", n, hex(x.p + off, n).c_str(), hex(y.p + off, n).c_str());
}
void pbt_property(Tape &t) {
  nontrivial();
  size_t off = t.range(0, 15);
  if (t.chance(1, 2)) {
    Bytes b = t.bytes(off + 8);
    uint64_t v = t.edgy64();
    if (t.chance(1, 2)) memcpy(&b[off], &v, 8);
    key(b);
    Buf m(b);
    check_access(m.p, off);
    check_write(t.chance(1, 2) ? (uint32_t)v : t.u32(), off, t.byte());
    if (want_sample()) sample(hex(b) + sprintf_(" offset %zu", off));
    classify("accessors");
  } else {
    size_t n = t.len(4000, 16), tail = t.range(0, 20);
    Bytes a = t.bytes(off + n + tail), b(a.size());
    for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)~a[i];
    key(a);
    key(&n, sizeof n);
    check_cleanse(a, b, off, n);
    if (want_sample()) sample(sprintf_("cleanse of %zu bytes at %zu", n, off));
    classify("cleanse");
  }
}
void pbt_fixed(int shard, int n) {
  if (shard) return;
  for (int p = 0; p < 8; p++)
    for (int v = 0; v < 256; v++)
      for (size_t off = 0; off < 16; off++) {
        uint8_t b[32];
        for (int fill : {0x00, 0xFF, 0x80, 0x7F}) {
          memset(b, fill, sizeof b);
          b[off + p] = (uint8_t)v;
          check_access(b, off);
          if (p < 4) check_write((uint32_t)v << (8 * p), off, (uint8_t)fill), check_write(~((uint32_t)v << (8 * p)), off, (uint8_t)fill);
        }
        fixed_case("every byte value at every position", p << 16 | v << 4 | off);
      }
  for (size_t L = 0; L <= 600; L++)
    for (size_t off = 0; off < 16; off++) {
      Bytes a(L + 32), b(L + 32);
      for (size_t i = 0; i < a.size(); i++) a[i] = (uint8_t)mix64(i + L), b[i] = (uint8_t)~a[i];
      check_cleanse(a, b, off, L);
      fixed_case("every cleansed length 0..600", 1u << 24 | L << 4 | off);
    }
  for (size_t L : {(size_t)1 << 16, (size_t)1 << 24}) {
    Buf m(L + 2, 0x11);
    fingera_cleanse(m.p + 1, L);
    REQUIRE(m.p[0] == 0x11 && m.p[L + 1] == 0x11, "cleanse of %zu bytes wrote outside", L);
    size_t left = 0;
    for (size_t i = 1; i <= L; i++) left += m.p[i] == 0x11;
    REQUIRE(left == 0, "cleanse of %zu bytes left %zu as they were", L, left);
    fixed_case("large cleansed ranges", L);
  }
  if (LIB_NDEBUG)
    for (size_t L : {((size_t)1 << 31) + 5, ((size_t)1 << 32) + 3, ((size_t)1 << 33) + (1 << 24) + 7}) {
      BigOut m(L, 1 << 24, 0x11);
      fingera_cleanse(m.p, L);
      size_t left = 0, more = 0;
      for (size_t i = 0; i < m.period; i++) left += m.p[i] == 0x11 || (i < m.tail_len() && m.tail()[i] == 0x11), more += i >= m.tail_len() && m.tail()[i] != 0x11;
      REQUIRE(left == 0, "cleanse of %zu bytes left %zu or more as they were", L, left);
      REQUIRE(more == 0, "cleanse of %zu bytes wrote outside", L);
      fixed_case("cleansed ranges beyond 2 GiB", L);
    }
  // accesses far from the start of the memory
  const size_t FAR[] = {(size_t)1 << 16, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 33) + (1 << 20)}, SPAN = FAR[3] + 4096;
  uint8_t *m = (uint8_t *)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return;
  for (size_t f : FAR)
    for (size_t off = f - 16; off < f + 16; off++) {
      for (size_t i = 0; i < 8; i++) m[off + i] = (uint8_t)(mix64(off + i) | 1);
      check_access(m, off);
      memset(m + off, 0, 8);
      fixed_case("far offsets", (uint64_t)3 << 60 | off);
    }
  munmap(m, SPAN);
}
