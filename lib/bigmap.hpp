// Very large operands for little memory: n bytes of address space that repeat one chunk of `period` bytes.
// An input read through the map is periodic; what is written through it lands in the one chunk, except for
// the last (own) repetition. Behind byte n-1 rounded up to the period there is a page without access.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
#include "pbt.hpp"
namespace pbt {
struct BigMap {
  uint8_t *p = nullptr;
  size_t n, period, maps;
  BigMap(size_t n_, size_t period_) : n(n_), period(period_) {  // period: a multiple of the page size
    int fd = memfd_create("chunk", 0);
    if (fd < 0 || ftruncate(fd, period)) _exit(3);
    maps = (n + period - 1) / period;
    p = (uint8_t *)mmap(nullptr, maps * period + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(3);
    for (size_t i = 0; i < maps; i++)
      if (mmap(p + i * period, period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(3);
    close(fd);
  }
  BigMap(const BigMap &) = delete;
  ~BigMap() { munmap(p, maps * period + 4096); }
  void random() {
    for (size_t i = 0; i < period; i += 8) {
      uint64_t v = mix64(i + 77);
      memcpy(p + i, &v, 8);
    }
  }
  void set(const void *chunk) { memcpy(p, chunk, period); }
  // give the last repetition memory of its own (so that the very end differs from the repetition)
  void own_tail() {
    uint8_t *last = tail();
    Bytes save(last, last + period);
    if (mmap(last, period, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(3);
    memcpy(last, save.data(), period);
  }
  uint8_t *tail() { return p + (maps - 1) * period; }
  size_t tail_len() const { return n - (maps - 1) * period; }
};
// A map with an own last repetition, to be written to: every byte starts as `fill`.
struct BigOut : BigMap {
  int fill;
  BigOut(size_t n_, size_t period_, int fill_ = 0xA5) : BigMap(n_, period_), fill(fill_) {
    memset(p, fill, period);
    own_tail();
  }
  // the whole output is the repetition of `chunk`, then `end` (the last tail_len() bytes), and nothing follows
  std::string check(const uint8_t *chunk, const uint8_t *end) {
    if (maps > 1)
      for (size_t i = 0; i < period; i++)
        if (p[i] != chunk[i]) return sprintf_("byte %zu (modulo %zu) is 0x%02x, expected 0x%02x", i, period, p[i], chunk[i]);
    const uint8_t *t = tail();
    for (size_t i = 0; i < period; i++) {
      uint8_t want = i < tail_len() ? end[i] : (uint8_t)fill;
      if (t[i] != want) return sprintf_("byte %zu of %zu is 0x%02x, expected 0x%02x", (maps - 1) * period + i, n, t[i], want);
    }
    return "";
  }
};
inline double cpu_seconds() {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
// A library that is right but slow must not look like one that hangs: the largest operands are left out when the
// speed measured on a small one (4 MiB, out: three times that) says that they would take more than 80 s.
inline bool too_slow(double seconds, size_t measured, size_t n) {
  if (seconds / (double)measured * (double)n < 80) return false;
  fixed_case("largest operands left out: the library is too slow for them", n);
  return true;
}
template <class F>
bool too_slow(size_t n, F run) {
  const size_t m = 4u << 20;
  Bytes in(m), out(3 * m);
  for (size_t i = 0; i < m; i += 8) {
    uint64_t v = mix64(i + 5);
    memcpy(&in[i], &v, 8);
  }
  double t = cpu_seconds();
  run(in.data(), m, out.data());
  return too_slow(cpu_seconds() - t, m, n);
}
}  // namespace pbt
