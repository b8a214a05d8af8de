// Property-based testing engine: a property is a function of a "tape" of bytes.
// Every random choice of a case is drawn from the tape, so a case can be generated
// (from a seeded PRNG), recorded, shrunk, replayed, and driven by libFuzzer alike.
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string sprintf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void *p, size_t n, size_t max = 160);
inline std::string hex(const Bytes &b, size_t max = 160) { return hex(b.data(), b.size(), max); }
std::string quote(const std::string &s, size_t max = 200);

#define REQUIRE(cond, ...)                  \
  do {                                      \
    if (!(cond)) ::pbt::fail(__VA_ARGS__);  \
  } while (0)

uint64_t mix64(uint64_t x);
uint64_t hash_bytes(const void *p, size_t n, uint64_t seed = 0);

class Tape {
 public:
  // generation: PRNG seed, recording into rec (capacity cap), *rec_len live
  Tape(uint64_t seed, uint8_t *rec, size_t cap, volatile uint64_t *rec_len);
  // replay
  Tape(const uint8_t *data, size_t len);

  uint8_t byte();
  uint64_t bits(unsigned nbytes);
  uint32_t u32() { return (uint32_t)bits(4); }
  uint64_t u64() { return bits(8); }
  uint64_t range(uint64_t lo, uint64_t hi);  // inclusive; 0 on the tape means lo
  bool chance(unsigned num, unsigned den);   // 0 on the tape means false
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[range(0, v.size() - 1)];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return v.begin()[range(0, v.size() - 1)];
  }
  // a length in [0,max], biased to small values and to multiples of `unit` +-1
  size_t len(size_t max, size_t unit = 0);
  // n bytes with a varied texture (random, zero, 0xff, runs, small alphabet)
  Bytes bytes(size_t n);
  Bytes blob(size_t max, size_t unit = 0) { return bytes(len(max, unit)); }
  // n bytes expanded from an 8-byte seed on the tape (for long contents)
  Bytes expand(size_t n);
  std::string str_of(size_t n, const std::string &alphabet);
  // 64-bit integer biased to boundaries (powers of two, all-ones, group limits)
  uint64_t edgy64();

  bool exhausted() const { return !gen_ && pos_ >= len_; }
  uint64_t digest() const;  // of the bytes consumed so far

 private:
  bool gen_;
  uint64_t s_[2];
  uint8_t *rec_ = nullptr;
  size_t cap_ = 0;
  volatile uint64_t *rec_len_ = nullptr;
  const uint8_t *data_ = nullptr;
  size_t len_ = 0, pos_ = 0;
  Bytes queue_;  // to come next, last byte first
  uint64_t flavour(uint64_t v, unsigned nb);
  uint64_t next64();
};

// ---- per-case reporting (evidence) -----------------------------------------
void classify(const char *label);              // counts cases per label
void nontrivial();                             // this case is non-trivial by the rule
void key(const void *p, size_t n);             // identity of the case (default: tape)
inline void key(const Bytes &b) { key(b.data(), b.size()); }
bool want_sample();                            // is a sample of this case wanted?
void sample(const std::string &text);
// one case of the fixed (non-tape) part: label, identity, optional sample text
void hang_limit(int cpu_seconds);  // in pbt_setup: of one case, random or fixed
void fixed_case(const char *label, uint64_t key, const std::string &sample = "");

// exact-size heap copies: any access outside [data,data+n) is an ASan report
struct Buf {
  uint8_t *p;
  size_t n;
  explicit Buf(size_t n_, int fill = 0xA5);
  explicit Buf(const Bytes &b);
  explicit Buf(const std::string &s);
  Buf(const void *d, size_t n_);
  Buf(const Buf &) = delete;
  Buf &operator=(const Buf &) = delete;
  ~Buf();
  char *c() { return (char *)p; }
  Bytes vec() const { return Bytes(p, p + n); }
  Bytes vec(size_t k) const { return Bytes(p, p + (k < n ? k : n)); }
};

int tier();  // 0 quick, 1 thorough

}  // namespace pbt

using pbt::Tape;

// ---- to be defined by each property file -----------------------------------
extern const char *const PBT_RULE;   // how cases are made; what is non-trivial
void pbt_setup();                    // once per process
void pbt_property(Tape &t);          // one case
// deterministic part (bounded enumeration, very large inputs); shard i of n
void pbt_fixed(int shard, int nshards);
#ifndef LIB_NDEBUG
#define LIB_NDEBUG 0
#endif
