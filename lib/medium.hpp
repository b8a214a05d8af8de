// Operands between what the random cases use and the huge ones: lengths around every power of two from 2^11 to 2^20, and
// others in between, shared out over the shards.
#pragma once
#include "pbt.hpp"
namespace pbt {
template <class F>
void medium_lengths(int shard, int n, F f) {
  std::vector<size_t> ls;
  for (unsigned k = 11; k <= 20; k++)
    for (int d = k > 17 ? -1 : -3; d <= (k > 17 ? 1 : 3); d++) ls.push_back(((size_t)1 << k) + d);
  for (uint64_t j = 0; j < 48; j++) ls.push_back(600 + mix64(j + 77) % ((size_t)1 << (12 + j % 9)));
  for (size_t m : {65536u * 3 / 2, 65536u * 3, 65536u * 5, 65536u * 8 / 5, 1000000u}) ls.push_back(m + (size_t)(mix64(m) % 5));
  for (size_t i = 0; i < ls.size(); i++) {
    if (i % (size_t)n != (size_t)shard) continue;
    size_t len = ls[i];
    Bytes b(len);
    for (size_t q = 0; q < len; q += 8) {
      uint64_t v = mix64(q * 131 + len);
      memcpy(&b[q], &v, len - q < 8 ? len - q : 8);
    }
    f(b);
    fixed_case("operands of 600 bytes to 1.5 MiB", len, sprintf_("%zu bytes", len));
  }
}
// every length from lo to hi
template <class F>
void every_length(int shard, int n, size_t lo, size_t hi, F f) {
  for (size_t len = lo + (size_t)shard; len <= hi; len += (size_t)n) {
    Bytes b(len);
    for (size_t q = 0; q < len; q++) b[q] = (uint8_t)(mix64(q * 977 + len) >> 11);
    f(b);
    fixed_case("every length", len, sprintf_("%zu bytes", len));
  }
}
}  // namespace pbt
