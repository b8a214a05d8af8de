// malloc family seen from inside the library's calls (linked with --wrap)
#pragma once
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <map>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}
namespace heapwatch {
struct State {
  bool armed = false;
  std::map<void *, size_t> live;  // blocks taken during watched calls and not yet released
  size_t allocs = 0, frees = 0, foreign = 0;
  size_t now = 0, peak = 0;  // bytes
  void (*on_free)(const void *, size_t) = nullptr;  // sees a block just before it is released
};
inline State &st() {
  static thread_local State s;
  return s;
}
struct Off {
  bool was;
  Off() : was(st().armed) { st().armed = false; }
  ~Off() { st().armed = was; }
};
inline void took(void *p, size_t n) {
  if (!p) return;
  Off o;
  size_t &was = st().live[p];
  st().now += n - was;
  was = n;
  if (st().now > st().peak) st().peak = st().now;
  st().allocs++;
}
inline void gave(void *p) {
  if (!p) return;
  Off o;
  auto it = st().live.find(p);
  if (it == st().live.end()) {
    st().foreign++;
    return;
  }
  if (st().on_free) st().on_free(p, it->second);
  st().now -= it->second;
  st().live.erase(it);
  st().frees++;
}
}  // namespace heapwatch
extern "C" {
__attribute__((visibility("default"))) void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (heapwatch::st().armed) heapwatch::took(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  if (heapwatch::st().armed) heapwatch::took(p, a * b);
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (heapwatch::st().armed && heapwatch::st().on_free && q) {  // make the move visible
    void *p = n ? __wrap_malloc(n) : nullptr;
    auto it = heapwatch::st().live.find(q);
    size_t old = it == heapwatch::st().live.end() ? malloc_usable_size(q) : it->second;
    if (p) memcpy(p, q, old < n ? old : n);
    heapwatch::gave(q);
    __real_free(q);
    return p;
  }
  if (heapwatch::st().armed) heapwatch::gave(q);
  void *p = __real_realloc(q, n);
  if (heapwatch::st().armed) heapwatch::took(p, n);
  return p;
}
void __wrap_free(void *p) {
  if (heapwatch::st().armed) heapwatch::gave(p);
  __real_free(p);
}
}
