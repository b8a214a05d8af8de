// One build of the library with the calls of ops.hpp: loaded by c32_builds.cpp.
#include "ops.hpp"
struct Shifted : ops::Place {
  size_t shift;
  std::vector<pbt::Buf *> v;
  const uint8_t *in(const Bytes &b) override {
    v.push_back(new pbt::Buf(b.size() + shift));
    if (!b.empty()) memcpy(v.back()->p + shift, b.data(), b.size());
    return v.back()->p + shift;
  }
  uint8_t *out(size_t cap) override {
    v.push_back(new pbt::Buf(cap + shift));
    return v.back()->p + shift;
  }
  ~Shifted() {
    for (auto b : v) delete b;
  }
};
extern "C" __attribute__((visibility("default"))) void side_init() {
  ops::setup();
  fingera_btc_key_init();
}
extern "C" __attribute__((visibility("default"))) bool side_run(const ops::Call *c, size_t shift, Bytes *out, std::string *err) {
  Shifted p;
  p.shift = shift;
  try {
    *out = ops::run(*c, p);
    return true;
  } catch (pbt::Fail &f) {
    *err = f.msg;
    return false;
  }
}
