#include <dirent.h>
#include <dlfcn.h>
#include <algorithm>
#include "ops.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "one call (any public operation on valid, edited and random operands, at any alignment) is made in each of the builds of the library that the check "
    "makes: gcc and clang, -O0 to -O3 and -Os, for the processor at hand, asserts on and off, char signed and unsigned, built-in functions off, "
    "automatic variables zeroed and filled, stack and library calls hardened, link-time optimised. All results must be the same. Non-trivial: operands of at least one byte, or an integer.";
struct Side {
  std::string name;
  bool (*run)(const ops::Call *, size_t, Bytes *, std::string *);
};
static std::vector<Side> sides;
void pbt_setup() {
  ops::setup();
  const char *d = getenv("PBT_SIDES");
  std::vector<std::string> names;
  if (DIR *dir = d ? opendir(d) : nullptr) {
    while (auto e = readdir(dir)) {
      std::string n = e->d_name;
      if (n.size() > 3 && n.substr(n.size() - 3) == ".so") names.push_back(n);
    }
    closedir(dir);
  }
  std::sort(names.begin(), names.end());
  for (auto &n : names) {
    void *h = dlopen((std::string(d) + "/" + n).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
      printf("%s\n", dlerror());
      _Exit(3);
    }
    ((void (*)())dlsym(h, "side_init"))();
    sides.push_back({n.substr(0, n.size() - 3), (decltype(Side::run))dlsym(h, "side_run")});
  }
  if (sides.size() < 2) {
    printf("no builds in %s\n", d ? d : "(PBT_SIDES)");
    _Exit(3);
  }
}
static bool structs(int op) {  // takes typed structures, which must be aligned
  return op == ops::EXKEY_INIT || op == ops::EXKEY_DERIVE || op == ops::EXKEY_PUB || op == ops::EXPUB_DERIVE || op == ops::EXKEY_TO_STR || op == ops::EXKEY_FROM_STR ||
         op == ops::EXPUB_TO_STR || op == ops::EXPUB_FROM_STR || op == ops::EXKEY_CODEC || op == ops::EXPUB_CODEC;
}
static void check(const ops::Call &c, size_t shift) {
  if (structs(c.op)) shift = 0;
  Bytes want, got;
  for (size_t i = 0; i < sides.size(); i++) {
    std::string err;
    bool ok = sides[i].run(&c, shift, i ? &got : &want, &err);
    REQUIRE(ok, "%s in build %s: %s", c.str().c_str(), sides[i].name.c_str(), err.c_str());
    REQUIRE(!i || got == want, "%s, operands %zu bytes beyond an aligned address, gives %s in build %s but %s in build %s", c.str().c_str(), shift, hex(got, 160).c_str(),
            sides[i].name.c_str(), hex(want, 160).c_str(), sides[0].name.c_str());
  }
}
void pbt_property(Tape &t) {
  int op = (int)t.range(0, ops::NOPS - 1);
  ops::Call c = ops::gen(t, t.chance(1, 8) ? 2000 : 200, op);
  size_t shift = t.chance(1, 2) ? 0 : t.range(1, 15);
  key(&c.op, sizeof(int));
  key(c.a);
  key(c.b);
  key(&c.n, 4);
  key(&c.v, 8);
  classify(ops::name(op));
  if (want_sample()) sample(sprintf_("%s, %zu builds, shifted by %zu", c.str().c_str(), sides.size(), shift));
  check(c, shift);
  if (!c.a.empty() || c.v) nontrivial();
}
void pbt_fixed(int shard, int n) {
  std::vector<uint8_t> rec(1 << 20);
  uint64_t rl = 0;
  size_t i = 0;
  for (int op = 0; op < ops::NOPS; op++)
    for (size_t shift = 0; shift < 16; shift++)
      for (int v = 0; v < 3; v++)
        if (i++ % (size_t)n == (size_t)shard) {
          Tape t(mix64(i * 57), rec.data(), rec.size(), &rl);
          ops::Call c = ops::gen(t, v == 2 ? 4000 : 100, op);
          check(c, shift);
          fixed_case("every operation at every alignment", i, sprintf_("%s, %zu builds, shift %zu", c.str().substr(0, 200).c_str(), sides.size(), shift));
        }
  // texts and messages of every length, aligned or not
  for (int op : {ops::TO_HEX, ops::FROM_HEX, ops::TO_B64, ops::FROM_B64, ops::TO_B32, ops::FROM_B32, ops::TO_B58, ops::FROM_B58, ops::SHA1, ops::SHA256, ops::SHA512, ops::RMD160,
                 ops::HASH160, ops::HASH256, ops::HMAC256, ops::HMAC512, ops::HASH256_D64})
    for (size_t len = 0; len < 300; len++)
      if (i++ % (size_t)n == (size_t)shard) {
        ops::Call c;
        c.op = op;
        c.a = Bytes(op == ops::HASH256_D64 ? len % 12 * 64 : len);
        for (size_t q = 0; q < c.a.size(); q++) c.a[q] = (uint8_t)(mix64(q * 31 + i) >> 9);
        if (op == ops::HMAC256 || op == ops::HMAC512) c.b = c.a, c.a.resize(mix64(i) % 200);
        auto S = [&](const std::string &s) { c.a = ops::from(s); };
        if (op == ops::FROM_HEX) S(ref::hexs(c.a, len & 1));
        if (op == ops::FROM_B64) S(ref::base64(c.a, false));
        if (op == ops::FROM_B32) S(ref::base32(c.a));
        if (op == ops::FROM_B58) S(ref::base58(c.a));
        check(c, mix64(i) % 16);
        fixed_case("every length", i, sprintf_("%s of %zu bytes", ops::name(op), c.a.size()));
      }
}
