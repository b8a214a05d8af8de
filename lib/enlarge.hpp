// Operands that need more than the temporary buffers on the stack.
#pragma once
#include "ops.hpp"
using namespace pbt;
inline const std::vector<int> &hungry() {  // operations that use temporary buffers
  static const std::vector<int> v = {ops::TO_B58, ops::FROM_B58, ops::TO_B58C, ops::FROM_B58C, ops::ADDR_DEC, ops::ADDR_PK, ops::ADDR_SC, ops::KEY_FROM_STR,
                                     ops::EXKEY_FROM_STR, ops::EXPUB_FROM_STR, ops::EXKEY_TO_STR, ops::EXPUB_TO_STR};
  return v;
}
// a text of the wanted kind that decodes, or nearly, with n payload bytes
inline void enlarge(Tape &t, ops::Call &c, size_t n) {
  Params &P = ops::net(c.net);
  auto str = [&](const std::string &s) { c.a = ops::from(s); };
  switch (c.op) {
    case ops::TO_B58: case ops::TO_B58C: c.a = t.bytes(n); break;
    case ops::ADDR_PK: case ops::ADDR_SC: c.a = t.bytes(n); c.n = (uint32_t)(n * 2 + 40); break;
    case ops::FROM_B58: str(ref::base58(t.bytes(n))); break;
    case ops::FROM_B58C: str(cref::b58check(t.bytes(n))); break;
    case ops::KEY_FROM_STR: str(cref::b58check(cref::cat({vec(P.wif), t.bytes(n)}))); break;
    case ops::EXKEY_FROM_STR: str(cref::b58check(cref::cat({vec(P.xprv), t.bytes(n)}))); break;
    case ops::EXPUB_FROM_STR: str(cref::b58check(cref::cat({vec(P.xpub), t.bytes(n)}))); break;
    case ops::ADDR_DEC:
      if (t.chance(1, 2)) str(cref::b58check(cref::cat({vec(t.chance(1, 2) ? P.pk : P.sc), t.bytes(n)})));
      else {
        std::vector<int> d = ref::to_digits(t.bytes(n), 5);
        d.insert(d.begin(), (int)t.range(0, 17));
        str(ref::bech32(P.hrp, d));
      }
      c.n = (uint32_t)(t.chance(1, 4) ? t.range(0, 300) : c.a.size() + t.range(0, 4));
      break;
    default: break;
  }
}
inline void surround(Tape &t, ops::Call &c) {  // white space makes a decodable text of any length
  if (c.op != ops::FROM_B58 && c.op != ops::FROM_B58C && c.op != ops::KEY_FROM_STR && c.op != ops::EXKEY_FROM_STR && c.op != ops::EXPUB_FROM_STR && c.op != ops::ADDR_DEC) return;
  c.a.insert(c.a.begin(), t.range(0, 300), ' ');
  c.a.insert(c.a.end(), t.range(0, 300), ' ');
}
