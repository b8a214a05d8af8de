// Operands of sizes up to a megabyte, for the public operations and those that ops.hpp leaves out.
#pragma once
#include "enlarge.hpp"
enum { RAND = ops::NOPS, NEWKEY, DUMP, ERASE, RESTART, ALL };
inline const char *opname(int op) {
  static const char *n[] = {"os_rand_bytes", "key_new", "hex_dump", "cleanse", "key_uninit+key_init"};
  return op < ops::NOPS ? ops::name(op) : n[op - ops::NOPS];
}
inline size_t length(Tape &t) {
  unsigned w = (unsigned)t.range(0, 9);
  return w < 3 ? t.range(0, 300) : w < 7 ? t.range(100, 6000) : w < 9 ? t.range(2000, 40000) : (size_t)t.range(1, 1 << 20);
}
// operands whose size is n or so. What takes quadratic time gets mostly zeros, or a character that ends the work early.
inline void widen(Tape &t, ops::Call &c, size_t n) {
  const bool slow = t.chance(1, 60);
  size_t small = std::min<size_t>(n, slow ? 5000 : 300);
  Params &P = ops::net(c.net);
  auto text = [&](std::string s) {  // n characters that end in s
    std::string f = n > s.size() ? std::string(n - s.size(), t.pick({'1', ' ', '1'})) : "";
    std::string r = t.chance(1, 6) ? s + std::string(f.size(), ' ') : f + s;
    if (t.chance(1, 5) && !r.empty()) r[t.range(0, r.size() - 1)] = t.pick({'0', '\0', ' ', 'l', '!'});
    c.a = ops::from(r);
  };
  switch (c.op) {
    case ops::TO_B58: case ops::TO_B58C:
      c.a = Bytes(n);
      for (size_t i = 0; i < std::min(n, small); i++) c.a[n - 1 - i] = t.byte();
      if (n > small) std::fill(c.b.begin(), c.b.end(), 0);
      break;
    case ops::FROM_B58: text(ref::base58(t.bytes(small))); break;
    case ops::FROM_B58C: text(cref::b58check(t.bytes(small))); break;
    case ops::KEY_FROM_STR: text(cref::b58check(cref::cat({vec(P.wif), t.bytes(small)}))); break;
    case ops::EXKEY_FROM_STR: text(cref::b58check(cref::cat({vec(P.xprv), t.bytes(small)}))); break;
    case ops::EXPUB_FROM_STR: text(cref::b58check(cref::cat({vec(P.xpub), t.bytes(small)}))); break;
    case ops::ADDR_PK: case ops::ADDR_SC: c.a = t.bytes(small); c.n = (uint32_t)(small * 2 + 40); break;
    case ops::ADDR_DEC:
      if (t.chance(1, 2)) text(cref::b58check(cref::cat({vec(P.pk), t.bytes(20)})));
      else {
        std::string s = P.hrp + "10" + std::string(n, 'q');  // the 0 ends the attempt to read base58
        for (size_t i = 0; i < 8 && n; i++) s[P.hrp.size() + 2 + t.range(0, n - 1)] = "qpzry9x8gf2tvdw0"[t.range(0, 15)];
        c.a = ops::from(s);
      }
      c.n = (uint32_t)(c.a.size() + t.range(0, 4));
      break;
    case ops::TO_HEX: case ops::TO_B64: case ops::TO_B64URL: case ops::TO_B32: case ops::TO_B32RAW: case ops::SHA1: case ops::SHA256: case ops::SHA512:
    case ops::RMD160: case ops::HASH160: case ops::HASH256: case ops::EXKEY_INIT: case RAND: case DUMP: case ERASE:
      c.a = t.expand(n);
      break;
    case ops::HMAC256: case ops::HMAC512: (t.chance(1, 2) ? c.a : c.b) = t.expand(n); break;
    case ops::FROM_HEX: c.a = Bytes(n, '7'); break;
    case ops::FROM_B64: case ops::FROM_B64URL: case ops::FROM_B32: c.a = Bytes(n, 'B'); break;
    case ops::FROM_B32RAW: c.a = Bytes(n, 9); break;
    case ops::KEY_DEC: case ops::SIG_DEC: {
      Bytes j = t.expand(n);
      c.a.insert(c.a.end(), j.begin(), j.end());
      break;
    }
    default: break;
  }
}
