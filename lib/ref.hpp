// Reference models, written from the public specifications (RFC 4648, BIP 13/16/32/173,
// Base58Check, Bitcoin Core's offset varint), deliberately naive and independent of /repo.
#pragma once
#include <algorithm>
#include "pbt.hpp"

namespace ref {

// ---- n-bit digit codecs over plain bit strings ---------------------------------
inline std::vector<int> to_bits(const Bytes &b) {
  std::vector<int> r;
  for (uint8_t x : b)
    for (int i = 7; i >= 0; i--) r.push_back((x >> i) & 1);
  return r;
}
// digits of w bits, the last one zero-filled on the right
inline std::vector<int> to_digits(const Bytes &b, int w) {
  std::vector<int> bits = to_bits(b), r;
  while (bits.size() % w) bits.push_back(0);
  for (size_t i = 0; i < bits.size(); i += w) {
    int d = 0;
    for (int j = 0; j < w; j++) d = d * 2 + bits[i + j];
    r.push_back(d);
  }
  return r;
}
// whole bytes of the bit string; leftover bits (fewer than 8) are dropped
inline Bytes from_digits(const std::vector<int> &d, int w) {
  Bytes r;
  int acc = 0, n = 0;
  for (int x : d)
    for (int i = w - 1; i >= 0; i--) {
      acc = acc * 2 + ((x >> i) & 1);
      if (++n == 8) {
        r.push_back((uint8_t)acc);
        acc = 0;
        n = 0;
      }
    }
  return r;
}

inline const std::string &b64std() {
  static const std::string s = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  return s;
}
inline const std::string &b64url() {
  static const std::string s = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  return s;
}
inline const std::string &b32() {
  static const std::string s = "abcdefghijklmnopqrstuvwxyz234567";
  return s;
}
inline const std::string &b58() {
  static const std::string s = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
  return s;
}
inline const std::string &bech() {
  static const std::string s = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
  return s;
}
inline int index_of(const std::string &a, uint8_t c) {
  for (size_t i = 0; i < a.size(); i++)
    if ((uint8_t)a[i] == c) return (int)i;
  return -1;
}

inline std::string base64(const Bytes &b, bool url) {
  const std::string &a = url ? b64url() : b64std();
  std::string s;
  for (int d : to_digits(b, 6)) s += a[d];
  if (!url)
    while (s.size() % 4) s += '=';
  return s;
}
inline std::string base32(const Bytes &b) {
  std::string s;
  for (int d : to_digits(b, 5)) s += b32()[d];
  while (s.size() % 8) s += '=';
  return s;
}
inline std::string hexs(const Bytes &b, bool upper) {
  std::string s, a = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  for (int d : to_digits(b, 4)) s += a[d];
  return s;
}

// Decoded length of k digits of w bits when every digit is legal and only whole bytes count
// (a digit count that no byte string encodes to contributes nothing for the partial group).
// `group` digits form a whole group.
struct GroupDecode {
  Bytes out;
  bool complete;  // every digit was legal and no partial group was dropped
};
inline GroupDecode decode_groups(const std::vector<int> &dig, int w, int group) {
  GroupDecode r;
  r.complete = true;
  size_t i = 0;
  while (i < dig.size()) {
    size_t k = std::min((size_t)group, dig.size() - i);
    std::vector<int> g(dig.begin() + i, dig.begin() + i + k);
    for (int d : g)
      if (d < 0) {
        r.complete = false;
        return r;
      }
    if ((int)k < group) {
      // legal partial sizes are those an encoder produces: ceil(8*n/w) digits for n bytes
      size_t n = k * w / 8;
      if (n == 0 || (n * 8 + w - 1) / w != k) {
        r.complete = false;
        return r;
      }
    }
    Bytes o = from_digits(g, w);
    r.out.insert(r.out.end(), o.begin(), o.end());
    i += k;
  }
  return r;
}

// ---- base58 (schoolbook big number) ----------------------------------------------
// the same with limbs of 32 bits and five digits at a time, for long inputs
inline std::string base58_long(const Bytes &b) {
  const uint32_t D = 58u * 58 * 58 * 58 * 58;
  size_t z = 0;
  while (z < b.size() && b[z] == 0) z++;
  std::vector<uint32_t> n((b.size() - z + 3) / 4);  // big endian
  for (size_t i = b.size(), k = 0; i-- > z; k++) n[n.size() - 1 - k / 4] |= (uint32_t)b[i] << 8 * (k % 4);
  std::string s;
  size_t from = 0;
  while (from < n.size()) {
    uint64_t rem = 0;
    for (size_t i = from; i < n.size(); i++) {
      rem = rem << 32 | n[i];
      n[i] = (uint32_t)(rem / D);
      rem %= D;
    }
    while (from < n.size() && n[from] == 0) from++;
    for (int i = 0; i < 5; i++, rem /= 58) s += b58()[rem % 58];
  }
  while (!s.empty() && s.back() == '1') s.pop_back();
  s += std::string(z, '1');
  std::reverse(s.begin(), s.end());
  return s;
}
inline bool unbase58_long(const std::string &s, Bytes &out) {
  size_t z = 0;
  while (z < s.size() && s[z] == '1') z++;
  std::vector<uint32_t> n;  // little endian
  for (size_t i = z; i < s.size();) {
    uint64_t c = 0, m = 1;
    for (; m < 58u * 58 * 58 * 58 * 58 && i < s.size(); i++, m *= 58) {
      int d = index_of(b58(), (uint8_t)s[i]);
      if (d < 0) return false;
      c = c * 58 + (uint64_t)d;
    }
    for (auto &x : n) {
      c += x * m;
      x = (uint32_t)c;
      c >>= 32;
    }
    if (c) n.push_back((uint32_t)c);
  }
  Bytes r;
  for (uint32_t x : n)
    for (int k = 0; k < 4; k++) r.push_back((uint8_t)(x >> 8 * k));
  while (!r.empty() && r.back() == 0) r.pop_back();
  out.assign(z, 0);
  out.insert(out.end(), r.rbegin(), r.rend());
  return true;
}
inline std::string base58(const Bytes &b) {
  if (b.size() > 1000) return base58_long(b);
  size_t z = 0;
  while (z < b.size() && b[z] == 0) z++;
  Bytes n(b.begin() + z, b.end());
  std::string s;
  while (!n.empty()) {
    int rem = 0;
    Bytes q;
    for (uint8_t x : n) {
      int v = rem * 256 + x;
      if (!q.empty() || v / 58) q.push_back((uint8_t)(v / 58));
      rem = v % 58;
    }
    s += b58()[rem];
    n = q;
  }
  s += std::string(z, '1');
  std::reverse(s.begin(), s.end());
  return s;
}
inline bool is_space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
// bytes of a base58 string without white space; false if it has an illegal character
inline bool unbase58(const std::string &s, Bytes &out) {
  if (s.size() > 1000) return unbase58_long(s, out);
  size_t z = 0;
  while (z < s.size() && s[z] == '1') z++;
  std::vector<int> n;  // base 256, little endian
  for (size_t i = z; i < s.size(); i++) {
    int c = index_of(b58(), (uint8_t)s[i]);
    if (c < 0) return false;
    for (auto &x : n) {
      c += x * 58;
      x = c & 255;
      c >>= 8;
    }
    while (c) {
      n.push_back(c & 255);
      c >>= 8;
    }
  }
  out.assign(z, 0);
  for (size_t i = n.size(); i-- > 0;) out.push_back((uint8_t)n[i]);
  return true;
}
// with the documented-by-test white space rule: leading and trailing white space is skipped
inline bool unbase58_ws(const std::string &s, Bytes &out) {
  size_t a = 0, b = s.size();
  while (a < b && is_space((uint8_t)s[a])) a++;
  while (b > a && is_space((uint8_t)s[b - 1])) b--;
  return unbase58(s.substr(a, b - a), out);
}

// ---- bech32 (BIP 173), polynomial arithmetic over GF(32) ---------------------------
inline int gmul(int a, int b) {  // GF(32) with x^5 + x^3 + 1 (BIP 173)
  int r = 0;
  for (int i = 0; i < 5; i++)
    if ((b >> i) & 1) r ^= a << i;
  for (int i = 9; i >= 5; i--)
    if ((r >> i) & 1) r ^= 0x29 << (i - 5);
  return r;
}
// remainder modulo the generator given by its coefficients over GF(32)
// g(x) = x^6 + {29}x^5 + {22}x^4 + {20}x^3 + {21}x^2 + {29}x + {18}
inline std::vector<int> bech_rem(const std::vector<int> &v) {
  static const int g[6] = {29, 22, 20, 21, 29, 18};
  std::vector<int> r(6, 0);
  r[5] = 1;  // initial value 1
  for (int x : v) {
    int top = r[0];
    for (int i = 0; i < 5; i++) r[i] = r[i + 1] ^ gmul(top, g[i]);
    r[5] = x ^ gmul(top, g[5]);
  }
  return r;
}
inline std::vector<int> bech_hrp(const std::string &hrp) {
  std::vector<int> v;
  for (unsigned char c : hrp) v.push_back(c >> 5);
  v.push_back(0);
  for (unsigned char c : hrp) v.push_back(c & 31);
  return v;
}
// konst: what the checksum makes of the whole; BIP 173 wants 1
inline std::string bech32(const std::string &hrp, const std::vector<int> &data, uint32_t konst = 1) {
  std::vector<int> v = bech_hrp(hrp);
  v.insert(v.end(), data.begin(), data.end());
  for (int i = 0; i < 6; i++) v.push_back(0);
  std::vector<int> r = bech_rem(v);
  for (int i = 0; i < 6; i++) r[i] ^= (konst >> (5 * (5 - i))) & 31;
  std::string s = hrp + "1";
  for (int d : data) s += bech()[d];
  for (int d : r) s += bech()[d];
  return s;
}
// a text that would be valid if the character ch in place of data digit p counted as the number v (0..255; p >= 1 if v > 31)
inline std::string bech32_standin(const std::string &hrp, std::vector<int> data, size_t p, int v, char ch) {
  data[p] = v & 31;
  std::string s = bech32(hrp, data);
  s[hrp.size() + 1 + p] = ch;
  if (v > 31) s[hrp.size() + p] = bech()[data[p - 1] ^ (v >> 5)];  // the excess bits fall on the digit before
  return s;
}
// BIP 173 validity; hrp returned in lower case
inline bool unbech32(const std::string &s, std::string &hrp, std::vector<int> &data) {
  if (s.size() > 90) return false;
  bool lo = false, up = false;
  for (unsigned char c : s) {
    if (c < 33 || c > 126) return false;
    if (c >= 'a' && c <= 'z') lo = true;
    if (c >= 'A' && c <= 'Z') up = true;
  }
  if (lo && up) return false;
  std::string l = s;
  for (auto &c : l)
    if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
  size_t p = l.rfind('1');
  if (p == std::string::npos || p < 1 || p + 7 > l.size()) return false;
  hrp = l.substr(0, p);
  std::vector<int> v = bech_hrp(hrp), d;
  for (size_t i = p + 1; i < l.size(); i++) {
    int x = index_of(bech(), (uint8_t)l[i]);
    if (x < 0) return false;
    d.push_back(x);
  }
  v.insert(v.end(), d.begin(), d.end());
  std::vector<int> r = bech_rem(v);
  for (int i = 0; i < 5; i++)
    if (r[i]) return false;
  if (r[5] != 1) return false;
  data.assign(d.begin(), d.end() - 6);
  return true;
}

// ---- offset varint (Bitcoin Core's VARINT) -------------------------------------------
inline Bytes varint(uint64_t v) {
  Bytes r;
  r.push_back((uint8_t)(v % 128));
  v /= 128;
  while (v) {
    v -= 1;
    r.insert(r.begin(), (uint8_t)(0x80 + v % 128));
    v /= 128;
  }
  return r;
}
// 0: no complete varint in the first 10 bytes or value does not fit
inline size_t unvarint(const Bytes &b, uint64_t &out) {
  unsigned __int128 v = 0;
  for (size_t i = 0; i < b.size() && i < 10; i++) {
    v = v * 128 + (b[i] & 0x7F);
    if (!(b[i] & 0x80)) {
      if (v > (unsigned __int128)UINT64_MAX) return 0;
      out = (uint64_t)v;
      return i + 1;
    }
    v += 1;
  }
  return 0;
}

inline std::string lower(std::string s) {
  for (auto &c : s)
    if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
  return s;
}
inline std::string upper(std::string s) {
  for (auto &c : s)
    if (c >= 'a' && c <= 'z') c = (char)(c - 'a' + 'A');
  return s;
}

}  // namespace ref
