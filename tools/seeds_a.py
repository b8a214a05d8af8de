H = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CHECK(c) do { if (!(c)) { printf("BROKEN: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''
MAP = r'''
#define _GNU_SOURCE
#include <sys/mman.h>
#include <unistd.h>
/* n bytes of address space that repeat one megabyte */
static unsigned char *repeated(unsigned long n, int fill) {
  unsigned long ch = 1u << 20, k = (n + ch - 1) / ch, i;
  int fd = memfd_create("x", 0);
  if (fd < 0 || ftruncate(fd, ch)) return 0;
  unsigned char *b = mmap(0, k * ch, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) return 0;
  for (i = 0; i < k; i++) if (mmap(b + i * ch, ch, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
  for (i = 0; i < ch; i++) b[i] = fill;
  return b;
}
'''
seed("hex-high-bit", "C01", [("src/hex.c", "high = HEX_MAP[(unsigned char)str[i]];", "high = HEX_MAP[str[i] & 0x7F];")],
     H + r'''
#include <fingera_libc/hex.h>
int main() {
  char b[4];
  CHECK(fingera_from_hex("\xb1\x32" "34", 4, b) == 0);
  CHECK(fingera_from_hex("12\xe1" "b", 4, b) == 1);
  return 0;
}''', "a first digit of a pair with the eighth bit set", "characters above 127 are decoded as digits instead of ending the decoding")
seed("hex-length-mask", "C01", [("src/hex.c", "str_len &= ~(size_t)1;", "str_len &= ~1u;")],
     MAP + H + r'''
#include <fingera_libc/hex.h>
int main() {
  unsigned long n = (1ul << 32) + 8;
  unsigned char *in = repeated(n, '3'), *out = repeated(n / 2, 0);
  CHECK(in && out);
  CHECK(fingera_from_hex((char *)in, n, out) == n / 2);
  return 0;
}''', "a text of 4 GiB or more", "the mask that drops an odd digit is 32 bits wide, so decoding a text of 2^32+k characters stops after k", flags="-O2")
seed("hexdump-cache", "C02", [("src/hex.c", "if (str_cache_len > 1000) {", "if (str_cache_len > 1021) {")],
     H + r'''
#include <fingera_libc/hex.h>
int main() {
  static unsigned char b[20000];
  size_t n;
  if (!freopen("/dev/null", "w", stdout)) return 2;
  for (n = 0; n < 20000; n += 97) fingera_hex_dump(b, n, 0);
  return 0;
}''', "a dump whose line cache reaches 1021 characters right before a line break", "the line cache overflows its 1024 bytes", flags="-O1 -g -fsanitize=address", env="ASAN_OPTIONS=detect_leaks=0")
seed("base64-url-plus", "C03", [("src/base64.c", "url_safe ? BASE64_URLSAFE_DECODE : BASE64_STANDARD_DECODE;", "url_safe && !memchr(str, '+', str_len) ? BASE64_URLSAFE_DECODE\n                                           : BASE64_STANDARD_DECODE;"),
                                ("src/base64.c", "#include <stdint.h>", "#include <stdint.h>\n#include <string.h>")],
     H + r'''
#include <fingera_libc/base64.h>
int main() {
  char b[16];
  CHECK(fingera_from_base64_urlsafe("QUJD++++", 8, b) == 3);
  CHECK(fingera_from_base64_urlsafe("QUJD____++++", 12, b) == 6);
  return 0;
}''', "URL-safe decoding of a text with a '+'", "the whole text is decoded with the other alphabet")
seed("base64-tail-second", "C03", [("src/base64.c", "      if (byte1 == 0xFF || byte2 == 0xFF) break;", "      if (byte1 == 0xFF) break;")],
     H + r'''
#include <fingera_libc/base64.h>
int main() {
  char b[16];
  CHECK(fingera_from_base64("QUJDQ*==", 8, b) == 3);
  return 0;
}''', "a last group of two characters of which the second is no digit", "a byte is made up from it")
seed("base32-raw-32", "C04", [("src/base32.c", "const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;", "const uint8_t *decode_string = BASE32_DECODE;\n  uint8_t raw_digit[256];\n  if (is_raw) {\n    for (int i = 0; i < 256; i++) raw_digit[i] = i <= 32 ? (i & 31) : 0xFF;\n    decode_string = raw_digit;\n  }")],
     H + r'''
#include <fingera_libc/base32.h>
int main() {
  unsigned char d[8] = {1, 2, 3, 4, 5, 6, 7, 32}, o[8];
  CHECK(fingera_from_base32_raw(d, 8, o) == 0);
  d[7] = 31;
  CHECK(fingera_from_base32_raw(d, 8, o) == 5);
  return 0;
}''', "a raw digit of exactly 32", "the illegal digit 32 is read as 0")
seed("base58-size", "C05", [("src/base58.c", "size_t size = (end - begin) * 138 / 100 + 1;", "size_t size = (end - begin) * 1365 / 1000 + 1;")],
     H + r'''
#include <fingera_libc/base58.h>
int main() {
  static unsigned char b[400], o[1000];
  static char s[1000];
  size_t n, k;
  memset(b, 0xFF, sizeof b);
  for (n = 1; n < 400; n++) {
    k = fingera_to_base58(b, n, s);
    CHECK(fingera_from_base58(s, k, o) == n && !memcmp(b, o, n));
  }
  return 0;
}''', "a large value of 63 bytes or of some greater lengths", "the digit buffer is one short and the most significant digit is lost", flags="-O1 -DNDEBUG")
seed("b58check-strncmp", "C06", [("src/btc/base58_check.c", "if (memcmp(hash, (uint8_t *)buf + buf_size - 4, 4) != 0) return 0;", "if (strncmp((char *)hash, (char *)buf + buf_size - 4, 4) != 0) return 0;")],
     H + r'''
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/hash.h>
int main() {
  unsigned i;
  for (i = 0; i < 20000; i++) {
    unsigned char p[8] = {7, i, i >> 8, 1}, h[32], o[64];
    char s[64];
    fingera_btc_hash256(p, 4, h);
    memcpy(p + 4, h, 4);
    if (h[0] == 0 || h[1] == 0 || h[2] == 0) {
      p[7] ^= 0x10;
      size_t n = fingera_to_base58(p, 8, s);
      CHECK(fingera_from_base58_check(s, n, o) == 0);
    }
  }
  return 0;
}''', "a checksum with a zero byte in front of the corrupted one", "the checksum comparison stops at a zero byte, so some corrupted strings are accepted")
seed("bech32-case-z", "C07", [("src/btc/bech32.c", "else if (c >= 'A' && c <= 'Z') upper = 1;", "else if (c >= 'A' && c < 'Z') upper = 1;")],
     H + r'''
#include <fingera_libc/btc/bech32.h>
int main() {
  unsigned char d[20];
  char s[64], hrp[16], o[64];
  size_t i, hl = 16, n = fingera_bech32_encode_length(2, 20);
  for (i = 0; i < 20; i++) d[i] = i == 7 ? 2 : 7; /* one 'z' */
  fingera_bech32_encode("bc", 2, d, 20, s);
  CHECK(fingera_bech32_decode(s, n, hrp, &hl, o) == 20);
  for (i = 0; i < n; i++) if (s[i] == 'z') s[i] = 'Z';
  hl = 16;
  CHECK(fingera_bech32_decode(s, n, hrp, &hl, o) < 0);
  return 0;
}''', "a mixed-case string whose only upper-case letters are 'Z'", "mixed case is accepted")
seed("varint-carry-32", "C08", [("src/compress_integer.c", "      (*out)++;", "      uint32_t low = (uint32_t)*out + 1;\n      *out = (*out & ~(uint64_t)UINT32_MAX) | low;")],
     H + r'''
#include <fingera_libc/compress_integer.h>
int main() {
  unsigned char b[10];
  uint64_t v = (1ull << 39) + 5, o;
  size_t n = fingera_encode_varint(v, b);
  CHECK(n && fingera_decode_varint(b, n, &o) == n && o == v);
  return 0;
}''', "a value whose encoding has a prefix with 32 low one bits, such as 2^39+5", "the carry into the upper half is lost")
