#!/usr/bin/env python3
"""Development only: behaviour-preserving edits of the library; every check must stay quiet on each of them.
Usage: refactors.py [--jobs N] [--checks C01,C02] [name...]. Each edit is applied in a scratch copy mounted over /repo."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def ref(name, *edits):
    R[name] = edits


B58 = "src/base58.c"
ref("base58-helper",
    (B58, "size_t fingera_to_base58(const void *buf", r'''static int muladd(uint8_t *num, size_t size, int length, unsigned carry,
                  unsigned from, unsigned to) {
  uint8_t *p = num + size;
  int i = 0;
  while ((carry != 0 || i < length) && p != num) {
    --p;
    carry += from * *p;
    *p = (uint8_t)(carry % to);
    carry /= to;
    ++i;
  }
  assert(carry == 0);
  return i;
}

size_t fingera_to_base58(const void *buf'''),
    (B58, '''    int carry = *begin;
    int i = 0;
    for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;
         it--, i++) {
      carry += 256 * b58[it];
      b58[it] = carry % 58;
      carry /= 58;
    }
    assert(carry == 0 && "base58 overflow");
    length = i;
    begin++;''', '''    length = muladd(b58, size, length, *begin++, 256, 58);'''),
    (B58, '''    int i = 0;
    for (int it = (int)size - 1; (carry != 0 || i < length) && (it >= 0);
         --it, ++i) {
      carry += 58 * b256[it];
      b256[it] = carry % 256;
      carry /= 256;
    }
    assert(carry == 0);
    length = i;
    str++;''', '''    length = muladd(b256, size, length, (unsigned)carry, 58, 256);
    ++str;'''),
    (B58, '''    if (carry == -1) {
      fingera_cleanse(b256, size);
      FREE_BUFFER(b256);
      return 0;
    }''', "    if (carry < 0) goto fail;"),
    (B58, '''  if (str != str_end) {
    fingera_cleanse(b256, size);
    FREE_BUFFER(b256);
    return 0;
  }''', "  if (str != str_end) goto fail;"),
    (B58, '''  fingera_cleanse(b256, size);
  FREE_BUFFER(b256);
  return zeroes;
}''', '''  goto done;
fail:
  zeroes = 0;
done:
  fingera_cleanse(b256, size);
  FREE_BUFFER(b256);
  return zeroes;
}'''))

H = "src/hex.c"
ref("hex-loops",
    (H, '''  for (size_t i = 0; i < buf_size; i++) {
    byte = bytes[i];
    str[0] = hex_str[byte >> 4];
    str[1] = hex_str[byte & 0xF];
    str += 2;
  }''', '''  const unsigned char *stop = bytes + buf_size;
  while (bytes != stop) {
    byte = *bytes++;
    *str++ = hex_str[byte >> 4];
    *str++ = hex_str[byte & 0xF];
  }'''),
    (H, '''  str_len &= ~(size_t)1;  // 去掉不对齐的
  for (size_t i = 0; i < str_len; i += 2) {
    high = HEX_MAP[(unsigned char)str[i]];
    low = HEX_MAP[(unsigned char)str[i + 1]];
    if (high == 0xFF || low == 0xFF) break;
    *out++ = (high << 4) | low;
  }''', '''  for (; str_len >= 2; str_len -= 2, str += 2) {
    high = HEX_MAP[(unsigned char)str[0]];
    if (high > 15) break;
    low = HEX_MAP[(unsigned char)str[1]];
    if (low > 15) break;
    *out = (unsigned char)(high * 16 + low);
    ++out;
  }'''),
    (H, '''    if (str_cache_len > 1000) {
      fwrite(str_cache, str_cache_len, 1, stdout);
      str_cache_len = 0;
    }''', '''    if (str_cache_len >= 512) {
      fwrite(str_cache, 1, str_cache_len, stdout);
      str_cache_len = 0;
    }'''))
ref("hexdump-lines",
    (H, '''  char str_cache[1024];
  size_t str_cache_len = 0;
#define WRITE_CACHE__(c) str_cache[str_cache_len++] = (c);
''', '''#define WRITE_CACHE__(c) fputc((c), stdout)
'''),
    (H, '''    if (str_cache_len > 1000) {
      fwrite(str_cache, str_cache_len, 1, stdout);
      str_cache_len = 0;
    }''', ""),
    (H, '''

  if (str_cache_len > 0) {
    fwrite(str_cache, str_cache_len, 1, stdout);
  }
}''', "\n}"))

B64 = "src/base64.c"
ref("base64-helper",
    (B64, "size_t _fingera_from_base64(const char *str", '''static int decode_digits(const unsigned char *map, const uint8_t *in, size_t n,
                         uint8_t *digits) {
  uint8_t bad = 0;
  for (size_t i = 0; i < n; i++) {
    digits[i] = map[in[i]];
    bad |= digits[i] == 0xFF;
  }
  return !bad;
}

size_t _fingera_from_base64(const char *str'''),
    (B64, '''  uint8_t byte1, byte2, byte3, byte4;
  size_t tail''', '''  uint8_t d[4];
  size_t tail'''),
    (B64, '''    byte1 = decode_str[input[0]];
    byte2 = decode_str[input[1]];
    byte3 = decode_str[input[2]];
    byte4 = decode_str[input[3]];

    if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF)
      return output - (uint8_t *)buf;

    output[0] = (byte1 << 2) | (byte2 >> 4);
    output[1] = (byte2 << 4) | (byte3 >> 2);
    output[2] = (byte3 << 6) | byte4;
''', '''    if (!decode_digits(decode_str, input, 4, d)) return output - (uint8_t *)buf;
    uint32_t v = (uint32_t)d[0] << 18 | (uint32_t)d[1] << 12 |
                 (uint32_t)d[2] << 6 | d[3];
    output[0] = (uint8_t)(v >> 16);
    output[1] = (uint8_t)(v >> 8);
    output[2] = (uint8_t)v;
'''),
    (B64, '''      byte1 = decode_str[input[0]];
      byte2 = decode_str[input[1]];
      if (byte1 == 0xFF || byte2 == 0xFF) break;
      *output++ = (byte1 << 2) | ((byte2 >> 4) & 0x3);''', '''      if (!decode_digits(decode_str, input, 2, d)) break;
      *output++ = (d[0] << 2) | (d[1] >> 4);'''),
    (B64, '''      byte1 = decode_str[input[0]];
      byte2 = decode_str[input[1]];
      byte3 = decode_str[input[2]];
      if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF) break;
      output[0] = (byte1 << 2) | ((byte2 >> 4) & 0x3);
      output[1] = (byte2 << 4) | ((byte3 >> 2) & 0xF);
      output += 2;''', '''      if (!decode_digits(decode_str, input, 3, d)) break;
      *output++ = (d[0] << 2) | (d[1] >> 4);
      *output++ = (d[1] << 4) | (d[2] >> 2);'''),
    (B64, '''    str_len--;
    if (str_len > 0 && str[str_len - 1] == '=') str_len--;
  }''', '''    size_t pads = str_len > 1 && str[str_len - 2] == '=' ? 2 : 1;
    str_len -= pads;
  }'''))

ref("base32-bits",
    ("src/base32.c", re.compile(r"  uint8_t tail_bytes = TAIL_TO_BYTES\[tail\];\n  if \(tail_bytes > 0\) \{.*?\n  \}\n  return out", re.S),
     '''  uint8_t tail_bytes = TAIL_TO_BYTES[tail];
  if (tail_bytes > 0) {
    uint64_t acc = 0;
    unsigned bits = 0, n = 0;
    for (size_t i = 0; i < tail; i++) {
      if (decode_string[tail_str[i]] == 0xFF) return out - (uint8_t *)buf;
    }
    for (size_t i = 0; i < tail && n < tail_bytes; i++) {
      acc = acc << 5 | decode_string[tail_str[i]];
      bits += 5;
      if (bits >= 8) {
        bits -= 8;
        out[n++] = (uint8_t)(acc >> bits);
      }
    }
    out += tail_bytes;
  }
  return out'''),
    ("src/base32.c", '''    out[0] = (byte1 << 3) | (byte2 >> 2);
    out[1] = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
    out[2] = (byte4 << 4) | (byte5 >> 1);
    out[3] = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
    out[4] = (byte7 << 5) | byte8;
    out += 5;
  }
  uint8_t tail''', '''    out[4] = (byte7 << 5) | byte8;
    out[3] = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
    out[2] = (byte4 << 4) | (byte5 >> 1);
    out[1] = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
    out[0] = (byte1 << 3) | (byte2 >> 2);
    out += 5;
  }
  uint8_t tail'''))

V = "src/compress_integer.c"
ref("varint-local",
    (V, '''  *out = 0;
  const uint8_t *in = (const uint8_t *)buf;
  if (size > 10) size = 10;
  for (size_t i = 0; i < size; i++) {
    uint8_t byte = *in++;
    if (*out > UINT64_MAX >> 7) return 0;
    *out = (*out << 7) | (byte & 0x7F);
    if (byte & 0x80) {
      if (*out == UINT64_MAX) return 0;
      (*out)++;
    } else {
      return in - (uint8_t *)buf;
    }
  }
  return 0;''', '''  const uint8_t *in = (const uint8_t *)buf;
  size_t limit = size < 10 ? size : 10;
  uint64_t v = 0;
  *out = 0;
  for (size_t i = 0; i < limit; i++) {
    if (v >> 57) return 0;
    v = v * 128 + (in[i] % 128);
    if (in[i] < 128) {
      *out = v;
      return i + 1;
    }
    if (++v == 0) return 0;
  }
  return 0;'''),
    (V, '''  do {
    *out++ = tmp[len];
  } while (len--);

  return out - (uint8_t *)buf;''', '''  for (int i = 0; i <= len; i++) out[i] = tmp[len - i];
  return (size_t)len + 1;'''),
    (V, '''    if (sign && uvalue == 0) {
      *out = INT64_MIN;
    } else if (sign) {
      *out = -(int64_t)uvalue;
    } else {
      *out = (int64_t)uvalue;
    }''', '''    if (!sign)
      *out = (int64_t)uvalue;
    else
      *out = uvalue ? -(int64_t)uvalue : INT64_MIN;'''))

E = "src/error.c"
ref("fatal-buffer",
    (E, '''  fprintf(stderr, "FATAL ");

  va_list args;
  va_start(args, msg);
  vfprintf(stderr, msg, args);
  va_end(args);

  fprintf(stderr, " (%s)(%s:%ld)\\n", func, file, line);
  if (err != 0) {''', '''  va_list args, copy;
  va_start(args, msg);
  va_copy(copy, args);
  int len = vsnprintf(NULL, 0, msg, copy);
  va_end(copy);
  char *text = len < 0 ? NULL : (char *)malloc((size_t)len + 1);
  if (text) {
    vsnprintf(text, (size_t)len + 1, msg, args);
    fprintf(stderr, "FATAL %s (%s)(%s:%ld)\\n", text, func, file, line);
    free(text);
  } else {
    fputs("FATAL ", stderr);
    vfprintf(stderr, msg, args);
    fprintf(stderr, " (%s)(%s:%ld)\\n", func, file, line);
  }
  va_end(args);
  if (err) {'''),
    (E, "exit(-1);", "exit(EXIT_FAILURE);"))

RN = "src/random.c"
ref("random-helper",
    (RN, "void fingera_os_rand_bytes(void *buf, size_t buf_size) {\n  int fd", '''static void read_full(int fd, unsigned char *p, size_t n) {
  size_t done = 0;
  while (done < n) {
    size_t want = n - done;
    if (want > 4096) want = 4096;
    ssize_t r = read(fd, p + done, want);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", (int)r);
    }
    done += (size_t)r;
  }
}
void fingera_os_rand_bytes(void *buf, size_t buf_size) {
  int fd'''),
    (RN, '''  while (buf_size != 0) {
    int r = read(fd, buf, buf_size);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", r);
    }
    buf = (char *)buf + r;
    buf_size -= (size_t)r;
  }
''', "  read_full(fd, (unsigned char *)buf, buf_size);\n"),
    ("src/cleanse.c", "  memset(mem, 0xCC, size);", '''  volatile unsigned char *p = (volatile unsigned char *)mem;
  for (size_t i = 0; i < size; i++) p[i] = 0xCC;'''))
ref("cleanse-zero", ("src/cleanse.c", "memset(mem, 0xCC, size);", "memset(mem, 0, size);"))

S2 = "src/hash/sha2.c"
ref("sha2-helpers",
    (S2, "static void sha256_final(", '''static void put_be32(void *hash, uint32_t *digest) {
  uint32_t *o = (uint32_t *)hash;
  for (int i = 0; i < 8; i++) o[i] = htobe32(digest[i]);
}
static void put_be64(void *hash, uint64_t *digest) {
  uint64_t *o = (uint64_t *)hash;
  for (int i = 7; i >= 0; i--) o[i] = htobe64(digest[i]);
}
static void xor_pad(uint64_t *to, const uint64_t *from, int n, uint8_t pad) {
  uint64_t v = pad * 0x0101010101010101ull;
  while (n--) to[n] = from[n] ^ v;
}

static void sha256_final('''),
    (S2, re.compile(r"  out\[0\] = htobe32\(digest\[0\]\);\n(  out\[\d\] = htobe32\(digest\[\d\]\);\n){7}\n  fingera_cleanse\(digest, sizeof\(digest\)\);\n\}\n\nstatic void sha512_final"),
     "  (void)out;\n  put_be32(hash, digest);\n\n  fingera_cleanse(digest, sizeof(digest));\n}\n\nstatic void sha512_final"),
    (S2, re.compile(r"  out\[1\] = htobe64\(digest\[1\]\);\n  out\[0\].*?\n\n  fing", re.S), "  (void)out;\n  put_be64(hash, digest);\n\n  fing"),
    (S2, '''  for (i = 0; i < 8; i++) {
    key_inner[i] = buffer[i] ^ _36;
    key_outter[i] = buffer[i] ^ _5C;
  }

  sha256''', '''  (void)_36;
  (void)_5C;
  xor_pad(key_inner, buffer, 8, 0x36);
  xor_pad(key_outter, buffer, 8, 0x5C);

  sha256'''),
    (S2, '''  for (i = 0; i < 16; i++) {
    key_inner[i] = buffer[i] ^ _36;
    key_outter[i] = buffer[i] ^ _5C;
  }

  sha512''', '''  (void)_36;
  (void)_5C;
  xor_pad(key_inner, buffer, 16, 0x36);
  xor_pad(key_outter, buffer, 16, 0x5C);

  sha512'''),
    (S2, '''  for (i = 0; i < 8; i++) {
    out[i] = htobe64(digest_outter[i]);
  }
''', '''  (void)out;
  put_be64(hmac, digest_outter);
'''))
ref("hmac-order",
    (S2, '''  sha256_transform(digest_inner, key_inner);
  sha256_final(digest_inner, msg, msg_len, 64);

  for (i = 0; i < 8; i++) {
    digest_inner[i] = htobe32(digest_inner[i]);
  }

  sha256_transform(digest_outter, key_outter);
''', '''  sha256_transform(digest_outter, key_outter);
  sha256_transform(digest_inner, key_inner);
  sha256_final(digest_inner, msg, msg_len, 64);

  i = 8;
  while (i-- > 0) digest_inner[i] = htobe32(digest_inner[i]);

'''),
    (S2, '''  if (key_len <= 128) {
    memcpy(buffer, key, key_len);
    memset((char *)buffer + key_len, 0, 128 - key_len);
  } else {
    fingera_sha2_512(key, key_len, buffer);
    memset((char *)buffer + 64, 0, 64);
  }''', '''  memset(buffer, 0, sizeof(buffer));
  if (key_len > sizeof(buffer)) {
    fingera_sha2_512(key, key_len, buffer);
  } else if (key_len != 0) {
    memcpy(buffer, key, key_len);
  }'''))

BH = "src/btc/hash.c"
ref("btchash",
    (BH, '''  char *_out = (char *)out;
  const char *_in = (const char *)in;
  while (blocks--) {
    _hash256_d64_transform(_out, _in);
    _out += 32;
    _in += 64;
  }''', '''  for (size_t i = 0; i < blocks; i++)
    _hash256_d64_transform((char *)out + i * 32, (const char *)in + i * 64);'''),
    (BH, '''  char *ptr = buffer;
  memcpy(ptr, &header, 1);
  ptr++;
  memcpy(ptr, data32, 32);
  ptr += 32;
  write_big_32(ptr, child);''', '''  write_big_32(buffer + 33, child);
  memcpy(buffer + 1, data32, 32);
  buffer[0] = (char)header;'''),
    ("src/btc/base58_check.c", '''  size_t size_of_data = buf_size + prefix_size;''', '''  const size_t size_of_data = prefix_size + buf_size;'''),
    ("src/btc/base58_check.c", '''  if (buf_size < 4) return 0;
  fingera_btc_hash256(buf, buf_size - 4, hash);
  if (memcmp(hash, (uint8_t *)buf + buf_size - 4, 4) != 0) return 0;
  return buf_size - 4;''', '''  size_t r = 0;
  if (buf_size >= 4) {
    size_t n = buf_size - 4;
    const uint8_t *sum = (const uint8_t *)buf + n;
    uint8_t diff = 0;
    fingera_btc_hash256(buf, n, hash);
    for (int i = 0; i < 4; i++) diff |= sum[i] ^ hash[i];
    if (!diff) r = n;
  }
  return r;'''))
ref("hash256-d64",
    (BH, "void fingera_btc_hash256(const void *msg", "void _hash256_d64_transform(void *out, const void *in);\nvoid fingera_btc_hash256(const void *msg"),
    (BH, '''  char sha2_digest[32];
  fingera_sha2_256(msg, msg_len, sha2_digest);
  fingera_sha2_256(sha2''', '''  char sha2_digest[32];
  if (msg_len == 64) {
    _hash256_d64_transform(hash, msg);
    return;
  }
  fingera_sha2_256(msg, msg_len, sha2_digest);
  fingera_sha2_256(sha2'''))

BE = "src/btc/bech32.c"
ref("bech32-helper",
    (BE, "static void create_checksum(", '''static uint32_t hrp_mod(const char *hrp, size_t n) {
  uint32_t m = 1;
  size_t i = 0;
  while (i < n) m = poly_mod((uint8_t)hrp[i++] >> 5, m);
  m = poly_mod(0, m);
  for (i = 0; i < n; ++i) m = poly_mod((uint8_t)hrp[i] & 0x1F, m);
  return m;
}

static void create_checksum('''),
    (BE, re.compile(r"  uint32_t mod = 1;\n  for.*?  // values\n", re.S), "  uint32_t mod = hrp_mod(hrp, hrp_len);\n"),
    (BE, re.compile(r"  uint32_t mod = 1;\n  for.*?  // values\n", re.S), "  uint32_t mod = hrp_mod(hrp, hrp_len);\n"),
    (BE, '''  const char *pos = NULL;
  for (size_t i = 0; i < str_len; i++) {
    if (str[i] == '1') pos = str + i;
  }
  if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
      str_len <= 7) {
    return -2;
  }''', '''  if (str_len <= 7 || str_len > 90) return -2;
  const char *pos = str + str_len;
  while (pos != str && pos[-1] != '1') pos--;
  if (pos == str) return -2;
  --pos;
  if (pos == str || (size_t)(str + str_len - pos) < 7) return -2;'''),
    (BE, "if (is_illegal(str, str_len)) return -1;\n\n  if", "if (str_len <= 90 && is_illegal(str, str_len)) return -1;\n\n  if"))

A = "src/btc/address.c"
V0 = '''  buffer[0] = 0;
  size_t buf_size =
      fingera_to_base32_raw(%s, %s_size, buffer + 1) + 1;
  size_t result_size =
      fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
  if (out_size < result_size) return 0;

  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                        buf_size, out);
  return result_size;'''
ref("address-helper",
    (A, "size_t fingera_to_address_witnessv0_keyhash(", '''static size_t encode_witness(uint8_t version, const void *prog, size_t n,
                             char *out, size_t out_size,
                             const chain_parameters *param) {
  uint8_t digits[1 + (40 * 8 + 4) / 5];
  digits[0] = version;
  size_t count = 1 + fingera_to_base32_raw(prog, n, digits + 1);
  size_t need = fingera_bech32_encode_length(param->bech32_hrp_size, count);
  if (need > out_size) return 0;
  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, digits,
                        count, out);
  return need;
}

size_t fingera_to_address_witnessv0_keyhash('''),
    (A, "  uint8_t buffer[64];\n  assert(key_hash", "  assert(key_hash"),
    (A, "  uint8_t buffer[64];\n  assert(script_hash", "  assert(script_hash"),
    (A, V0 % ("key_hash", "key_hash"), "  return encode_witness(0, key_hash, key_hash_size, out, out_size, param);"),
    (A, V0 % ("script_hash", "script_hash"), "  return encode_witness(0, script_hash, script_hash_size, out, out_size, param);"),
    (A, re.compile(r"  uint8_t buffer\[128\];\n.*?return result_size;", re.S), '''  return encode_witness((uint8_t)version, (const char *)version_and_program + 1,
                        version_and_program_size - 1, out, out_size, param);'''))
ref("address-decode",
    (A, re.compile(r"  DECLARE_BUFFER\(char, buffer, str_len - 7\);.*?\n\}\n", re.S), '''  char digits[96];
  char hrp[16];
  size_t hrp_size = sizeof(hrp);
  if (str_len > 90) return BTC_BAD_ADDRESS;
  int n = fingera_bech32_decode(str, str_len, hrp, &hrp_size, digits);
  if (n < 1) return BTC_BAD_ADDRESS;
  if (hrp_size != param->bech32_hrp_size ||
      memcmp(hrp, param->bech32_hrp, hrp_size) != 0)
    return BTC_BAD_ADDRESS;
  size_t spare = (size_t)(n - 1) * 5 % 8;
  if (spare >= 5) return BTC_BAD_ADDRESS;
  if (digits[n - 1] & ((1 << spare) - 1)) return BTC_BAD_ADDRESS;
  size_t program = fingera_from_base32_raw_length(n - 1);
  if (*out_size < program) return BTC_BAD_ADDRESS;
  if (digits[0] == 0) {
    *out_size = fingera_from_base32_raw(digits + 1, n - 1, out);
    if (*out_size == BTC_WITNESSV0_KEYID_SIZE)
      return BTC_WITNESSV0_KEYHASH_ADDRESS;
    if (*out_size == BTC_WITNESSV0_SCRIPTID_SIZE)
      return BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
    return BTC_BAD_ADDRESS;
  }
  if (digits[0] > 16 || program < 2 || program > 40) return BTC_BAD_ADDRESS;
  uint8_t *o = (uint8_t *)out;
  o[0] = (uint8_t)digits[0];
  *out_size = 1 + fingera_from_base32_raw(digits + 1, n - 1, o + 1);
  return BTC_WITNESS_UNKNOWN_ADDRESS;
}
'''),
    (A, '''    if (size >= param->prefix_pubkey_address_size &&
        memcmp(out, param->prefix_pubkey_address,
               param->prefix_pubkey_address_size) == 0) {
      *out_size = size - param->prefix_pubkey_address_size;
      memmove(out, (char *)out + param->prefix_pubkey_address_size, *out_size);
      return BTC_PUBKEY_ADDRESS;
    } else if''', '''    const size_t n = param->prefix_pubkey_address_size;
    if (n <= size && !memcmp(param->prefix_pubkey_address, out, n)) {
      memmove(out, (const char *)out + n, size - n);
      *out_size = size - n;
      return BTC_PUBKEY_ADDRESS;
    }
    if'''))

K = "src/btc/key.c"
INTLEN = '''  lenbyte = input[pos++];
  if (lenbyte & 0x80) {
    lenbyte -= 0x80;
    if (lenbyte > inputlen - pos) {
      return 0;
    }
    while (lenbyte > 0 && input[pos] == 0) {
      pos++;
      lenbyte--;
    }
    assert(sizeof(size_t) >= 4 && "size_t too small");
    if (lenbyte >= 4) {
      return 0;
    }
    %slen = 0;
    while (lenbyte > 0) {
      %slen = (%slen << 8) + input[pos];
      pos++;
      lenbyte--;
    }
  } else {
    %slen = lenbyte;
  }
  if (%slen > inputlen - pos) {
    return 0;
  }'''
ref("key-der-helper",
    (K, "static int ecdsa_signature_parse_der_lax(", '''static int parse_int_len(const unsigned char* in, size_t n, size_t* at,
                         size_t* len) {
  size_t p = *at;
  if (p >= n) return 0;
  size_t b = in[p++];
  if (b < 0x80) {
    *len = b;
  } else {
    b &= 0x7F;
    if (n - p < b) return 0;
    for (; b > 0 && in[p] == 0; b--) p++;
    if (b > 3) return 0;
    size_t v = 0;
    for (; b > 0; b--) v = v * 256 + in[p++];
    *len = v;
  }
  *at = p;
  return *len <= n - p;
}
static int ecdsa_signature_parse_der_lax('''),
    (K, INTLEN % (("r",) * 5), "  if (!parse_int_len(input, inputlen, &pos, &rlen)) return 0;"),
    (K, INTLEN % (("s",) * 5), "  if (!parse_int_len(input, inputlen, &pos, &slen)) return 0;"),
    (K, '''  ptrdiff_t len = privkey[lenb - 1] | (lenb > 1 ? privkey[lenb - 2] << 8 : 0u);
  privkey += lenb;
  if (end - privkey < len) {
    return 0;
  }''', '''  ptrdiff_t len = 0;
  while (lenb-- > 0) len = len * 256 + *privkey++;
  if (len > end - privkey) return 0;'''))
ref("key-derive",
    (K, re.compile(r"  uint8_t out\[64\];\n  int ret = 1;\n  if \(\(child >> 31\) == 0\).*?  return ret;\n\}", re.S), '''  uint8_t out[64];
  int ret;
  if (child & 0x80000000u) {
    fingera_btc_bip32_hash(chain32, child, 0, key32, out);
  } else {
    secp256k1_pubkey pub;
    uint8_t enc[33];
    fingera_btc_key_get_pub(key32, &pub);
    if (!fingera_btc_pubkey_encode(&pub, enc, sizeof(enc))) return 0;
    fingera_btc_bip32_hash(chain32, child, enc[0], enc + 1, out);
  }
  memmove(out_chain32, out + 32, 32);
  memmove(out_key32, key32, 32);
  ret = secp256k1_ec_privkey_tweak_add(secp256k1_context_sign,
                                       (unsigned char*)out_key32, out);
  fingera_cleanse(out, sizeof(out));
  return ret;
}'''),
    (K, '''  if (is_compressed) {
    uint8_t buf33[33];
    memcpy(buf33, key32, 32);
    buf33[32] = 1;
    int r =
        fingera_to_base58_check(buf33, sizeof(buf33), param->prefix_secret_key,
                                param->prefix_secret_key_size, key_str);
    fingera_cleanse(buf33, sizeof(buf33));
    return r;
  }
  return fingera_to_base58_check(key32, 32, param->prefix_secret_key,
                                 param->prefix_secret_key_size, key_str);''', '''  uint8_t buf33[33];
  size_t n = is_compressed ? 33 : 32;
  buf33[32] = 1;
  memcpy(buf33, key32, 32);
  size_t r = fingera_to_base58_check(buf33, n, param->prefix_secret_key,
                                     param->prefix_secret_key_size, key_str);
  fingera_cleanse(buf33, sizeof(buf33));
  return r;'''),
    (K, '''  do {
    fingera_os_rand_bytes(key32, 32);
  } while (!secp256k1_ec_seckey_verify(secp256k1_context_sign, key32));''', '''  for (;;) {
    fingera_os_rand_bytes(key32, 32);
    if (_fingera_btc_key_is_valid(key32)) break;
  }'''),
    (K, "void fingera_btc_key_new(void* key32) {", "int _fingera_btc_key_is_valid(const void* key32);\nvoid fingera_btc_key_new(void* key32) {"),
    (K, '''  if (param->prefix_secret_key_size != pre_size) {
    if (param->prefix_secret_key_size != pre_size - 1) {
      return 0;
    }
    if (buf[size - 1] != 1) {
      return 0;
    }
    *is_compressed = 1;
  } else {
    *is_compressed = 0;
  }
  if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)
    return 0;
  if (!_fingera_btc_key_is_valid(buf + param->prefix_secret_key_size)) return 0;
  memcpy(key32, buf + param->prefix_secret_key_size, 32);
  return 1;''', '''  const size_t want = param->prefix_secret_key_size;
  int marked = pre_size == want + 1;
  if (!marked && pre_size != want) return 0;
  if (memcmp(buf, param->prefix_secret_key, want) != 0) return 0;
  if (marked && buf[size - 1] != 1) return 0;
  buf += want;
  if (!_fingera_btc_key_is_valid(buf)) return 0;
  *is_compressed = marked;
  memcpy(key32, buf, 32);
  return 1;'''))
ref("key-sign",
    (K, re.compile(r"  int ret = secp256k1_ecdsa_sign\(\n      secp256k1_context_sign, sig.*?  assert\(ret\);\n", re.S), '''  unsigned char extra[32];
  int ret;
  memset(extra, 0, sizeof(extra));
  for (uint32_t counter = 0;; ) {
    ret = secp256k1_ecdsa_sign(secp256k1_context_sign, sig,
                               (const unsigned char*)hash32,
                               (const unsigned char*)key32,
                               secp256k1_nonce_function_rfc6979,
                               counter ? extra : NULL);
    if (!ret || SigHasLowR(sig)) break;
    ++counter;
    write_little_32(extra, counter);
  }
  assert(ret);
'''),
    (K, '''  secp256k1_ecdsa_signature sig_normalized;
  memcpy(&sig_normalized, signatures64, sizeof(secp256k1_ecdsa_signature));
''', "  secp256k1_ecdsa_signature sig_normalized;\n"))

X = "src/btc/exkey.c"
ref("exkey",
    (X, '''  key->ext.depth = 0;
  key->ext.child = 0;
  key->ext.fingerprint = 0;
  memcpy(key->key, out, 32);
  memcpy(key->ext.chain_code, out + 32, 32);
''', '''  memset(&key->ext, 0, sizeof(key->ext));
  memcpy(key->ext.chain_code, out + 32, 32);
  memcpy(key->key, out, 32);
'''),
    (X, '''  if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                 derived->c_pubkey, derived->ext.chain_code,
                                 child))
    return 0;
  derived->ext.depth = pubkey->ext.depth + 1;
  derived->ext.child = child;
  derived->ext.fingerprint = fingerprint;
  return 1;''', '''  int ok = fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                     derived->c_pubkey,
                                     derived->ext.chain_code, child);
  if (ok) {
    derived->ext.fingerprint = fingerprint;
    derived->ext.child = child;
    derived->ext.depth = (uint8_t)(pubkey->ext.depth + 1);
  }
  return ok;'''),
    (X, '''  write_key_extension(&key->ext, extkey74);
  code[41] = 0;
  memcpy(code + 42, key->key, 32);''', '''  memcpy(code + 42, key->key, 32);
  code[41] = 0;
  write_key_extension(&key->ext, code);'''),
    (X, re.compile(r"  if \(size <= BIP32_EXTKEY_SIZE\) return 0;  // no prefix\n  size_t prefix_size = size - BIP32_EXTKEY_SIZE;\n  if \(prefix_size != param->prefix_ext_secret_key_size\) return 0;\n"),
     "  const size_t prefix_size = param->prefix_ext_secret_key_size;\n  if (prefix_size == 0 || size != prefix_size + BIP32_EXTKEY_SIZE) return 0;\n"),
    (X, '''  DECLARE_BUFFER(uint8_t, extkey, fingera_from_base58_check_length(str_len));
  size_t size = fingera_from_base58_check(str, str_len, extkey);
  int r = expubkey_from''', '''  size_t buf_size = fingera_from_base58_check_length(str_len);
  DECLARE_BUFFER(uint8_t, extkey, buf_size);
  size_t size = fingera_from_base58_check(str, str_len, extkey);
  int r = size && expubkey_from'''),
    (X, '''  memcpy(&pubkey->ext, &key->ext, sizeof(key->ext));
  uint8_t pub[64];
  fingera_btc_key_get_pub(key->key, pub);
''', '''  uint8_t pub[64];
  fingera_btc_key_get_pub(key->key, pub);
  pubkey->ext = key->ext;
'''))
ref("buffer-abort",
    ("include/fingera_libc/sl/buffer.h", "#define DECLARE_BUFFER(", '''static inline void *_fingera_buffer_alloc(size_t size) {
  void *p = malloc(size);
  if (!p) abort();
  return p;
}
#define DECLARE_BUFFER('''),
    ("include/fingera_libc/sl/buffer.h", "malloc(real_size);  ", "_fingera_buffer_alloc(real_size);  "),
    ("include/fingera_libc/sl/buffer.h", "#define DEFAULT_STACK_BUFFER 128", "#include <stdlib.h>\n#define DEFAULT_STACK_BUFFER 256"),
    (A, "DECLARE_BUFFER(char, buffer, str_len - 7);", "if (str_len < 8 || str_len > 90) return BTC_BAD_ADDRESS;\n  DECLARE_BUFFER(char, buffer, str_len - 7);"))
ref("buffer-heap",
    ("include/fingera_libc/sl/buffer.h", "#define DEFAULT_STACK_BUFFER 128", "#define DEFAULT_STACK_BUFFER 8"))
S1 = "src/hash/sha1.c"
ref("sha1-ripemd",
    (S1, '''  memset(last_chunk, 0, sizeof(last_chunk));
  memcpy(last_chunk, msg_buf, msg_len);
  last_chunk[msg_len] = 0x80;

  if (msg_len > 55) {
    sha1_transform(digest, last_chunk);
    memset(last_chunk, 0, 64);
  }
''', '''  memcpy(last_chunk, msg_buf, msg_len);
  last_chunk[msg_len++] = 0x80;
  memset(last_chunk + msg_len, 0, 64 - msg_len);
  if (msg_len > 56) {
    sha1_transform(digest, last_chunk);
    memset(last_chunk, 0, 56);
  }
'''),
    (S1, '''  while (msg_len >= 64) {
    sha1_transform(digest, msg_buf);
    msg_len -= 64;
    msg_buf += 64;
  }
''', '''  size_t blocks = msg_len / 64;
  for (size_t i = 0; i < blocks; i++, msg_buf += 64)
    sha1_transform(digest, msg_buf);
  msg_len %= 64;
'''),
    ("include/fingera_libc/endian.h", re.compile(r"static inline uint32_t read_big_32\(const void \*buf\) \{.*?\n\}", re.S), '''static inline uint32_t read_big_32(const void *buf) {
  const uint8_t *p = (const uint8_t *)buf;
  return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3];
}'''))

exec(open(HERE + "/tools/refactors_b.py").read())
exec(open(HERE + "/tools/refactors_c.py").read())


def apply(repo, name):
    for f, old, new in R[name]:
        p = repo + "/" + f
        s = open(p).read()
        if hasattr(old, "sub"):
            s2, n = old.subn(lambda m: new, s, count=1)
            assert n == 1, (name, f, old.pattern)
        else:
            assert s.count(old) >= 1, (name, f, old)
            s2 = s.replace(old, new, 1)
        open(p, "w").write(s2)


SCRIPT = r'''
mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif
bash /opt/vp/build.sh >$W/build.log 2>&1; echo "build=$?"
bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; echo "test=$?"
for c in $CHECKS; do
  cd /verif; timeout 900 python3 run_check.py $c --tier quick --scale $SCALE >$W/$c.log 2>&1; r=$?
  echo "check $c rc=$r"; [ $r = 0 ] || tail -c 1500 $W/$c.log
done
'''


SCALE = "1"


def one(name, checks):
    if checks is None:
        import mutate
        checks = sorted({c for e in R[name] for c in mutate.FILES[e[0]].split()} | {"C21", "C22", "C23"})
    W = "/tmp/refrun.%s" % name
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
    shutil.copytree(HERE, W + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence", "__pycache__", ".build"))
    apply(W + "/repo", name)
    env = dict(os.environ, W=W, CHECKS=" ".join(checks), SCALE=SCALE, VERIF_SEED="1", VERIF_TIER="quick")
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT], env=env, capture_output=True, text=True)
    ok = True
    t = {}
    try:
        base = json.load(open("/opt/vp/BASELINE.json"))
        t = json.load(open(W + "/t.json"))
        stable = base.get("stable") or base.get("stable_pass") or base.get("passed")
        ok = all(x in t["passed"] for x in stable)
    except Exception as e:
        ok = repr(e)
    bad = [l for l in p.stdout.splitlines() if l.startswith("check ") and not l.endswith("rc=0")]
    out = "%-18s build/test ok=%s alarms=%s\n" % (name, ok if "build=0" in p.stdout else "NOBUILD " + open(W + "/build.log").read()[-800:], bad)
    if bad:
        out += p.stdout + p.stderr
    shutil.rmtree(W, ignore_errors=True)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    jobs, checks = 2, None
    if "--jobs" in a:
        i = a.index("--jobs"); jobs = int(a[i + 1]); del a[i:i + 2]
    if "--scale" in a:
        i = a.index("--scale"); SCALE = a[i + 1]; del a[i:i + 2]
    if "--checks" in a:
        i = a.index("--checks"); checks = a[i + 1].split(","); del a[i:i + 2]
    if "--test" in a:   # only that every edit applies and compiles
        for n in R:
            shutil.rmtree("/tmp/refapply", ignore_errors=True)
            subprocess.check_call(["cp", "-a", "/repo", "/tmp/refapply"])
            apply("/tmp/refapply", n)
            r = 0
            for f in {e[0] for e in R[n]}:
                if f.endswith(".c"):
                    r |= subprocess.call(["gcc", "-O2", "-Wall", "-D_DEFAULT_SOURCE", "-I/tmp/refapply/include", "-c", "/tmp/refapply/" + f, "-o", "/dev/null"])
            print(n, "ok" if r == 0 else "COMPILE FAILED")
        shutil.rmtree("/tmp/refapply", ignore_errors=True)
        sys.exit()
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(one, n, checks) for n in (a or R)]):
            print(f.result(), flush=True)
