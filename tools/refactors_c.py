# More behaviour-preserving edits (development only; read by refactors.py).
ref("der-length-helper",
    (K, "static int ecdsa_signature_parse_der_lax(", '''static int der_integer_length(const unsigned char* input, size_t inputlen,
                              size_t* pos, size_t* out) {
  size_t n, value = 0;
  if (*pos == inputlen) return 0;
  n = input[(*pos)++];
  if (!(n & 0x80)) {
    *out = n;
    return 1;
  }
  n &= 0x7f;
  if (n > inputlen - *pos) return 0;
  for (; n > 0 && input[*pos] == 0; n--) (*pos)++;
  if (n >= 4) return 0;
  for (; n > 0; n--) value = value << 8 | input[(*pos)++];
  *out = value;
  return 1;
}

static int ecdsa_signature_parse_der_lax('''),
    (K, re.compile(r"  /\* Integer length for R \*/\n.*?  if \(rlen > inputlen - pos\)", re.S), "  if (!der_integer_length(input, inputlen, &pos, &rlen)) return 0;\n  if (rlen > inputlen - pos)"),
    (K, re.compile(r"  /\* Integer length for S \*/\n.*?  if \(slen > inputlen - pos\)", re.S), "  if (!der_integer_length(input, inputlen, &pos, &slen)) return 0;\n  if (slen > inputlen - pos)"))
ref("privkey-cursor",
    (K, re.compile(r"  const unsigned char\* end = privkey \+ privkeylen;\n  memset\(out32, 0, 32\);\n.*?\n}\n", re.S), '''  size_t left = privkeylen, n, body;
  memset(out32, 0, 32);
  if (left < 2 || privkey[0] != 0x30 || privkey[1] < 0x80) return 0;
  n = privkey[1] & 0x7f;
  privkey += 2;
  left -= 2;
  if (n == 0 || n > 2 || left < n) return 0;
  body = privkey[0];
  if (n == 2) body = body << 8 | privkey[1];
  privkey += n;
  left -= n;
  if (left < body || left < 3 || memcmp(privkey, "\\x02\\x01\\x01", 3) != 0) return 0;
  privkey += 3;
  left -= 3;
  if (left < 2 || privkey[0] != 4) return 0;
  n = privkey[1];
  privkey += 2;
  left -= 2;
  if (n > 32 || n > left) return 0;
  memcpy(out32 + 32 - n, privkey, n);
  if (secp256k1_ec_seckey_verify(ctx, out32)) return 1;
  fingera_cleanse(out32, 32);
  memset(out32, 0, 32);
  return 0;
}
'''))
ref("sign-do-while",
    (K, re.compile(r"  int ret = secp256k1_ecdsa_sign\(\n      secp256k1_context_sign, sig, .*?  assert\(ret\);\n", re.S), '''  unsigned char extra_entropy[32];
  uint32_t counter = 0;
  int ret;
  memset(extra_entropy, 0, sizeof(extra_entropy));
  do {
    write_little_32(extra_entropy, counter);
    ret = secp256k1_ecdsa_sign(secp256k1_context_sign, sig,
                               (const unsigned char*)hash32,
                               (const unsigned char*)key32,
                               secp256k1_nonce_function_rfc6979,
                               counter == 0 ? NULL : extra_entropy);
    counter++;
  } while (ret && !SigHasLowR(sig));
  assert(ret);
  (void)ret;
'''))
ref("derive-order",
    (K, re.compile(r"  uint8_t out\[64\];\n  int ret = 1;\n.*?  fingera_cleanse\(out, sizeof\(out\)\);\n  return ret;\n", re.S), '''  const int hardened = (child & 0x80000000u) != 0;
  uint8_t data[33];
  uint8_t out[64];
  int ret = 0;
  if (hardened) {
    data[0] = 0;
    memcpy(data + 1, key32, 32);
  } else {
    uint8_t pubkey64[64];
    fingera_btc_key_get_pub(key32, pubkey64);
    int r = fingera_btc_pubkey_encode(pubkey64, data, sizeof(data));
    fingera_cleanse(pubkey64, sizeof(pubkey64));
    if (!r) goto done;
  }
  fingera_btc_bip32_hash(chain32, child, data[0], data + 1, out);
  memcpy(out_chain32, out + 32, 32);
  memcpy(out_key32, key32, 32);
  ret = secp256k1_ec_privkey_tweak_add(secp256k1_context_sign,
                                       (unsigned char*)out_key32, out);
done:
  fingera_cleanse(data, sizeof(data));
  fingera_cleanse(out, sizeof(out));
  return ret;
'''))
ref("exkey-struct-copy",
    ("src/btc/exkey.c", "  memcpy(&pubkey->ext, &key->ext, sizeof(key->ext));\n  uint8_t pub[64];\n", "  uint8_t pub[64];\n  pubkey->ext = key->ext;\n"),
    ("src/btc/exkey.c", "  int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,\n                                 derived->ext.chain_code, child);\n  if (r) {\n    derived->ext.fingerprint = fingerprint;\n    derived->ext.depth = key->ext.depth + 1;\n    derived->ext.child = child;\n  }\n  return r;", "  const uint8_t depth = key->ext.depth;\n  if (!fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,\n                              derived->ext.chain_code, child)) {\n    return 0;\n  }\n  set_extension(&derived->ext, depth + 1, child, fingerprint);\n  return 1;"),
    ("src/btc/exkey.c", "int fingera_exkey_derive(", "static void set_extension(fingera_ex_extension *ext, int depth, uint32_t child,\n                          uint32_t fingerprint) {\n  ext->depth = (uint8_t)depth;\n  ext->child = child;\n  ext->fingerprint = fingerprint;\n}\n\nint fingera_exkey_derive("),
    ("src/btc/exkey.c", "  derived->ext.depth = pubkey->ext.depth + 1;\n  derived->ext.child = child;\n  derived->ext.fingerprint = fingerprint;\n  return 1;", "  set_extension(&derived->ext, pubkey->ext.depth + 1, child, fingerprint);\n  return 1;"))
ref("exkey-init-halves",
    ("src/btc/exkey.c", "  static const unsigned char hashkey[] = {'B', 'i', 't', 'c', 'o', 'i',\n                                          'n', ' ', 's', 'e', 'e', 'd'};\n  uint8_t out[64];\n  fingera_hmac_sha512(hashkey, sizeof(hashkey), seed, len, out);\n\n  key->ext.depth = 0;\n  key->ext.child = 0;\n  key->ext.fingerprint = 0;\n  memcpy(key->key, out, 32);\n  memcpy(key->ext.chain_code, out + 32, 32);\n  fingera_cleanse(out, sizeof(out));", '''  static const char hashkey[] = "Bitcoin seed";
  struct {
    uint8_t key[32];
    uint8_t chain[32];
  } halves;
  fingera_hmac_sha512(hashkey, sizeof(hashkey) - 1, seed, len, &halves);
  memset(&key->ext, 0, sizeof(key->ext));
  memcpy(key->key, halves.key, sizeof(halves.key));
  memcpy(key->ext.chain_code, halves.chain, sizeof(halves.chain));
  fingera_cleanse(&halves, sizeof(halves));'''))
ref("random-for",
    ("src/random.c", '''  while (buf_size != 0) {
    int r = read(fd, buf, buf_size);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", r);
    }
    buf = (char *)buf + r;
    buf_size -= (size_t)r;
  }
''', '''  uint8_t *p = (uint8_t *)buf;
  for (size_t done = 0; done < buf_size;) {
    ssize_t r = read(fd, p + done, buf_size - done);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", (int)r);
    }
    done += (size_t)r;
  }
'''), ("src/random.c", "#include <fcntl.h>\n", "#include <fcntl.h>\n#include <stdint.h>\n"))
ref("fatal-vsnprintf",
    ("src/error.c", re.compile(r'  fprintf\(stderr, "FATAL "\);\n.*?  fprintf\(stderr, " \(%s\)\(%s:%ld\)\\n", func, file, line\);\n', re.S), '''  va_list args;
  flockfile(stderr);
  fputs("FATAL ", stderr);
  va_start(args, msg);
  vfprintf(stderr, msg, args);
  va_end(args);
  fputs(" (", stderr);
  fputs(func, stderr);
  fprintf(stderr, ")(%s:%ld)\\n", file, line);
'''),
    ("src/error.c", '    fprintf(stderr, "\\t%s(%d)\\n", strerror(err), err);\n  }\n#ifdef WIN32\n  if', '    fprintf(stderr, "\\t%s(%d)\\n", strerror(err), err);\n  }\n  funlockfile(stderr);\n#ifdef WIN32\n  if'))
ref("witness-helper",
    ("src/btc/address.c", "size_t fingera_to_address_witnessv0_keyhash(", '''static size_t witness_address(int version, const uint8_t *program, size_t size,
                              char *out, size_t out_size,
                              const chain_parameters *param) {
  uint8_t digits[65];
  size_t n = 0, length;
  digits[n++] = (uint8_t)version;
  n += fingera_to_base32_raw(program, size, digits + n);
  length = fingera_bech32_encode_length(param->bech32_hrp_size, n);
  if (length > out_size) return 0;
  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, digits, n,
                        out);
  return length;
}

size_t fingera_to_address_witnessv0_keyhash('''),
    ("src/btc/address.c", re.compile(r"  uint8_t buffer\[64\];\n  assert\(key_hash_size == BTC_WITNESSV0_KEYID_SIZE\);\n.*?\n}\n", re.S), "  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);\n  if (key_hash_size != BTC_WITNESSV0_KEYID_SIZE) return 0;\n  return witness_address(0, (const uint8_t *)key_hash, key_hash_size, out,\n                         out_size, param);\n}\n"),
    ("src/btc/address.c", re.compile(r"  uint8_t buffer\[64\];\n  assert\(script_hash_size == BTC_WITNESSV0_SCRIPTID_SIZE\);\n.*?\n}\n", re.S), "  assert(script_hash_size == BTC_WITNESSV0_SCRIPTID_SIZE);\n  if (script_hash_size != BTC_WITNESSV0_SCRIPTID_SIZE) return 0;\n  return witness_address(0, (const uint8_t *)script_hash, script_hash_size, out,\n                         out_size, param);\n}\n"),
    ("src/btc/address.c", re.compile(r"  int version = \*\(uint8_t \*\)version_and_program;\n.*?\n}\n", re.S), "  const uint8_t *vp = (const uint8_t *)version_and_program;\n  if (vp[0] == 0 || vp[0] > 16) return 0;\n  return witness_address(vp[0], vp + 1, version_and_program_size - 1, out,\n                         out_size, param);\n}\n"))
ref("address-switch",
    ("src/btc/address.c", re.compile(r"      if \(\*out_size == BTC_WITNESSV0_KEYID_SIZE\) \{\n.*?        return BTC_BAD_ADDRESS;\n      \}\n", re.S), '''      FREE_BUFFER(buffer);
      switch (*out_size) {
        case 20:
          return BTC_WITNESSV0_KEYHASH_ADDRESS;
        case 32:
          return BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
        default:
          return BTC_BAD_ADDRESS;
      }
'''))
SHA2 = "src/hash/sha2.c"
ref("sha-output-loop",
    (SHA2, re.compile(r"(  sha256_final\(digest, msg, msg_len, 0\);\n\n)(?:  out\[\d\] = htobe32\(digest\[\d\]\);\n){8}"), "  sha256_final(digest, msg, msg_len, 0);\n\n  for (int i = 0; i < 8; i++) write_big_32((uint8_t *)out + 4 * i, digest[i]);\n"),
    (SHA2, re.compile(r"(  sha512_final\(digest, msg, msg_len, 0\);\n\n)(?:  out\[\d\] = htobe64\(digest\[\d\]\);\n){8}"), "  sha512_final(digest, msg, msg_len, 0);\n\n  for (int i = 7; i >= 0; i--) {\n    uint64_t w = htobe64(digest[i]);\n    memcpy(&out[i], &w, 8);\n  }\n"))
ref("sha512-tail-loop",
    (SHA2, re.compile(r"  uint8_t last_chunk\[128\];\n.*?\n}\n", re.S), '''  uint8_t tail[256];
  const uint8_t *p = (const uint8_t *)msg;
  const size_t rest = msg_len % 128;
  const size_t padded = rest < 112 ? 128 : 256;
  const uint8_t *const whole = p + (msg_len - rest);
  const uint64_t bits = (uint64_t)(msg_len + append_size) * 8;
  for (; p != whole; p += 128) sha512_transform(digest, p);
  memset(tail, 0, sizeof(tail));
  memcpy(tail, p, rest);
  tail[rest] = 0x80;
  write_big_32(tail + padded - 8, (uint32_t)(bits >> 32));
  write_big_32(tail + padded - 4, (uint32_t)bits);
  for (size_t at = 0; at < padded; at += 128) sha512_transform(digest, tail + at);
  fingera_cleanse(tail, sizeof(tail));
}
'''))
ref("sha1-array",
    ("src/hash/sha1.c", re.compile(r"static void sha1_transform\(.*?\n}\n", re.S), '''static void sha1_transform(uint32_t *s, const void *chunk) {
  uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
  uint32_t w[16];
  for (int t = 0; t < 80; t++) {
    uint32_t f, k, x;
    if (t < 16) {
      x = w[t] = be32(chunk, 4 * t);
    } else {
      x = w[t & 15] = left(w[(t + 13) & 15] ^ w[(t + 8) & 15] ^
                           w[(t + 2) & 15] ^ w[t & 15]);
    }
    if (t < 20) {
      f = F1(b, c, d), k = 0x5A827999ul;
    } else if (t < 40) {
      f = F2(b, c, d), k = 0x6ED9EBA1ul;
    } else if (t < 60) {
      f = F3(b, c, d), k = 0x8F1BBCDCul;
    } else {
      f = F2(b, c, d), k = 0xCA62C1D6ul;
    }
    x += ROL(a, 5) + f + e + k;
    e = d;
    d = c;
    c = ROL(b, 30);
    b = a;
    a = x;
  }
  s[0] += a;
  s[1] += b;
  s[2] += c;
  s[3] += d;
  s[4] += e;
}
'''), ("src/hash/sha1.c", re.compile(r"#define ROUND.*?30\);\n", re.S), ""))
ref("bip32-bytes",
    ("src/btc/hash.c", re.compile(r"  char buffer\[1 \+ 32 \+ 4\];\n.*?  write_big_32\(ptr, child\);\n", re.S), '''  uint8_t buffer[37];
  buffer[0] = header;
  memcpy(buffer + 1, data32, 32);
  for (int i = 0; i < 4; i++) buffer[33 + i] = (uint8_t)(child >> (24 - 8 * i));
'''))
ref("b58check-memcpy-order",
    ("src/btc/base58_check.c", '''  memcpy(buffer, prefix, prefix_size);
  memcpy(buffer + prefix_size, buf, buf_size);
  fingera_btc_hash256(buffer, size_of_data, hash);
  memcpy(buffer + size_of_data, hash, 4);
''', '''  char *end = buffer;
  if (prefix_size != 0) memcpy(end, prefix, prefix_size);
  end += prefix_size;
  if (buf_size != 0) memcpy(end, buf, buf_size);
  end += buf_size;
  fingera_btc_hash256(buffer, (size_t)(end - buffer), hash);
  for (int i = 0; i < 4; i++) *end++ = hash[i];
'''))
ref("cleanse-volatile",
    ("src/cleanse.c", "  memset(mem, 0xCC, size);\n", "  volatile unsigned char *p = (volatile unsigned char *)mem;\n  for (size_t i = 0; i < size; i++) p[i] = 0xCC;\n"))
ref("polymod-bits",
    ("src/btc/bech32.c", "  return ((c & 0x1ffffff) << 5) ^ BECH32_POLY_TABLE[c >> 25] ^ value;", '''  static const uint32_t gen[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa,
                                  0x3d4233dd, 0x2a1462b3};
  uint32_t top = c >> 25;
  c = ((c & 0x1ffffff) << 5) ^ value;
  for (int i = 0; i < 5; i++) {
    if (top >> i & 1) c ^= gen[i];
  }
  return c;'''),
    ("src/btc/bech32.c", re.compile(r"static const uint32_t BECH32_POLY_TABLE.*?};\n", re.S), ""))
ref("bech32-shared-sum",
    ("src/btc/bech32.c", re.compile(r"static void create_checksum\(.*?  return mod == 1 \? 1 : 0;\n}\n", re.S), '''static uint32_t sum_of(const char *hrp, size_t hrp_len, const uint8_t *b32,
                       size_t b32_size, const uint8_t *last) {
  uint32_t mod = 1;
  size_t i;
  for (i = 0; i < hrp_len; i++) mod = poly_mod((uint8_t)hrp[i] >> 5, mod);
  mod = poly_mod(0, mod);
  for (i = 0; i < hrp_len; i++) mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);
  for (i = 0; i < b32_size; i++) mod = poly_mod(b32[i], mod);
  for (i = 0; i < 6; i++) mod = poly_mod(last ? last[i] : 0, mod);
  return mod ^ 1;
}

static void create_checksum(const char *hrp, size_t hrp_len, const uint8_t *b32,
                            size_t b32_size, uint8_t checksum[6]) {
  uint32_t mod = sum_of(hrp, hrp_len, b32, b32_size, NULL);
  for (int i = 5; i >= 0; i--, mod >>= 5) checksum[i] = mod & 31;
}

static int verify_checksum(const char *hrp, size_t hrp_len, const uint8_t *b32,
                           size_t b32_size, uint8_t checksum[6]) {
  return sum_of(hrp, hrp_len, b32, b32_size, checksum) == 0;
}
'''))
ref("verify-local",
    (K, "  secp256k1_ecdsa_signature sig_normalized;\n  memcpy(&sig_normalized, signatures64, sizeof(secp256k1_ecdsa_signature));\n", "  secp256k1_ecdsa_signature sig_normalized;\n"))
ref("keyid-buffers",
    (K, '''  uint8_t keyid[20];
  fingera_btc_key_keyid(key32, compress, keyid);
  return read_little_32(keyid);''', '''  union {
    uint8_t id[20];
    uint8_t first[4];
  } u;
  fingera_btc_key_keyid(key32, compress, u.id);
  return (uint32_t)u.first[0] | (uint32_t)u.first[1] << 8 |
         (uint32_t)u.first[2] << 16 | (uint32_t)u.first[3] << 24;'''))
ref("hex-shift",
    ("src/hex.c", "    high = HEX_MAP[(unsigned char)str[i]];\n    low = HEX_MAP[(unsigned char)str[i + 1]];\n    if (high == 0xFF || low == 0xFF) break;\n    *out++ = (high << 4) | low;", "    high = HEX_MAP[(unsigned char)str[i]];\n    if (high > 15) break;\n    low = HEX_MAP[(unsigned char)str[i + 1]];\n    if (low > 15) break;\n    *out++ = (unsigned char)(high * 16 + low);"))
ref("base64-accumulate",
    ("src/base64.c", re.compile(r"  for \(size_t i = 0; i < loop_size; i \+= 3\) \{\n.*?    input \+= 3;\n  \}\n", re.S), '''  const uint8_t *const whole = input + loop_size;
  for (; input != whole; input += 3) {
    uint32_t v = (uint32_t)input[0] << 16 | (uint32_t)input[1] << 8 | input[2];
    for (int shift = 18; shift >= 0; shift -= 6) *out++ = encode_str[v >> shift & 63];
  }
'''))
ref("varint-recursive",
    ("src/compress_integer.c", re.compile(r"  uint8_t tmp\[10\];\n.*?  return out - \(uint8_t \*\)buf;\n}\n\nsize_t fingera_decode_varint", re.S), '''  uint8_t *out = (uint8_t *)buf;
  size_t len = 1;
  for (uint64_t v = value; v > 0x7F; v = (v >> 7) - 1) len++;
  for (size_t i = len; i-- > 0;) {
    out[i] = (uint8_t)((value & 0x7F) | (i + 1 < len ? 0x80 : 0));
    value = (value >> 7) - 1;
  }
  return len;
}

size_t fingera_decode_varint'''))
ref("base58-size-ceil",
    (B58, "  size_t size = (end - begin) * 138 / 100 + 1;\n", "  size_t size = (size_t)(end - begin) * 7 / 5 + 2;\n"),
    (B58, "  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;\n", "  size_t size = (size_t)(str_end - str) + 1;\n"))
ref("base58-strchr-free",
    (B58, "  fingera_cleanse(b256, size);\n  FREE_BUFFER(b256);\n  return zeroes;\n}", "  size_t written = zeroes;\n  zeroes = 0;\n  fingera_cleanse(b256, size);\n  FREE_BUFFER(b256);\n  return written;\n}"))
ref("buffer-256",
    ("include/fingera_libc/sl/buffer.h", "#define DEFAULT_STACK_BUFFER 128", "#define DEFAULT_STACK_BUFFER 512"),
    ("include/fingera_libc/sl/buffer.h", "    name = (type *)malloc(real_size);              \\\n", "    name = (type *)calloc(1, real_size);           \\\n"))
ref("buffer-48",
    ("include/fingera_libc/sl/buffer.h", "#define DEFAULT_STACK_BUFFER 128", "#define DEFAULT_STACK_BUFFER 48"))
