# More behaviour-preserving edits (development only; read by refactors.py).
ref("random-chunks",
    ("src/random.c", '''  while (buf_size != 0) {
    int r = read(fd, buf, buf_size);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", r);
    }
    buf = (char *)buf + r;
    buf_size -= (size_t)r;
  }
  close(fd);''', '''  char *out = (char *)buf;
  char *const end = out + buf_size;
  while (out < end) {
    size_t want = (size_t)(end - out);
    if (want > 256) want = 256;
    ssize_t got = read(fd, out, want);
    if (got == 0) FINGERA_FATAL("read /dev/urandom: end of file");
    if (got < 0) FINGERA_FATAL("read /dev/urandom %d", (int)got);
    out += got;
  }
  close(fd);'''))
ref("random-bounce",
    ("src/random.c", '''  while (buf_size != 0) {
    int r = read(fd, buf, buf_size);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", r);
    }
    buf = (char *)buf + r;
    buf_size -= (size_t)r;
  }
''', '''  unsigned char block[128];
  unsigned char *out = (unsigned char *)buf;
  while (buf_size != 0) {
    int r = read(fd, block, buf_size < sizeof(block) ? buf_size : sizeof(block));
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", r);
    }
    memcpy(out, block, (size_t)r);
    out += r;
    buf_size -= (size_t)r;
  }
  fingera_cleanse(block, sizeof(block));
'''),
    ("src/random.c", "#include <fingera_libc/random.h>", "#include <fingera_libc/cleanse.h>\n#include <fingera_libc/random.h>\n#include <string.h>"))
ref("wif-one-function",
    (K, re.compile(r"static int key_from_payload\(.*?\n\}\n", re.S), ""),
    (K, '''  size_t size = fingera_from_base58_check(key_str, str_len, buf);
  int r = key_from_payload(buf, size, key32, is_compressed, param);
''', '''  const size_t prefix = param->prefix_secret_key_size;
  int r = 0, mark = 0;
  assert(prefix <= 8);
  size_t size = fingera_from_base58_check(key_str, str_len, buf);
  if (prefix == 0 && size < 33) goto out;
  if (size == prefix + 33) {
    if (buf[prefix + 32] != 1) goto out;
    mark = 1;
  } else if (size != prefix + 32) {
    goto out;
  }
  if (memcmp(buf, param->prefix_secret_key, prefix) != 0) goto out;
  if (!secp256k1_ec_seckey_verify(secp256k1_context_sign, buf + prefix)) goto out;
  for (int i = 0; i < 32; i++) ((uint8_t*)key32)[i] = buf[prefix + i];
  *is_compressed = mark;
  r = 1;
out:
'''))
HS = "src/hash/sha2.c"
ref("hmac-inplace-pad",
    (HS, re.compile(r"  uint64_t buffer\[16\];\n  uint64_t key_inner\[16\];\n  uint64_t key_outter\[16\];\n", re.S), "  uint64_t buffer[16];\n"),
    (HS, re.compile(r"  for \(i = 0; i < 16; i\+\+\) \{\n    key_inner.*?\n  \}\n\n  sha512_transform\(digest_inner, key_inner\);", re.S), '''  for (i = 0; i < 16; i++) {
    buffer[i] ^= _36;
  }
  sha512_transform(digest_inner, buffer);'''),
    (HS, "  sha512_transform(digest_outter, key_outter);", '''  for (i = 0; i < 16; i++) {
    buffer[i] ^= _36 ^ _5C;
  }
  sha512_transform(digest_outter, buffer);'''),
    (HS, re.compile(r"(out\[i\] = htobe64\(digest_outter\[i\]\);\n  \}\n  fingera_cleanse\(buffer, sizeof\(buffer\)\);\n)  fingera_cleanse\(key_inner, sizeof\(key_inner\)\);\n  fingera_cleanse\(key_outter, sizeof\(key_outter\)\);\n"),
     '''out[i] = htobe64(digest_outter[i]);
  }
  fingera_cleanse(buffer, sizeof(buffer));
'''))
ref("hmac-bytes-helper",
    (HS, "void fingera_hmac_sha256(const void *key", '''static void hmac_pad(uint8_t *dst, const void *key, size_t len, size_t block,
                     uint8_t with) {
  const uint8_t *k = (const uint8_t *)key;
  for (size_t i = 0; i < block; i++) dst[i] = (uint8_t)((i < len ? k[i] : 0) ^ with);
}

void fingera_hmac_sha256(const void *key'''),
    (HS, '''  if (key_len <= 64) {
    memcpy(buffer, key, key_len);
    memset((char *)buffer + key_len, 0, 64 - key_len);
  } else {
    fingera_sha2_256(key, key_len, buffer);
    memset((char *)buffer + 32, 0, 32);
  }
  for (i = 0; i < 8; i++) {
    key_inner[i] = buffer[i] ^ _36;
    key_outter[i] = buffer[i] ^ _5C;
  }
''', '''  if (key_len > 64) {
    fingera_sha2_256(key, key_len, buffer);
    key = buffer;
    key_len = 32;
  }
  hmac_pad((uint8_t *)key_inner, key, key_len, 64, 0x36);
  hmac_pad((uint8_t *)key_outter, key, key_len, 64, 0x5C);
'''))
ref("sha256-tail-loop",
    (HS, '''  while (msg_len >= 64) {
    sha256_transform(digest, msg_buf);
    msg_len -= 64;
    msg_buf += 64;
  }
  memset(last_chunk, 0, sizeof(last_chunk));
  memcpy(last_chunk, msg_buf, msg_len);
  last_chunk[msg_len] = 0x80;
''', '''  for (size_t blocks = msg_len / 64; blocks > 0; blocks--, msg_buf += 64) {
    sha256_transform(digest, msg_buf);
  }
  msg_len &= 63;
  for (size_t i = 0; i < 64; i++) {
    last_chunk[i] = i < msg_len ? msg_buf[i] : i == msg_len ? 0x80 : 0;
  }
'''))
ref("b58check-scratch",
    ("src/btc/base58_check.c", re.compile(r"size_t fingera_from_base58_check\(.*\n\}", re.S), '''static int checksum_ok(const uint8_t *data, size_t size) {
  uint8_t hash[32];
  int diff = 0;
  fingera_btc_hash256(data, size, hash);
  for (int i = 0; i < 4; i++) diff |= hash[i] ^ data[size + i];
  return diff == 0;
}

size_t fingera_from_base58_check(const char *str, size_t str_len, void *buf) {
  size_t n = fingera_from_base58(str, str_len, buf);
  if (n >= 4 && checksum_ok((const uint8_t *)buf, n - 4)) return n - 4;
  return 0;
}
'''),
    ("src/btc/base58_check.c", '''  memcpy(buffer, prefix, prefix_size);
  memcpy(buffer + prefix_size, buf, buf_size);
''', '''  memcpy(buffer + prefix_size, buf, buf_size);
  memcpy(buffer, prefix, prefix_size);
'''))
ref("exkey-payload-order",
    (X, re.compile(r"  if \(memcmp\(extkey, param->prefix_ext_secret_key, prefix_size\) != 0\) return 0;\n.*?  return 1;\n\}", re.S), '''  const uint8_t *code = extkey + prefix_size;
  int ok = memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0 &&
           code[41] == 0 && _fingera_btc_key_is_valid(code + 42);
  if (ok) fingera_exkey_decode(code, key);
  return ok;
}'''),
    (X, '''  ext->depth = code[0];
  ext->fingerprint = read_little_32(code + 1);
  ext->child = read_big_32(code + 5);
  memcpy(ext->chain_code, code + 9, 32);
''', '''  ext->depth = *code++;
  ext->fingerprint = read_little_32(code);
  code += 4;
  ext->child = be32(code, 0);
  code += 4;
  memcpy(ext->chain_code, code, sizeof(ext->chain_code));
'''),
    (X, "void fingera_exkey_init(", '''static void split64(const uint8_t *i64, uint8_t *left, uint8_t *right) {
  memcpy(left, i64, 32);
  memcpy(right, i64 + 32, 32);
}

void fingera_exkey_init('''),
    (X, '''  memcpy(key->key, out, 32);
  memcpy(key->ext.chain_code, out + 32, 32);
''', '''  split64(out, key->key, key->ext.chain_code);
'''))
ref("key-encode-pieces",
    (K, '''    unsigned char* ptr = privkey;
    memcpy(ptr, begin, sizeof(begin));
    ptr += sizeof(begin);
    memcpy(ptr, key32, 32);
    ptr += 32;
    memcpy(ptr, middle, sizeof(middle));
    ptr += sizeof(middle);
    pubkeylen = BTC_COMPRESSED_PUBLIC_KEY_SIZE;''', '''    size_t at = sizeof(begin) + 32 + sizeof(middle);
    unsigned char* ptr = privkey + at;
    memcpy(privkey + sizeof(begin) + 32, middle, sizeof(middle));
    memcpy(privkey + sizeof(begin), key32, 32);
    memcpy(privkey, begin, sizeof(begin));
    pubkeylen = BTC_COMPRESSED_PUBLIC_KEY_SIZE;'''))
ref("pub-derive-once",
    (K, '''  if (!fingera_btc_pubkey_decode(encoded_pubkey33, 33, &pubkey)) return 0;
  fingera_btc_bip32_hash(chain32, child, pubkey33[0], pubkey33 + 1, out);
  memcpy(out_chain32, out + 32, 32);
  if (!secp256k1_ec_pubkey_parse(secp256k1_context_verify, &pubkey,
                                 (const unsigned char*)encoded_pubkey33, 33))
    return 0;
  if (!secp256k1_ec_pubkey_tweak_add(secp256k1_context_verify, &pubkey, out))
    return 0;
  if (!fingera_btc_pubkey_encode(&pubkey, out_pubkey33, 33)) return 0;
  return 1;''', '''  int ok = fingera_btc_pubkey_decode(pubkey33, 33, &pubkey);
  if (ok) {
    fingera_btc_bip32_hash(chain32, child, pubkey33[0], pubkey33 + 1, out);
    ok = secp256k1_ec_pubkey_tweak_add(secp256k1_context_verify, &pubkey, out);
  }
  if (ok) ok = fingera_btc_pubkey_encode(&pubkey, out_pubkey33, 33);
  if (ok) memcpy(out_chain32, out + 32, 32);
  return ok;'''))
ref("context-order",
    (K, '''  assert(secp256k1_context_verify == NULL);
  secp256k1_context_verify = secp256k1_context_create(SECP256K1_CONTEXT_VERIFY);
  assert(secp256k1_context_sign == NULL);
  secp256k1_context_sign = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
  fingera_os_rand_bytes(rand_buffer, sizeof(rand_buffer));
  int r =''', '''  fingera_os_rand_bytes(rand_buffer, sizeof(rand_buffer));
  assert(secp256k1_context_sign == NULL);
  secp256k1_context_sign = secp256k1_context_create(SECP256K1_CONTEXT_SIGN |
                                                    SECP256K1_CONTEXT_VERIFY);
  assert(secp256k1_context_verify == NULL);
  secp256k1_context_verify = secp256k1_context_clone(secp256k1_context_sign);
  int r ='''),
    (K, '''  assert(secp256k1_context_sign != NULL);
  secp256k1_context_destroy(secp256k1_context_sign);
  secp256k1_context_sign = NULL;
  assert(secp256k1_context_verify != NULL);
  secp256k1_context_destroy(secp256k1_context_verify);
  secp256k1_context_verify = NULL;''', '''  secp256k1_context **all[2] = {&secp256k1_context_verify,
                                &secp256k1_context_sign};
  for (int i = 0; i < 2; i++) {
    assert(*all[i] != NULL);
    secp256k1_context_destroy(*all[i]);
    *all[i] = NULL;
  }'''))
ref("keyid-local",
    (K, '''  uint8_t pubkey[64];
  fingera_btc_key_get_pub(key32, pubkey);
  fingera_btc_pubkey_keyid(pubkey, compress, keyid20);''', '''  secp256k1_pubkey pubkey;
  uint8_t id[20];
  fingera_btc_key_get_pub(key32, &pubkey);
  fingera_btc_pubkey_keyid(&pubkey, compress, id);
  memcpy(keyid20, id, sizeof(id));'''),
    (K, '''  size_t encoded_len =
      compress ? BTC_COMPRESSED_PUBLIC_KEY_SIZE : BTC_PUBLIC_KEY_SIZE;
  uint8_t encoded_pubkey[BTC_PUBLIC_KEY_SIZE];''', '''  size_t encoded_len = BTC_PUBLIC_KEY_SIZE;
  if (compress) encoded_len = BTC_COMPRESSED_PUBLIC_KEY_SIZE;
  uint8_t encoded_pubkey[BTC_PUBLIC_KEY_SIZE] = {0};'''))
ref("varint-count",
    ("src/compress_integer.c", re.compile(r"size_t fingera_encode_varint\(.*?\n\}", re.S), '''size_t fingera_encode_varint(uint64_t value, void *buf) {
  uint8_t *out = (uint8_t *)buf;
  size_t len = 1;
  for (uint64_t v = value; v > 0x7F; v = (v >> 7) - 1) len++;
  for (size_t i = len; i-- > 0;) {
    out[i] = (uint8_t)((value & 0x7F) | (i + 1 == len ? 0 : 0x80));
    value = (value >> 7) - 1;
  }
  return len;
}'''))
ref("bech32-one-pass",
    ("src/btc/bech32.c", '''  const char *pos = NULL;
  for (size_t i = 0; i < str_len; i++) {
    if (str[i] == '1') pos = str + i;
  }
''', '''  const char *pos = NULL;
  for (const char *p = str + str_len; p != str && !pos;) {
    if (*--p == '1') pos = p;
  }
'''),
    ("src/btc/bech32.c", "if (is_illegal(str, str_len)) return -1;", "if (str_len > 90 || str_len < 8 || is_illegal(str, str_len)) return -1;"),
    ("src/btc/bech32.c", "    hrp[i] = str[i] >= 'A' && str[i] <= 'Z' ? str[i] - 'A' + 'a' : str[i];", "    char c = str[i];\n    if (c >= 'A' && c <= 'Z') c += 'a' - 'A';\n    hrp[i] = c;"))
ref("address-goto",
    (A, "  uint8_t buffer[64];\n  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);", "  uint8_t buffer[1 + 52];\n  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);"),
    (A, re.compile(r"  if \(\*out_size >= fingera_from_base32_raw_length\(bech32_size - 1\)\) \{.*?\n  FREE_BUFFER\(buffer\);\n  return BTC_BAD_ADDRESS;\n\}", re.S), '''  fingera_btc_address kind = BTC_BAD_ADDRESS;
  size_t program = fingera_from_base32_raw_length(bech32_size - 1);
  if (*out_size < program) goto done;
  if (buffer[0] == 0) {
    *out_size = fingera_from_base32_raw(buffer + 1, bech32_size - 1, out);
    if (*out_size == BTC_WITNESSV0_KEYID_SIZE) kind = BTC_WITNESSV0_KEYHASH_ADDRESS;
    if (*out_size == BTC_WITNESSV0_SCRIPTID_SIZE) kind = BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
  } else if (buffer[0] <= 16 && program >= 2 && program <= 40) {
    *(uint8_t *)out = (uint8_t)buffer[0];
    *out_size = 1 + fingera_from_base32_raw(buffer + 1, bech32_size - 1,
                                            (char *)out + 1);
    kind = BTC_WITNESS_UNKNOWN_ADDRESS;
  }
done:
  FREE_BUFFER(buffer);
  return kind;
}'''))
ref("fatal-lines",
    ("src/error.c", '''  fprintf(stderr, "FATAL ");
''', '''  fputs("FATAL", stderr);
  fputc(' ', stderr);
'''),
    ("src/error.c", '''  if (err != 0) {
    fprintf(stderr, "\\t%s(%d)\\n", strerror(err), err);
  }''', '''  if (err) {
    const char *text = strerror(err);
    fprintf(stderr, "\\t%s", text);
    fprintf(stderr, "(%d)\\n", err);
  }'''),
    ("src/error.c", "  exit(-1);", "  exit(EXIT_FAILURE);"))
ref("endian-bytes",
    ("include/fingera_libc/endian.h", re.compile(r"static inline void write_big_32\(void \*buf, uint32_t value\) \{.*?\n\}", re.S), '''static inline void write_big_32(void *buf, uint32_t value) {
  uint8_t *p = (uint8_t *)buf;
  for (int i = 3; i >= 0; i--, value >>= 8) p[i] = (uint8_t)value;
}'''),
    ("include/fingera_libc/endian.h", re.compile(r"static inline uint64_t read_little_64\(const void \*buf\) \{.*?\n\}", re.S), '''static inline uint64_t read_little_64(const void *buf) {
  return (uint64_t)read_little_32((const char *)buf + 4) << 32 | read_little_32(buf);
}'''))
ref("key-sign-local",
    (K, "  secp256k1_ecdsa_signature* sig = (secp256k1_ecdsa_signature*)signatures64;\n  int ret = secp256k1_ecdsa_sign(", "  secp256k1_ecdsa_signature local;\n  secp256k1_ecdsa_signature* sig = &local;\n  int ret = secp256k1_ecdsa_sign("),
    (K, "                               secp256k1_nonce_function_rfc6979, extra_entropy);\n  }\n  assert(ret);", "                               secp256k1_nonce_function_rfc6979, extra_entropy);\n  }\n  assert(ret);\n  memcpy(signatures64, &local, sizeof(local));"))
ref("base58-wide",
    (B58, '''    int carry = *begin;
    int i = 0;
    for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;
         it--, i++) {
      carry += 256 * b58[it];
      b58[it] = carry % 58;
      carry /= 58;
    }
    assert(carry == 0 && "base58 overflow");
    length = i;''', '''    unsigned carry = *begin;
    uint8_t *digit = b58 + size;
    uint8_t *top = digit - length;
    while (digit != b58 && (carry || digit > top)) {
      --digit;
      carry += *digit << 8;
      *digit = (uint8_t)(carry % 58);
      carry /= 58;
    }
    assert(carry == 0 && "base58 overflow");
    length = (int)(b58 + size - digit);'''),
    (B58, '''  while (begin != end && *begin == 0) {
    begin++;
    zeroes++;
  }''', '''  for (; begin != end && !*begin; begin++) zeroes++;'''))
ref("sigder-lambda",
    (K, '''  /* Ignore leading zeroes in R */
  while (rlen > 0 && input[rpos] == 0) {
    rlen--;
    rpos++;
  }
  /* Copy R value */
  if (rlen > 32) {
    overflow = 1;
  } else {
    memcpy(tmpsig + 32 - rlen, input + rpos, rlen);
  }
''', '''  /* Skip the zeroes in front of R and put it to the right of its half */
  for (; rlen > 0 && !input[rpos]; rpos++) rlen--;
  overflow |= rlen > 32;
  for (size_t i = 1; !overflow && i <= rlen; i++)
    tmpsig[32 - i] = input[rpos + rlen - i];
'''))
