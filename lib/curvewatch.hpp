// The curve library is not instrumented: what it is given to read and write is checked here, in the AddressSanitizer
// build (linked with --wrap, see checks.py).
#pragma once
#include <secp256k1.h>
#include <stdio.h>
#include <stdlib.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define CURVEWATCH 1
#endif
#endif
#ifdef CURVEWATCH
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size);
#endif
namespace curvewatch {
inline void region(const char *f, const char *what, const void *p, size_t n) {
#ifdef CURVEWATCH
  if (p && n && __asan_region_is_poisoned(const_cast<void *>(p), n)) {
    fprintf(stderr, "PBT-FAIL: %s is handed a %s of %zu bytes that reaches outside its object\n", f, what, n);
    abort();
  }
#endif
}
}  // namespace curvewatch
#define CW_REAL(ret, name, params) \
  extern "C" ret __real_##name params; \
  extern "C" __attribute__((visibility("default"))) ret __wrap_##name params
#define CW(what, p, n) curvewatch::region(fn, what, p, n)
typedef secp256k1_context cw_ctx;
CW_REAL(int, secp256k1_ec_pubkey_create, (const cw_ctx *c, secp256k1_pubkey *q, const unsigned char *k)) {
  const char *fn = "ec_pubkey_create";
  CW("public key", q, 64);
  CW("key", k, 32);
  return __real_secp256k1_ec_pubkey_create(c, q, k);
}
CW_REAL(int, secp256k1_ec_pubkey_parse, (const cw_ctx *c, secp256k1_pubkey *q, const unsigned char *in, size_t n)) {
  const char *fn = "ec_pubkey_parse";
  CW("public key", q, 64);
  CW("text", in, n);
  return __real_secp256k1_ec_pubkey_parse(c, q, in, n);
}
CW_REAL(int, secp256k1_ec_pubkey_serialize, (const cw_ctx *c, unsigned char *out, size_t *n, const secp256k1_pubkey *q, unsigned flags)) {
  const char *fn = "ec_pubkey_serialize";
  CW("length", n, sizeof *n);
  CW("output", out, *n);
  CW("public key", q, 64);
  return __real_secp256k1_ec_pubkey_serialize(c, out, n, q, flags);
}
#define CW_TWEAK(name, size)                                                                      \
  CW_REAL(int, name, (const cw_ctx *c, unsigned char *k, const unsigned char *t)) {               \
    const char *fn = #name;                                                                       \
    CW("key", k, size);                                                                           \
    CW("tweak", t, 32);                                                                           \
    return __real_##name(c, k, t);                                                                \
  }
CW_TWEAK(secp256k1_ec_privkey_tweak_add, 32)
CW_TWEAK(secp256k1_ec_seckey_tweak_add, 32)
CW_REAL(int, secp256k1_ec_pubkey_tweak_add, (const cw_ctx *c, secp256k1_pubkey *q, const unsigned char *t)) {
  const char *fn = "ec_pubkey_tweak_add";
  CW("public key", q, 64);
  CW("tweak", t, 32);
  return __real_secp256k1_ec_pubkey_tweak_add(c, q, t);
}
CW_REAL(int, secp256k1_ec_seckey_verify, (const cw_ctx *c, const unsigned char *k)) {
  const char *fn = "ec_seckey_verify";
  CW("key", k, 32);
  return __real_secp256k1_ec_seckey_verify(c, k);
}
CW_REAL(int, secp256k1_ecdsa_sign, (const cw_ctx *c, secp256k1_ecdsa_signature *s, const unsigned char *m, const unsigned char *k, secp256k1_nonce_function f, const void *d)) {
  const char *fn = "ecdsa_sign";
  CW("signature", s, 64);
  CW("message", m, 32);
  CW("key", k, 32);
  if (d) CW("nonce data", d, 32);
  return __real_secp256k1_ecdsa_sign(c, s, m, k, f, d);
}
CW_REAL(int, secp256k1_ecdsa_verify, (const cw_ctx *c, const secp256k1_ecdsa_signature *s, const unsigned char *m, const secp256k1_pubkey *q)) {
  const char *fn = "ecdsa_verify";
  CW("signature", s, 64);
  CW("message", m, 32);
  CW("public key", q, 64);
  return __real_secp256k1_ecdsa_verify(c, s, m, q);
}
CW_REAL(int, secp256k1_ecdsa_signature_normalize, (const cw_ctx *c, secp256k1_ecdsa_signature *o, const secp256k1_ecdsa_signature *s)) {
  const char *fn = "ecdsa_signature_normalize";
  CW("output", o, 64);
  CW("signature", s, 64);
  return __real_secp256k1_ecdsa_signature_normalize(c, o, s);
}
CW_REAL(int, secp256k1_ecdsa_signature_parse_compact, (const cw_ctx *c, secp256k1_ecdsa_signature *s, const unsigned char *in)) {
  const char *fn = "ecdsa_signature_parse_compact";
  CW("signature", s, 64);
  CW("text", in, 64);
  return __real_secp256k1_ecdsa_signature_parse_compact(c, s, in);
}
CW_REAL(int, secp256k1_ecdsa_signature_parse_der, (const cw_ctx *c, secp256k1_ecdsa_signature *s, const unsigned char *in, size_t n)) {
  const char *fn = "ecdsa_signature_parse_der";
  CW("signature", s, 64);
  CW("text", in, n);
  return __real_secp256k1_ecdsa_signature_parse_der(c, s, in, n);
}
CW_REAL(int, secp256k1_ecdsa_signature_serialize_compact, (const cw_ctx *c, unsigned char *o, const secp256k1_ecdsa_signature *s)) {
  const char *fn = "ecdsa_signature_serialize_compact";
  CW("output", o, 64);
  CW("signature", s, 64);
  return __real_secp256k1_ecdsa_signature_serialize_compact(c, o, s);
}
CW_REAL(int, secp256k1_ecdsa_signature_serialize_der, (const cw_ctx *c, unsigned char *o, size_t *n, const secp256k1_ecdsa_signature *s)) {
  const char *fn = "ecdsa_signature_serialize_der";
  CW("length", n, sizeof *n);
  CW("signature", s, 64);
  int r = __real_secp256k1_ecdsa_signature_serialize_der(c, o, n, s);
  if (r) CW("output", o, *n);
  return r;
}
CW_REAL(int, secp256k1_context_randomize, (cw_ctx *c, const unsigned char *seed)) {
  const char *fn = "context_randomize";
  if (seed) CW("seed", seed, 32);
  return __real_secp256k1_context_randomize(c, seed);
}
#undef CW
#undef CW_REAL
#undef CW_TWEAK
