#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>
#include "heapwatch.hpp"
#include "ops.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "one call that handles secrets (WIF and xprv text in both directions, valid or not, of any length and network; private derivation; master "
    "key from a seed; BIP 32 hash; HMAC; SHA-1, SHA-2 and their combinations over a secret message; context start and key generation with known entropy) runs on a private stack filled with a pattern, with random or structured secrets. Afterwards the whole stack and "
    "every heap block released during the call are searched for any 16 consecutive bytes of a secret (as such, as base-58 digits, or under the HMAC "
    "pads 36 and 5c; results and inner states of hashes also in the word order of the machine). Non-trivial: every case. The library is compiled with gcc at -O0 and -O2; at -O2, where the compiler itself "
    "may put 16-byte registers on the stack, a run of 33 bytes of the buffer a secret is part of (the payload around a key, both "
    "halves of a hash) is searched for instead. The search is shown to find a secret "
    "left behind by a control function in every case.";
using ops::Call;

static const size_t STACK = 160 * 1024;
static uint8_t *stk;  // an inaccessible page lies below it
static ucontext_t back, ctx;
static void (*fn)(void *);
static void *arg;
static void tramp() { fn(arg); }
static uint8_t pat;
static void on_stack(void (*f)(void *), void *a) {
  if (!stk) {
    uint8_t *m = (uint8_t *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED || mprotect(m, 4096, PROT_NONE)) _Exit(3);
    stk = m + 4096;
  }
  memset(stk, pat, STACK);
  fn = f;
  arg = a;
  getcontext(&ctx);
  ctx.uc_stack.ss_sp = stk;
  ctx.uc_stack.ss_size = STACK;
  ctx.uc_link = &back;
  // a signal taken on this stack would save the registers, and with them secrets, on it
  sigset_t all, old;
  sigfillset(&all);
  sigprocmask(SIG_BLOCK, &all, &old);
  sigfillset(&ctx.uc_sigmask);
  makecontext(&ctx, tramp, 0);
  swapcontext(&back, &ctx);
  sigprocmask(SIG_SETMASK, &old, nullptr);
}
struct Secret {
  std::string what;
  Bytes b;
  size_t w;  // a run of so many bytes is a copy
};
static std::vector<Secret> secrets;
static std::string found;
static bool boring(const uint8_t *p, size_t n) {  // too regular to be told from ordinary memory
  unsigned distinct = 0;
  bool seen[256] = {};
  for (size_t i = 0; i < n; i++)
    if (!seen[p[i]]) seen[p[i]] = true, distinct++;
  return distinct < 8;
}
static void search(const uint8_t *m, size_t n, const char *where) {
  if (!found.empty()) return;
  for (auto &s : secrets)
    for (size_t o = 0; o + s.w <= s.b.size(); o++) {
      if (boring(&s.b[o], s.w)) continue;
      const void *q = memmem(m, n, &s.b[o], s.w);
      if (q) {
        found = sprintf_("%zu bytes from offset %zu of %s stay %s", s.w, o, s.what.c_str(), where);
        return;
      }
    }
}
// all windows at once: index by 8-byte prefix, scan once (the stack is large, secrets are many)
static void search_fast(const uint8_t *m, size_t n, const char *where) {
  if (!found.empty() || n < 16) return;
  static uint8_t bloom[1 << 16];
  std::vector<unsigned> set;
  for (auto &s : secrets)
    for (size_t o = 0; o + s.w <= s.b.size(); o++) {
      uint32_t h = (s.b[o] | s.b[o + 1] << 8 | s.b[o + 2] << 16 | (uint32_t)s.b[o + 3] << 24) * 0x9E3779B1u >> 16;
      if (!bloom[h]) bloom[h] = 1, set.push_back(h);
    }
  bool hit = false;
  for (size_t i = 0; i + 16 <= n; i++) {
    uint32_t v;
    memcpy(&v, m + i, 4);
    if (bloom[v * 0x9E3779B1u >> 16]) {
      hit = true;
      break;
    }
  }
  for (unsigned h : set) bloom[h] = 0;
  if (hit) search(m, n, where);
}
static void on_free(const void *p, size_t n) { search_fast((const uint8_t *)p, n, "in a heap block it released"); }
// b: the secret; around: what a temporary buffer that holds it contains (optimised build only, see above)
static void secret(const std::string &what, const Bytes &b, const Bytes &around) {
#if LIB_NDEBUG
  (void)b;
  if (around.size() >= 32) secrets.push_back({what + " with what surrounds it", around, around.size() > 32 ? (size_t)33 : 32});
#else
  (void)around;
  secrets.push_back({what, b, 16});
#endif
}
static void hmac_secret(const std::string &what, const Bytes &k, size_t block) {
  Bytes p = k;
  p.resize(block);
  Bytes i = p, o = p;
  for (auto &x : i) x ^= 0x36;
  for (auto &x : o) x ^= 0x5c;
  secret(what, k, p);
  secret(what + " xor 36", Bytes(i.begin(), i.begin() + k.size()), i);
  secret(what + " xor 5c", Bytes(o.begin(), o.begin() + k.size()), o);
}
// words of w bytes, each reversed: how a hash function keeps its state on a little-endian machine
static Bytes swapped(Bytes b, size_t w) {
  for (size_t i = 0; i + w <= b.size(); i += w) std::reverse(&b[i], &b[i] + w);
  return b;
}
// a message: what is left of it after its whole blocks is copied to be padded
static void message_secret(const std::string &what, const Bytes &m, size_t block) {
  Bytes tail(m.end() - m.size() % block, m.end()), p = tail;
  p.push_back(0x80);
  p.resize(std::max(p.size(), block - block / 8));
  secret(what, m, tail.size() >= 16 ? p : Bytes());
}
static void digest_secret(const std::string &what, const Bytes &d, size_t w, bool output) {
  if (!output) secret(what, d, d.size() == 64 ? d : Bytes());
  secret(what + " in words of the machine", swapped(d, w), d.size() == 64 ? swapped(d, w) : Bytes());
}
static void hmac_inner_secret(const Bytes &k, const Bytes &m, bool wide) {
  size_t block = wide ? 128 : 64;
  Bytes p = k.size() > block ? wide ? cref::sha512(k) : cref::sha256(k) : k;
  p.resize(block);
  for (auto &x : p) x ^= 0x36;
  Bytes in = cref::cat({p, m});
  digest_secret("the inner digest", wide ? cref::sha512(in) : cref::sha256(in), wide ? 8 : 4, false);
  digest_secret("the result", wide ? cref::hmac512(k, m) : cref::hmac256(k, m), wide ? 8 : 4, true);
  message_secret("the message", m, block);
}
static Bytes checked(Bytes p) {  // with the four bytes of its checksum
  Bytes h = cref::hash256(p);
  p.insert(p.end(), h.begin(), h.begin() + 4);
  return p;
}
// the values of a text's base-58 digits
static Bytes digits58(const std::string &s) {
  Bytes r;
  for (char c : s) r.push_back((uint8_t)ref::index_of(ref::b58(), (uint8_t)c));
  return r;
}
// a secret's text that turns out to be illegal late: what was decoded before that
static Bytes spoil(Tape &t, std::string s) {
  size_t at = s.size() - t.range(0, 4), z = 0;
  Bytes p;
  std::string head = s.substr(0, at);
  if (!ref::unbase58(head, p)) _Exit(3);
  while (z < p.size() && !p[z]) z++;
  p.erase(p.begin(), p.begin() + (long)z);
  if (t.chance(1, 2)) {
    s.insert(at, 1, t.pick({'0', 'l', (char)0x80}));
    classify("illegal character late in the text");
  } else {
    s.insert(at, " x");
    if (at + 2 == s.size()) s += "y";
    classify("white space and more behind the text");
  }
  if (t.chance(1, 2)) {
    s += t.str_of(t.range(1, 250), ref::b58());
    classify("a long text behind the illegal place");
  }
  secret("what was decoded before the text proved illegal", p, p);
  return ops::from(s);
}
static Bytes be32(uint32_t v) { return {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}; }
// entropy the operating system hands out during key_init and key_new
static Bytes entropy;
static size_t entropy_pos;
static bool entropy_on;
extern "C" ssize_t __real_read(int, void *, size_t);
extern "C" ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (!entropy_on) return __real_read(fd, p, n);
  if (n > entropy.size() - entropy_pos) n = entropy.size() - entropy_pos;
  memcpy(p, &entropy[entropy_pos], n);
  entropy_pos += n;
  return (ssize_t)n;
}
// operands are made outside the private stack; only the library call itself runs on it
struct Run {
  const void *a, *b;
  size_t an, bn;
  uint8_t *o1, *o2;
  uint32_t n;
  int flag, op;
  const chain_parameters *cp;
  int r;
};
static void body(void *x) {
  Run *u = (Run *)x;
  int comp;
  heapwatch::st().armed = true;
  switch (u->op) {
    case 0: u->r = (int)fingera_btc_key_to_string(u->a, (char *)u->o1, u->flag, u->cp); break;
    case 1: u->r = fingera_btc_key_from_string((const char *)u->a, u->an, u->o1, &comp, u->cp); break;
    case 2: u->r = fingera_btc_key_derive(u->a, u->b, u->o1, u->o2, u->n); break;
    case 3: fingera_exkey_init((fingera_ex_key *)u->o1, u->a, u->an); break;
    case 4: u->r = fingera_exkey_derive((const fingera_ex_key *)u->a, (fingera_ex_key *)u->o1, u->n, 7); break;
    case 5: u->r = (int)fingera_exkey_to_string((const fingera_ex_key *)u->a, (char *)u->o1, u->cp); break;
    case 6: u->r = fingera_exkey_from_string((const char *)u->a, u->an, (fingera_ex_key *)u->o1, u->cp); break;
    case 7: fingera_hmac_sha256(u->a, u->an, u->b, u->bn, u->o1); break;
    case 8: fingera_hmac_sha512(u->a, u->an, u->b, u->bn, u->o1); break;
    case 12: fingera_sha1(u->a, u->an, u->o1); break;
    case 13: fingera_btc_hash256(u->a, u->an, u->o1); break;
    case 14: fingera_sha2_256(u->a, u->an, u->o1); break;
    case 15: fingera_sha2_512(u->a, u->an, u->o1); break;
    case 16: fingera_btc_hash160(u->a, u->an, u->o1); break;
    case 10: fingera_btc_key_init(); break;
    case 11: fingera_btc_key_new(u->o1); break;
    case 9: fingera_btc_bip32_hash(u->a, u->n, (uint8_t)u->flag, u->b, u->o1); break;
  }
  heapwatch::st().armed = false;
}
static __attribute__((noinline)) void leaky(void *x) {  // control: leaves a copy behind
  volatile uint8_t copy[64];
  const Bytes *b = (const Bytes *)x;
  for (size_t i = 0; i < b->size() && i < 64; i++) copy[i] = (*b)[i];
}
void pbt_setup() {
  ops::setup();
  fingera_btc_key_init();
  heapwatch::st().on_free = on_free;
}
static Bytes random_bytes(Tape &t, size_t n) {
  Bytes b(n);
  for (auto &x : b) x = t.byte();
  return b;
}
static Bytes ok_key(Tape &t) {
  Bytes k;
  do k = t.chance(1, 4) ? cref::gen_key(t) : random_bytes(t, 32);
  while (!cref::valid_scalar(k) && (k[31] |= 1, k[0] = 0x7f, !cref::valid_scalar(k)));
  return k;
}
static void fill_tail(Tape &t, Bytes &a) {
  for (size_t i = a.size() > 40 ? a.size() - 40 : 0; i < a.size(); i++)
    if (!a[i]) a[i] = t.byte();
}
static const char *names[] = {"key_to_string", "key_from_string", "key_derive", "exkey_init", "exkey_derive", "exkey_to_string", "exkey_from_string",
                              "hmac_sha256", "hmac_sha512", "bip32_hash", "key_init", "key_new", "sha1", "hash256", "sha2_256", "sha2_512", "hash160"};
static void one(Tape &t, int op) {
  Run u;
  memset(&u, 0, sizeof u);
  u.op = op;
  secrets.clear();
  found.clear();
  pat = (uint8_t)LIB_NDEBUG ? t.pick({0xA5, 0xFF}) : t.pick({0x00, 0xA5, 0xFF, 0x5C});
  Params P;
  gen_params(t, P);
  u.cp = P.get();
  Bytes a, b;
  std::string desc = P.name;
  fingera_ex_key xk;
  memset(&xk, 0, sizeof xk);
  Bytes k = ok_key(t), ch = random_bytes(t, 32);
  u.n = t.chance(1, 2) ? t.u32() | 0x80000000u : t.u32() & 0x7fffffff;
  u.flag = (int)t.range(0, 1);
  switch (op) {
    case 0: {
      a = k;
      Bytes p = checked(u.flag ? cref::cat({vec(P.wif), k, Bytes{1}}) : cref::cat({vec(P.wif), k})), d = digits58(ref::base58(p));
      secret("the key", k, p);
      secret("the text's digits", d, d);
      break;
    }
    case 1: {
      Bytes p = cref::cat({vec(P.wif), k});
      unsigned w = (unsigned)t.range(0, 6);
      if (w == 1) p.push_back(1);
      else if (w == 2) p.push_back(t.byte());
      else if (w == 3) p[0] ^= 1;
      else if (w == 4) p = cref::cat({p, random_bytes(t, t.range(1, 300))});
      secret("the key", Bytes(p.begin() + P.wif.size(), p.end()), checked(p));
      a = ops::from(cref::b58check(p));
      if (w == 5) {  // a mistyped character: the decoded bytes are almost the key
        a.back() = a.back() == '2' ? '3' : '2';
        classify("mistyped text");
      } else if (w == 6)
        a = spoil(t, cref::b58check(p));
      else
        classify(w == 4 ? "over-long payload" : "text with a right checksum");
      break;
    }
    case 2: case 4: case 5: {
      a = k;
      b = ch;
      if (op != 5) {
        secret("the key", k, u.n >> 31 ? cref::cat({Bytes{0}, k, be32(u.n)}) : Bytes());
        hmac_secret("the chain code", ch, 128);
        cref::XKey o;
        if (cref::ckd_priv(k, ch, u.n, o)) {
          secret("the derived key", o.key, {});
          Bytes il = cref::subm(cref::Num(o.key), cref::Num(k), cref::order()).be32();
          secret("the tweak", il, cref::cat({il, o.chain}));
          digest_secret("the tweak and the derived chain code", cref::cat({il, o.chain}), 8, true);
        }
        classify(u.n >> 31 ? "hardened" : "not hardened");
      } else {
        Bytes p = checked(cref::cat({vec(P.xprv), Bytes{1}, Bytes(8, 0), ch, Bytes{0}, k}));
        secret("the key", k, p);
        secret("the chain code", ch, p);
        Bytes d = digits58(ref::base58(p));
        secret("the text's digits", d, d);
      }
      if (op != 2) {
        xk.ext.depth = 1;
        memcpy(xk.ext.chain_code, ch.data(), 32);
        memcpy(xk.key, k.data(), 32);
        a.assign((uint8_t *)&xk, (uint8_t *)&xk + sizeof xk);
      }
      break;
    }
    case 3: {
      a = random_bytes(t, t.chance(1, 2) ? t.pick({16, 32, 64}) : t.range(1, 200));
      Bytes I = cref::hmac512(ops::from("Bitcoin seed"), a);
      secret("the master key", Bytes(I.begin(), I.begin() + 32), I);
      digest_secret("the master key and chain code", I, 8, true);
      secret("the master chain code", Bytes(I.begin() + 32, I.end()), {});
      if (a.size() >= 16) secret("the seed", a, a.size() > 32 ? a : Bytes());
      break;
    }
    case 6: {
      Bytes p = cref::cat({vec(P.xprv), Bytes{(uint8_t)t.range(1, 255)}, t.bytes(8), ch, Bytes{0}, k});
      unsigned w = (unsigned)t.range(0, 6);
      if (w == 1) p[0] ^= 1;
      else if (w == 2) p[P.xprv.size() + 41] ^= 1;
      else if (w == 3) p = cref::cat({p, random_bytes(t, t.range(1, 300))});
      secret("the key", Bytes(p.begin() + P.xprv.size() + 42, p.end()), checked(p));
      secret("the chain code", ch, {});
      a = ops::from(cref::b58check(p));
      if (w == 6) a = spoil(t, cref::b58check(p));
      else if (w == 5) a.back() = a.back() == '2' ? '3' : '2', classify("mistyped text");
      else classify("text with a right checksum");
      break;
    }
    case 7: case 8:
      a = random_bytes(t, t.chance(1, 2) ? 32 : t.range(16, op == 7 ? 64 : 128));
      b = t.blob(200);
      if (t.chance(1, 4)) {  // longer than a block: its hash is the key
        a = random_bytes(t, (op == 7 ? 64 : 128) + t.range(1, 80));
        hmac_secret("the hash of the HMAC key", op == 7 ? cref::sha256(a) : cref::sha512(a), op == 7 ? 64 : 128);
        message_secret("the HMAC key", a, op == 7 ? 64 : 128);
        classify("HMAC key longer than a block");
      } else
        hmac_secret("the HMAC key", a, op == 7 ? 64 : 128);
      hmac_inner_secret(a, b, op == 8);
      break;
    case 12: case 13: case 14: case 15: case 16: {
      a = random_bytes(t, t.chance(1, 2) ? t.range(16, 64) : t.range(16, 400));
      size_t block = op == 15 ? 128 : 64;
      if (t.chance(1, 3)) a.resize(a.size() / block * block + t.range(block - 20, block - 1)), fill_tail(t, a);
      message_secret("the message", a, block);
      Bytes d = op == 12 ? cref::sha1(a) : op == 13 ? cref::hash256(a) : op == 15 ? cref::sha512(a) : op == 16 ? cref::hash160(a) : cref::sha256(a);
      if (op != 16) digest_secret("the result", d, op == 15 ? 8 : 4, true);
      if (op == 13 || op == 16) digest_secret("the inner digest", cref::sha256(a), 4, true);
      break;
    }
    case 9:
      a = ch;
      b = k;
      u.flag = u.n >> 31 ? 0 : 2;
      hmac_secret("the chain code", ch, 128);
      secret("the key data", k, cref::cat({Bytes{(uint8_t)u.flag}, k, be32(u.n)}));
      break;
  }
  if (op == 10 || op == 11) {
    entropy.clear();
    entropy_pos = 0;
    if (op == 11 && t.chance(1, 3)) entropy = cref::gen_invalid_scalar(t);  // must be drawn again
    secret(op == 10 ? "the blinding seed" : "the new key", k, k);
    if (!entropy.empty()) secret("the rejected key", entropy, entropy);
    entropy.insert(entropy.end(), k.begin(), k.end());
    a = entropy;
    if (op == 10) fingera_btc_key_uninit();
    entropy_on = true;
  }
  key(a);
  key(b);
  key(&u.n, 4);
  key(&op, sizeof op);
  nontrivial();
  classify(names[op]);
  if (want_sample()) sample(sprintf_("%s on %s: %s", names[op], P.name.c_str(), hex(a, 100).c_str()));
  Buf ab(a), bb(b), o1(400), o2(64);
  memset(o1.p, 0, 400);
  u.a = ab.p;
  u.an = ab.n;
  u.b = bb.p;
  u.bn = bb.n;
  u.o1 = o1.p;
  u.o2 = o2.p;
  on_stack(body, &u);
  entropy_on = false;
  REQUIRE(heapwatch::st().live.empty(), "%s keeps heap blocks", names[op]);
  search_fast(stk, STACK, "on the stack");
  REQUIRE(found.empty(), "after %s (returned %d, %s, input %s): %s", names[op], u.r, P.name.c_str(), hex(a, 140).c_str(), found.c_str());
  // the search itself works
  static Bytes c;
  c = random_bytes(t, 32);
  if (!boring(&c[0], 16)) {
    secrets.clear();
    secret("control", c, c);
    on_stack(leaky, &c);
    search_fast(stk, STACK, "on the stack");
    if (found.empty()) {
      fprintf(stderr, "the control copy was not found\n");
      _Exit(3);
    }
  }
}
void pbt_property(Tape &t) { one(t, (int)t.range(0, 16)); }
void pbt_fixed(int shard, int n) {
  static uint8_t rec[1 << 14];
  volatile uint64_t len;
  for (int i = shard; i < 680; i += n) {
    Tape t(mix64(7000 + i), rec, sizeof rec, &len);
    one(t, i % 17);
    fixed_case("forty cases of each operation", i);
  }
}
