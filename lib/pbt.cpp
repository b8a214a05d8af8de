#include "pbt.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <unordered_set>

namespace pbt {

#ifndef PBT_FUZZ
static const size_t TAPE_CAP = 1u << 22;
#endif

std::string vsprintf_(const char *fmt, va_list ap) {
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap2);
  va_end(ap2);
  std::string s(n > 0 ? n : 0, 0);
  if (n > 0) vsnprintf(&s[0], n + 1, fmt, ap);
  return s;
}
void fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vsprintf_(fmt, ap);
  va_end(ap);
  throw Fail{s};
}
std::string sprintf_(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vsprintf_(fmt, ap);
  va_end(ap);
  return s;
}
std::string hex(const void *p, size_t n, size_t max) {
  std::string s;
  const uint8_t *b = (const uint8_t *)p;
  char t[4];
  for (size_t i = 0; i < n && i < max; i++) {
    snprintf(t, sizeof t, "%02x", b[i]);
    s += t;
  }
  if (n > max) s += sprintf_("...(%zu bytes)", n);
  return s;
}
std::string quote(const std::string &s, size_t max) {
  std::string r = "'";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127 && c != '\'' && c != '\\')
      r += (char)c;
    else
      r += sprintf_("\\x%02x", c);
  }
  r += "'";
  if (s.size() > max) r += sprintf_("...(%zu chars)", s.size());
  return r;
}
uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  h ^= 0xcbf29ce484222325ull ^ (n * 0x9E3779B97F4A7C15ull);
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = mix64(h ^ w);
    b += 8;
    n -= 8;
  }
  uint64_t w = 0;
  memcpy(&w, b, n);
  return mix64(h ^ w ^ ((uint64_t)n << 56));
}

// ---- constants the code under test compares its inputs with ----------------------
// In builds with comparison tracing (the asan variant), generation now and then uses such a constant, most of all one
// that no input has been equal to so far. What is drawn is recorded on the tape like everything else.
#ifndef PBT_FUZZ
struct Consts {
  static const unsigned CAP = 512, TAB = 2048;
  struct E {
    uint64_t c;
    bool hit;
  } e[CAP];
  unsigned n = 0;
  uint16_t tab[TAB];  // index + 1
  Bytes strs[64];  // texts, and bytes compared one after the other
  unsigned nstr = 0, added = 0;
  uint8_t run[8];
  unsigned nrun = 0;
  uint64_t seen[1024];
  void note_str(const Bytes &s) {
    for (unsigned i = 0; i < nstr; i++)
      if (strs[i] == s) return;
    unsigned at = nstr < 64 ? nstr++ : (unsigned)(mix64(added) % 64);
    added++;
    strs[at] = s;
  }
  void note_byte(uint8_t c, uint8_t arg) {
    if (c == arg) {
      if (nrun < 7) run[nrun++] = c;
      return;
    }
    if (!nrun) return;
    run[nrun++] = c;
    uint64_t v = nrun;
    for (unsigned i = 0; i < nrun; i++) v = v << 8 | run[i];
    uint64_t &s = seen[(v * 0x9E3779B97F4A7C15ull) >> 54];
    if (s != v) {
      s = v;
      note_str(Bytes(run, run + nrun));
    }
    nrun = 0;
  }
  void note(uint64_t c, uint64_t arg) {
    if (c < 8) return;
    unsigned h = (unsigned)((c * 0x9E3779B97F4A7C15ull) >> 53);
    for (unsigned k = 0; k < 8; k++, h = (h + 1) % TAB) {
      unsigned i = tab[h];
      if (!i) {
        if (n >= CAP) return;
        e[n] = {c, c == arg};
        tab[h] = (uint16_t)++n;
        return;
      }
      if (e[i - 1].c == c) {
        if (c == arg) e[i - 1].hit = true;
        return;
      }
    }
  }
  bool pick(uint64_t r, uint64_t *out) {
    if (!n) return false;
    unsigned i = (unsigned)(r % n);
    if (r >> 40 & 7)
      for (unsigned k = 0; k < n && e[i].hit; k++) i = (i + 1) % n;  // one that was never met
    *out = e[i].c;
    return true;
  }
};
static Consts g_consts;
static __thread bool g_consts_on;  // in the thread that generates
}  // namespace pbt
extern "C" {
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_const_cmp1(uint8_t c, uint8_t a) {
  if (pbt::g_consts_on) pbt::g_consts.note_byte(c, a);
}
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_const_cmp2(uint16_t c, uint16_t a) {
  if (pbt::g_consts_on) pbt::g_consts.note(c, a);
}
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_const_cmp4(uint32_t c, uint32_t a) {
  if (pbt::g_consts_on) pbt::g_consts.note(c, a);
}
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_const_cmp8(uint64_t c, uint64_t a) {
  if (pbt::g_consts_on) pbt::g_consts.note(c, a);
}
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
  if (!pbt::g_consts_on || cases[1] < 16) return;
  for (uint64_t i = 0; i < cases[0] && i < 64; i++) pbt::g_consts.note(cases[2 + i], v);
}
extern const char __executable_start[], end[];
void __sanitizer_weak_hook_memcmp(void *, const void *a, const void *b, size_t n, int) {
  pbt::Consts &g = pbt::g_consts;
  if (!pbt::g_consts_on || n < 2) return;
  for (const void *p : {a, b}) {
    if ((const char *)p < __executable_start || (const char *)p + n >= end) continue;
    Bytes s((const uint8_t *)p, (const uint8_t *)p + (n < 32 ? n : 32));
    g.note_str(s);
  }
}
}
namespace pbt {
#endif

Tape::Tape(uint64_t seed, uint8_t *rec, size_t cap, volatile uint64_t *rec_len)
    : gen_(true), rec_(rec), cap_(cap), rec_len_(rec_len) {
  s_[0] = mix64(seed);
  s_[1] = mix64(seed ^ 0x5851F42D4C957F2Dull) | 1;
  *rec_len_ = 0;
}
Tape::Tape(const uint8_t *data, size_t len) : gen_(false), data_(data), len_(len) {
  s_[0] = s_[1] = 0;
}
uint64_t Tape::next64() {  // xorshift128+
  uint64_t a = s_[0], b = s_[1];
  s_[0] = b;
  a ^= a << 23;
  s_[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
  return s_[1] + b;
}
uint8_t Tape::byte() { return (uint8_t)bits(1); }
#ifndef PBT_FUZZ
// v, or a constant out of the code under test
uint64_t Tape::flavour(uint64_t v, unsigned nb) {
  if (!queue_.empty()) {
    for (unsigned i = 0; i < nb && !queue_.empty(); i++) {
      v = (v & ~(0xFFull << 8 * i)) | (uint64_t)queue_.back() << 8 * i;
      queue_.pop_back();
    }
    return v;
  }
  uint64_t r = next64(), c;
  if (r % (nb == 1 ? 257 : 11) || nb == 2) return v;
  r = next64();
  if ((nb == 1 || nb == 8) && g_consts.nstr && (r & 3) == 0) {
    const Bytes &s = g_consts.strs[(r >> 8) % g_consts.nstr];
    queue_.assign(s.rbegin(), s.rend());
    return flavour(v, nb);
  }
  if (!g_consts.pick(r >> 2, &c)) return v;
  unsigned w = c >> 32 ? 8 : c >> 16 ? 4 : c >> 8 ? 2 : 1;
  r = next64();
  if ((r & 7) == 0) c++;
  else if ((r & 7) == 1) c--;
  if (nb == 4 && w <= 4 && (r & 64)) return (uint32_t)c;  // a number
  if (nb == 8 && (r & 192) == 64) return c;
  if (r & 32) {  // the other byte order
    uint64_t d = 0;
    for (unsigned i = 0; i < w; i++) d = d << 8 | (c >> 8 * i & 255);
    c = d;
  }
  if (nb == 1) {
    for (unsigned i = w; i-- > 0;) queue_.push_back((uint8_t)(c >> 8 * i));
    return flavour(v, nb);
  }
  unsigned at = w < nb && (r & 256) ? (unsigned)((r >> 16) % (nb - w + 1)) : 0;  // bytes among others
  for (unsigned i = 0; i < w && at + i < nb; i++) v = (v & ~(0xFFull << 8 * (at + i))) | (c >> 8 * i & 255) << 8 * (at + i);
  return v;
}
#endif
uint64_t Tape::bits(unsigned nb) {
  if (gen_) {
    if (pos_ + nb > cap_) throw Discard{};
    uint64_t v = next64() >> 3;
    v ^= next64() << 20;
    if (nb < 8) v &= (1ull << (8 * nb)) - 1;
#ifndef PBT_FUZZ
    if (g_consts.n || g_consts.nstr) v = flavour(v, nb);
#endif
    memcpy(rec_ + pos_, &v, nb);
    pos_ += nb;
    *rec_len_ = pos_;
    return v;
  }
  uint64_t v = 0;
  for (unsigned i = 0; i < nb; i++) {
    if (pos_ < len_) v |= (uint64_t)data_[pos_] << (8 * i);
    pos_++;
  }
  return v;
}
uint64_t Tape::range(uint64_t lo, uint64_t hi) {
  if (hi <= lo) return lo;
  uint64_t span = hi - lo;
  unsigned nb = span < 0x100 ? 1 : span < 0x10000 ? 2 : span < 0x100000000ull ? 4 : 8;
#ifndef PBT_FUZZ
  if (gen_ && span > 64 && g_consts.n && queue_.empty() && next64() % 24 == 0)
    for (int k = 0; k < 4; k++) {
      uint64_t c, r = next64();
      if (!g_consts.pick(r, &c) || c < lo || c > hi) continue;
      c -= lo;
      if (r >> 50 & 1 && c < span) c++;
      for (unsigned i = nb; i-- > 0;) queue_.push_back((uint8_t)(c >> 8 * i));
      break;
    }
#endif
  uint64_t v = bits(nb);
  if (span == UINT64_MAX) return v;
  return lo + v % (span + 1);
}
bool Tape::chance(unsigned num, unsigned den) { return range(0, den - 1) >= den - num; }
size_t Tape::len(size_t max, size_t unit) {
  if (max == 0) return 0;
  unsigned k = (unsigned)range(0, 9);
  size_t n;
  if (k < 3)
    n = range(0, max < 12 ? max : 12);
  else if (k < 5)
    n = range(0, max < 80 ? max : 80);
  else if (k < 8 && unit && unit <= max) {
    size_t q = range(0, max / unit > 8 && k < 7 ? 8 : max / unit);
    size_t d = range(0, 4);
    n = q * unit + d;
    n = n >= 2 ? n - 2 : 0;
  } else {
    n = range(0, max);
  }
  return n > max ? max : n;
}
Bytes Tape::expand(size_t n) {
  uint64_t s = bits(8);
  Bytes b(n);
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = s == 0 ? 0 : mix64(s + i);
    memcpy(&b[i], &v, n - i < 8 ? n - i : 8);
  }
  return b;
}
Bytes Tape::bytes(size_t n) {
  Bytes b(n);
  if (n == 0) return b;
  unsigned style = (unsigned)range(0, 9);
  if (n > 4096 && style != 7) return expand(n);
  switch (style) {
    case 0:
    case 1:
    case 2:
    case 3:
      for (size_t i = 0; i < n; i += 8) {
        uint64_t v = bits(n - i < 8 ? (unsigned)(n - i) : 8);
        memcpy(&b[i], &v, n - i < 8 ? n - i : 8);
      }
      break;
    case 4: {  // leading run then random
      size_t z = range(0, n);
      uint8_t f = pick({(uint8_t)0, (uint8_t)0, (uint8_t)0xFF, (uint8_t)1});
      for (size_t i = 0; i < n; i++) b[i] = i < z ? f : byte();
      break;
    }
    case 5: {  // trailing run
      size_t z = range(0, n);
      uint8_t f = pick({(uint8_t)0, (uint8_t)0xFF, (uint8_t)0x80});
      for (size_t i = 0; i < n; i++) b[i] = n - i <= z ? f : byte();
      break;
    }
    case 6:  // extreme bytes
      for (size_t i = 0; i < n; i++) {
        static const uint8_t e[8] = {0, 0xFF, 0x80, 0x7F, 1, 0xFE, 0x3D, 0x31};
        b[i] = e[byte() & 7];
      }
      break;
    case 7: {  // constant
      uint8_t f = byte();
      for (auto &x : b) x = f;
      break;
    }
    case 8:  // printable
      for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(32 + byte() % 95);
      break;
    default: {  // short period
      size_t p = range(1, 16);
      for (size_t i = 0; i < n; i++) b[i] = i < p ? byte() : b[i - p];
      break;
    }
  }
  return b;
}
std::string Tape::str_of(size_t n, const std::string &a) {
  std::string s(n, a[0]);
  for (auto &c : s) c = a[range(0, a.size() - 1)];
  return s;
}
uint64_t Tape::edgy64() {
  switch (range(0, 5)) {
    case 0:
      return range(0, 300);
    case 1: {  // around a power of two
      uint64_t p = 1ull << range(0, 63);
      return p + range(0, 8) - 4;
    }
    case 2: {  // random bit width
      unsigned w = (unsigned)range(1, 64);
      uint64_t v = bits(8);
      return w == 64 ? v : v & ((1ull << w) - 1);
    }
    case 3:
      return ~(uint64_t)0 - range(0, 300);
    case 4: {  // sum of base-128 powers (limits of the offset-varint groups)
      uint64_t v = 0, p = 1;
      unsigned k = (unsigned)range(0, 9);
      for (unsigned i = 0; i < k; i++) {
        p <<= 7;
        v += p;
      }
      return v + range(0, 6) - 3;
    }
    default:
      return bits(8);
  }
}
uint64_t Tape::digest() const {
  return hash_bytes(gen_ ? rec_ : data_, gen_ ? pos_ : (pos_ < len_ ? pos_ : len_), 7);
}

// ---- buffers ----------------------------------------------------------------
Buf::Buf(size_t n_, int fill) : p((uint8_t *)::operator new(n_)), n(n_) { memset(p, fill, n); }
Buf::Buf(const Bytes &b) : Buf(b.data(), b.size()) {}
Buf::Buf(const std::string &s) : Buf(s.data(), s.size()) {}
Buf::Buf(const void *d, size_t n_) : p((uint8_t *)::operator new(n_)), n(n_) {
  if (n) memcpy(p, d, n);
}
Buf::~Buf() { ::operator delete(p); }

// ---- statistics ---------------------------------------------------------------
struct Stats {
  uint64_t evals = 0, nontriv = 0, discards = 0;
  std::map<std::string, uint64_t> classes;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  // current case
  bool cur_nt = false, has_key = false;
  uint64_t cur_key = 0;
  std::string cur_sample;
  std::vector<std::string> cur_labels;  // own copies: a label may be a string of the case's
};
static Stats st;
static int g_tier = 0;
static size_t g_maxsamples = 4;
int tier() { return g_tier; }
void classify(const char *l) { st.cur_labels.push_back(l); }
void nontrivial() { st.cur_nt = true; }
void key(const void *p, size_t n) {
  st.cur_key = hash_bytes(p, n, st.has_key ? st.cur_key : 11);
  st.has_key = true;
}
bool want_sample() {
  return st.samples.size() < g_maxsamples && (st.evals < 3 || st.evals % 97 == 0);
}
void sample(const std::string &s) { st.cur_sample = s; }

static bool g_near;  // this case is a small step away from the one before
static void begin_case() {
  st.cur_nt = st.has_key = false;
  st.cur_key = 0;
  st.cur_sample.clear();
  st.cur_labels.clear();
  if (g_near) classify("one step away from the case before");
}
static void end_case(const Tape *t) {
  st.evals++;
  for (size_t i = 0; i < st.cur_labels.size(); i++) {
    bool dup = false;
    for (size_t j = 0; j < i; j++) dup |= st.cur_labels[i] == st.cur_labels[j];
    if (!dup) st.classes[st.cur_labels[i]]++;
  }
  if (st.cur_nt) {
    st.nontriv++;
    if (st.distinct.size() < 4000000)
      st.distinct.insert(st.has_key ? st.cur_key : t ? t->digest() : st.evals);
    if (!st.cur_sample.empty() && st.samples.size() < g_maxsamples) st.samples.push_back(st.cur_sample);
  }
}

static volatile uint64_t g_case_no = 0;
void fixed_case(const char *label, uint64_t k, const std::string &smp) {
  g_case_no = g_case_no + 1;
  st.evals++;
  st.nontriv++;
  st.classes[label]++;
  if (st.distinct.size() < 4000000) st.distinct.insert(mix64(k ^ hash_bytes(label, strlen(label))));
  if (!smp.empty() && st.samples.size() < g_maxsamples && (st.evals < 2 || st.evals % 97 == 0)) st.samples.push_back(smp);
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32 || c > 126) {
      r += sprintf_("\\u%04x", c);
    } else
      r += (char)c;
  }
  return r;
}
static void write_stats(const char *path, const std::string &failmsg) {
  if (!path) return;
  FILE *f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"discards\":%llu,\"distinct\":%zu,\n",
          (unsigned long long)st.evals, (unsigned long long)st.nontriv, (unsigned long long)st.discards,
          st.distinct.size());
  fprintf(f, "\"rule\":\"%s\",\n\"classes\":{", jesc(PBT_RULE).c_str());
  bool first = true;
  for (auto &c : st.classes) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second);
    first = false;
  }
  fprintf(f, "},\n\"samples\":[");
  for (size_t i = 0; i < st.samples.size(); i++)
    fprintf(f, "%s\"%s\"", i ? "," : "", jesc(st.samples[i]).c_str());
  fprintf(f, "],\n\"fail\":\"%s\"}\n", jesc(failmsg).c_str());
  fclose(f);
  std::string hp = std::string(path) + ".hashes";
  f = fopen(hp.c_str(), "wb");
  if (!f) return;
  for (uint64_t h : st.distinct) fwrite(&h, 8, 1, f);
  fclose(f);
}

// run one case; returns false and sets msg on a property failure
static bool run_case(Tape &t, std::string &msg) {
  begin_case();
  try {
    pbt_property(t);
  } catch (Fail &f) {
    msg = f.msg;
    return false;
  } catch (Discard &) {
    st.discards++;
    return true;
  }
  end_case(&t);
  return true;
}

// ---- hang detection: CPU time of one case, or a long time without any CPU time ---
static uint64_t g_last_case = 0;
static int g_ticks = 0;
static int g_hang_limit = 60;  // CPU seconds
static int g_hang_override = 0;
void hang_limit(int cpu_seconds) { g_hang_limit = g_hang_override = cpu_seconds; }
static void on_prof(int) {
  if (g_case_no != g_last_case) {
    g_last_case = g_case_no;
    g_ticks = 0;
    return;
  }
  g_ticks += 2;
  if (g_ticks >= g_hang_limit) {
    static const char m[] = "PBT-HANG: one case used too much CPU time\n";
    if (write(2, m, sizeof m - 1)) {
    }
    _exit(98);
  }
}
static uint64_t g_blocked_case = ~0ull;
static int g_blocked_ticks = 0, g_blocked_limit = 6;  // of 10 s
static double g_blocked_cpu = 0;
static double cpu_now() {
  struct timespec t = {0, 0};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static void on_tick(int) {
  int e = errno;
  double c = cpu_now();
  if (g_case_no != g_blocked_case || c - g_blocked_cpu > 0.3) {
    g_blocked_case = g_case_no;
    g_blocked_ticks = 0;
    g_blocked_cpu = c;
  } else if (++g_blocked_ticks >= g_blocked_limit) {
    static const char m[] = "PBT-HANG: one case is blocked for good\n";
    if (write(2, m, sizeof m - 1)) {
    }
    _exit(98);
  }
  errno = e;
}
static void set_blocked_timer(long s) {
  static timer_t id;
  static pid_t owner = 0;
  if (owner != getpid()) {  // not inherited by a forked child
    struct sigevent ev;
    memset(&ev, 0, sizeof ev);
    ev.sigev_notify = SIGEV_SIGNAL;
    ev.sigev_signo = SIGRTMIN + 6;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGRTMIN + 6, &sa, nullptr);
    if (timer_create(CLOCK_MONOTONIC, &ev, &id)) return;
    owner = getpid();
  }
  g_blocked_case = ~0ull;
  struct itimerspec it = {{s, 0}, {s, 0}};
  timer_settime(id, 0, &it, nullptr);
}
[[maybe_unused]] static void arm_hang() {
  set_blocked_timer(10);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_prof;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it = {{2, 0}, {2, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}
[[maybe_unused]] static void disarm_hang() {
  set_blocked_timer(0);
  struct itimerval it = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}

#ifndef PBT_FUZZ
static Bytes read_file(const char *p) {
  FILE *f = fopen(p, "rb");
  if (!f) {
    fprintf(stderr, "cannot read %s\n", p);
    exit(3);
  }
  Bytes b;
  uint8_t t[65536];
  size_t n;
  while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n);
  fclose(f);
  return b;
}
static void write_file(const char *p, const Bytes &b) {
  FILE *f = fopen(p, "wb");
  if (!f) exit(3);
  if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
  fclose(f);
}

// fork-isolated evaluation of a tape: 0 passes, 1 property failure, 2 crash, 3 hang
static int eval_forked(const Bytes &b) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
    g_hang_limit = g_hang_override ? std::min(g_hang_override, 20) : 20;
    g_blocked_limit = 2;
    g_ticks = 0;
    arm_hang();
    Tape t(b.data(), b.size());
    std::string msg;
    bool ok = run_case(t, msg);
    _exit(ok ? 0 : 10);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) return 0;
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 10) return 1;
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 98) return 3;
  return 2;
}

static int do_shrink(const char *in, const char *out, int budget) {
  Bytes cur = read_file(in);
  int want = eval_forked(cur);
  if (want == 0) return 1;
  time_t t0 = time(nullptr);
  auto over = [&] { return time(nullptr) - t0 > budget; };
  auto attempt = [&](const Bytes &c) {
    if (c == cur) return false;
    if (eval_forked(c) == want) {
      cur = c;
      return true;
    }
    return false;
  };
  // drop the tail
  for (size_t n = cur.size(); n > 0 && !over();) {
    n /= 2;
    Bytes c(cur.begin(), cur.begin() + (cur.size() > n ? cur.size() - n : 0));
    if (n && attempt(c)) n = cur.size();
    if (n == 0) break;
  }
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t w = cur.size() / 2 ? cur.size() / 2 : 1; w >= 1 && !over(); w /= 2) {
      for (size_t i = 0; i + w <= cur.size() && !over();) {
        Bytes c = cur;
        c.erase(c.begin() + i, c.begin() + i + w);
        if (attempt(c)) {
          progress = true;
          continue;
        }
        c = cur;
        bool nz = false;
        for (size_t j = 0; j < w; j++) {
          nz |= c[i + j] != 0;
          c[i + j] = 0;
        }
        if (nz && attempt(c)) progress = true;
        i += w;
      }
      if (w == 1) break;
    }
    for (size_t i = 0; i < cur.size() && !over(); i++) {
      uint8_t lo = 0;
      while (cur[i] > lo && !over()) {
        uint8_t mid = lo + (cur[i] - lo) / 2;
        Bytes c = cur;
        c[i] = mid;
        if (attempt(c))
          progress = true;
        else if (mid == lo)
          break;
        else
          lo = mid + 1 > cur[i] - 1 ? cur[i] : mid + 1;
      }
    }
  }
  while (!cur.empty() && cur.back() == 0) {
    Bytes c(cur.begin(), cur.end() - 1);
    if (!attempt(c)) break;
  }
  write_file(out, cur);
  return 0;
}

static uint64_t case_seed(uint64_t seed, uint64_t stream, uint64_t i) {
  return mix64(mix64(mix64(seed) ^ (stream * 0xD6E8FEB86659FD93ull)) ^ i);
}
#endif

}  // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZ
static const char *g_stats_path = nullptr;
static void at_exit_stats() { write_stats(g_stats_path, ""); }
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  g_stats_path = getenv("PBT_STATS");
  const char *ti = getenv("VERIF_TIER");
  g_tier = ti && !strcmp(ti, "thorough");
  atexit(at_exit_stats);
  pbt_setup();
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  Tape t(data, size);
  std::string msg;
  if (!run_case(t, msg)) {
    fprintf(stderr, "PBT-FAIL: %s\n", msg.c_str());
    abort();
  }
  return 0;
}
#else
int main(int argc, char **argv) {
  uint64_t seed = 1, stream = 0, cases = 0, start = 0;
  const char *shared = nullptr, *stats = nullptr, *replay = nullptr, *shrink = nullptr, *out = nullptr,
             *dump = nullptr;
  int fixed = 0, shard = 0, nshards = 1, budget = 20, repeat = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return argv[++i]; };
    if (a == "--seed")
      seed = strtoull(nx(), 0, 10);
    else if (a == "--stream")
      stream = strtoull(nx(), 0, 10);
    else if (a == "--cases")
      cases = strtoull(nx(), 0, 10);
    else if (a == "--start")
      start = strtoull(nx(), 0, 10);
    else if (a == "--shared")
      shared = nx();
    else if (a == "--stats")
      stats = nx();
    else if (a == "--replay")
      replay = nx();
    else if (a == "--repeat")
      repeat = atoi(nx());
    else if (a == "--shrink")
      shrink = nx();
    else if (a == "--out")
      out = nx();
    else if (a == "--budget")
      budget = atoi(nx());
    else if (a == "--dump")
      dump = nx();
    else if (a == "--fixed")
      fixed = 1;
    else if (a == "--shard") {
      shard = atoi(nx());
      nshards = atoi(nx());
    } else if (a == "--tier")
      g_tier = !strcmp(nx(), "thorough");
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  pbt_setup();
  if (replay) {
    Bytes b = read_file(replay);
    g_case_no = 1;
    g_blocked_limit = 3;
    arm_hang();
    for (int r = 0; r < repeat; r++) {
      g_case_no++;
      Tape t(b.data(), b.size());
      std::string msg;
      g_maxsamples = 1000000;
      if (!run_case(t, msg)) {
        printf("PBT-FAIL: %s\n", msg.c_str());
        return 10;
      }
      if (!st.cur_sample.empty()) printf("case: %s\n", st.cur_sample.c_str());
    }
    printf("PBT-PASS\n");
    return 0;
  }
  if (shrink) return do_shrink(shrink, out, budget);
  if (fixed) {
    begin_case();
    if (!g_hang_override) g_hang_limit = g_tier ? 1500 : 200;  // between two fixed cases
    arm_hang();
    try {
      pbt_fixed(shard, nshards);
    } catch (Fail &f) {
      printf("PBT-FAIL: %s\n", f.msg.c_str());
      disarm_hang();
      write_stats(stats, f.msg);
      return 10;
    }
    disarm_hang();
    write_stats(stats, "");
    return 0;
  }
  // generation
  g_consts_on = true;
  size_t mapsz = TAPE_CAP + 4096;
  uint8_t *m;
  if (shared) {
    int fd = open(shared, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, mapsz)) {
      perror(shared);
      return 3;
    }
    m = (uint8_t *)mmap(nullptr, mapsz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    m = (uint8_t *)mmap(nullptr, mapsz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  if (m == MAP_FAILED) return 3;
  volatile uint64_t *hdr = (volatile uint64_t *)m;  // [0] case index, [1] tape length
  arm_hang();
  for (uint64_t i = start; i < start + cases; i++) {
    hdr[0] = i;
    g_case_no = i + 1;
    std::string msg;
    uint64_t cs = case_seed(seed, stream, i);
    bool ok;
    // one in eight is the case before with a few bytes changed: what was kept from that one must not be taken for this one's
    g_near = i > start && hdr[1] > 0 && mix64(cs + 1) % 8 == 0;
    if (g_near) {
      uint8_t *p = m + 4096;
      uint64_t n = hdr[1], r = mix64(cs + 2);
      for (unsigned k = (r & 7) == 0 ? 0 : (r & 7) < 3 ? 2 : 1; k > 0; k--) {  // none: the same again
        r = mix64(r + 3);
        uint8_t &x = p[(r >> 16) % n];
        if ((r & 7) < 4) x ^= (uint8_t)(1 << (r >> 8 & 7));
        else if ((r & 7) < 6) x = (uint8_t)(r >> 8);
        else x += r & 1 ? 1 : -1;
      }
      Bytes b(p, p + n);
      Tape t(b.data(), b.size());
      ok = run_case(t, msg);
    } else {
      Tape t(cs, m + 4096, TAPE_CAP, hdr + 1);
      ok = run_case(t, msg);
    }
    if (!ok) {
      printf("PBT-FAIL: case %llu: %s\n", (unsigned long long)i, msg.c_str());
      write_stats(stats, msg);
      return 10;
    }
    if (dump && hdr[1] <= 16384)
      write_file(sprintf_("%s/s%llu_%llu", dump, (unsigned long long)stream, (unsigned long long)i).c_str(),
                 Bytes(m + 4096, m + 4096 + hdr[1]));
  }
  disarm_hang();
  hdr[0] = UINT64_MAX;
  write_stats(stats, "");
  return 0;
}
#endif
