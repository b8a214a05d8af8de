#include <fcntl.h>
#include <fingera_libc/hex.h>
#include <sys/mman.h>
#include <unistd.h>
#include <thread>
#include "bigmap.hpp"
#include "medium.hpp"
#include "ref.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "random byte strings of length 0..6000 (biased to multiples of 4/8/16/32 and to the implementation-independent output "
    "sizes around 1000..1024 characters) are dumped with standard output redirected to a memory file; the text is compared "
    "with a model of the layout. A fifth of the cases are histories: up to 5 dumps with the caller's own stdio output between "
    "them, on a standard output with a buffer of 0..5000 bytes or line buffering. Non-trivial: more than one output line. Plus every length 0..1500 in both cases, and "
    "operands of up to 1.5 MiB around powers of two, and of more than 2^32 bytes (a repeated mapping, the text read from a pipe as it appears; optimised build).";
static int cap_fd = -1;
void pbt_setup() { cap_fd = memfd_create("cap", 0); }

static std::string model(const Bytes &b, bool upper) {
  // two digits per byte; before byte i>0 one space per boundary of 4, 8, 16 it sits on; a new
  // line before each multiple of 32; a final newline
  std::string s, h = ref::hexs(b, upper);
  for (size_t i = 0; i < b.size(); i++) {
    if (i) {
      for (size_t m : {4, 8, 16})
        if (i % m == 0) s += ' ';
      if (i % 32 == 0) s += '\n';
    }
    s += h.substr(2 * i, 2);
  }
  return s + "\n";
}
static std::string capture(const Bytes &b, int upper) {
  fflush(stdout);
  if (ftruncate(cap_fd, 0)) _exit(3);
  lseek(cap_fd, 0, SEEK_SET);
  int saved = dup(1);
  dup2(cap_fd, 1);
  {
    Buf in(b);
    fingera_hex_dump(in.p, in.n, upper);
  }
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  off_t n = lseek(cap_fd, 0, SEEK_END);
  std::string s((size_t)n, 0);
  if (n && pread(cap_fd, &s[0], n, 0) != n) _exit(3);
  return s;
}
// several dumps with text of the caller's in between, on a standard output with the caller's buffering
static void history(Tape &t) {
  if (ftruncate(cap_fd, 0)) _exit(3);
  lseek(cap_fd, 0, SEEK_SET);
  int mode = t.pick({_IOFBF, _IOFBF, _IOLBF, _IONBF});
  std::vector<char> buffer(t.pick({1, 16, 100, 1000, 1024, 4096, 5000}));
  size_t steps = t.range(2, 5);
  std::vector<Bytes> data;
  std::vector<int> upper;
  std::vector<std::string> text;
  std::string want, what;
  for (size_t i = 0; i < steps; i++) {
    text.push_back(std::string(t.chance(1, 3) ? 0 : t.range(0, 200), (char)('k' + i)) + (t.chance(1, 3) ? "\n" : ""));
    data.push_back(t.bytes(t.chance(1, 3) ? t.range(0, 40) : t.len(2000, 32)));
    upper.push_back(t.pick({0, 1, 2, 256}));
    want += text.back() + model(data.back(), upper.back() != 0);
    what += sprintf_("%zu characters, dump of %zu bytes; ", text.back().size(), data.back().size());
    key(data.back());
  }
  classify("history of dumps and other output");
  nontrivial();
  if (want_sample()) sample(sprintf_("buffering %d (%zu): ", mode, buffer.size()) + what);
  fflush(stdout);
  int saved = dup(1);
  dup2(cap_fd, 1);
  FILE *old = stdout, *f = fdopen(dup(1), "w");
  if (!f || setvbuf(f, mode == _IONBF ? nullptr : buffer.data(), mode, buffer.size())) _exit(3);
  stdout = f;
  for (size_t i = 0; i < steps; i++) {
    fputs(text[i].c_str(), stdout);
    Buf in(data[i]);
    fingera_hex_dump(in.p, in.n, upper[i]);
  }
  stdout = old;
  fflush(stdout);
  fclose(f);
  dup2(saved, 1);
  close(saved);
  off_t n = lseek(cap_fd, 0, SEEK_END);
  std::string s((size_t)n, 0);
  if (n && pread(cap_fd, &s[0], n, 0) != n) _exit(3);
  if (s != want) {
    size_t i = 0;
    while (i < s.size() && i < want.size() && s[i] == want[i]) i++;
    fail("standard output (buffering %d, %zu bytes) after %sdiffers at offset %zu (length %zu, expected %zu): %s, expected %s", mode, buffer.size(), what.c_str(), i,
         s.size(), want.size(), quote(s.substr(i > 10 ? i - 10 : 0, 40)).c_str(), quote(want.substr(i > 10 ? i - 10 : 0, 40)).c_str());
  }
}
static std::string strip(const std::string &s) {
  std::string r;
  for (char c : s)
    if (c != ' ' && c != '\n') r += c;
  return r;
}
static void check(const Bytes &b, int upper) {
  std::string s = capture(b, upper), want = model(b, upper != 0);
  REQUIRE(strip(s) == ref::hexs(b, upper != 0), "hex_dump of %zu bytes: digits differ: %s", b.size(), quote(s).c_str());
  if (s != want) {
    size_t i = 0;
    while (i < s.size() && i < want.size() && s[i] == want[i]) i++;
    fail("hex_dump of %zu bytes: text differs from the layout at offset %zu (length %zu, expected %zu): %s, expected %s", b.size(), i,
         s.size(), want.size(), quote(s.substr(i > 10 ? i - 10 : 0, 40)).c_str(), quote(want.substr(i > 10 ? i - 10 : 0, 40)).c_str());
  }
}
void pbt_property(Tape &t) {
  if (t.chance(1, 5)) return history(t);
  size_t n = t.chance(1, 4) ? t.range(380, 460) * t.range(1, 8) : t.len(6000, 32);
  Bytes b = t.bytes(n);
  int upper = t.pick({0, 1, -7, 2, 256});
  if (n > 32) nontrivial();
  classify(n == 0 ? "empty" : n <= 32 ? "one line" : n <= 400 ? "several lines" : "more than 1000 characters");
  key(b);
  key(&upper, sizeof upper);
  if (want_sample()) sample(sprintf_("%zu bytes: %s", n, hex(b, 24).c_str()));
  check(b, upper);
}
#if LIB_NDEBUG
static void huge(size_t n, int upper) {
  const size_t CH = 1u << 20;
  BigMap in(n, CH);
  in.random();
  Bytes chunk(in.p, in.p + CH);
  std::string unit = model(chunk, upper != 0);
  unit.pop_back();
  unit += "   \n";  // what stands between byte CH-1 and byte CH
  size_t tail = in.tail_len();
  std::string end = model(Bytes(chunk.begin(), chunk.begin() + tail), upper != 0);
  size_t total = (in.maps - 1) * unit.size() + end.size();
  int fds[2];
  fflush(stdout);
  if (pipe(fds)) _exit(3);
  fcntl(fds[1], F_SETPIPE_SZ, 1 << 20);
  int saved = dup(1);
  dup2(fds[1], 1);
  close(fds[1]);
  size_t got = 0, bad = (size_t)-1;
  std::thread th([&] {
    std::vector<char> b(1 << 20);
    size_t at = 0, whole = (in.maps - 1) * unit.size();
    for (;;) {
      ssize_t r = read(fds[0], b.data(), b.size());
      if (r <= 0) break;
      for (size_t i = 0; i < (size_t)r;) {
        const std::string &s = got + i < whole ? unit : end;
        if (got + i == whole) at = 0;
        if (got + i >= total) {  // more text than expected: do not read it all
          if (bad == (size_t)-1) bad = total;
          break;
        }
        size_t c = std::min(s.size() - at, (size_t)r - i);
        if (bad == (size_t)-1 && memcmp(b.data() + i, s.data() + at, c)) bad = got + i;
        i += c;
        at += c;
        if (at == s.size() && &s == &unit) at = 0;
      }
      got += (size_t)r;
      if (got > total + (1u << 30)) {
        static const char m[] = "PBT-FAIL: hex_dump of a very long buffer does not end\n";
        if (write(saved, m, sizeof m - 1)) {
        }
        _exit(10);
      }
    }
  });
  fingera_hex_dump(in.p, n, upper);
  fflush(stdout);
  dup2(saved, 1);  // closes the pipe's writing end
  th.join();
  close(saved);
  close(fds[0]);
  REQUIRE(bad == (size_t)-1, "hex_dump of %zu bytes: text differs from the layout near offset %zu of %zu", n, bad, total);
  REQUIRE(got == total, "hex_dump of %zu bytes: %zu characters, expected %zu", n, got, total);
  fixed_case(n >> 32 ? "more than 2^32 bytes" : "more than 2^24 bytes", n, sprintf_("%zu bytes, %zu characters", n, total));
}
#endif
void pbt_fixed(int shard, int n) {
  medium_lengths(shard, n, [](const Bytes &b) { check(b, b[0] & 1); });
#if LIB_NDEBUG
  if (shard == 0) {
    double t = cpu_seconds();
    size_t small = ((size_t)1 << 24) + 77, n = ((size_t)1 << 32) + 39;
    huge(small, 0);
    if (!too_slow(cpu_seconds() - t, small, n)) huge(n, 1);
  }
#endif
  for (int len = shard; len <= 1500; len += n) {
    Bytes b(len);
    for (int i = 0; i < len; i++) b[i] = (uint8_t)(i * 7 + len);
    check(b, 0);
    check(b, 1);
    fixed_case("every length 0..1500", len, sprintf_("length %d", len));
  }
}
