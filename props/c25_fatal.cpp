#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fingera_libc/error.h>
#include "pbt.hpp"
using namespace pbt;
const char *const PBT_RULE =
    "fingera_fatal (and the FINGERA_FATAL macro) is called in a forked child with random function and file names, line numbers, messages up to "
    "20000 characters with generated conversions and arguments, and a random errno (0 included), standard error being a pipe, sometimes "
    "after buffered output. What arrives must be the formatted message (composed independently), the location, and, when errno was set, its text and number; the child's exit status must be "
    "non-zero, exit handlers must run, buffered standard output must not be lost (sometimes it cannot be written at all, which must change nothing else), and the call must never return. Non-trivial: at least one conversion.";
void pbt_setup() {}
struct Shared {
  int returned, handler;
};
static Shared *sh;
struct Arg {
  int kind;  // 0 int, 1 string, 2 long hex, 3 unsigned, 4 percent, 5 char, 6 long long, 7 size_t
  int64_t v;
  std::string s;
};
static const char *spec[] = {"%d", "%s", "%lx", "%u", "%%", "%c", "%lld", "%zu"};
// at most four arguments, every one passed as a 64-bit slot (x86-64 passes them alike)
static void call(const std::string &fn, const std::string &file, long line, const std::string &fmt, const std::vector<int64_t> &v) {
  int64_t a[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < v.size() && i < 4; i++) a[i] = v[i];
  switch (v.size()) {
    case 0: fingera_fatal(fn.c_str(), file.c_str(), line, fmt.c_str()); break;
    case 1: fingera_fatal(fn.c_str(), file.c_str(), line, fmt.c_str(), a[0]); break;
    case 2: fingera_fatal(fn.c_str(), file.c_str(), line, fmt.c_str(), a[0], a[1]); break;
    case 3: fingera_fatal(fn.c_str(), file.c_str(), line, fmt.c_str(), a[0], a[1], a[2]); break;
    default: fingera_fatal(fn.c_str(), file.c_str(), line, fmt.c_str(), a[0], a[1], a[2], a[3]);
  }
}
static const int macro_line = __LINE__ + 2;
static void macro_call(int64_t x) {
  FINGERA_FATAL("value %lld", (long long)x);
}
static void drain(int fd, std::string &out) {
  char b[4096];
  ssize_t r;
  while ((r = read(fd, b, sizeof b)) > 0) out.append(b, (size_t)r);
  close(fd);
}
static void check(const std::string &fn, const std::string &file, long line, const std::string &fmt, const std::vector<int64_t> &v, const std::string &text, int err,
                  const std::string &so, bool macro, bool seclosed, bool sofull = false) {
  if (!sh) sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(sh, 0, sizeof *sh);
  int e[2], o[2];
  if (pipe(e) || pipe(o)) _Exit(3);
  // the pipe must hold it all: nobody reads before the child ends
  fcntl(e[1], F_SETPIPE_SZ, 1 << 18);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) _Exit(3);
  if (p == 0) {
    alarm(20);
    if (seclosed) close(2);
    else dup2(e[1], 2);
    if (sofull) {  // what is pending on standard output cannot be written
      int fd = open("/dev/full", O_WRONLY);
      if (fd < 0) _exit(4);
      dup2(fd, 1);
    } else
      dup2(o[1], 1);
    close(e[0]), close(e[1]), close(o[0]), close(o[1]);
    // ends the child inside exit(), before the harness's own handlers
    on_exit([](int st, void *) {
      sh->handler++;
      fflush(stdout);
      _exit(st);
    }, nullptr);
    fputs(so.c_str(), stdout);
    errno = err;
    if (macro) macro_call(v[0]);
    else call(fn, file, line, fmt, v);
    sh->returned = 1;
    _exit(0);
  }
  close(e[1]);
  close(o[1]);
  std::string se, sout;
  drain(e[0], se);
  drain(o[0], sout);
  int st;
  if (waitpid(p, &st, 0) != p) _Exit(3);
  std::string d = sprintf_("fingera_fatal(%s, %s, %ld, %s, %zu arguments) with errno %d", quote(fn, 40).c_str(), quote(file, 40).c_str(), line, quote(fmt, 120).c_str(), v.size(), err);
  REQUIRE(!sh->returned, "%s returned", d.c_str());
  bool sig = WIFSIGNALED(st);
  REQUIRE(!sig || WTERMSIG(st) == SIGABRT, "%s died of signal %d", d.c_str(), WTERMSIG(st));
  REQUIRE(sig || WEXITSTATUS(st) != 0, "%s ended the process with status 0", d.c_str());
  if (!sig) {
    REQUIRE(sh->handler == 1, "%s ended the process without running its exit handlers", d.c_str());
    if (!sofull) REQUIRE(sout == so, "%s: buffered standard output %s became %s", d.c_str(), quote(so, 40).c_str(), quote(sout, 40).c_str());
  }
  if (seclosed) return;
  std::string want = "FATAL " + text + " (" + fn + ")(" + file + ":" + std::to_string(line) + ")\n";
  if (err) want += std::string("\t") + strerror(err) + "(" + std::to_string(err) + ")\n";
  REQUIRE(se == want, "%s printed %s, expected %s", d.c_str(), quote(se, 400).c_str(), quote(want, 400).c_str());
}
void pbt_property(Tape &t) {
  std::string word = "abcdefghijklmnopqrstuvwxyz_/.0123456789 ";
  std::string fn = t.str_of(t.range(1, 40), word), file = t.str_of(t.range(1, t.chance(1, 10) ? 500 : 60), word);
  if (t.chance(1, 10)) fn += "%s%n%d";  // names are not formats
  if (t.chance(1, 10)) file += "%s%n";
  long line = t.chance(1, 3) ? (long)t.edgy64() : (long)t.range(1, 5000);
  std::string fmt, text;
  std::vector<int64_t> v;
  static std::string strs[4];
  unsigned parts = (unsigned)t.range(0, 5);
  size_t longest = t.chance(1, 12) ? 4000 : 60;
  for (unsigned i = 0; i < parts; i++) {
    std::string lit = t.str_of(t.range(0, longest), word + "\n\t\"'\\(){}");
    fmt += lit;
    text += lit;
    int k = (int)t.range(0, 7);
    if (k != 4 && v.size() == 4) continue;
    fmt += spec[k];
    char b[64];
    b[0] = 0;
    int64_t x = (int64_t)t.edgy64();
    switch (k) {
      case 0: snprintf(b, sizeof b, "%d", (int)x); break;
      case 1:
        strs[v.size()] = t.str_of(t.range(0, longest), word + "%");
        text += strs[v.size()];
        x = (int64_t)(intptr_t)strs[v.size()].c_str();
        break;
      case 2: snprintf(b, sizeof b, "%lx", (long)x); break;
      case 3: snprintf(b, sizeof b, "%u", (unsigned)x); break;
      case 4: b[0] = '%', b[1] = 0; break;
      case 5: x = (int64_t)t.range(33, 126); b[0] = (char)x, b[1] = 0; break;
      case 6: snprintf(b, sizeof b, "%lld", (long long)x); break;
      case 7: snprintf(b, sizeof b, "%zu", (size_t)x); break;
    }
    text += b;
    if (k != 4) v.push_back(x);
  }
  if (t.chance(1, 3)) {
    fmt += "!";
    text += "!";
  }
  int err = t.chance(1, 4) ? 0 : (int)t.range(1, 133);
  if (t.chance(1, 16)) err = (int)t.u32() & 0x7fffffff;
  if (t.chance(1, 16)) err = (int)t.range(1, 600) << t.pick({0, 7, 8, 16}) | t.pick({0, 0, 1});
  std::string so = t.chance(1, 3) ? t.str_of(t.range(1, 200), word) : "";
  bool macro = t.chance(1, 10), closed = !macro && t.chance(1, 24), full = !so.empty() && t.chance(1, 4);
  if (macro) {
    fn = "macro_call";
    file = __FILE__;
    int64_t x = (int64_t)t.edgy64();
    v = {x};
    text = sprintf_("value %lld", (long long)x);
    line = macro_line;
  }
  key(text.data(), text.size());
  key(fmt.data(), fmt.size());
  key(&err, sizeof err);
  if (!v.empty()) nontrivial();
  classify(err ? "errno set" : "errno 0");
  if (macro) classify("macro");
  if (closed) classify("standard error closed");
  if (full) classify("pending standard output cannot be written");
  if (text.size() > 1000) classify("long message");
  if (want_sample()) sample(quote(fn, 30) + " " + quote(file, 30) + " " + quote(fmt) + sprintf_(" errno %d", err));
  check(fn, file, line, fmt, v, text, err, so, macro, closed, full);
}
void pbt_fixed(int shard, int n) {
  for (int e = shard; e <= 140; e += n) {
    check("f", "x.c", 1, "m", {}, "m", e, "", false, false);
    check("f", "x.c", 1, "m", {}, "m", e, "pending", false, false, true);
    fixed_case("every errno 0..140", e);
  }
  for (size_t L : {(size_t)0, (size_t)1, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)511, (size_t)512, (size_t)1023, (size_t)1024, (size_t)4095, (size_t)4096, (size_t)8191, (size_t)8192, (size_t)16384, (size_t)32767, (size_t)32768, (size_t)65535, (size_t)65536, (size_t)80000}) {
    if (shard) break;
    std::string s(L, 'q');
    check("f", "x.c", 1, s, {}, s, 0, "", false, false);
    check("f", "x.c", 1, "%s", {(int64_t)(intptr_t)s.c_str()}, s, 5, "out", false, false);
    check(s + "f", s + "x.c", 1, "m", {}, "m", 5, "out", false, false);
    fixed_case("messages and names of chosen lengths", 1000 + L);
  }
}
