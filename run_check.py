#!/usr/bin/env python3
"""Build one property's harness against /repo's current working tree and run it.

  run_check.py C05                  run the check (VERIF_SEED, VERIF_TIER from the environment)
  run_check.py C05 --tier thorough
  run_check.py C05 --replay FILE    re-run one replay file (exit 1 if it still fails)

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 2: the check itself could not run (build failure, missing tool).
"""
import argparse, base64, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile
import threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, DEFAULTS  # noqa: E402

NCPU = min(8, os.cpu_count() or 4)
# what gcc 13, which builds the project, only warns about
LENIENT = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types"]
CLANG, CLANGXX, GCC, GXX = "clang", "clang++", "gcc", "g++"

ENV = dict(os.environ)
ENV.update(
    HOME="/tmp", LANG="C.UTF-8",
    LD_BIND_NOW="1",  # lazy binding spills registers, and with them secrets, to the stack (C23)
    ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=77:abort_on_error=0:handle_abort=0:"
                 "detect_stack_use_after_return=0:max_allocation_size_mb=8192:print_legend=0",
    UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=1",
    TSAN_OPTIONS="allocator_may_return_null=1:halt_on_error=1:exitcode=77:report_thread_leaks=0",
)
for k in ("LD_PRELOAD", "MALLOC_PERTURB_", "MALLOC_CHECK_"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def repo_sources():
    """The library's sources: what CMakeLists.txt lists, else every .c below src."""
    allc = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
    try:
        txt = re.sub(r"#.*", "", open(REPO + "/CMakeLists.txt").read())
        m = re.search(r"add_library\s*\(\s*fingera_libc\b(.*?)\)", txt, re.S)
        listed = [REPO + "/" + w for w in m.group(1).split() if w.endswith(".c")]
        if listed and "${" not in m.group(1) and all(os.path.exists(p) for p in listed):
            return sorted(set(listed))
    except Exception:
        pass
    return allc


VARIANTS = {
    # asserts on (as the project's own Debug build), memory errors visible, coverage for libFuzzer
    "asan": dict(cc=CLANG, cxx=CLANGXX, defs=["-DLIB_NDEBUG=0"],
                 c=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,fuzzer-no-link",
                    "-fno-sanitize-recover=all"],
                 x=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
                 l=["-fsanitize=address,bounds"]),
    # release build: asserts compiled out, optimised, automatic variables start as 0xFE.. patterns; -fwrapv so that a
    # counter that overflows behaves as in the project's unoptimised build
    "rel": dict(cc=GCC, cxx=GXX, defs=["-DLIB_NDEBUG=1"],
                c=["-O2", "-g1", "-DNDEBUG", "-fwrapv", "-ftrivial-auto-var-init=pattern"],
                x=["-O1", "-g1"], l=[]),
    # the project's own build type: no optimisation, asserts on
    "dbg": dict(cc=GCC, cxx=GXX, defs=["-DLIB_NDEBUG=0"], c=["-O0", "-g1"], x=["-O1", "-g1"], l=[]),
    "tsan": dict(cc=CLANG, cxx=CLANGXX, defs=["-DLIB_NDEBUG=0", "-DPBT_TSAN"],
                 c=["-O1", "-g1", "-fsanitize=thread"], x=["-O1", "-g1", "-fsanitize=thread"],
                 l=["-fsanitize=thread"]),
}


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)


# name, source, character set; built for checks with a "locales" key (few systems have them installed)
LOCALES = [("tr_TR", "ISO-8859-9"), ("tr_TR", "UTF-8"), ("az_AZ", "UTF-8"), ("de_DE", "ISO-8859-1"), ("ru_RU", "KOI8-R"),
           ("ja_JP", "EUC-JP"), ("zh_CN", "GB18030"), ("lt_LT", "UTF-8")]


def build_locales(work):
    d = os.path.join(work, "locales")
    os.makedirs(d)
    ENV["LOCPATH"] = d

    def one(l):
        try:
            subprocess.run(["localedef", "-c", "--no-archive", "-i", l[0], "-f", l[1], "%s/%s.%s" % (d, l[0], l[1])],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        except Exception:
            pass  # the check goes on with the locales there are
    return [lambda l=l: one(l) for l in LOCALES]


def build(pid, cfg, work, variants, want_fuzz):
    srcs = repo_sources()
    if not srcs:
        raise BuildError("no sources found in %s/src" % REPO)
    jobs = []
    objs = {}
    for v in variants:
        V = VARIANTS[v]
        d = os.path.join(work, v)
        os.makedirs(d)
        objs[v] = []
        lib_extra = cfg.get("lib_cflags", [])
        for s in srcs:
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs[v].append(o)
            jobs.append([V["cc"], "-std=gnu99", "-w", "-fPIC", "-I" + REPO + "/include"] + (LENIENT if V["cc"] == CLANG else []) + V["c"] + lib_extra + ["-c", s, "-o", o])
        xf = ["-std=c++17", "-w", "-fPIC", "-I" + HERE + "/lib", "-I" + REPO + "/include"] + V["x"] + V["defs"] + cfg.get("cxxflags", [])
        for s in [HERE + "/lib/pbt.cpp", HERE + "/props/" + cfg["src"]]:
            jobs.append([V["cxx"]] + xf + ["-c", s, "-o", os.path.join(d, os.path.basename(s) + ".o")])
        if v == "asan" and want_fuzz:
            jobs.append([V["cxx"]] + xf + ["-DPBT_FUZZ", "-c", HERE + "/lib/pbt.cpp", "-o", os.path.join(d, "pbt_fuzz.o")])
    sides = []  # other builds of the library, as shared objects with the harness's calls (cfg "sides")
    for name, (cc, flags, ubflags) in cfg.get("sides", {}).items():
        d = os.path.join(work, "side_" + name)
        os.makedirs(d)
        os.makedirs(os.path.join(work, "sides"), exist_ok=True)
        so = [os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o") for s in srcs]
        jobs += [[cc, "-std=gnu99", "-w", "-fPIC", "-fvisibility=hidden", "-I" + REPO + "/include"] + (LENIENT if cc == CLANG else []) + flags + ubflags + ["-c", s, "-o", o] for s, o in zip(srcs, so)]
        x = os.path.join(d, "side.o")
        cxx = {GCC: GXX, CLANG: CLANGXX}[cc]
        jobs.append([cxx, "-std=c++17", "-w", "-fPIC", "-fvisibility=hidden", "-I" + HERE + "/lib", "-I" + REPO + "/include"] + flags +
                    ["-c", HERE + "/props/" + cfg["side_src"], "-o", x])
        sides.append([cxx, "-shared", "-Wl,-Bsymbolic"] + so + [x, "-o", os.path.join(work, "sides", name + ".so")])
    if sides:
        ENV["PBT_SIDES"] = os.path.join(work, "sides")
    jobs.sort(key=lambda j: 0 if any("props/" in a for a in j) else 1)

    def one(j):
        r = run_cmd(j)
        if r.returncode:
            raise BuildError(" ".join(j) + "\n" + r.stdout[-4000:])
    extra = build_locales(work) if cfg.get("locales") else []
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: one(j) if isinstance(j, list) else j(), jobs + extra))
    bins = {}
    libs = cfg.get("libs", ["-lsecp256k1", "-lcrypto"]) + ["-lpthread", "-ldl"]
    links = [l + libs for l in sides]
    for v in variants:
        V = VARIANTS[v]
        d = os.path.join(work, v)
        prop = os.path.join(d, cfg["src"] + ".o")
        bins[v] = os.path.join(d, "prop")
        links.append([V["cxx"]] + V["l"] + [os.path.join(d, "pbt.cpp.o"), prop] + objs[v] + ["-o", bins[v]] + cfg.get("ldflags", []) + libs)
        if v == "asan" and want_fuzz:
            bins["fuzz"] = os.path.join(d, "fuzz")
            links.append([V["cxx"], "-fsanitize=address,bounds,fuzzer", os.path.join(d, "pbt_fuzz.o"), prop] + objs[v] +
                         ["-o", bins["fuzz"]] + cfg.get("ldflags", []) + libs)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, links))
    return bins


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Stop(Exception):
    pass


class Runner:
    def __init__(self, pid, cfg, tier, seed, work):
        self.pid, self.cfg, self.tier, self.seed, self.work = pid, cfg, tier, seed, work
        self.procs = set()
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.fails = []      # dicts
        self.stats = []      # (stage, dict, hashes path)
        self.notes = []
        self.incomplete = 0
        self.deadline = time.time() + (600 if tier == "quick" else cfg.get("thorough_deadline", 3600))

    def spawn(self, cmd, log, env=None):
        e = dict(ENV)
        e["VERIF_TIER"] = self.tier
        if env:
            e.update(env)
        with open(log, "wb") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e,
                                 preexec_fn=limits, cwd=self.work)
        with self.lock:
            self.procs.add(p)
        try:
            while True:
                try:
                    return p.wait(timeout=0.2)
                except subprocess.TimeoutExpired:
                    if self.stop.is_set() or time.time() > self.deadline:
                        self.kill(p)
                        p.wait()
                        return None
        finally:
            with self.lock:
                self.procs.discard(p)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass

    def message(self, log, rc):
        txt = open(log, errors="replace").read()
        m = re.findall(r"PBT-FAIL: (.*)", txt)
        if m:
            return m[-1][:2000]
        for pat in (r"(.*Assertion .* failed.*)", r"(SUMMARY: .*)", r"(.*runtime error: .*)", r"(WARNING: ThreadSanitizer.*)",
                    r"(PBT-HANG: .*)", r"(ERROR: .*)", r"(FATAL .*)"):
            m = re.findall(pat, txt)
            if m:
                extra = re.findall(r"(ERROR: AddressSanitizer.*)", txt)
                return ((extra[0] + " | ") if extra and extra[0] != m[-1] else "") + m[-1][:1000]
        return "process ended with %s" % ("signal %d" % -rc if rc is not None and rc < 0 else "status %s" % rc)

    def load_stats(self, stage, path):
        try:
            d = json.load(open(path))
        except Exception:
            return
        with self.lock:
            self.stats.append((stage, d, path + ".hashes"))

    # -- stages -------------------------------------------------------------------
    def task_cases(self, variant, binp, stream, cases, wi, chunk_start):
        tag = "%s_%d" % (variant, wi)
        shared = os.path.join(self.work, tag + ".tape")
        stats = os.path.join(self.work, tag + ".json")
        log = os.path.join(self.work, tag + ".log")
        cmd = [binp, "--seed", str(self.seed), "--stream", str(stream), "--start", str(chunk_start), "--cases", str(cases),
               "--shared", shared, "--stats", stats, "--tier", self.tier]
        rc = self.spawn(cmd, log)
        if rc is None:
            self.incomplete += 1
            return
        self.load_stats("random/" + variant, stats)
        if rc == 0:
            return
        if rc == 3:
            raise BuildError("harness error in %s: %s" % (tag, open(log, errors="replace").read()[-1500:]))
        with open(shared, "rb") as f:
            idx, ln = struct.unpack("<QQ", f.read(16))
            f.seek(4096)
            tape = f.read(ln)
        self.report(dict(kind="tape", variant=variant, tape=tape, rc=rc, msg=self.message(log, rc), log=log,
                         history=dict(stream=stream, start=chunk_start, index=idx)))

    def task_fixed(self, variant, binp, shard, n):
        tag = "%s_fixed%d" % (variant, shard)
        stats = os.path.join(self.work, tag + ".json")
        log = os.path.join(self.work, tag + ".log")
        rc = self.spawn([binp, "--fixed", "--shard", str(shard), str(n), "--seed", str(self.seed), "--stats", stats, "--tier", self.tier], log)
        if rc is None:
            self.incomplete += 1
            return
        self.load_stats("fixed/" + variant, stats)
        if rc == 0:
            return
        if rc == 3:
            raise BuildError("harness error in %s: %s" % (tag, open(log, errors="replace").read()[-1500:]))
        self.report(dict(kind="fixed", variant=variant, shard=[shard, n], rc=rc, msg=self.message(log, rc), log=log))

    def task_fuzz(self, binp, seeds, wi, runs):
        tag = "fuzz_%d" % wi
        corpus = os.path.join(self.work, tag + ".corpus")
        os.makedirs(corpus)
        art = os.path.join(self.work, tag + ".art_")
        stats = os.path.join(self.work, tag + ".json")
        log = os.path.join(self.work, tag + ".log")
        dirs = [corpus] + ([seeds] if seeds else [])
        fseed = (self.seed * 1000 + wi + 1) % (2 ** 31 - 1) or 1
        cmd = [binp] + dirs + ["-runs=%d" % runs, "-seed=%d" % fseed, "-max_len=%d" % self.cfg.get("fuzz_max_len", 2048),
                               "-len_control=20", "-artifact_prefix=" + art, "-timeout=300", "-rss_limit_mb=0",
                               "-detect_leaks=0", "-print_final_stats=1", "-reload=0", "-use_value_profile=%d" % (wi & 1)]
        rc = self.spawn(cmd, log, {"PBT_STATS": stats})
        if rc is None:
            self.incomplete += 1
            return
        self.load_stats("libFuzzer", stats)
        if rc == 0:
            txt = open(log, errors="replace").read()
            m = re.findall(r"cov: (\d+) ft: (\d+)", txt)
            if m:
                with self.lock:
                    self.notes.append("libFuzzer worker %d: %d edges, %d features" % (wi, int(m[-1][0]), int(m[-1][1])))
            return
        arts = glob.glob(art + "*")
        if not arts:
            raise BuildError("libFuzzer stopped with %s without an input: %s" % (rc, open(log, errors="replace").read()[-1500:]))
        tape = open(arts[0], "rb").read()
        self.report(dict(kind="tape", variant="asan", tape=tape, rc=rc, msg=self.message(log, rc), log=log, fuzz=True))

    def report(self, f):
        with self.lock:
            self.fails.append(f)
        self.stop.set()

    def pool(self, tasks):
        errs = []

        def go(t):
            if self.stop.is_set():
                return
            try:
                t()
            except BuildError as e:
                errs.append(e)
                self.stop.set()
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(go, tasks))
        if self.fails:
            return
        if errs:
            raise errs[0]


def replay_once(binp, tape_path, tier, repeat=1, timeout=900):
    e = dict(ENV)
    e["VERIF_TIER"] = tier
    try:
        r = subprocess.run([binp, "--replay", tape_path, "--repeat", str(repeat), "--tier", tier], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=e, preexec_fn=limits, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, ""
    return r.returncode, r.stdout.decode(errors="replace")


def msg_of(out, rc):
    m = re.findall(r"PBT-FAIL: (.*)", out)
    if m:
        return m[-1][:2000]
    for pat in (r"(.*Assertion .* failed.*)", r"(ERROR: AddressSanitizer.*)", r"(.*runtime error: .*)", r"(WARNING: ThreadSanitizer.*)",
                r"(PBT-HANG: .*)", r"(FATAL .*)"):
        m = re.findall(pat, out)
        if m:
            return m[0][:1000]
    return "process ended with %s" % rc


def confirm_and_write(R, bins, f, work):
    """Replay 3 times, shrink, write the replay file. Returns (path, message) or None if not confirmed."""
    cfg = R.cfg
    rep = dict(property=R.pid, variant=f["variant"], kind=f["kind"], seed=R.seed, tier=R.tier)
    binp = bins[f["variant"]]
    msg = f["msg"]
    repeat = cfg.get("replay_repeat", 1)
    if f["kind"] == "tape":
        tp = os.path.join(work, "fail.tape")
        open(tp, "wb").write(f["tape"])
        bad = 0
        out = ""
        for _ in range(3):
            rc, o = replay_once(binp, tp, R.tier, repeat)
            if rc not in (0, 3, None):
                bad += 1
                out, lastrc = o, rc
        if bad == 3:
            sp = os.path.join(work, "shrunk.tape")
            if not cfg.get("no_shrink"):
                try:
                    subprocess.run([binp, "--shrink", tp, "--out", sp, "--budget", "25", "--tier", R.tier], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, env=ENV, preexec_fn=limits, timeout=180)
                except subprocess.TimeoutExpired:
                    pass
            use = tp
            if os.path.exists(sp):
                rc, o = replay_once(binp, sp, R.tier, repeat)
                if rc not in (0, 3, None):
                    use, out, lastrc = sp, o, rc
            rep.update(tape=open(use, "rb").read().hex(), original_bytes=len(f["tape"]))
            msg = msg_of(out, lastrc)
        elif "history" in f:
            # depends on the process's history: replay the deterministic stream of cases up to the failing one
            h = f["history"]
            ok = 0
            for _ in range(3):
                log = os.path.join(work, "hist.log")
                p = subprocess.run([binp, "--seed", str(R.seed), "--stream", str(h["stream"]), "--start", str(h["start"]), "--cases",
                                    str(h["index"] - h["start"] + 1), "--tier", R.tier], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, env=ENV, preexec_fn=limits)
                if p.returncode not in (0, 3):
                    ok += 1
            if ok < (3 if not cfg.get("schedules") else 1) and bad == 0:
                return None
            rep.update(kind="history", history=h, tape=f["tape"].hex())
        elif bad == 0:
            return None
        else:
            rep.update(tape=f["tape"].hex())
    else:
        sh = f["shard"]
        ok = 0
        for _ in range(1 if cfg.get("slow_fixed") or f["rc"] == 98 else 2):
            p = subprocess.run([binp, "--fixed", "--shard", str(sh[0]), str(sh[1]), "--seed", str(R.seed), "--tier", R.tier],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, preexec_fn=limits)
            if p.returncode not in (0, 3):
                ok += 1
        if not ok:
            return None
        rep.update(shard=sh)
    rep["message"] = msg
    rep["log_tail"] = open(f["log"], errors="replace").read()[-3000:]
    rep["rerun"] = "python3 /verif/run_check.py %s --replay <this file>" % R.pid
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(HERE, "replays", "%s-%s.json" % (R.pid, h))
    json.dump(rep, open(path, "w"), indent=1)
    return path, msg


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def selftest():
    """setup_cmd: nothing is prebuilt (every check builds from /repo's tree); make sure that it can be."""
    with tempfile.TemporaryDirectory() as d:
        src = d + "/t.cpp"
        open(src, "w").write("#include <openssl/evp.h>\n#include <secp256k1_recovery.h>\n"
                             "extern \"C\" int LLVMFuzzerTestOneInput(const unsigned char*,unsigned long){return EVP_sha256()==nullptr;}\n"
                             "#ifndef FZ\nint main(){}\n#endif\n")
        for cmd in ([GXX, src], [CLANGXX, "-fsanitize=address,bounds", src], [CLANGXX, "-fsanitize=thread", src],
                    [CLANGXX, "-DFZ", "-fsanitize=address,fuzzer", src]):
            r = run_cmd(cmd + ["-o", d + "/t", "-lsecp256k1", "-lcrypto"])
            if r.returncode:
                print("missing tool: %s\n%s" % (" ".join(cmd), r.stdout))
                return 2
    if not repo_sources():
        print("no sources in " + REPO)
        return 2
    print("ok")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the tools the checks need are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the case counts (development)")
    a = ap.parse_args()
    if a.selftest:
        sys.exit(selftest())
    pid = a.property
    if pid not in CHECKS:
        ap.error("unknown property %s" % pid)
    cfg = dict(DEFAULTS)
    cfg.update(CHECKS[pid])
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed &= (1 << 63) - 1
    t0 = time.time()
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, ".build"))
    try:
        rc = run(a, pid, cfg, tier, seed, work, t0)
    except BuildError as e:
        print("ERROR property=%s the check could not run: %s" % (pid, e), flush=True)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, cfg, tier, seed, work, t0):
    T = dict(cfg["quick"])
    if tier == "thorough":
        T = dict(cfg["thorough"]) if "thorough" in cfg else {k: (v * cfg["thorough_factor"] if k != "fixed" else v) for k, v in T.items()}
    variants = [v for v in VARIANTS if T.get(v) or v in cfg.get("fixed_variants", [])]
    fuzz_runs = int(T.get("fuzz", 0) * a.scale)
    if fuzz_runs and "asan" not in variants:
        variants.append("asan")
    if a.replay:
        rep = json.load(open(a.replay))
        bins = build(pid, cfg, work, [rep["variant"]], False)
        binp = bins[rep["variant"]]
        if rep["kind"] == "tape":
            tp = os.path.join(work, "r.tape")
            open(tp, "wb").write(bytes.fromhex(rep["tape"]))
            rc, out = replay_once(binp, tp, rep["tier"], cfg.get("replay_repeat", 1))
        elif rep["kind"] == "history":
            h = rep["history"]
            p = subprocess.run([binp, "--seed", str(rep["seed"]), "--stream", str(h["stream"]), "--start", str(h["start"]), "--cases",
                                str(h["index"] - h["start"] + 1), "--tier", rep["tier"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            rc, out = p.returncode, p.stdout.decode(errors="replace")
        else:
            p = subprocess.run([binp, "--fixed", "--shard", str(rep["shard"][0]), str(rep["shard"][1]), "--seed", str(rep["seed"]), "--tier", rep["tier"]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            rc, out = p.returncode, p.stdout.decode(errors="replace")
        print(out[-4000:])
        if rc in (3, None):
            return 2
        if rc:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("replay passes")
        return 0

    bins = build(pid, cfg, work, variants, fuzz_runs > 0)
    t_build = time.time() - t0
    known = known_findings(pid)
    notes = []
    for attempt in range(3):
        w = os.path.join(work, "run%d" % attempt)
        os.makedirs(w)
        R = explore(cfg, a, pid, tier, seed, w, T, bins, fuzz_runs)
        R.notes += notes
        rc = 0
        nviol = 0
        vio_lines = []
        unconfirmed = False
        for f in R.fails:
            if f["rc"] == 3:
                raise BuildError("harness error: " + f["msg"])
            c = confirm_and_write(R, bins, f, w)
            if c is None:
                unconfirmed = True
                R.notes.append("unconfirmed: %s" % f["msg"])
                print("NOTE property=%s a failure did not reproduce and is not reported: %s" % (pid, f["msg"]))
                continue
            path, msg = c
            if any(re.search(k, msg) for k, _ in known):
                R.notes.append("known finding seen: " + msg)
                continue
            nviol += 1
            rc = 1
            vio_lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("%s [%s]: %s" % (pid, f["variant"], msg))
            break
        if rc or not unconfirmed:
            break
        notes = R.notes  # the search stopped early for nothing: once more
    ev = evidence(R, cfg, pid, tier, seed, t0, t_build, nviol)
    if rc == 0 and ev["coverage"]["evaluations"] == 0:
        raise BuildError("nothing was evaluated")
    for _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for l in vio_lines:
        print(l, flush=True)
    if rc == 0:
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return rc


def explore(cfg, a, pid, tier, seed, work, T, bins, fuzz_runs):
    R = Runner(pid, cfg, tier, seed, work)
    tasks = []
    # fixed parts first (they may be long), then the random streams, 4 workers per variant
    for v in cfg.get("fixed_variants", []):
        n = cfg.get("fixed_shards", 1)
        for s in range(n):
            tasks.append(lambda v=v, s=s, n=n: R.task_fixed(v, bins[v], s, n))
    wi = 0
    for vi, v in enumerate(VARIANTS):
        total = int(T.get(v, 0) * a.scale)
        if not total:
            continue
        nw = cfg.get("workers", 4)
        chunks = cfg.get("chunks", 2)
        per = max(1, -(-total // (nw * chunks)))
        for k in range(nw * chunks):
            tasks.append(lambda v=v, k=k, per=per, vi=vi, w=wi: R.task_cases(v, bins[v], vi + 1, per, w, k * per))
            wi += 1
    nfix = len(cfg.get("fixed_variants", [])) * cfg.get("fixed_shards", 1)
    rnd = tasks[nfix:]
    # interleave so that a shallow failure of any variant is found early
    R.pool(tasks[:nfix] + rnd[0::2] + rnd[1::2])
    if fuzz_runs and not R.fails and time.time() < R.deadline:
        seeds = os.path.join(work, "seeds")
        os.makedirs(seeds)
        subprocess.run([bins["asan"], "--seed", str(seed), "--stream", "1", "--cases", str(cfg.get("fuzz_seeds", 200)), "--dump", seeds, "--tier", tier],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, preexec_fn=limits, timeout=300)
        nw = cfg.get("fuzz_workers", 6)
        # one worker starts from an empty corpus
        R.pool([lambda w=w: R.task_fuzz(bins["fuzz"], None if w == 0 else seeds, w, max(1, fuzz_runs // nw)) for w in range(nw)])

    return R


def evidence(R, cfg, pid, tier, seed, t0, t_build, nviol):
    evals = nontriv = disc = 0
    classes = {}
    stages = {}
    samples = []
    hashes = set()
    rule = ""
    for stage, d, hp in R.stats:
        evals += d["evaluations"]
        nontriv += d["nontrivial"]
        disc += d["discards"]
        rule = d["rule"]
        s = stages.setdefault(stage, dict(evaluations=0, nontrivial=0))
        s["evaluations"] += d["evaluations"]
        s["nontrivial"] += d["nontrivial"]
        for k, v in d["classes"].items():
            classes[k] = classes.get(k, 0) + v
        per = [x for y, x in samples if y == stage]
        for x in d["samples"]:
            if len(per) < 4 and x[:600] not in per:
                per.append(x[:600])
                samples.append((stage, x[:600]))
        if os.path.exists(hp) and len(hashes) < 20_000_000:
            b = open(hp, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    if len(classes) > 300:
        classes = dict(sorted(classes.items(), key=lambda x: -x[1])[:300])
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=rule, samples=["%s: %s" % x for x in samples] or ["(no sample recorded)"],
                            nontrivial=nontriv, discarded=disc, classes=classes, stages=stages, notes=R.notes,
                            unfinished_tasks=R.incomplete, build_s=round(t_build, 1)),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    return ev


if __name__ == "__main__":
    main()
