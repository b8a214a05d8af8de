#!/usr/bin/env python3
"""Development only: small mechanical changes of the library's sources (operators, constants, conditions, deleted
statements). Those that the project's stable tests do not notice are given to the checks of the file's properties; the
survivors are listed for inspection (equivalent, or a gap). Usage: mutate.py list | tests [--jobs N] | checks [--jobs N] [--scale S] [file...]"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/mutants"
FILES = {
    "src/hex.c": "C01 C02 C21", "src/base64.c": "C03 C21", "src/base32.c": "C04 C12 C21", "src/base58.c": "C05 C06 C23 C28 C29 C22 C21 C30",
    "src/btc/base58_check.c": "C06 C23 C28 C29 C22 C21 C30", "src/btc/bech32.c": "C07 C12 C21 C30 C31", "src/compress_integer.c": "C08 C21",
    "src/hash/sha1.c": "C09 C21", "src/hash/ripemd160.c": "C09 C21", "src/hash/sha2.c": "C09 C10 C11 C23 C21 C22 C29 C30",
    "src/btc/hash.c": "C11 C18 C23 C21 C30", "src/btc/address.c": "C12 C28 C21 C22 C26 C30", "src/btc/key.c": "C13 C14 C15 C16 C17 C18 C20 C23 C28 C22 C21 C26 C30",
    "src/btc/exkey.c": "C19 C18 C23 C28 C22 C21 C26 C30", "src/random.c": "C20 C25 C28", "src/error.c": "C25 C20", "src/cleanse.c": "C24 C23",
    "src/btc/chain_parameters.c": "C12 C13 C19 C26", "include/fingera_libc/endian.h": "C24 C09 C11",
    "include/fingera_libc/sl/buffer.h": "C28 C29 C21 C22 C27 C05 C06 C12", "include/fingera_libc/base32.h": "C04 C21", "include/fingera_libc/base64.h": "C03 C21",
    "include/fingera_libc/base58.h": "C05 C06 C21", "include/fingera_libc/hex.h": "C01 C21", "include/fingera_libc/btc/base58_check.h": "C06 C12 C21",
    "include/fingera_libc/btc/bech32.h": "C07 C12 C21", "include/fingera_libc/btc/address.h": "C12 C21", "include/fingera_libc/btc/key.h": "C14 C15 C17",
    "include/fingera_libc/btc/exkey.h": "C19 C18", "include/fingera_libc/error.h": "C25",
}
OPS = [  # (regex, replacements)
    (r"(?<![<>=!+\-*/%&|^])<=(?!=)", ["<", "=="]), (r"(?<![<>=!\-])>=(?!=)", [">", "=="]), (r"(?<=\s)<(?=\s)", ["<=", "!="]), (r"(?<=\s)>(?=\s)", [">=", "!="]),
    (r"==", ["!=", "<=", ">="]), (r"!=", ["==", "<", ">"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s\d)", ["+"]), (r"<<", [">>"]), (r">>(?!=)", ["<<"]),
    (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&", "^"]), (r"(?<=\s)\^(?=\s)", ["|"]), (r"(?<=\s)%(?=\s)", ["/"]),
    (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["=", "-="]), (r"-=", ["=", "+="]), (r"\|=", ["=", "&="]),
    (r"(?<![\w.\"'])0[xX][0-9a-fA-F]+(?=[uUlL]*\b)", "hexnum"), (r"(?<![\w.\"'])\d+(?=[uUlL]*\b)(?![xX.])", "num"),
    (r"\bsize_t\b(?= \w+ =)", ["uint32_t", "uint16_t", "int"]), (r"\buint64_t\b(?=\)|\s\w+ =)", ["uint32_t"]), (r"\bfor \(size_t i", ["for (uint16_t i", "for (uint32_t i"]),
    (r"\(uint8_t\)|\(unsigned char\)(?=\*|\w)", [""]), (r"!(?=[a-z_]+[\(\w])", [""]), (r"\bunsigned char byte|\bunsigned char c\b", ["char c"]),
    (r"\b1\b(?=;)", ["0"]), (r"\bstatic\b(?= const)", []), (r"\buint8_t (?=\w+\[)", ["static uint8_t "]), (r"\bchar (?=\w+\[)", ["static char "]),
    (r"\bbreak;", ["", "continue;"]), (r"\bmemcmp\b", ["strncmp"]), (r"\bmemmove\b", ["memcpy"]), (r"\btrue\b", ["false"]),
]
STMT = re.compile(r"^\s*(?!return\b|case\b|default\b|break\b|static const|const |typedef|#|extern)[A-Za-z_*(][^;{}]*;\s*(//.*)?$")


def mutants():
    seen = set()
    for f in FILES:
        src = open("/repo/" + f).read()
        lines = src.split("\n")
        incomment = False
        skip_win = 0
        inhash = f.startswith("src/hash")
        for i, l in enumerate(lines):
            t = l.strip()
            if t.startswith("/*"): incomment = True
            if incomment:
                if "*/" in l: incomment = False
                continue
            if t.startswith("//") or t.startswith("*") or t.startswith("#include") or t.startswith("#if") and "ifdef WIN32" not in t or t.startswith("#end") and not skip_win or t.startswith("#pragma") or not t: continue
            if f == "src/random.c" and i < 44: continue
            if f == "src/error.c" and t.startswith("#ifdef WIN32"): skip_win = 1
            if skip_win and t.startswith("#endif"): skip_win = 0
            if skip_win or f.endswith("endian.h") and t.startswith("#"): continue
            if "assert(" in l: continue
            # tables are one-value changes: skip, the checks enumerate them
            if re.fullmatch(r"[\s\-0-9xXa-fA-F,{}'uUlL]*(//.*)?", l): continue
            if inhash and ("ROUND" in l or re.search(r"\b(LL|RR|FF|GG|HH|II|JJ|L1|R1|R\d\d|L\d\d)\(", l)): continue
            code = l.split("//")[0]
            strs = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"])*"', code)]
            cands = []
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    if any(a <= m.start() < b for a, b in strs): continue
                    if reps == "num":
                        v = int(m.group()); rs = [str(v + 1)] + ([str(v - 1)] if v else [])
                        if v > 4: rs.append(str(v * 2))
                    elif reps == "hexnum":
                        v = int(m.group(), 16); rs = [hex(v + 1), hex(v - 1) if v else "0x80", hex(v >> 1)]
                    else:
                        rs = reps
                    for r in rs:
                        cands.append(code[:m.start()] + r + code[m.end():])
            if STMT.match(code): cands.append("  ;")
            m = re.match(r"^(\s*(?:\} else )?(?:if|while) \()(.*)(\) .*|\)\s*\{?\s*)$", code)
            if m: cands += [m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3), m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3)]
            for c in cands:
                if c.strip() == code.strip(): continue
                k = hashlib.sha1(("%s|%d|%s" % (f, i, c)).encode()).hexdigest()[:10]
                if k in seen: continue
                seen.add(k)
                yield dict(id=k, file=f, line=i, old=l, new=c)


def dull(m):
    """Changes that are equivalent for all feasible operands."""
    o, n = m["old"].split("//")[0], m["new"]
    if o.strip() == "size += 8;": return True  # base32.c: not used afterwards
    if re.sub(r"\[\w+\]", "[]", o) == re.sub(r"\[\w+\]", "[]", n): return "[" in o and "const" in o
    for a, b in ((r" < ", " != "), (r" > ", " != "), (r" == ", " <= "), (r" == ", " >= "), (r" != ", " < "), (r" != ", " > "), (r"%(\s\d+) == ", r"%\1 <= "),
                 (" | ", " ^ "), ("size_t i", "uint32_t i"), ("size_t ", "uint32_t "), ("size_t ", "int ")):
        if o.replace(a, b) == n or o.replace(a, b, 1) == n: return True
    return False


def put(root, m):
    p = root + "/" + m["file"]
    lines = open("/repo/" + m["file"]).read().split("\n")
    assert lines[m["line"]] == m["old"]
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))


def restore(root, m):
    shutil.copy("/repo/" + m["file"], root + "/" + m["file"])


TOBJ = None


def test_one(args):
    m, slot = args
    root = "%s/w%s" % (OUT, slot)
    put(root, m)
    try:
        r = subprocess.run("gcc -g -O0 -std=gnu99 -w -I%s/include -c %s/src/*.c %s/src/btc/*.c %s/src/hash/*.c" % (root, root, root, root) if m["file"].endswith(".h") else
                           "gcc -g -O0 -std=gnu99 -w -I%s/include -c %s/%s" % (root, root, m["file"]), shell=True, cwd=root + "/obj", capture_output=True, text=True)
        if r.returncode: return m["id"], "compile"
        if m["file"].endswith(".h"):
            r = subprocess.run("for f in %s/repo/tests/*.cpp %s/repo/tests/btc/*.cpp; do :; done" % (root, root), shell=True)
            r = subprocess.run("ls /repo/tests/*.cpp /repo/tests/btc/*.cpp | xargs -P2 -I{} sh -c 'g++ -O0 -w -std=c++14 -isystem /usr/src/googletest/googletest/include -DGTEST_HAS_PTHREAD=0 -I%s/include -I/repo/tests -c {} -o $(basename {}).t.o'" % root, shell=True, cwd=root + "/obj", capture_output=True, text=True)
            if r.returncode: return m["id"], "compile " + r.stderr[-200:]
            tobjs = " ".join(glob.glob(root + "/obj/*.t.o"))
        else:
            tobjs = TOBJ
        r = subprocess.run("g++ -g %s $(ls *.o | grep -v '\\.t\\.o') /repo/_build/lib/libgtest_main.a /repo/_build/lib/libgtest.a $(ls /repo/_build/lib/libsecp256k1*.a 2>/dev/null) -lsecp256k1 -o t" % tobjs, shell=True, cwd=root + "/obj", capture_output=True, text=True)
        if r.returncode: return m["id"], "link " + r.stderr[-200:]
        try:
            r = subprocess.run([root + "/obj/t"], cwd="/repo/_build/repo/tests", capture_output=True, timeout=30)
        except subprocess.TimeoutExpired:
            return m["id"], "killed (hang)"
        return m["id"], "killed" if r.returncode else "alive"
    finally:
        restore(root, m)
        if not m["file"].endswith(".h"):
            subprocess.run("gcc -g -O0 -std=gnu99 -w -I%s/include -c %s/%s" % (root, root, m["file"]), shell=True, cwd=root + "/obj")
        else:
            subprocess.run("gcc -g -O0 -std=gnu99 -w -I%s/include -c %s/src/*.c %s/src/btc/*.c %s/src/hash/*.c" % (root, root, root, root), shell=True, cwd=root + "/obj")


def slots(jobs):
    global TOBJ
    TOBJ = " ".join(glob.glob("/repo/_build/repo/tests/CMakeFiles/test_fingera.dir/*.o") + glob.glob("/repo/_build/repo/tests/CMakeFiles/test_fingera.dir/btc/*.o"))
    for s in range(jobs):
        root = "%s/w%s" % (OUT, s)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root + "/obj")
        for d in ("src", "include"):
            shutil.copytree("/repo/" + d, root + "/" + d)
        shutil.copy("/repo/CMakeLists.txt", root)
        subprocess.check_call("gcc -g -O0 -std=gnu99 -w -I%s/include -c %s/src/*.c %s/src/btc/*.c %s/src/hash/*.c" % (root, root, root, root), shell=True, cwd=root + "/obj")


def check_one(m, slot, scale):
    root = "%s/w%s" % (OUT, slot)
    put(root, m)
    res = []
    try:
        for c in FILES[m["file"]].split():
            env = dict(os.environ, VERIF_REPO=root, VERIF_SEED="1", VERIF_TIER="quick", PATH=OUT + "/bin:" + os.environ["PATH"])
            v = OUT + "/v%s" % slot
            try:
                r = subprocess.run([sys.executable, v + "/run_check.py", c, "--scale", scale], cwd=v, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res.append(c + ":timeout"); continue
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                return m["id"], c
            if r.returncode != 0:
                res.append("%s:rc%d" % (c, r.returncode))
        return m["id"], "SURVIVED " + " ".join(res)
    finally:
        restore(root, m)


def pool(items, jobs, fn, save):
    import queue, threading
    q = queue.Queue(); lock = threading.Lock()
    for it in items: q.put(it)
    n = [0]

    def work(slot):
        while True:
            try: it = q.get_nowait()
            except queue.Empty: return
            k, v = fn(it, slot)
            with lock:
                n[0] += 1
                save(k, v)
                if n[0] % 50 == 0: print(n[0], "/", len(items), flush=True)
    ts = [threading.Thread(target=work, args=(s,)) for s in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]


if __name__ == "__main__":
    a = sys.argv[1:]
    jobs, scale = 8, "0.3"
    if "--jobs" in a: i = a.index("--jobs"); jobs = int(a[i + 1]); del a[i:i + 2]
    if "--scale" in a: i = a.index("--scale"); scale = a[i + 1]; del a[i:i + 2]
    os.makedirs(OUT, exist_ok=True)
    M = [m for m in mutants() if len(a) < 2 or m["file"] in a[1:]]
    if a[0] == "list":
        from collections import Counter
        print(len(M), Counter(m["file"] for m in M)); sys.exit()
    tf, cfn = OUT + "/tests.json", OUT + "/checks.json"
    T = json.load(open(tf)) if os.path.exists(tf) else {}
    C = json.load(open(cfn)) if os.path.exists(cfn) else {}
    slots(jobs)
    if a[0] == "tests":
        def save(k, v): T[k] = v; (len(T) % 100 == 0) and json.dump(T, open(tf, "w"))
        pool([m for m in M if m["id"] not in T], jobs, lambda m, s: test_one((m, s)), save)
        json.dump(T, open(tf, "w"))
    if a[0] == "checks":
        os.makedirs(OUT + "/bin", exist_ok=True)
        for c in ("gcc", "g++", "clang", "clang++"):
            shutil.copy(HERE + "/tools/cccache.py", OUT + "/bin/" + c)
            os.chmod(OUT + "/bin/" + c, 0o755)
        for s in range(jobs):
            v = OUT + "/v%s" % s
            shutil.rmtree(v, ignore_errors=True)
            shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence", "__pycache__", ".build"))
            h = open(v + "/lib/bigmap.hpp").read()
            open(v + "/lib/bigmap.hpp", "w").write(h.replace("* (double)n < 80)", "* (double)n < 0.5)"))  # no huge operands here
        def save(k, v):
            C[k] = v; json.dump(C, open(cfn, "w"))
            if v.startswith("SURV"):
                m = [x for x in M if x["id"] == k][0]
                print("%s %s %s:%d\n  - %s\n  + %s" % (v, k, m["file"], m["line"] + 1, m["old"].strip(), m["new"].strip()), flush=True)
        M.sort(key=lambda m: m["id"])  # any part of the list is a sample
        pool([m for m in M if T.get(m["id"]) == "alive" and m["id"] not in C and not dull(m)], jobs, lambda m, s: check_one(m, s, scale), save)
