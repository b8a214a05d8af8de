#!/usr/bin/env python3
"""Development only (used by mutate.py): a compiler that remembers object files by the contents of everything below the include
directories and of the source. Installed under the compilers' names in a directory put first in PATH."""
import glob, hashlib, os, shutil, sys
name = os.path.basename(sys.argv[0])
real = "/usr/bin/" + name
a = sys.argv[1:]
if "-c" not in a or "-o" not in a:
    os.execv(real, [real] + a)
o = a[a.index("-o") + 1]
h = hashlib.sha256(name.encode())
rest = [x for i, x in enumerate(a) if x != "-o" and (i == 0 or a[i - 1] != "-o")]
import re
h.update(re.sub(r"/tmp/mutants/([vw])\d", r"/tmp/mutants/\1", "\0".join(rest)).encode())
files = [x for x in rest if x.endswith((".c", ".cpp")) and os.path.exists(x)]
for d in [x[2:] for x in rest if x.startswith("-I") and x[2:].startswith("/tmp/mutants")]:
    files += sorted(glob.glob(d + "/**/*.h", recursive=True) + glob.glob(d + "/**/*.hpp", recursive=True))
for f in files:
    h.update(open(f, "rb").read())
c = os.environ.get("CCCACHE", "/tmp/mutants/cc")
k = c + "/" + h.hexdigest()[:40]
if os.path.exists(k):
    shutil.copy(k, o)
    sys.exit(0)
import subprocess
r = subprocess.run([real] + a).returncode
if r == 0:
    os.makedirs(c, exist_ok=True)
    shutil.copy(o, k + ".%d" % os.getpid())
    os.rename(k + ".%d" % os.getpid(), k)
sys.exit(r)
