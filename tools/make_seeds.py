#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the tables in tools/seeds_*.py (development only; no check reads it)."""
import difflib, glob, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, flags="-O1", libs="-lsecp256k1", srcs=True, cc="gcc", env=""):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, libs=libs, cc=cc, env=env))


for f in sorted(glob.glob(HERE + "/tools/seeds_*.py")):
    exec(open(f).read())

only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only:
        continue
    d = HERE + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for file, old, new in s["edits"]:
        txt = byfile.get(file) or subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + file], text=True)
        assert txt.count(old) == 1, (s["id"], file, old, txt.count(old))
        byfile[file] = txt.replace(old, new)
    for file, new in byfile.items():
        old = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + file], text=True)
        out = []
        for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + file, "b/" + file):
            out.append(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n")
        patch += "".join(out)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.c", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# Run in /repo. Exit 0: the property holds for this demonstration; non-zero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
%s %s -std=gnu99 -w -Iinclude "$here/demo.c" $(find src -name '*.c') %s -lpthread -o "$t/demo" || exit 2
( cd "$t" && %s timeout -k 5 200 ./demo )
rc=$?
rm -f "$t/demo"; rmdir "$t"
exit $rc
""" % (s["cc"], s["flags"], s["libs"], s["env"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
print(len(SEEDS), "seeds")
