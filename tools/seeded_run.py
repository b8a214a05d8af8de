#!/usr/bin/env python3
"""Development only: for every seeded bug, in a scratch copy mounted over /repo in a namespace of its own, confirm that
the demo passes on the clean tree, that the patched tree builds and passes the stable tests, that the demo then fails,
and see which check(s) report it. Usage: seeded_run.py [--all] [--jobs N] [id...]; results go to tools/seeded_results.json."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = HERE + "/tools/seeded_results.json"
BASE = json.load(open("/opt/vp/BASELINE.json"))

SCRIPT = r'''
set -u
mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif
cd /repo
d=$W/seed/demo.sh
$d >$W/demo0.log 2>&1; echo "demo_clean=$?"
git apply $W/seed/patch.diff 2>&1 || echo noapply
bash /opt/vp/build.sh >$W/build.log 2>&1; echo "build=$?"
bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; echo "test=$?"
$d >$W/demo1.log 2>&1; echo "demo_bug=$?"
for c in $CHECKS; do
  s=$(date +%s); cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run_check.py $c --tier quick >$W/$c.log 2>&1; r=$?
  v=$(grep -c "^VIOLATION property=$c " $W/$c.log); echo "check $c rc=$r v=$v t=$(( $(date +%s) - s ))"
done
'''


def one(sid, allc):
    W = "/tmp/seedrun.%s" % sid
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
    shutil.copytree(HERE, W + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence", "__pycache__"))
    shutil.copytree(HERE + "/seeded/" + sid, W + "/seed")
    prop = json.load(open(W + "/seed/meta.json"))["property"]
    checks = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")] if allc else [prop]
    env = dict(os.environ, W=W, CHECKS=" ".join(checks))
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT], env=env, capture_output=True, text=True)
    r = dict(prop=prop, raw=p.stdout + p.stderr, checks={})
    for l in p.stdout.splitlines():
        if l.startswith("check "):
            f = l.split()
            r["checks"][f[1]] = dict(x.split("=") for x in f[2:])
        elif "=" in l and " " not in l:
            k, v = l.split("=")
            r[k] = v
    try:
        t = json.load(open(W + "/t.json"))
        r["tests_ok"] = all(x in t["passed"] for x in (BASE.get("stable") or BASE.get("stable_pass") or BASE.get("passed") or []))
    except Exception as e:
        r["tests_ok"] = repr(e)
    r["counts"] = r.get("demo_clean") == "0" and r.get("build") == "0" and r["tests_ok"] is True and r.get("demo_bug") not in (None, "0")
    r["caught"] = sorted(c for c, x in r["checks"].items() if x["rc"] == "1" and x["v"] != "0")
    if not r["counts"] or prop not in r["caught"]:
        for f in ("demo0", "demo1", "build", "test", prop):
            if os.path.exists("%s/%s.log" % (W, f)):
                r["log_" + f] = open("%s/%s.log" % (W, f), errors="replace").read()[-400:]
    shutil.rmtree(W, ignore_errors=True)
    return sid, r


if __name__ == "__main__":
    a = sys.argv[1:]
    allc = "--all" in a
    jobs = 4
    if "--jobs" in a:
        i = a.index("--jobs"); jobs = int(a[i + 1]); del a[i:i + 2]
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for fut in cf.as_completed([ex.submit(one, s, allc) for s in ids]):
            sid, r = fut.result()
            res[sid] = {k: v for k, v in r.items() if k in ("prop", "counts", "caught", "checks")}
            ok = r["counts"] and r["prop"] in r["caught"]
            print("%-24s %s counts=%s caught=%s %s" % (sid, r["prop"], r["counts"], r["caught"], {c: x["t"] for c, x in r["checks"].items()} if not allc else ""), flush=True)
            if not ok:
                print("    demo_clean=%s build=%s tests=%s demo_bug=%s" % (r.get("demo_clean"), r.get("build"), r["tests_ok"], r.get("demo_bug")))
                for k, v in r.items():
                    if k.startswith("log_"):
                        print("   ", k, v.replace("\n", "\n      "))
            json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
