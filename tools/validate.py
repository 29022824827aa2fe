"""Validates planted bugs: each in a copy of /repo bind-mounted over /repo in a private mount namespace. Usage: validate.py [pattern]"""
import os, subprocess, sys, json, shutil, fnmatch
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = sys.argv[1] if len(sys.argv) > 1 else "*"
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("passed") or base.get("stable") or base["tests"]) if isinstance(base, dict) else set(base)
S = os.path.join(HERE, "seeded")
def one(i):
    w = "/tmp/w/val/" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    sc = """set -x
mount --bind {w}/repo /repo && cd /repo || exit 9
bash {s}/{i}/demo.sh > {w}/demo0 2>&1; echo "demo0 $?" >> {w}/res
git apply {s}/{i}/patch.diff || exit 8
bash /opt/vp/build.sh > {w}/build 2>&1; echo "build $?" >> {w}/res
bash /opt/vp/test.sh {w}/t.json > {w}/test 2>&1
bash {s}/{i}/demo.sh > {w}/demo1 2>&1; echo "demo1 $?" >> {w}/res
""".format(w=w, s=S, i=i)
    subprocess.run(["unshare", "-m", "bash", "-c", sc], capture_output=True, text=True)
    res = dict(l.split() for l in open(w + "/res")) if os.path.exists(w + "/res") else {}
    try:
        t = json.load(open(w + "/t.json")); missing = sorted(stable - set(t["passed"]))
    except Exception as e: missing = ["no test results"]
    ok = res.get("demo0") == "0" and res.get("build") == "0" and res.get("demo1") not in (None, "0") and not missing
    note = ""
    if res.get("demo0") != "0": note += open(w + "/demo0").read()[-600:]
    if res.get("build") != "0" and os.path.exists(w + "/build"): note += open(w + "/build").read()[-800:]
    if ok or os.environ.get("SHOW"): note += " | " + open(w + "/demo1").read()[-150:].replace("\n", " ")
    shutil.rmtree(w, ignore_errors=True)
    return i, ok, res, missing[:4], note
ids = [i for i in sorted(os.listdir(S)) if fnmatch.fnmatch(i, pat)]
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for i, ok, res, missing, note in ex.map(one, ids):
        print("%s %s %s missing=%s %s" % ("GOOD" if ok else "BAD ", i, res, missing, note), flush=True)
