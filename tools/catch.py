"""Which planted bugs the checks catch: every bug applied to a copy of /repo's sources, the check of its property run on it. usage: catch.py [pattern]"""
import os, sys, json, subprocess, shutil, fnmatch, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
pat = sys.argv[1] if len(sys.argv) > 1 else "*"
def one(i):
    pid = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    w = tempfile.mkdtemp(prefix="catch.")
    try:
        for d in ("src",): shutil.copytree("/repo/" + d, w + "/" + d)
        shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded"))
        p = subprocess.run(["git", "apply", "%s/%s/patch.diff" % (S, i)], cwd=w, capture_output=True, text=True)
        if p.returncode: return i, pid, "patch does not apply", ""
        p = subprocess.run(["python3", w + "/verif/check.py", pid], env=dict(os.environ, VP_REPO=w), capture_output=True, text=True)
        l = p.stdout.splitlines()
        return i, pid, "caught" if p.returncode == 1 else "missed" if p.returncode == 0 else "no answer", " ".join(x.strip()[:200] for x in l if x.startswith(("  ", "UNDEC")))[:300]
    finally: shutil.rmtree(w, ignore_errors=True)
ids = [i for i in sorted(os.listdir(S)) if fnmatch.fnmatch(i, pat)]
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for r in ex.map(one, ids): print("%-34s %s %-8s %s" % r, flush=True)
