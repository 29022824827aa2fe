"""Writes a copy of /repo/src with one edit of a corpus applied. Usage: mktree.apply(edits, dest)"""
import os, shutil
SRC = os.environ.get("VP_BASE", "/repo") + "/src"
def apply(edits, dest, src=SRC):
    if os.path.exists(dest): shutil.rmtree(dest)
    shutil.copytree(src, dest)
    for f, old, new in edits:
        p = os.path.join(dest, f)
        s = open(p).read()
        if s.count(old) < 1: raise ValueError("text not found in %s: %s" % (f, old[:80]))
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
