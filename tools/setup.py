"""Nothing to build: the analysis is interpreted. Checks that what it needs is present."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ("spec/src", "spec/footprints.json", "tu/unit.cpp", "engine/compare.py"):
    if not os.path.exists(os.path.join(HERE, f)): sys.exit("missing " + f)
if not shutil.which("clang++"): sys.exit("clang++ is needed")
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ready")
