#!/usr/bin/env python3
"""Compares every tree of a directory of edited copies of src with the reference. Development tool, not a check.

usage: corpus.py DIR [id pattern] ; prints one line per unit that is not equal."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import fnmatch, time, multiprocessing as mp, json, traceback
import compare, units
from compare import *
import gate

from structure import fp
def common(tree, memo):
    """Constructors and namespace-scope variables: not visible as references in the dump."""
    if "common" not in memo:
        r = set()
        for tu in [tree.tu]:
            for q, fs in tu.funcs.items():
                for f in fs:
                    if f.get("kind") == "CXXConstructorDecl": r.add((q.split("::(lambda")[0], fp(tu, f, memo)))
            def ns(n):
                for d in n.get("inner", ()):
                    if not d: continue
                    k = d.get("kind")
                    if k in ("VarDecl", "FieldDecl") and d.get("inner"): r.add((d.get("name"), fp(tu, d, memo)))
                    elif k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateDecl", "ClassTemplateSpecializationDecl", "LinkageSpecDecl"): ns(d)
            for doc in tu.docs: ns({"inner": [doc]})
        memo["common"] = frozenset(r)
    return memo["common"]

def closure(tree, q, memo):
    res = set(common(tree, memo))
    for tu, f in tree.find(q):
        names = reachable(tu, f) | {q}
        for n in names:
            for t2, g in tree.find(n):
                res.add((n.split("::(lambda")[0], fp(t2, g, memo)))
    return frozenset(res)

def label(t):
    o = t.op
    if o in ("mu", "wmu"): return "%s/%d" % (o, len(t.args[3]))
    if o == "app": return "app " + str(t.args[0])
    return o
def labels(t):
    return sorted({label(x) for x in TT.subterms(t)}) if t is not None else []
def feature(k, a, b):
    if a is None or b is None: return k, None, None, []
    return k, labels(a), labels(b), [(label(u), label(v), labels(u), labels(v), show(u)[:300], show(v)[:300], len(list(TT.subterms(u))), len(list(TT.subterms(v)))) for u, v in TT.locate(a, b)]

def main():
    d = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else "*"
    upat = sys.argv[3] if len(sys.argv) > 3 else "*"
    show_len = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    ids = [i for i in sorted(os.listdir(d)) if fnmatch.fnmatch(i, pat) and os.path.isdir(os.path.join(d, i))]
    spec = Tree("spec", os.path.join(VERIF, "spec", "src"))
    us = [(q, ps) for q, ps in units.expand(spec.names | {"main"}) if fnmatch.fnmatch(q, upat)]
    memo = {}
    sc = {q: closure(spec, q, memo) for q, _ in us}
    def work(i):
        t0 = time.time()
        C = Comparer(os.path.join(d, i), spec=spec)
        m2 = {}
        lines, n, ch = [], 0, 0
        feats = []
        if C.cur.error: lines.append("PARTIAL " + C.cur.error[:300])
        for q, ps in us:
            if closure(C.cur, q, m2) == sc[q]: continue
            ch += 1
            t1 = time.time()
            for r in gate.judge(C, q, ps):
                if r.status != "equal" and os.environ.get("FEAT"):
                    feats.append((q, r.status, r.why[:200], [feature(k, a, b) for k, a, b in r.diffs]))
                if r.status != "equal" :
                    lines.append("%s %s %s %s [%.0fs] %s" % (r.status.upper(), q, r.outputs, sorted(r.props), time.time() - t1, r.why[-300:]))
                    if show_len:
                        for k, a, b in r.diffs:
                            for u, v in (TT.locate(a, b) if a is not None and b is not None and show_len < 0 else []):
                                lines.append("    %s\n      S %s\n      C %s" % (k, show(u)[:-show_len], show(v)[:-show_len]))
                            if show_len < 0: continue
                            lines.append("    %s\n      SPEC %s\n      CUR  %s" % (k, show(a)[:show_len] if a is not None else None, show(b)[:show_len] if b is not None else None))
        if os.environ.get("FEAT"): json.dump(feats, open(os.path.join(os.environ["FEAT"], i + ".json"), "w"))
        return i, time.time() - t0, ch, lines, C.dropped, {k: v for k, v in C.hstate.items() if v != "equal"}
    global _work
    def run(i):
        try: return work(i)
        except Exception as e: return i, 0, 0, ["CRASH " + traceback.format_exc()[-1500:]], [], {}
    _work = run
    with mp.get_context("fork").Pool(int(os.environ.get("J", "8")), maxtasksperchild=1) as p:
        for i, t, n, lines, dr, hs in p.imap_unordered(call, ids, chunksize=1):
            flag = "DIFF" if any(l.startswith(("DIFF", "CRASH")) for l in lines) else "UNDEC" if lines else "ok"
            print("== %s %s %.0fs changed=%d dropped=%s bad=%s" % (i, flag, t, n, dr, hs), flush=True)
            for l in lines: print("   ", l)
def call(i): return _work(i)
main()
