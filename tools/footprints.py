#!/usr/bin/env python3
"""Regenerates spec/footprints.json: which fields of its parameters each contract callee reads and writes in the reference."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import json, multiprocessing as mp
import compare, contracts, terms as TT
from compare import *
SPEC = os.path.join(VERIF, "spec", "src")

def reads_of(terms, names):
    r = {n: set() for n in names}
    seen = set()
    st = list(terms)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == "get" and t.args[0].op == "sym" and t.args[0].args[0] in r:
            if r[t.args[0].args[0]] is not None: r[t.args[0].args[0]].add(t.args[1])
            continue
        if t.op == "sym":
            if t.args[0] in r: r[t.args[0]] = None
            continue
        st.extend(TT.iter_args(t))
    return r

def one(q):
    C = _C
    fp = {}
    for tu, f in C.spec.find(q):
        s = C.summ(C.spec, tu, f)
        if not isinstance(s, Summary): return q, None
        names = ["p%d" % i for i in range(len(cpp.params(f)))] + ["this"]
        terms, w = [], {}
        for k, t in s.outs.items():
            if k in names:
                me = TT.sym(k) if k == "this" else summary.param_sym(cpp.qtype(cpp.params(f)[int(k[1:])]), int(k[1:]))
                thr = s.outs.get("throws")
                if t is me: w[k] = set(); continue
                if t.op == "rec" and (t.args[0] is me or TT.complete_tag(t.args[0])):
                    w[k] = set()
                    for fl, v in t.args[1]:
                        if v.op == "get" and v.args[0] is me and v.args[1] == fl: continue
                        w[k].add(fl); terms.append(v)
                    continue
                w[k] = None
            terms.append(t)
        r = reads_of(terms, names)
        for n in names:
            if n not in fp: fp[n] = [set(), set()]
            for j, x in ((0, r[n]), (1, w.get(n, set()))):
                fp[n][j] = None if x is None or fp[n][j] is None else fp[n][j] | x
    return q, {n: [None if x is None else sorted(x) for x in v] for n, v in fp.items() if v != [None, None]}

def main():
    global _C
    out = {}
    path = os.path.join(VERIF, "spec", "footprints.json")
    if os.path.exists(path): os.remove(path)
    # recursive callees: start from all the fields of the records they are given
    _C = Comparer(SPEC)
    fields = {}
    for q, rs in _C.spec.tu.records.items():
        for r in rs:
            f = sorted(c["name"] for c in r.get("inner", ()) if c and c.get("kind") == "FieldDecl" and c.get("name"))
            if f and r.get("completeDefinition"): fields.setdefault(q.split("::")[-1], f)
    seed = {}
    for q, sp in _C.bound.items():
        if not sp.get("recursive") or sp.get("clock"): continue
        for tu, f in _C.spec.find(q):
            for i, p in enumerate(cpp.params(f)):
                t = execu.type_key(cpp.qtype(p).replace("const ", "").replace("&", "").strip()).split("<")[0].split("::")[-1]
                if t in fields: seed.setdefault(q, {})["p%d" % i] = [fields[t], fields[t] if not summary.is_const_ref(cpp.qtype(p)) and execu.isrefq(cpp.qtype(p)) else []]
    print("seeds", seed)
    json.dump({"functions": seed}, open(path, "w"))
    # callees first: several passes until the footprints are stable
    for it in range(6):
        _C = Comparer(SPEC)
        qs = [q for q in _C.bound if not _C.bound[q].get("recursive") and not _C.bound[q].get("model")]
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
            new = {q: f for q, f in p.imap_unordered(one, qs, chunksize=1) if f}
        print("pass", it, sum(new.get(q) != out.get(q) for q in set(new) | set(out)), "changed", flush=True)
        new.update(seed)
        if new == out: break
        out = new
        json.dump({"functions": out}, open(path, "w"), indent=0, sort_keys=True)
main()
