#!/usr/bin/env python3
"""Decides one property on /repo's current source.

usage: check.py ID [--tier quick|thorough]

Exit 0: every obligation of the property that could be decided holds. Exit 1 and a VIOLATION line: one does not.
Exit 2: the analysis itself could not be carried out."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import json, time, multiprocessing as mp, traceback

T0 = time.time()
BUDGET = 780.0

def load(args):
    """Comparer with both trees loaded."""
    import compare
    return compare.Comparer()

def run_unit(i):
    C, us, judge = _ctx
    q, ps = us[i]
    t = time.time()
    try:
        vs = judge(C, q, ps)
        return i, [v.plain() for v in vs], time.time() - t
    except MemoryError:
        return i, [dict(status="undecided", unit=q, where="", outputs=[], props=[], why="memory", report="")], time.time() - t
    except Exception:
        return i, [dict(status="undecided", unit=q, where="", outputs=[], props=[], why="internal: " + traceback.format_exc()[-600:], report="")], time.time() - t

def judge_all(C, us, judge, mine, what, violations, undecided, samples, counts, unit_rows):
    """Judges the units in parallel and files the verdicts."""
    import catalog
    us.sort(key=lambda u: -catalog.COST.get(u[0], 1))
    global _ctx
    _ctx = (C, us, judge)
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 8, max(1, len(us)))) as pool:
        pend = [pool.apply_async(run_unit, (i,)) for i in range(len(us))]
        for i, r in enumerate(pend):
            left = BUDGET - (time.time() - T0)
            try:
                _, vs, dt = r.get(timeout=max(1.0, left))
            except mp.TimeoutError:
                vs, dt = [dict(status="undecided", unit=us[i][0], where="", outputs=[], props=[], why="time budget", report="")], 0
            for v in vs:
                counts["obligations"] += 1
                row = dict(unit=v["unit"], where=v["where"], status=v["status"], outputs=v.get("nout", 0), seconds=round(dt, 1))
                if what != "unit": row["kind"] = what
                unit_rows.append(row)
                if v["status"] == "equal":
                    counts["discharged"] += 1
                    if v.get("sample") and len(samples) < 4: samples.append(v["sample"])
                elif v["status"] == "diff":
                    counts["different"] += 1
                    if mine(v):
                        violations.append((what + " " + v["unit"], v["where"], v["report"]))
                    else:
                        row["note"] = "differs in an output of other properties: " + ",".join(v["props"])
                else:
                    counts["undecided"] += 1
                    undecided.append("%s (%s): %s" % (v["unit"], v["where"], v["why"]))
        pool.terminate()

# configurations of the library other than the one the quick tier judges (release build, default numeric types)
CONFIGS = [("debug build", ()),
           ("wide types", ("-DNDEBUG", "-DCFT_CIDX_TYPE=int64_t", "-DCFT_RIDX_TYPE=int32_t", "-DCFT_REAL_TYPE=double"))]

def select(C, pid):
    """Units the property speaks about, and those that reach a changed function which the property is anchored in."""
    import compare, units, gate, structure, anchors
    every = list(units.expand(C.spec.names | {"main"}))
    us = [(q, ps) for q, ps in every if any(pid in pr for _, pr in ps) or gate.may_concern(q, pid)]
    anchored = {n for n in structure.changed_names(C.spec, C.cur, C.__dict__.setdefault("_fpmemo", {})) if pid in anchors.props(n)}
    if anchored:
        have = {q for q, _ in us}
        for q, ps in every:
            if q not in have and any(anchored & {structure.bare(n) for n in compare.reachable(tu, f) | {q}} for T in (C.spec, C.cur) for tu, f in T.find(q)): us.append((q, ps))
    return us

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import catalog, cpp, compare, gate, units
    P = catalog.CHECKS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    violations, undecided, samples, rules = [], [], [], []
    configs = []
    counts = dict(obligations=0, discharged=0, undecided=0, different=0, functions_summarised=0)
    unit_rows = []
    C = None
    if P.needs_trees:
        try:
            C = compare.Comparer()
        except cpp.AstError as e:
            print("the analysed tree does not compile: %s" % str(e)[:2000]); sys.exit(2)
    # 1. equality of observable outputs with the reference semantics
    if P.units and C is not None:
        judge_all(C, select(C, pid), gate.judge, lambda v: pid in v["props"], "unit", violations, undecided, samples, counts, unit_rows)
    # 1a. the same in the other build configurations
    if P.units and C is not None and tier == "thorough":
        for name, defs in CONFIGS:
            try:
                X = compare.Comparer(spec=compare.Tree("spec", os.path.join(compare.VERIF, "spec", "src"), defs),
                                     cur=compare.Tree("cur", os.path.join(compare.REPO, "src"), defs))
            except cpp.AstError as e:
                undecided.append("configuration %s does not compile: %s" % (name, str(e)[:200])); continue
            configs.append(name)
            judge_all(X, select(X, pid), gate.judge, lambda v: pid in v["props"], "unit (%s)" % name, violations, undecided, samples, counts, unit_rows)
    # 1b. equality of the debug and the release build of the current tree
    if P.debug:
        try:
            D = compare.Comparer(spec=compare.Tree("release", os.path.join(compare.REPO, "src")),
                                 cur=compare.Tree("debug", os.path.join(compare.REPO, "src"), ()), nothrow={"cft::split"})
        except cpp.AstError as e:
            print("the analysed tree does not compile: %s" % str(e)[:2000]); sys.exit(2)
        us = [(q, [("*", [pid])]) for q, _ in units.expand(D.spec.names | {"main"})]
        judge_all(D, us, gate.judge_builds, lambda v: True, "debug/release", violations, undecided, samples, counts, unit_rows)
    # 2. rules on the current tree alone
    for r in P.rules:
        t = time.time()
        try:
            res = r(C, tier)
        except cpp.AstError as e:
            print("analysis failed: %s" % str(e)[:1500]); sys.exit(2)
        rules.append(dict(rule=res.name, text=res.text, sites=res.sites, undecided=res.undecided, samples=res.samples[:4], seconds=round(time.time() - t, 1)))
        for w, msg in res.violations:
            violations.append(("rule " + res.name, w, msg))
        undecided += ["rule %s: %s" % (res.name, u) for u in res.undecided]
    if not counts["obligations"] and not sum(r["sites"] for r in rules):
        print("nothing was analysed for %s" % pid); sys.exit(2)
    # 3. known findings
    known = catalog.known_findings(pid)
    fresh = []
    for what, where, msg in violations:
        k = [x for x in known if x in what + " " + where + " " + msg]
        if k: print("KNOWN-FINDING: property=%s %s %s" % (pid, what, where))
        else: fresh.append((what, where, msg))
    cov = dict(explanation=P.explanation, units=unit_rows, rules=rules, **counts)
    cov["rule_sites"] = sum(r["sites"] for r in rules)
    cov["samples"] = samples or [s for r in rules for s in r["samples"]][:4]
    if C is not None:
        cov["functions_in_tree"] = len(C.cur.names)
        cov["boundaries_dropped"] = C.dropped
        cov["configurations"] = ["release build, default types"] + configs
        cov["partial_tree"] = bool(C.cur.partial)
    if undecided: cov["undecided_reasons"] = undecided[:40]
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=catalog.ASSUMPTIONS,
              wall_s=round(time.time() - T0, 2), violations=len(fresh))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for u in undecided[:10]: print("UNDECIDED: " + u[:300])
    print("%s: %d unit obligations, %d discharged, %d undecided, %d different; %d rule sites in %d rules; %.1f s" % (
        pid, counts["obligations"], counts["discharged"], counts["undecided"], counts["different"], cov["rule_sites"], len(rules), time.time() - T0))
    if fresh:
        path = os.path.join("evidence", pid + ".violation.txt")
        with open(os.path.join(HERE, path), "w") as f:
            for what, where, msg in fresh: f.write("%s at %s\n%s\n\n" % (what, where, msg))
        for what, where, msg in fresh[:20]: print("  %s at %s: %s" % (what, where, msg.split("\n")[0][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
