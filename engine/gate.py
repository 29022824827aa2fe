"""Verdict on a unit: which differing outputs are violations, of which properties, and which differences are undecided.

A difference between two normal forms proves a difference in behaviour only where the normal form is complete. Where the
edit keeps the structure of the code (same loops, helpers, callees and variables), both normal forms were derived by
the same steps and the difference is reported. Where the code was restructured, it is reported only when the differing
subterms lie in the fragment (linear arithmetic, comparisons, boolean structure, selection, stores) in which the normal
form is canonical; otherwise the unit is undecided.
"""
from collections import Counter
from compare import *
import units, structure, anchors

LOOPOPS = {"mu", "wmu", "sum", "exists", "first", "tab", "map", "fn", "append", "fill", "cat", "slice"}
NUM = ("int", "nat", "num", "real", "any")
HARD = ("loop", "lambda", "goto", "switch")

class Verdict:
    def __init__(self, status, unit, where, outputs=(), props=(), why="", diffs=(), edit=None):
        self.status, self.unit, self.where = status, unit, where
        self.outputs, self.props, self.why, self.diffs, self.edit = list(outputs), set(props), why, list(diffs), edit
        self.nout, self.sample = 0, None

    def report(self):
        l = ["%s (%s): %s" % (self.unit, self.where, self.why)]
        if self.edit:
            ch, ad, rm, d = self.edit
            l.append("functions that changed: %s%s%s" % (", ".join(ch), "; added: " + ", ".join(ad) if ad else "", "; removed: " + ", ".join(rm) if rm else ""))
        for k, a, b in self.diffs[:6]:
            l.append("output %s" % k)
            if a is None or b is None:
                l.append("  only in the %s" % ("reference" if b is None else "current tree")); continue
            for u, v in TT.locate(a, b)[:3]:
                l.append("  required: %s" % show(u)[:600]); l.append("  found:    %s" % show(v)[:600])
        return "\n".join(l)

    def plain(self):
        return dict(status=self.status, unit=self.unit, where=self.where, outputs=self.outputs, nout=self.nout, props=sorted(self.props),
                    why=self.why, report=self.report() if self.status == "diff" else "", sample=self.sample)

def only(u, v):
    a, b = set(TT.subterms(u)), set(TT.subterms(v))
    return a - b, b - a

def applabels(ts):
    return {str(t.args[0]) for t in ts if t.op == "app"}

def shapes(ts):
    return Counter((t.op, len(t.args[3]) if t.op in ("mu", "wmu") else 0) for t in ts if t.op in LOOPOPS)

def tested_equal(u, v, whole):
    """Whether the terms compare u with v somewhere: on one side of that test they are the same value."""
    try:
        TT.reset_work(); d = TT.sub(u, v)
    except TT.Blowup: return True
    if TT.is_num(d): return False
    n = TT.neg(d)
    for t in whole:
        if t.op in ("le", "lt") and (t.args[0] is d or t.args[0] is n): return True
        if t.op == "eq" and set(t.args) == {u, v}: return True
    return False

def terms_level(diffs, why=None):
    """0: the differing subterms are in the canonical fragment; 1: same loops and symbols; 2: anything else."""
    lvl = 0
    if why is None: why = set()
    extra = [t for k, a, b in diffs if k == "throws" and a is not None for t in TT.subterms(a)]
    for k, a, b in diffs:
        if a is None or b is None:
            lvl = 2; why.add("sided"); continue
        new = applabels(TT.subterms(b)) - applabels(TT.subterms(a))
        ps = TT.locate(a, b)
        if len(ps) >= 6: lvl = max(lvl, 1)
        whole = None
        for u, v in ps:
            x, y = only(u, v)
            if u.sort in NUM and v.sort in NUM:
                if whole is None: whole = list(TT.subterms(a)) + list(TT.subterms(b)) + extra
                if tested_equal(u, v, whole): lvl = 2; why.add("tested")
            if shapes(x) or shapes(y):
                lvl = max(lvl, 1 if shapes(x) == shapes(y) else 2)
                if shapes(x) != shapes(y): why.add("loops")
        if new:
            lvl = max(lvl, 2); why.add("calls")
    return lvl

ARITH = {"call " + x for x in "min max abs clamp".split()}
def edit_level(edit):
    """0: structure kept, or something merely removed; 1: branches, jumps, variables or calls changed; 2: restructured."""
    ch, ad, rm, d = edit
    if ad or rm or any(k.split(" ")[0] in HARD for k in d): return 2
    pos = {k: v for k, v in d.items() if v > 0}
    neg = {k: v for k, v in d.items() if v < 0}
    if not d: return 0
    if not pos:
        if neg.get("if", 0) <= -2 and neg.get("return", 0) <= -2: return 2
        if any(k.startswith("var") for k in neg): return 1
        return 0
    calls = [k for k in d if k.startswith("call ")]
    if len(calls) == len(d) and sum(d.values()) == 0: return 0
    if all(k.startswith("var") or k in ARITH and v > 0 for k, v in d.items()): return 0
    return 1

def inserted(edit, spec, cur):
    """The edit keeps every statement and every condition of the reference and adds a branch on a condition that the reference tests nowhere."""
    ch, ad, rm, d = edit
    if ad or rm or d.get("if", 0) <= 0 or any(v < 0 for v in d.values()): return None
    if any(k.split(" ")[0] in ("lambda", "goto", "switch") for k in d): return None
    new, lost = structure.new_conditions(spec, cur, ch)
    return new if new and not lost else None

def emptiness(edit, spec, cur):
    """Nothing but early exits for the case that something is empty: over an empty range the loops do nothing either, which their normal form need not show."""
    ch, ad, rm, d = edit
    if ad or rm or d.get("if", 0) <= 0 or any(v < 0 for v in d.values()): return False
    if any(k not in ("if", "return", "continue", "break") for k in d): return False
    new, lost = structure.new_conditions(spec, cur, ch)
    triv, _ = structure.new_conditions(spec, cur, ch, True)
    return bool(triv) and not new and not lost

def unlooped(edit):
    """The edit drops a search over a range and puts no call, loop or function in its place."""
    ch, ad, rm, d = edit
    neg = {k for k, v in d.items() if v < 0}
    return not ad and bool(neg & {"call any", "call all"}) and not any(v > 0 and k.split(" ")[0] in ("call", "loop", "lambda", "goto", "switch") for k, v in d.items())

def trusted(diffs, edit, spec, cur):
    e = edit_level(edit)
    if e == 0: return True, "e0"
    why = set()
    t = terms_level(diffs, why)
    if t == 0: return True, "e%dt%d" % (e, t)
    if e == 1 and t == 1: return (False, "early exit on an empty range") if emptiness(edit, spec, cur) else (True, "e1t1")
    if "tested" not in why:
        new = inserted(edit, spec, cur)
        if new: return True, "branch added on " + "; ".join(new)[:200]
        if unlooped(edit): return True, "search removed"
    return False, "e%dt%d %s" % (e, t, ",".join(sorted(why)))

# Properties a difference also concerns, by what the differing subterms read or call.
MENTION = [
    (re.compile(r"Chrono::elapsed|Chrono::restart|^time_limit$|^timer$|^tick$"), {"P07"}, re.compile(r"cft::(run|ThreePhase|Subgradient|Greedy|ColFixing|client::use_run)")),
    (re.compile(r"^verbose$"), {"P09"}, re.compile(r"cft::(?!parse_cli_args|client::default_env)")),
    (re.compile(r":rnd$|rnd_real|^rnd$|roll_dice|coin_flip|^nd$"), {"P08"}, re.compile(r"cft::(run|ThreePhase|Subgradient|local::|client::use_run|ColFixing|parse_inst)")),
    (re.compile(r"ColFixing|fixing_data|fix_columns|remove_fixed|add_cols_to|apply_maps"), {"P11"}, re.compile(r"cft::(run|ThreePhase|ColFixing|client::use_run|local::)")),
    (re.compile(r"Pricer|_build_tentative|push_back_col_from|fill_rows"), {"P12"}, re.compile(r"cft::(run|ThreePhase|Subgradient|Pricer|client::use_run)")),
    (re.compile(r"_apply_maps_to_lagr|_perturb_lagr|_compute_greedy_mult|_update_lagr|lagr_mult"), {"P06"}, re.compile(r"cft::(run|ThreePhase|Subgradient|ColFixing|client::use_run)")),
    (re.compile(r"heuristic_removal|enumeration_removal|redund|Enumerator"), {"P14"}, re.compile(r"cft::(Greedy)")),
]
def labels_of(ts):
    out = set()
    for t in ts:
        if t.op == "app": out.add(str(t.args[0]))
        elif t.op == "get": out.add(str(t.args[1]))
        elif t.op == "sym": out.update(str(t.args[0]).split("."))
        elif t.op == "rec": out.update(f for f, _ in t.args[1])
    return out

def may_concern(q, pid):
    return any(pid in ps and uq.match(q) for _, ps, uq in MENTION)

def mentioned(q, diffs):
    ls = set()
    for k, a, b in diffs:
        if a is None or b is None: continue
        for u, v in TT.locate(a, b):
            x, y = only(u, v)
            ls |= labels_of(x) | labels_of(y) | labels_of([u, v])
    return {p for rx, ps, uq in MENTION if uq.match(q) and any(rx.search(l) for l in ls) for p in ps}

# ---- dependences that break a property whatever the rest of the output looks like
TIMED = re.compile(r"cft::(run|ThreePhase|Subgradient|Greedy|ColFixing|Pricer|local::|client::use_run)")
def clock_misuse(t):
    """Elapsed times in the term that are not compared with the time limit, in seconds."""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "app" and CLOCK.match(str(x.args[0])):
            out.append(x); continue
        if x.op in ("le", "lt"):
            k, m = TT._lin_parts(x.args[0])
            c = [a for a in m if a.op == "app" and CLOCK.match(str(a.args[0]))]
            if c and k == 0 and len(m) == 2 and len(c) == 1:
                o = [a for a in m if a is not c[0]][0]
                if lastname(o) == "time_limit" and m[o] == -m[c[0]]: continue
        st.extend(TT.iter_args(x))
    return out
CLOCK = re.compile(r"ret:(cft::)?Chrono::(elapsed|restart)")
def lastname(t):
    if t.op == "get": return str(t.args[1])
    if t.op == "sym": return str(t.args[0]).split(".")[-1]
    return None

def own_state(t):
    """Numbers kept in the functor from an earlier call that the term depends on."""
    for x in TT.subterms(t):
        if x.op in ("get", "sym") and x.sort in ("int", "nat", "num", "real", "bool"):
            y = x
            while y.op == "get": y = y.args[0]
            if y.op == "sym" and str(y.args[0]).split(".")[0] == "this" and (x.op == "get" or "." in str(x.args[0])): yield x

VERBOSE = re.compile(r"cft::(?!parse_cli_args|parse_inst|client::)")
def forbidden(q, diffs):
    """[(properties, output, text)]: what the current outputs depend on and must not."""
    out = []
    for k, a, b in diffs:
        if b is None or k.startswith("this") and q in units.IGNORE_THIS: continue
        if TIMED.match(q):
            bad = clock_misuse(b)
            if bad and not (a is not None and clock_misuse(a)):
                out.append(({"P08"}, k, "%s depends on the elapsed time other than through the test of the time limit: %s" % (k, show(bad[0])[:160])))
        if VERBOSE.match(q) and k != "stdout":
            v = lambda t: any(lastname(x) == "verbose" for x in TT.subterms(t))
            if v(b) and not (a is not None and v(a)): out.append(({"P09"}, k, "%s depends on the verbosity level" % k))
        if q in units.IGNORE_THIS:
            own = [x for x in own_state(b)]
            if own and not (a is not None and any(True for _ in own_state(a))):
                out.append(({"P10"}, k, "%s depends on what an earlier call left in %s" % (k, show(own[0])[:80])))
    return out

# ---- loops that end as soon as the time limit has passed
def over(c):
    """Value of a test of the elapsed time once the limit has passed; None if the term is no such test."""
    if c.op not in ("le", "lt"): return None
    k, m = TT._lin_parts(c.args[0])
    t = [a for a in m if a.op == "app" and CLOCK.match(str(a.args[0]))]
    l = [a for a in m if lastname(a) == "time_limit"]
    return m[l[0]] > 0 if k == 0 and len(m) == 2 and len(t) == 1 and len(l) == 1 else None

def leaves(t, decide):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ite":
            v = decide(x.args[0])
            st.extend(x.args[1:3] if v is None else [x.args[1] if v else x.args[2]])
        else:
            v = decide(x)
            out.add(x if v is None else TT.TRUE if v else TT.FALSE)
    return out

def timed_loops(t):
    """(loops whose body tests the time limit, those that always end after an iteration in which it has passed)."""
    n = hard = 0
    for x in TT.subterms(t):
        if x.op != "wmu": continue
        lvl, nb, ctl, inits, nexts, res = x.args
        if any(over(y) is not None for y in shallow(ctl)):
            n += 1; hard += leaves(ctl, over) == {TT.FALSE}
            continue
        if not any(over(y) is not None for z in nexts for y in shallow(z)): continue
        n += 1
        for f in ctl.free:
            if f.op != "bv" or f.args[0] != lvl or f.sort != "bool": continue
            for val in (True, False):
                if leaves(ctl, lambda c: val if c is f else None) == {TT.FALSE} and leaves(nexts[f.args[1]], over) == {TT.TRUE if val else TT.FALSE}:
                    hard += 1; break
            else: continue
            break
    return n, hard

def shallow(t):
    """Conditions and leaves of a decision graph."""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        if x.op == "ite": st.extend(x.args[:3])

def time_exit(q, diffs):
    if not TIMED.match(q): return []
    out = []
    for k, a, b in diffs:
        if a is None or b is None: continue
        (n1, h1), (n2, h2) = timed_loops(a), timed_loops(b)
        if n1 and h1 == n1 and n2 and h2 < n2: out.append((k, "%s: a loop can go on for an iteration after it found the time limit passed" % k))
        elif n1 and not n2 and h1: out.append((k, "%s: no loop tests the time limit any more" % k))
    return out

# ---- what an output reads: independent of how the loops around it are written
CALLEE = re.compile(r"^(ret|out):(.*?)(:p?\d+.*)?$")
SCALAR = ("int", "nat", "num", "real", "bool", "str")
def reads(t):
    """(results of callees, scalar parts of the arguments, arrays read other than for their size, constants) that occur in the term."""
    calls, parts, arrays, consts = set(), set(), set(), {}
    seen, st = set(), [t]
    def path(x):
        f = []
        while x.op == "get": f.append(str(x.args[1])); x = x.args[0]
        return ".".join([str(x.args[0])] + f[::-1]) if x.op == "sym" else None
    def const(c, s):
        c = abs(c)
        if c not in (0, 1, 2): consts.setdefault(c, s)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "size" and x.args[0].op in ("get", "sym"): continue
        if x.op in ("get", "sym"):
            p = path(x)
            if p and re.match(r"p\d", p): (parts if x.sort in SCALAR else arrays).add(p)
            if p: continue
        if x.op == "app":
            m = CALLEE.match(str(x.args[0]))
            if m: calls.add((m.group(2), str(x.args[0])))
            elif str(x.args[0]).startswith("throws-as:"): calls.add(("throws-as", str(x.args[0])))
        if x.op in ("num", "lin"):
            k, m = TT._lin_parts(x)
            if x.op == "lin": const(k, "real" if x.sort == "real" else "int")
            else: const(k, "any")
            for v in m.values(): const(v, "any")
        elif x.op in ("le", "lt"):
            k, m = TT._lin_parts(x.args[0])
            const(k, "any" if any(a.sort == "real" for a in m) else "int")
            for v in m.values(): const(v, "any")
            st.extend(m); continue
        st.extend(TT.iter_args(x))
    return calls, parts, arrays, consts

def dependence(diffs):
    """[(output, text)]: outputs that read something the required value does not read, or the other way round."""
    both = [(k, reads(a), reads(b)) for k, a, b in diffs if a is not None and b is not None]
    ca = {f for _, x, _ in both for f, _ in x[0]}; cb = {f for _, _, y in both for f, _ in y[0]}
    ka = {c for _, x, _ in both for c in x[3]}; kb = {c for _, _, y in both for c in y[3]}
    out = []
    for k, (c1, p1, a1, k1), (c2, p2, a2, k2) in both:
        for w, x, y, other in (("no longer depends on", c1, c2, cb), ("depends, unlike the required value, on", c2, c1, ca)):
            for f, l in sorted(x - y):
                if f in other: out.append((k, "%s %s %s" % (k, w, "the result of " + f if l.startswith("ret:") else l[4:] + " as left by the call")))
        for f, l in sorted(c2 - c1):
            if f == "throws-as": out.append((k, "%s depends, unlike the required value, on the type of the error (%s)" % (k, l[10:])))
        for l in sorted(p1 - p2): out.append((k, "%s no longer depends on %s" % (k, l)))
        for l in sorted(p2 - p1): out.append((k, "%s depends, unlike the required value, on %s" % (k, l)))
        for l in sorted(a1 - a2): out.append((k, "%s no longer depends on the contents of %s" % (k, l)))
        for l in sorted(a2 - a1): out.append((k, "%s depends, unlike the required value, on the contents of %s" % (k, l)))
        for w, x, y, z in (("lost", k1, k2, kb), ("new", k2, k1, ka)):
            for c, s in sorted(x.items()):
                if c in z or c.denominator == 1 and (s == "int" and (c - 1 in z or c + 1 in z) or w == "new" and c <= 16) or c.denominator in (2, 4): continue
                out.append((k, "%s: constant %g %s" % (k, float(c), w)))
    return out

def judge(C, q, ps):
    out = []
    memo = C.__dict__.setdefault("_fpmemo", {})
    edit = None
    for x, y, s, d, why in C.unit(q):
        loc = y if y is not None else x
        where = loc[0].where(loc[1])
        nout = C.nouts(x)
        if s == Result.DIFF and q in units.IGNORE_THIS:
            d = [t for t in d if not t[0].startswith("this")]
            if not d: s = Result.EQ
        if s == Result.EQ:
            v = Verdict("equal", q, where)
            v.nout = nout; v.sample = C.sample(q, x, where)
            out.append(v); continue
        allp = {p for _, pr in ps for p in pr}
        if s == Result.UNDEC:
            out.append(Verdict("undecided", q, where, (), allp, why)); continue
        props = set()
        for k, a, b in d: props |= set(units.props_of(ps, k))
        props |= mentioned(q, d)
        if edit is None: edit = structure.change(C.spec, C.cur, q, memo)
        for n in edit[0] + edit[1]: props |= anchors.props(n)
        ok, cls = trusted(d, edit, C.spec, C.cur)
        dep = forbidden(q, d)
        for p, _, _ in dep: props |= p
        if not ok: dep = dep + [(props, k, t) for k, t in dependence(d)] + [({"P07"}, k, t) for k, t in time_exit(q, d)]
        if not ok and dep:
            v = Verdict("diff", q, where, [k for _, k, _ in dep], set().union(*[p for p, _, _ in dep]), "; ".join(dict.fromkeys(t for _, _, t in dep)), d, edit)
            v.nout = nout
            out.append(v); continue
        v = Verdict("diff" if ok else "undecided", q, where, [k for k, _, _ in d], props,
                    "outputs %s differ from the required ones [%s]" % (", ".join(k for k, _, _ in d[:8]), cls) if ok else
                    "the code was restructured beyond what the normal form can compare [%s]: %s" % (cls, ", ".join(k for k, _, _ in d[:8])), d, edit)
        v.nout = nout
        out.append(v)
    return out

def judge_builds(C, q, ps):
    """Debug against release build of one tree: the text is the same, so every difference comes from debug-only code."""
    memo = C.__dict__.setdefault("_fpmemo", {})
    rel = [fps(C.spec, q, C.__dict__.setdefault("_fpr", {})), fps(C.cur, q, C.__dict__.setdefault("_fpd", {}))]
    if rel[0] == rel[1] and rel[0]:
        out = []
        for tu, f in C.spec.find(q):
            v = Verdict("equal", q, tu.where(f)); out.append(v)
        return out
    out = []
    for x, y, s, d, why in C.unit(q):
        loc = y if y is not None else x
        where = loc[0].where(loc[1])
        if s == Result.DIFF and q in units.IGNORE_THIS:
            d = [t for t in d if not t[0].startswith("this")]
            if not d: s = Result.EQ
        if s == Result.DIFF:
            v = Verdict("diff", q, where, [k for k, _, _ in d], {"P30"}, "debug and release builds differ in " + ", ".join(k for k, _, _ in d[:8]), d)
        elif s == Result.EQ:
            v = Verdict("equal", q, where); v.sample = C.sample(q, x, where)
        else: v = Verdict("undecided", q, where, (), {"P30"}, why)
        v.nout = C.nouts(x)
        out.append(v)
    return out

def fps(tree, q, memo):
    """Fingerprints of everything the unit reaches."""
    res = set()
    for tu, f in tree.find(q):
        for n in reachable(tu, f) | {q}:
            for t2, g in tree.find(n): res.add((structure.bare(n), structure.fp(t2, g, memo)))
    for q2, fs in tree.tu.funcs.items():
        for g in fs:
            if g.get("kind") == "CXXConstructorDecl": res.add((structure.bare(q2), structure.fp(tree.tu, g, memo)))
    return res
