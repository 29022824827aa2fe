"""Rules decided on the current tree alone (no reference): queries over the resolved syntax tree and compile witnesses."""
import os, re, subprocess, tempfile, shutil, itertools
from concurrent.futures import ThreadPoolExecutor
import cpp, compare
from compare import VERIF, REPO

class Res:
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.sites, self.violations, self.undecided, self.samples = 0, [], [], []
    def bad(self, where, msg): self.violations.append((where, msg))

def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(c for c in x.get("inner", ()) if c)

def definitions(tu):
    """Every function definition of the library and the program, template patterns included, test clients excluded."""
    for q, fs in tu.funcs.items():
        if q.startswith(("cft::client", "cft::probe")): continue
        for f in fs: yield q, f

# ---------------------------------------------------------------- ambient state
DENY_FN = {"rand", "srand", "rand_r", "drand48", "lrand48", "random", "srandom", "time", "clock", "getenv", "secure_getenv", "gettimeofday",
           "clock_gettime", "getpid", "gettid", "getrandom", "arc4random", "hardware_concurrency", "get_id", "async", "tmpnam"}
DENY_TYPE = re.compile(r"std::(random_device|thread|jthread|future|async|hash<[^>]*\*>)|unordered_(?:map|set|multimap|multiset)<[^,>]*\*|(?<!\w)(?:set|map)<[^,>]*\*")
def ambient(C, tier):
    r = Res("no-ambient-input", "no function of the library or the program reads a source of nondeterminism (random devices, the wall clock, the environment, "
            "thread identity, addresses); the monotonic clock is read only inside Chrono")
    tu = C.cur.tu
    for q, f in definitions(tu):
        for n in walk(f):
            d = n.get("referencedDecl")
            if d and d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                r.sites += 1
                nm = d.get("name")
                if nm in DENY_FN and not ours(tu, d):
                    r.bad(tu.where(n) if n.get("_line") else tu.where(f), "%s calls %s" % (q, nm))
                if nm == "now":
                    if not q.startswith("cft::Chrono"):
                        r.bad(tu.where(f), "%s reads the clock directly" % q)
                    elif "system_clock" in str((d.get("type") or {}).get("qualType", "")):
                        r.bad(tu.where(f), "%s reads the wall clock" % q)
            if n.get("kind") in ("VarDecl", "CXXConstructExpr", "CXXTemporaryObjectExpr", "FieldDecl"):
                t = cpp.qtype(n)
                if DENY_TYPE.search(t): r.bad(tu.where(f), "%s uses %s" % (q, t[:80]))
            if n.get("kind") in ("CXXReinterpretCastExpr", "CStyleCastExpr") and n.get("castKind") == "PointerToIntegral":
                r.bad(tu.where(f), "%s turns an address into a number" % q)
    return r

def ours(tu, d):
    q = tu.qname_of.get(d.get("id"), "")
    return q.startswith(("cft::", "cft_program"))

def global_state(C, tier):
    r = Res("no-mutable-state", "no variable with static or thread storage duration is mutable, no field is mutable, nothing casts const away")
    tu = C.cur.tu
    def chk(d, where, ctx):
        r.sites += 1
        t = cpp.qtype_sugar(d)
        t2 = cpp.qtype(d)
        if d.get("constexpr") or is_const(t) or is_const(t2) or "type-parameter" in t2: return
        r.bad(where, "%s: mutable variable %s of type %s outlives the call" % (ctx, d.get("name"), t))
    def ns(n, ctx):
        for d in n.get("inner", ()):
            if not d: continue
            k = d.get("kind")
            if k == "VarDecl": chk(d, tu.where(d), ctx)
            elif k == "FieldDecl":
                r.sites += 1
                if d.get("mutable") and (ctx, d.get("name")) != ("cft::Environment", "rnd"): r.bad(tu.where(d), "%s: mutable field %s" % (ctx, d.get("name")))
            if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateDecl", "ClassTemplateSpecializationDecl", "LinkageSpecDecl"):
                nm = d.get("name") or ""
                if nm in ("client", "probe"): continue
                ns(d, (ctx + "::" + nm).strip(":"))
    for doc in tu.docs:
        if (doc.get("name") or "") in ("std", "fmt", "__gnu_cxx"): continue
        ns({"inner": [doc]}, "")
    for q, f in definitions(tu):
        for n in walk(f):
            if n.get("kind") == "VarDecl" and (n.get("storageClass") == "static" or n.get("tls")):
                chk(n, tu.where(f), q)
            if n.get("kind") == "CXXConstCastExpr":
                r.sites += 1
                t = cpp.qtype_sugar(n)
                if not is_const(t.rstrip("&* ")): r.bad(tu.where(f), "%s casts const away (%s)" % (q, t))
    return r

def is_const(t):
    t = (t or "").strip()
    return t.startswith("const ") or t.endswith("const") or re.match(r"^[\w:<>, ]+ const\b", t) is not None

# ---------------------------------------------------------------- counters and clocks
def counter_width(C, tier):
    r = Res("counter-width", "no cover counter is counted in an integer type narrower than 32 bits, and no count is accumulated in a type narrower than itself")
    tu = C.cur.tu
    for q, f in definitions(tu):
        if not q.startswith("cft::CoverCounters") or cpp.is_dependent(f): continue
        for n in walk(f):
            if n.get("kind") == "UnaryOperator" and n.get("opcode") in ("++", "--") or n.get("kind") == "CompoundAssignOperator":
                t = bare_t(cpp.qtype(n))
                if t not in BITS: continue
                r.sites += 1
                if BITS[t] < 32: r.bad(tu.where(f), "%s counts in %s" % (q, t))
                elif len(r.samples) < 4: r.samples.append("%s counts in %s" % (q, t))
    return r

def clock(C, tier):
    r = Res("monotonic-clock", "the timer reads a monotonic clock and nothing else")
    tu = C.cur.tu
    for q, f in definitions(tu):
        if not q.startswith("cft::Chrono"): continue
        for n in walk(f):
            d = n.get("referencedDecl")
            if n.get("kind") == "CallExpr" and any((x.get("referencedDecl") or {}).get("name") == "now" for x in walk(n["inner"][0])):
                t = str(n.get("type"))
                r.sites += 1
                if "system_clock" in t: r.bad(tu.where(f), "%s reads the wall clock" % q)
                elif len(r.samples) < 4: r.samples.append("%s: %s" % (q, cpp.qtype(n)[:80]))
    return r

# ---------------------------------------------------------------- compile witnesses
SRC = os.path.join(REPO, "src")
def cc(job):
    """Runs one compiler job: (label, compiler, arguments, source text or path, output object or None)."""
    label, comp, args, src, obj = job
    p = subprocess.run([comp, "-std=gnu++11", "-w", *args, *(["-c", "-o", obj] if obj else ["-fsyntax-only"]), src], capture_output=True, text=True)
    err = [l for l in p.stderr.splitlines() if "error:" in l or "undefined reference" in l or "multiple definition" in l]
    return label, p.returncode, (err or p.stderr.splitlines() or [""])[0]

def run_jobs(jobs):
    with ThreadPoolExecutor(8) as ex: return list(ex.map(cc, jobs))

def default_compiles():
    """The program in its default configuration; without it no other compile failure means anything."""
    p = subprocess.run(["g++", "-std=gnu++11", "-w", "-DNDEBUG", "-I" + SRC, "-fsyntax-only", os.path.join(SRC, "main.cpp")], capture_output=True, text=True)
    if p.returncode: raise cpp.AstError("the default configuration does not compile: " + p.stderr[:1000])

MODES = (("release", ("-DNDEBUG",)), ("debug", ()))
PLAIN = [("uint64_t", "int64_t", "long double"), ("int16_t", "uint8_t", "float"), ("uint64_t", "uint32_t", "double"), ("int32_t", "uint16_t", "double"),
         ("int64_t", "int8_t", "float"), ("uint32_t", "uint64_t", "long double")]
TAGGED = [("int32_t", "int16_t", "float"), ("uint64_t", "int64_t", "long double"), ("int16_t", "uint8_t", "double")]
def types_compile(C, tier):
    r = Res("types-replaceable", "the library, the program and client code of every template type-check with every combination of column-index, row-index and real type "
            "in the table, native and user-defined, in debug and release mode, with both compilers")
    default_compiles()
    jobs = []
    for comp in ("g++", "clang++"):
        for mode, fl in MODES:
            for n, cfgs, tu in (("CFT_%s_TYPE", PLAIN, "unit.cpp"), ("TAG_%s", TAGGED, "tagged.cpp")):
                for c in cfgs:
                    d = ["-D%s=%s" % (n % k, t) for k, t in zip(("CIDX", "RIDX", "REAL"), c)]
                    lab = "%s<%s> %s %s" % ("tagged" if tu == "tagged.cpp" else "native", ", ".join(c), mode, comp)
                    jobs.append((lab, comp, [*fl, *d, "-I" + SRC], os.path.join(VERIF, "tu", tu), None))
    extra = {}
    for lab, rc, err in run_jobs(jobs):
        r.sites += 1
        if rc: r.bad(err.split(": error")[0].replace(SRC, "src"), "%s does not compile: %s" % (lab, err.replace(SRC, "src")))
        elif len(r.samples) < 4: r.samples.append("compiles: " + lab)
    if len(r.violations) == r.sites:
        # nothing compiles: not a matter of the types (for example a client that uses a renamed helper)
        r.undecided = ["no configuration type-checks with the client code: " + r.violations[0][1][:200]]; r.violations = []
    return r

def headers_stand_alone(C, tier):
    r = Res("headers-self-contained", "every header type-checks when it is the only one included, twice in a row, in debug and release mode, with both compilers, and all headers "
            "together type-check in both orders; two translation units that include all headers link into one program")
    default_compiles()
    hs = sorted(os.path.relpath(os.path.join(d, f), SRC) for d, _, fs in os.walk(SRC) for f in fs if f.endswith((".hpp", ".h")))
    tmp = tempfile.mkdtemp(prefix="cfthdr.")
    try:
        jobs, n = [], 0
        def src(name, text):
            p = os.path.join(tmp, name + ".cpp"); open(p, "w").write(text); return p
        for h in hs:
            p = src("h%d" % n, '#include "%s"\n#include "%s"\n' % (h, h)); n += 1
            for comp in ("g++", "clang++"):
                for mode, fl in MODES: jobs.append(("%s alone, %s, %s" % (h, mode, comp), comp, [*fl, "-I" + SRC], p, None))
        if tier == "thorough":
            for h1, h2 in itertools.permutations(hs, 2):
                p = src("p%d" % n, '#include "%s"\n#include "%s"\n' % (h1, h2)); n += 1
                jobs.append(("%s alone, before %s" % (h1, h2), "clang++", ["-DNDEBUG", "-I" + SRC], p, None))
        inc = lambda l: "".join('#include "%s"\n' % h for h in l)
        a = src("all_a", inc(hs) + "int other();\nint main() { return other(); }\n")
        b = src("all_b", inc(hs[::-1]) + "int other() { return 0; }\n")
        for mode, fl in MODES:
            for p, nm in ((a, "in order"), (b, "in reverse order")):
                jobs.append(("all headers %s, %s" % (nm, mode), "g++", [*fl, "-O0", "-I" + SRC], p, p[:-4] + mode + ".o"))
        for lab, rc, err in run_jobs(jobs):
            r.sites += 1
            if rc: r.bad(lab.split(" alone")[0], "%s: %s" % (lab, err.replace(tmp, "").replace(SRC, "src")))
        for mode, _ in MODES:
            os_ = [x[:-4] + mode + ".o" for x in (a, b)]
            if not all(os.path.exists(x) for x in os_): continue
            r.sites += 1
            p = subprocess.run(["g++", *os_, "-lfmt", "-o", os.path.join(tmp, "prog")], capture_output=True, text=True)
            dup = [l for l in p.stderr.splitlines() if "multiple definition" in l]
            if dup: r.bad("link, " + mode, "two translation units including all headers do not link: " + re.sub(r"^.*?(multiple definition of)", r"\1", dup[0]))
            elif p.returncode: r.undecided.append("link failed for another reason: " + p.stderr[-200:])
        r.samples = ["header %s" % h for h in hs[:4]]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r

# ---------------------------------------------------------------- widths
BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64,
        "unsigned long": 64, "long long": 64, "unsigned long long": 64, "__int128": 128, "unsigned __int128": 128}
FBITS = {"float": 32, "double": 64, "long double": 128}
def bare_t(t): return t.replace("const ", "").replace("volatile ", "").strip(" &")
def strip_e(x):
    while x.get("kind") in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr", "ExprWithCleanups", "MaterializeTemporaryExpr") and x.get("inner"): x = x["inner"][0]
    return x
def eff(x):
    """Type of an integer expression before integral promotion; None for literals and other constants."""
    k = x.get("kind")
    if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr") and x.get("inner"): return eff(x["inner"][0])
    if k == "ConstantExpr" or "Literal" in k: return None
    if k == "ImplicitCastExpr":
        i = eff(x["inner"][0])
        if x.get("castKind") in ("LValueToRValue", "NoOp"): return i
        if i is None: return None
        a, b = i, bare_t(cpp.qtype(x))
        if x.get("castKind") == "IntegralCast" and a in BITS and b in BITS and BITS[b] >= BITS[a]: return a
        if x.get("castKind") == "FloatingCast" and a in FBITS and b in FBITS and FBITS[b] >= FBITS[a]: return a
        return b
    if k == "UnaryOperator" and x.get("opcode") in ("-", "+", "~", "++", "--"): return eff(x["inner"][0])
    if k == "BinaryOperator" and x.get("opcode") in ("+", "-", "*", "/", "%", "&", "|", "^"):
        a, b = eff(x["inner"][0]), eff(x["inner"][1])
        if a is None or b is None: return a or b
        t = FBITS if a in FBITS or b in FBITS else BITS
        if a not in t: return b if b in t else bare_t(cpp.qtype(x))
        if b not in t: return a
        return a if t[a] >= t[b] else b
    if k == "ConditionalOperator":
        a, b = eff(x["inner"][1]), eff(x["inner"][2])
        if a is None or b is None: return a or b
    return bare_t(cpp.qtype(x))

def narrower(s, d):
    """Whether a value of type s does not fit in type d in general."""
    if s in BITS and d in BITS: return BITS[d] < BITS[s]
    if s in FBITS and d in FBITS: return FBITS[d] < FBITS[s]
    if s in FBITS and d in BITS: return BITS[d] < 64
    return False

CONFIGS = [("all wide", ("uint64_t", "int64_t", "long double")), ("narrow rows", ("uint64_t", "int16_t", "double")), ("narrow columns", ("int16_t", "uint64_t", "float"))]
UTIL = ("src/utils/",)
ROLECAST = {"checked_cast", "as_cidx", "as_ridx", "as_real"}
COLS = {"cols", "costs", "col_map"}
def conversions(job):
    """[(file, function, source type, target type, where, what)] of one tree under one configuration."""
    src, label, cfg = job
    docs = cpp.dump(os.path.join(VERIF, "tu", "unit.cpp"), [src], ("-DNDEBUG", "-DCFT_CIDX_TYPE=" + cfg[0], "-DCFT_RIDX_TYPE=" + cfg[1], "-DCFT_REAL_TYPE=" + cfg[2]))
    tu = cpp.TU(docs)
    out, n_sites = [], 0
    for q, f in definitions(tu):
        if cpp.is_dependent(f): continue
        fw = tu.where(f)
        for n in walk(f):
            k, ck = n.get("kind"), n.get("castKind")
            w = None
            s = d = None
            if ck in ("IntegralCast", "FloatingCast", "FloatingToIntegral"):
                s, d, w = eff(n["inner"][0]), bare_t(cpp.qtype(n)), "conversion"
            elif k == "CompoundAssignOperator":
                s, d, w = eff(n["inner"][1]), bare_t(cpp.qtype(n)), "accumulation"
            elif k == "CallExpr" and label == "all wide" and len(n.get("inner", ())) > 1:
                r = strip_e(n["inner"][0]).get("referencedDecl") or {}
                if r.get("name") == "checked_cast": s, d, w = eff(n["inner"][1]), bare_t(cpp.qtype(n)), "checked_cast"
            elif k == "UnaryOperator" and n.get("opcode") in ("++", "--") and label == "all wide":
                d = bare_t(cpp.qtype(n))
                if d in BITS and BITS[d] < 32: s, w = "count", "counter"
            elif k == "CXXOperatorCallExpr" and label == "narrow rows" and len(n.get("inner", ())) == 3:
                r = strip_e(n["inner"][0]).get("referencedDecl") or {}
                b = strip_e(n["inner"][1])
                if r.get("name") == "operator[]" and b.get("kind") == "MemberExpr" and b.get("name") in COLS:
                    t = eff(n["inner"][2])
                    if t == "short": s, d, w = "column index", "row index type", "index"
            if w is None: continue
            n_sites += 1
            if w in ("counter", "index") or (s is not None and narrower(s, d)):
                l = tu.where(n)
                fl = fw.split(":")[0]
                out.append((fl, q, s, d, l if l != "?" else fw, w))
    return label, n_sites, out

def widths(C, tier):
    r = Res("no-narrowing", "with column indexes, row indexes and reals of distinct widths, no expression of the library converts, accumulates or counts a value in a type narrower "
            "than its own, except the checked casts between the three roles and the text and random-number conversions of src/utils; no row-index variable subscripts a column-indexed container")
    default_compiles()
    jobs = [(s, l, c) for l, c in CONFIGS for s in (SRC, os.path.join(VERIF, "spec", "src"))]
    import multiprocessing as mp
    def safe(j):
        try: return conversions(j)
        except cpp.AstError as e: return j[1], 0, str(e)
    global _safe
    _safe = safe
    with mp.get_context("fork").Pool(6) as pool: res = pool.map(_call_safe, jobs)
    for (l, c), cur, ref in zip(CONFIGS, res[0::2], res[1::2]):
        if isinstance(cur[2], str):
            r.undecided.append("%s: %s" % (l, cur[2][:300])); continue
        r.sites += cur[1]
        allow = {(x[0], x[2], x[3]) for x in ref[2]} if not isinstance(ref[2], str) else set()
        for fl, q, s, d, wh, w in cur[2]:
            if fl.startswith(UTIL) and (fl, s, d) in allow: continue
            if (fl, s, d) in {(a, b, e) for a, f2, b, e, _, _ in ref[2] if f2 == q}: continue
            r.bad(wh, "%s: %s of %s to %s (%s configuration)" % (q, w, s, d, l))
        if len(r.samples) < 4: r.samples.append("%s <%s>: %d conversions examined" % (l, ", ".join(c), cur[1]))
    return r
def _call_safe(j): return _safe(j)
