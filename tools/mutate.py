#!/usr/bin/env python3
"""Makes a corpus of small mechanical mutants of /repo/src, for calibrating the comparison. Development tool, not a check.

usage: mutate.py OUTDIR COUNT SEED [file pattern]"""
import os, re, sys, random, shutil, subprocess, fnmatch
from concurrent.futures import ThreadPoolExecutor
SRC = "/repo/src"
HERE = os.path.dirname(os.path.abspath(__file__))
def code_lines(path):
    out, blk = [], False
    for n, l in enumerate(open(path).read().split("\n")):
        s = re.sub(r"//.*", "", l)
        if s.strip().startswith(("#", "static_assert", "assert", "print<", "template", "using", "namespace", "/*", "*", "return os", "fmt::", "SPDX")): continue
        if "print<" in s or "assert(" in s or "CFT_FMT" in s: continue
        out.append((n, s))
    return out
RULES = [
    ("rel", r"(?<=[\w\)\]] )(<=|<|>=|>|==|!=)(?= [\w\(\-\*!])", lambda m: {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[m]),
    ("rel2", r"(?<=[\w\)\]] )(<|>)(?= [\w\(\-\*!])", lambda m: {"<": ">", ">": "<"}[m]),
    ("arith", r"(?<=[\w\)\]] )([+\-*/])(?= [\w\(])", lambda m: {"+": "-", "-": "+", "*": "/", "/": "*"}[m]),
    ("bool", r"(&&|\|\|)", lambda m: {"&&": "||", "||": "&&"}[m]),
    ("const", r"(?<![\w.\"#])(\d+(?:\.\d+)?)(?![\w.\"])", lambda m: {"0": "1", "1": "0", "0.0": "1.0", "1.0": "0.0"}.get(m, m + "1" if "." not in m else m + "7")),
    ("assign", r"( )([+\-*/]=)( )", None),
    ("tf", r"\b(true|false)\b", lambda m: {"true": "false", "false": "true"}[m]),
    ("inc", r"(\+\+|--)", lambda m: {"++": "--", "--": "++"}[m]),
    ("minmax", r"\b(min|max|cover|uncover|is_redundant_cover|is_redundant_uncover|ltrim|rtrim|begin|end|front|back|any|all)\b(?=\()", lambda m: {"min": "max", "max": "min", "cover": "uncover", "uncover": "cover", "is_redundant_cover": "is_redundant_uncover", "is_redundant_uncover": "is_redundant_cover", "ltrim": "rtrim", "rtrim": "ltrim", "begin": "end", "end": "begin", "front": "back", "back": "front", "any": "all", "all": "any"}[m]),
    ("name", r"\b(ridx_t|cidx_t|nrows|ncols|csize|rsize|inst|core|col_map|row_map|best_sol|unfixed_best|lagr_mult|upper_bound|lower_bound|partial_cost|cutoff_cost|cols|rows|idxs|ncols_constr)\b", "swapname"),
]
NAMES = [("csize", "rsize"), ("rows", "cols"), ("best", "core"), ("old", "new"), ("upper_bound", "lower_bound"), ("nrows", "ncols"), ("inst", "core_inst")]
def mutants():
    for root, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(root, f); rel = os.path.relpath(p, SRC)
            if not f.endswith((".hpp", ".cpp")): continue
            for n, s in code_lines(p):
                for name, pat, fn in RULES:
                    if fn == "swapname": continue
                    for m in re.finditer(pat, s):
                        if fn is None:
                            new = s[:m.start()] + " = " + s[m.end():]
                        else:
                            new = s[:m.start(1)] + fn(m.group(1)) + s[m.end(1):]
                        yield rel, n, name, new
                t = s.strip()
                if t.endswith(";") and not re.match(r"(auto|return|break|continue|using|static|constexpr|private|typedef|struct|friend|for|\}|const|double|int|bool|size_t|std::string|std::vector|real_t|ridx_t|cidx_t|[\w:<>]+&? +\w+( =|;|\{|\())", t) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                    yield rel, n, "del", re.sub(r"\S.*", ";", s)
                if re.match(r"(break|continue);", t): yield rel, n, "jump", re.sub(r"\S.*", {"b": "continue;", "c": "break;"}[t[0]], s)
                m = re.match(r"(\s*(?:else )?if )\((.*)\)(\s*\{?)$", s)
                if m:
                    yield rel, n, "neg", "%s(!(%s))%s" % m.groups()
                    yield rel, n, "iftrue", "%s(true || (%s))%s" % m.groups()
                    yield rel, n, "iffalse", "%s(false && (%s))%s" % m.groups()
                for m in re.finditer(r"\b(\w+)\((\w[\w.]*), (\w[\w.]*)(?=[,)])", s):
                    if m.group(1) in ("for", "if"): continue
                    yield rel, n, "swap", s[:m.start(2)] + m.group(3) + ", " + m.group(2) + s[m.end(3):]
def main():
    out, cnt, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pat = sys.argv[4] if len(sys.argv) > 4 else "*"
    l = [m for m in mutants() if fnmatch.fnmatch(m[0], pat)]
    print(len(l), "mutation sites")
    random.Random(seed).shuffle(l)
    os.makedirs(out, exist_ok=True)
    def make(im):
        i, (rel, n, name, new) = im
        d = os.path.join(out, "m%04d_%s" % (i, name))
        shutil.copytree(SRC, d, dirs_exist_ok=True)
        p = os.path.join(d, rel)
        t = open(p).read().split("\n")
        old = t[n]; t[n] = new
        open(p, "w").write("\n".join(t))
        tu = os.path.join(HERE, "..", "tu", "unit.cpp")
        r = subprocess.run(["clang++", "-std=gnu++11", "-DNDEBUG", "-fsyntax-only", "-w", "-I" + d, tu], capture_output=True)
        if r.returncode != 0:
            shutil.rmtree(d); return None
        open(os.path.join(d, "MUT"), "w").write("%s:%d %s\n- %s\n+ %s\n" % (rel, n + 1, name, old.strip(), new.strip()))
        return d
    got = 0
    with ThreadPoolExecutor(8) as ex:
        for k in range(0, len(l), 40):
            for r in ex.map(make, list(enumerate(l[k:k + 40], k))):
                if r: got += 1
            if got >= cnt: break
    print(got, "mutants")
main()
