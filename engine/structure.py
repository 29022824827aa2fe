"""Structural features of the functions that changed between the reference and the analysed tree."""
import re
from collections import Counter
import cpp
from compare import reachable, typekey

LOOPS = {"ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"}
JUMPS = {"BreakStmt": "break", "ContinueStmt": "continue", "ReturnStmt": "return", "CXXThrowExpr": "throw", "GotoStmt": "goto"}
ACCESS = {"size", "begin", "end", "empty", "operator[]", "csize", "rsize", "operator*", "operator->", "operator++", "operator--", "operator!=",
          "operator==", "operator<", "operator>", "operator<=", "operator>=", "operator+", "operator-", "operator bool", "move", "forward",
          "data", "at", "c_str", "cbegin", "cend", "as_cidx", "checked_cast", "front", "back", "get", "length", "operator/", "operator()",
          "operator\"\"_C", "operator\"\"_R", "operator\"\"_F", "operator basic_string_view"}

def fp(tu, f, memo):
    """Structural fingerprint of one function definition (no ids, no locations)."""
    k = f["id"]
    if k in memo: return memo[k]
    out = []
    def w(n):
        out.append((n.get("kind"), n.get("name"), str(n.get("value")), n.get("opcode"), n.get("isPostfix"), n.get("castKind"),
                    (n.get("type") or {}).get("qualType"), (n.get("type") or {}).get("desugaredQualType"), n.get("storageClass"),
                    n.get("hasElse"), n.get("init"), n.get("valueCategory")))
        for x in ("referencedDecl", "foundReferencedDecl"):
            d = n.get(x)
            if d: out.append((d.get("kind"), d.get("name"), (d.get("type") or {}).get("qualType")))
        if n.get("referencedMemberDecl"): out.append(tu.qname_of.get(n["referencedMemberDecl"]))
        out.append("(")
        for c in n.get("inner", ()):
            if c: w(c)
        out.append(")")
    w(f)
    memo[k] = hash(re.sub(r"lambda at [^)]*\)", "lambda)", repr(out)))
    return memo[k]

def bare(q): return q.split("::(lambda")[0]

def features(tu, f, skip=()):
    """Multiset of loops, jumps, calls with effects, assignments and branches of one function (and its lambdas)."""
    c = Counter()
    depth = [0]
    def w(n):
        k = n.get("kind")
        if k in LOOPS:
            c["loop " + k] += 1
            kids = [x for x in n.get("inner", ()) if x]
            if k == "CXXForRangeStmt":
                # the range expression only, not the implicit iterator variables
                for x in kids[:-1]:
                    if x.get("kind") == "DeclStmt" and any(y and y.get("kind") == "VarDecl" and str(y.get("name")).startswith("__range") for y in x.get("inner", ())):
                        for y in x["inner"]:
                            for z in y.get("inner", ()):
                                if z: w(z)
            else:
                for x in kids[:-1]: w(x)
            depth[0] += 1; w(kids[-1]); depth[0] -= 1
            return
        elif k in JUMPS: c[JUMPS[k]] += 1
        elif k == "IfStmt": c["if"] += 1
        elif k == "ConditionalOperator": c["if"] += 1
        elif k == "SwitchStmt": c["switch"] += 1
        elif k == "CompoundAssignOperator" or (k == "BinaryOperator" and n.get("opcode") == "="): c["set"] += 1
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"): c["set"] += 1
        elif k == "VarDecl": c["var%d" % depth[0]] += 1
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            t = (n.get("inner") or [{}])[0]
            nm = None
            st = [t]
            while st:
                x = st.pop()
                d = x.get("referencedDecl")
                if d and d.get("kind") in cpp.FUNC + ("FunctionDecl",): nm = d.get("name"); break
                if x.get("kind") == "MemberExpr": nm = x.get("name"); break
                st.extend(y for y in x.get("inner", ()) if y)
            if nm and nm not in ACCESS and nm not in skip: c["call " + nm] += 1
        elif k == "LambdaExpr":
            c["lambda"] += 1
            for x in n.get("inner", ()):
                if x and x.get("kind") != "CXXRecordDecl": w(x)
            return
        for x in n.get("inner", ()):
            if x: w(x)
    w(f)
    return c

# ---- conditions
THROUGH = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr",
           "CXXStaticCastExpr", "CStyleCastExpr", "SubstNonTypeTemplateParmExpr"}
CMP = {"<": "cmp", ">": "cmp", "<=": "cmp", ">=": "cmp", "==": "eq", "!=": "eq"}
LITCALL = {"operator\"\"_C", "operator\"\"_R", "operator\"\"_F"}
def kids(n): return [x for x in n.get("inner", ()) if x and x.get("kind")]

def text(n):
    """Expression without variable names, casts, the direction of comparisons and the accessor used."""
    k = n.get("kind")
    if k in THROUGH or (k == "CXXConstructExpr" and len(kids(n)) == 1): return text(kids(n)[-1]) if kids(n) else "()"
    if k == "DeclRefExpr":
        d = n.get("referencedDecl") or {}
        if "lambda" in str((d.get("type") or {}).get("qualType")): return "lambda"
        if d.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl"): return "v:" + str((d.get("type") or {}).get("qualType")).replace("const ", "").replace(" const", "").replace("&", "").strip()
        return str(d.get("name"))
    if k == "MemberExpr":
        c = kids(n)
        b = text(c[0]) if c else "this"
        return "%s.%s" % ("" if b == "this" else b, n.get("name"))
    if k == "CXXThisExpr": return "this"
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        o, (a, b) = n.get("opcode"), [text(x) for x in kids(n)]
        if o in CMP or o in ("+", "*", "&&", "||"): a, b = sorted((a, b))
        return "(%s %s %s)" % (a, CMP.get(o, o), b)
    if k == "UnaryOperator":
        return text(kids(n)[0]) if n.get("opcode") in ("!", "*", "&") else n.get("opcode") + text(kids(n)[0])
    if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral", "StringLiteral"):
        v = str(n.get("value"))
        try: return "%g" % float(v)
        except ValueError: return v
    if k in ("CXXOperatorCallExpr", "UserDefinedLiteral"):
        c = kids(n); f = text(c[0]); a = [text(x) for x in c[1:]]
        if f in LITCALL: return a[0]
        o = f.replace("operator", "")
        if o in CMP and len(a) == 2: a = sorted(a); return "(%s %s %s)" % (a[0], CMP[o], a[1])
        return "%s[%s]" % (f, ",".join(a))
    if k in ("CallExpr", "CXXMemberCallExpr"):
        c = kids(n); f = text(c[0]); a = [text(x) for x in c[1:]]
        if f in ("csize", "rsize") and len(a) == 1: return a[0] + ".size"
        if f in ("as_cidx", "as_ridx", "as_real", "native_cast", "checked_cast", "move", "forward") and len(a) == 1: return a[0]
        return f if k == "CXXMemberCallExpr" and not a else "%s(%s)" % (f, ",".join(a))
    if k == "LambdaExpr": return "lambda(%s)" % ",".join(text(x) for x in kids(n) if x.get("kind") == "CompoundStmt")
    return "%s(%s)" % (k, ",".join(text(x) for x in kids(n)))

def split_cond(n, out):
    k = n.get("kind")
    c = kids(n)
    if (k in THROUGH or k == "CXXConstructExpr") and len(c) == 1: return split_cond(c[-1], out)
    if k == "BinaryOperator" and n.get("opcode") in ("&&", "||"):
        for x in c: split_cond(x, out)
    elif k == "UnaryOperator" and n.get("opcode") == "!": split_cond(c[0], out)
    elif k == "ConditionalOperator" and "bool" in str((n.get("type") or {}).get("qualType")):
        for x in c: split_cond(x, out)
    else: out.append(text(n))

def conditions(tu, f):
    """(atoms tested by if statements and conditional expressions, all atoms tested or kept in truth values)."""
    ifs, every = Counter(), Counter()
    def isbool(n): return str((n.get("type") or {}).get("qualType")).replace("const ", "").strip() == "bool"
    def add(n, tgt):
        o = []; split_cond(n, o)
        for t in tgt: t.update(o)
    def w(n):
        k, c = n.get("kind"), kids(n)
        if k == "IfStmt" and c:
            e = [x for x in c if x.get("kind") != "DeclStmt"]
            if e: add(e[0], (ifs, every))
        elif k == "ConditionalOperator" and c: add(c[0], (ifs, every))
        elif k in ("WhileStmt", "DoStmt") and c: add(c[0] if k == "WhileStmt" else c[-1], (every,))
        elif k == "ForStmt":
            i = n.get("inner", ())
            if len(i) > 2 and i[2] and i[2].get("kind"): add(i[2], (every,))
        elif k == "VarDecl" and isbool(n) and c: add(c[-1], (every,))
        elif k == "ReturnStmt" and c and isbool(c[0]): add(c[0], (every,))
        elif k == "BinaryOperator" and n.get("opcode") == "=" and isbool(n): add(c[1], (every,))
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            for x in c[1:]:
                if isbool(x): add(x, (every,))
        for x in c: w(x)
    w(f)
    return ifs, every

EMPTY = re.compile(r"\.empty$|^empty\(|^\((0|1) (cmp|eq) .*\.size\)$|^\(.*\.size (cmp|eq) (0|1)\)$|^\(0 cmp v:[a-z_ ]*(idx_t|size_t|int|long)[a-z ]*\)$|^v:bool$|^(true|false|0|1)$")
def new_conditions(spec, cur, names, trivial=False):
    """(atoms tested in the current versions of these functions only, atoms of the reference versions that are gone)."""
    ia, ea, ib, eb = Counter(), Counter(), Counter(), Counter()
    for n in names:
        for T, i, e in ((spec, ia, ea), (cur, ib, eb)):
            seen = set()
            for tu, f in T.find(n):
                w = tu.where(f)
                if w in seen: continue
                seen.add(w)
                x, y = conditions(tu, f); i.update(x); e.update(y)
    return sorted(x for x in ib if (x not in ea or trivial and ib[x] > ia[x]) and bool(EMPTY.search(x)) == trivial), sorted(x for x in ea if eb[x] < ea[x])

def bodies(tree, q):
    """name -> definitions at distinct places, over everything the unit reaches."""
    r = {}
    for tu, f in tree.find(q):
        for n in reachable(tu, f) | {q}:
            if "(lambda" in n or n.endswith("::operator()") and n[:-12] in tree.names: continue
            for t2, g in tree.find(n):
                r.setdefault(bare(n), {}).setdefault((t2.where(g), g.get("kind")), (t2, g))
    return r

def change(spec, cur, q, memo):
    """(names of changed functions, added, removed, Counter cur - ref) over what the unit q reaches."""
    A, B = bodies(spec, q), bodies(cur, q)
    ms, mc = memo.setdefault("s", {}), memo.setdefault("c", {})
    ch, d = [], Counter()
    added = [n for n in B if n not in A and not spec.find(n)]
    removed = [n for n in A if n not in B and not cur.find(n)]
    skip = {n.split("::")[-1] for n in added + removed}
    for n in set(A) | set(B):
        a = [x for x in A.get(n, {}).values()]; b = [x for x in B.get(n, {}).values()]
        if not a and n not in added: a = list({t.where(f): (t, f) for t, f in spec.find(n)}.values())
        if not b and n not in removed: b = list({t.where(f): (t, f) for t, f in cur.find(n)}.values())
        fa = sorted({fp(t, f, ms) for t, f in a}); fb = sorted({fp(t, f, mc) for t, f in b})
        if fa == fb: continue
        ch.append(n)
        for t, f in b: d.update(features(t, f, skip))
        for t, f in a: d.subtract(features(t, f, skip))
    return sorted(ch), sorted(added), sorted(removed), {k: v for k, v in d.items() if v}

def changed_names(spec, cur, memo):
    """Names of all functions of the two trees whose definitions differ."""
    ms, mc = memo.setdefault("s", {}), memo.setdefault("c", {})
    out = set()
    for n in set(spec.names) | set(cur.names):
        if "(lambda" in n: continue
        fa = {fp(t, f, ms) for t, f in spec.find(n)}; fb = {fp(t, f, mc) for t, f in cur.find(n)}
        if fa != fb: out.add(bare(n))
    return out
