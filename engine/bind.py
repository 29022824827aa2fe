"""The native Python module: which attribute of which class is bound to what, read off the resolved syntax tree of the binding file."""
import os, re
import cpp, compare, execu, summary, contracts
import terms as TT
from compare import VERIF, REPO, Tree, Comparer
from summary import Summary, param_sym
from cpp import qtype, qtype_sugar

NS = ("cft_bindfile::", "cft_bindlocal::", "cft_py_module")

class BindTree(Tree):
    def __init__(self, name, src):
        self.name, self.src, self.error, self.partial = name, src, None, False
        tu = os.path.join(VERIF, "tu", "bind.cpp")
        err = None
        for extra in ((), ("-DVP_BIND_PLAIN",), ("-std=gnu++14",)):
            try:
                docs = cpp.dump(tu, [src, os.path.join(VERIF, "tu", "stub")], ("-DNDEBUG",) + extra); break
            except cpp.AstError as e: err = err or e
        else: raise err
        self.tu = cpp.TU(docs)
        self.memo = {}
        self.names = set(self.tu.funcs)
        self.read_table()

    def read_table(self):
        tu = self.tu
        self.rows, self.classes, self.problems, self.sites = {}, {}, [], 0
        lam = {}            # lambda variable -> LambdaExpr
        defs = [(q, f) for q, fs in tu.funcs.items() if q.startswith(NS) for f in fs if not cpp.is_dependent(f)]
        for q, f in defs:
            for n in walk(f):
                if n.get("kind") == "VarDecl":
                    l = first(n, "LambdaExpr")
                    if l is not None and "lambda" in qtype(n): lam[n["id"]] = l
                if n.get("kind") in ("CXXTemporaryObjectExpr", "CXXConstructExpr") and is_class(qtype(n)):
                    s = [x for x in n.get("inner", ()) if x and first(x, "StringLiteral", shallow=True) is not None]
                    if s: self.classes[targ(qtype(n))] = literal(s[0])
                    elif len([x for x in n.get("inner", ()) if x]) > 1: self.problems.append("class with a computed name in " + q)
        for q, f in defs:
            for n in walk(f):
                if n.get("kind") != "CXXMemberCallExpr": continue
                m = n["inner"][0]
                if m.get("kind") != "MemberExpr" or not str(m.get("name")).startswith("def"): continue
                ot = qtype(m["inner"][0])
                if is_class(ot): owner = targ(ot)
                elif re.search(r"\bmodule_\b", ot): owner = ""
                else: continue
                self.sites += 1
                args = [x for x in n["inner"][1:] if x and x.get("kind") != "CXXDefaultArgExpr"]
                self.row(tu, owner, m["name"], args, n, lam, q)
            for n in walk(f):
                if n.get("kind") == "CallExpr":
                    d = callee(n)
                    if d is not None and re.search(r"module_ ?&|class_<", str((d.get("type") or {}).get("qualType", ""))) and not cpp.has_body(tu.definition(d["id"]) or {}):
                        self.problems.append("%s hands the module to %s" % (q, d.get("name")))
        if not any(q.endswith("cft_py_module") for q, _ in defs): self.problems.append("no module function")

    def row(self, tu, owner, kind, args, n, lam, q):
        cls = self.classes.get(owner, owner)
        if kind == "def" and args and "init_ctor" in qtype(args[0]) or args and "init_factory" in qtype(args[0]):
            self.rows.setdefault((cls, "__init__"), []).append(("init", re.sub(r".*(init_\w+<.*>).*", r"\1", qtype(args[0])), owner)); return
        name = literal(args[0]) if args else None
        if name is None:
            self.problems.append("%s with a computed name in %s" % (kind, q)); return
        want = {"def": 1, "def_static": 1, "def_readwrite": 1, "def_readonly": 1, "def_property_readonly": 1, "def_property": 2}.get(kind)
        if want is None or len(args) < 1 + want:
            self.problems.append("%s of %s in %s" % (kind, name, q)); return
        cs = [self.target(tu, a, lam) for a in args[1:1 + want]]
        for a in args[1 + want:]:
            t = qtype(a)
            if "char" in t or re.search(r"call_guard<", t) or (re.search(r"\barg\b", t) and not any(x.get("kind") == "CXXOperatorCallExpr" for x in walk(a))) or "doc" in t: continue
            cs.append(("extra", t))
        self.rows.setdefault((cls, name), []).append((kind, tuple(cs), owner))

    def target(self, tu, a, lam):
        x = a
        while True:
            k = x.get("kind")
            if k == "LambdaExpr":
                op = [c for r in x["inner"][:1] for c in r.get("inner", ()) if c and c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
                return ("lambda", op[0]["id"]) if op else ("unknown", qtype(a))
            if k == "DeclRefExpr":
                d = x["referencedDecl"]
                if d.get("kind") == "FieldDecl": return ("field", d["name"], str((d.get("type") or {}).get("qualType", "")))
                if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    g = tu.definition(d["id"])
                    if g is None: return ("unknown", d.get("name"))
                    qn = tu.qname_of.get(g["id"], d.get("name"))
                    return ("function", qn, re.sub(r"\s+", "", compare.typekey(g)), g["id"])
                if d.get("kind") == "VarDecl" and d["id"] in lam: x = lam[d["id"]]; continue
                if d.get("kind") == "VarDecl":
                    v = tu.decl.get(d["id"])
                    if v is not None and v.get("inner"): x = v; continue
                return ("unknown", d.get("name"))
            kids = [c for c in x.get("inner", ()) if c]
            if len(kids) < 1 or k in ("CallExpr",): return ("unknown", k)
            if k == "VarDecl": kids = kids[-1:]
            if len(kids) != 1: return ("unknown", k)
            x = kids[0]

def callee(n):
    x = n["inner"][0]
    while x and x.get("kind") != "DeclRefExpr":
        k = [c for c in x.get("inner", ()) if c]
        if len(k) != 1: return None
        x = k[0]
    d = x.get("referencedDecl") if x else None
    return d if d and d.get("kind") in cpp.FUNC else None

def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(c for c in reversed(x.get("inner", ())) if c)
def first(n, kind, shallow=False):
    if n.get("kind") == kind: return n
    for c in n.get("inner", ()):
        if c:
            if shallow and c.get("kind") not in ("ImplicitCastExpr", "StringLiteral", "ParenExpr"): continue
            r = first(c, kind, shallow)
            if r is not None: return r
    return None
def literal(n):
    l = first(n, "StringLiteral", True)
    return l["value"].strip('"') if l is not None else None
def is_class(t): return re.search(r"(^|[ :])class_<", t) is not None
def targ(t):
    m = re.search(r"class_<(.*)>", t)
    return re.sub(r"\bcft::", "", execu.split_targs(m.group(1))[0]) if m else t

def field_rows(q, owner, name):
    """Getter and setter outputs of a bound data member."""
    s = TT.sym("p0", "any")
    return s

def entry_terms(C, tree, kind, cs, owner):
    """(outputs of reading, outputs of writing) of a bound attribute; None where it cannot be written."""
    out = []
    for i, c in enumerate(cs):
        if c[0] == "extra": continue
        if c[0] == "field":
            r = param_sym(owner, 0)
            s = Summary(); s.outs["return"] = TT.get(r, c[1], None); s.outs["throws"] = TT.FALSE
            out.append(s)
            if kind == "def_readwrite":
                s = Summary()
                s.outs["p0"] = TT.setf(r, c[1], TT.sym("p1", TT.get(r, c[1], None).sort)); s.outs["throws"] = TT.FALSE
                out.append(s)
        elif c[0] == "lambda" or c[0] == "function":
            f = tree.tu.decl.get(c[-1])
            out.append(C.summ(tree, tree.tu, f))
        else: out.append(None)
    return out

class Row:
    def __init__(self, status, key, where, why): self.status, self.key, self.where, self.why = status, key, where, why

def same(a, b):
    k = lambda c: c[:3] if c[0] == "function" else c[:2] if c[0] == "field" else c
    return a[0] == b[0] and [k(c) for c in a[1]] == [k(c) for c in b[1]]

def compare_rows(C, key, a, b):
    """Status of one bound attribute: reference row a, current row b."""
    tu = C.cur.tu
    if a[0] == "init" or b[0] == "init":
        return ("equal", "") if a == b else ("undecided", "constructor bound differently")
    if not any(c[0] == "lambda" for c in a[1] + b[1]):
        if same(a, b): return "equal", ""
        if any(c[0] in ("unknown", "extra") for c in a[1] + b[1]): return "undecided", "bound to something unknown"
        if a[0] == b[0] or {a[0], b[0]} == {"def_readwrite", "def_readonly"}: return "diff", "%s is bound by %s to %s, not by %s to %s" % (".".join(key), b[0], text(b[1]), a[0], text(a[1]))
        return "undecided", "bound by %s" % b[0]
    if any(c[0] in ("unknown", "extra") for c in a[1] + b[1]) and not same(a, b): return "undecided", "bound to something unknown"
    rw = lambda r: r[0] in ("def_readwrite", "def_property")
    ro = lambda r: r[0] in ("def_readonly", "def_property_readonly")
    if rw(a) and ro(b): return "diff", "%s cannot be written" % ".".join(key)
    if (rw(a) or ro(a)) != (rw(b) or ro(b)): return "undecided", "bound by %s" % b[0]
    x, y = entry_terms(C, C.spec, a[0], a[1], a[2]), entry_terms(C, C.cur, b[0], b[1], b[2])
    # the first summaries of a pair of trees may refine the sorts of shared terms
    C.cache.clear()
    x, y = entry_terms(C, C.spec, a[0], a[1], a[2]), entry_terms(C, C.cur, b[0], b[1], b[2])
    if len(x) != len(y): return "undecided", "bound by %s" % b[0]
    for u, v in zip(x, y):
        if not isinstance(u, Summary) or not isinstance(v, Summary): return "undecided", "%s / %s" % (u, v)
        if u.unknown_left != v.unknown_left: return "undecided", "state after an exception"
        d = [(k, s, t) for k, s, t in summary.diff(u, v) if not ((s is None or t is None) and untouched(k, s if t is None else t))]
        if d:
            import gate
            ok = a[0] != b[0] or gate.terms_level(d) < 2 or any(s is not None and t is not None and untouched(k, t) and not untouched(k, s) for k, s, t in d)
            k, s, t = d[0]
            msg = "%s: output %s differs" % (".".join(key), ", ".join(k for k, _, _ in d))
            if s is not None and t is not None: msg += "\n  required: %s\n  found:    %s" % (TT.show(s)[:400], TT.show(t)[:400])
            return ("diff" if ok else "undecided"), msg
    return "equal", ""

def untouched(k, t):
    """An output that only one side has, and that is the field as it was (a reference member of a constant object)."""
    r, *path = k.split(".")
    while t is not None and path and t.op == "get" and str(t.args[1]) == path[-1]: t = t.args[0]; path.pop()
    return t is not None and not path and t.op == "sym" and str(t.args[0]) == r

def text(cs): return ", ".join(str(c[1]) for c in cs)

def load():
    spec, cur = BindTree("spec", os.path.join(VERIF, "spec", "src")), BindTree("cur", os.path.join(REPO, "src"))
    C = Comparer(spec=spec, cur=cur)
    C.left = True
    return C

def where_of(C, row):
    for c in row[1] if row[0] != "init" else ():
        if c[0] in ("lambda", "function"):
            f = C.cur.tu.decl.get(c[-1])
            if f is not None: return C.cur.tu.where(f)
    return "src/pycft/_bindings.cpp"
