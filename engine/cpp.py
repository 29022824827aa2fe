"""Loads the type-checked syntax tree of a translation unit from clang's JSON dump and indexes it."""
import json, subprocess, re, os

CLANG = "clang++"

class AstError(Exception):
    pass

def dump(src, incs, defs=("-DNDEBUG",), filt="cft", extra=()):
    cmd = [CLANG, "-std=gnu++11", "-w", *defs, *["-I" + i for i in incs], *extra, "-fsyntax-only",
           "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise AstError("clang failed on %s:\n%s" % (src, p.stderr[-4000:]))
    s, i, docs = p.stdout, 0, []
    dec = json.JSONDecoder()
    n = len(s)
    while True:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        if s.startswith("Dumping", i):
            i = s.index("\n", i)
            continue
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs

FUNC = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl")
RECORD = ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl")

class TU:
    def __init__(self, docs):
        self.docs = docs
        self.decl = {}          # id -> node (definition preferred)
        self.parent = {}        # id -> enclosing decl id
        self.bymangled = {}
        self.qname_of = {}
        self.funcs = {}         # qualified name -> [function definition nodes]
        self.records = {}       # qualified name -> [record nodes]
        self.rec_by_name = {}
        self.file = None
        self.line = 0
        for d in docs:
            self._index(d, "", None, False)
        self.consts = {}        # declarations of static members of standard templates -> value
        for q, fs in self.funcs.items():
            if q.startswith("cft::probe::") and fs:
                for r in refs_in(fs[0]):
                    self.consts[r["id"]] = int(q.rsplit("_", 1)[1])
        self._fixlines(docs)

    def _fixlines(self, docs):
        # locations are printed relative to the previously printed one
        cur = [None, None]
        def loc(l):
            if not isinstance(l, dict):
                return
            for k in ("spellingLoc", "expansionLoc"):
                if k in l:
                    loc(l[k])
            if "offset" in l:
                if "file" in l:
                    cur[0] = l["file"]
                if "line" in l:
                    cur[1] = l["line"]
                l["_f"], l["_l"] = cur[0], cur[1]
        def walk(n):
            if "loc" in n:
                loc(n["loc"])
            r = n.get("range")
            if r:
                loc(r.get("begin")); loc(r.get("end"))
            for c in n.get("inner", ()):
                if c:
                    walk(c)
        for d in docs:
            walk(d)

    def where(self, n):
        for l in (n.get("loc"), (n.get("range") or {}).get("begin")):
            if isinstance(l, dict):
                for x in (l.get("expansionLoc"), l):
                    if isinstance(x, dict) and x.get("_f"):
                        f = x["_f"]
                        m = re.search(r"(?:^|/)(src/.*)$", f)
                        return "%s:%s" % (m.group(1) if m else f, x["_l"])
        return "?"

    def _index(self, n, q, par, dep):
        k = n.get("kind")
        if dep and k in FUNC: n["_dep"] = True
        i = n.get("id")
        name = n.get("name")
        nq = q
        if k == "NamespaceDecl":
            if name:
                nq = (q + "::" if q else "") + name
        elif k in RECORD or k in FUNC or k in ("VarDecl", "FieldDecl", "EnumDecl", "TypeAliasDecl", "TypedefDecl",
                                               "ParmVarDecl", "FunctionTemplateDecl", "ClassTemplateDecl", "EnumConstantDecl"):
            full = (q + "::" if q and name else q) + (name or "")
            if i is not None:
                old = self.decl.get(i)
                if old is None or (k in FUNC and not has_body(old) and has_body(n)):
                    self.decl[i] = n
                    self.parent[i] = par
                    self.qname_of[i] = full
            if k in RECORD:
                nq = full
                self.records.setdefault(full, [])
                if not any(x.get("id") == i for x in self.records[full]):
                    self.records[full].append(n)
            elif k in FUNC:
                m = n.get("mangledName")
                if has_body(n):
                    l = self.funcs.setdefault(full, [])
                    if not any(x.get("id") == i for x in l):
                        l.append(n)
                    if m:
                        self.bymangled[m] = n
                nq = full
        pattern = k in ("ClassTemplateDecl", "FunctionTemplateDecl")
        if k == "ClassTemplatePartialSpecializationDecl": dep = True
        if k == "ClassTemplateSpecializationDecl": dep = False
        for c in n.get("inner", ()):
            if c:
                d2 = dep
                if pattern and c.get("kind") in ("CXXRecordDecl",) + FUNC:
                    # the first one is the pattern, the others are instantiations
                    d2, pattern = True, False
                elif k == "FunctionTemplateDecl" and c.get("kind") in FUNC:
                    d2 = dep
                self._index(c, nq, i if (k in RECORD or k in FUNC or k == "NamespaceDecl") else par, d2)

    def definition(self, did):
        """The definition of a function given the id of any of its declarations."""
        n = self.decl.get(did)
        if n is None:
            return None
        if has_body(n):
            return n
        m = n.get("mangledName")
        if m and m in self.bymangled:
            return self.bymangled[m]
        return n

    def find(self, qname):
        """Definitions (instantiated, non dependent) with a qualified name."""
        return [f for f in self.funcs.get(qname, []) if not is_dependent(f)]

def field_sets(tu):
    """Field names of every record of the library without base classes."""
    out = set()
    for q, rs in tu.records.items():
        if not q.startswith("cft::"): continue
        for r in rs:
            if not r.get("completeDefinition") or r.get("bases") or (r.get("definitionData") or {}).get("isLambda"): continue
            f = frozenset(c["name"] for c in r.get("inner", ()) if c and c.get("kind") == "FieldDecl" and c.get("name"))
            if f: out.add(f)
    return out

def refs_in(n):
    st = [n]
    while st:
        x = st.pop()
        if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl"): yield x["referencedDecl"]
        st.extend(c for c in x.get("inner", ()) if c)

def has_body(n):
    return any(c and c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ()))

def body(n):
    for c in n.get("inner", ()):
        if c and c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None

def params(n):
    return [c for c in n.get("inner", ()) if c and c.get("kind") == "ParmVarDecl"]

_DEP = ("UnresolvedLookupExpr", "CXXDependentScopeMemberExpr", "DependentScopeDeclRefExpr", "UnresolvedMemberExpr",
        "CXXUnresolvedConstructExpr", "PackExpansionExpr", "ParenListExpr")

def is_dependent(n):
    """Template patterns are recognised by dependent constructs or types in parameters/bodies."""
    if n.get("_dep") is not None:
        return n["_dep"]
    r = False
    st = [n]
    while st:
        x = st.pop()
        if x.get("kind") in _DEP or "<dependent type>" in str((x.get("type") or {}).get("qualType", "")):
            r = True
            break
        t = x.get("type") or {}
        q = t.get("desugaredQualType", t.get("qualType", ""))
        if "type-parameter-" in q:
            r = True
            break
        st.extend(c for c in x.get("inner", ()) if c)
    n["_dep"] = r
    return r

def qtype(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""

def qtype_sugar(n):
    return (n.get("type") or {}).get("qualType") or ""
