"""Summaries of the methods of the Python wrapper: one term per observable effect, as a function of the object's state and the arguments.

Branches are merged where they meet (no path is followed on its own); native calls stand as uninterpreted functions, or as
what the native module binds them to. Whatever the summariser does not model makes the method undecided."""
import ast, os
import terms as TT
from terms import *
from execu import Unsupported

NONE = app("None", [])
PURE = {"abs", "round", "sorted", "set", "sum", "reversed", "max", "min", "int", "frozenset", "tuple"}    # builtins that are not the identity
MAXDEPTH = 12

def mkref(cell, path=()): return TT._mk("pyref", (cell, tuple(path)), "ref")
def isref(v): return v.op == "pyref"

class St:
    def __init__(self, loc, selff, heap, pc): self.loc, self.selff, self.heap, self.pc = loc, selff, heap, pc
    def copy(self): return St(dict(self.loc), dict(self.selff), dict(self.heap), self.pc)
    def set(self, o): self.loc, self.selff, self.heap, self.pc = o.loc, o.selff, o.heap, o.pc

UNBOUND = app("unbound", [])
def merge(c, a, b):
    """a where c holds, b elsewhere."""
    def j(x, y):
        r = {}
        for k in list(x) + [k for k in y if k not in x]:
            u, v = x.get(k), y.get(k)
            if not isinstance(u if u is not None else v, T): r[k] = u if u is not None else v; continue
            r[k] = u if v is None else v if u is None else TT.join(c, u, v)
        return r
    return St(j(a.loc, b.loc), j(a.selff, b.selff), j(a.heap, b.heap), OR(AND(c, a.pc), AND(NOT(c), b.pc)))

class Native:
    """What the binding table says about classes and functions of the native module."""
    def __init__(self, tree, comparer, spec=None):
        self.tree, self.C = tree, comparer
        self.spec = spec or tree
        self.cls = set(tree.classes.values())
    def row(self, c, name):
        r = self.tree.rows.get((c, name))
        return r[0] if r and len(r) == 1 else None
    def attr(self, c, name):
        """(native field, class of its value or None) of an attribute."""
        r = self.row(c, name)
        if r is None or r[0] == "init": return None
        if r[0] in ("def_readwrite", "def_readonly") and r[1][0][0] == "field":
            t = r[1][0][2]
            t = t.replace("cft::", "").replace("const ", "").strip()
            return r[1][0][1], self.tree.classes.get(t), "seq" if "vector<" in t else "real" if t in ("real_t", "float", "double") else "any"
        if r[0] in ("def_property", "def_property_readonly"): return name, None, "any"
        return None
    def lambda_outs(self, c, name):
        """Outputs of a bound lambda, from the reference."""
        r = self.spec.rows.get((c, name))
        if not r or r[0][0] != "def" or r[0][1][0][0] != "lambda": return None
        f = self.spec.tu.decl.get(r[0][1][0][-1])
        s = self.C.summ(self.spec, self.spec.tu, f)
        return s.outs if hasattr(s, "outs") else None
    def function(self, name):
        r = self.row("", name)
        if r is None or r[0] != "def" or r[1][0][0] != "function": return None
        f = self.tree.tu.decl.get(r[1][0][-1])
        return r[1][0][1], (f.get("type") or {}).get("qualType", "")

class Module:
    """A Python source file."""
    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path).read())
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef): self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef): self.classes[n.name] = n
            elif isinstance(n, ast.ImportFrom):
                for a in n.names: self.imports[a.asname or a.name] = (n.module or "", a.name)
            elif isinstance(n, ast.Import):
                for a in n.names: self.imports[a.asname or a.name.split(".")[0]] = (a.name, None)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: self.consts[n.target.id] = n.value

def methods(cls):
    return {n.name: n for n in cls.body if isinstance(n, ast.FunctionDef)}

def ann_sort(a):
    if a is None: return "any", False
    s = ast.unparse(a)
    if s == "int": return "int", False
    if s == "float": return "real", False
    if s == "bool": return "bool", False
    if s.startswith(("list", "List", "Sequence", "Iterable", "tuple")): return "seq", False
    if "None" in s or "Optional" in s: return "any", True
    return "any", False

class Exec:
    def __init__(self, mod, cls, native):
        self.mod, self.cls, self.nat = mod, cls, native
        self.meths = methods(cls)
        self.exits, self.throws = [], []
        self.cellcls = {}
        self.ncell = 0
        self.fields = self.field_kinds()
        self.depth = 0
        self.calls = {}          # native function -> [(pc, env term)]
        self.read = set()        # entry fields that were looked at
        self.elem = {}

    # ---- entry state
    def field_kinds(self):
        k = {}
        for f in self.cls.body:
            pairs, loc = [], {}
            for n in ast.walk(f):
                if isinstance(n, ast.Assign): pairs += [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None: pairs.append((n.target, n.value))
            for t, v in pairs:
                if isinstance(t, ast.Name): loc.setdefault(t.id, []).append(v)
            for t, v in pairs:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    k.setdefault(t.attr, set()).update(self.kinds(v, loc, 0))
        return k
    def kinds(self, v, loc, depth):
        if isinstance(v, ast.Name) and v.id in loc and depth < 4: return set().union(*[self.kinds(x, loc, depth + 1) for x in loc[v.id]])
        if isinstance(v, ast.IfExp): return self.kinds(v.body, loc, depth) | self.kinds(v.orelse, loc, depth)
        return {self.kind(v)}
    def kind(self, v):
        if isinstance(v, ast.Constant):
            if v.value is None: return "None"
            if isinstance(v.value, bool): return "bool"
            if isinstance(v.value, (int, float)): return "int"
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub): return "int"
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.nat.cls: return v.func.id
        if isinstance(v, ast.List): return "list"
        if isinstance(v, ast.Dict): return "dict"
        return "?"
    def entry(self):
        st = St({}, {}, {}, TRUE)
        for f, ks in sorted(self.fields.items()):
            cs = [k for k in ks if k in self.nat.cls]
            if cs:
                cell = "self." + f
                self.cellcls[cell] = cs[0]
                st.heap[cell] = sym("self." + f)
                v = mkref(cell)
                if "None" in ks: v = TT.ite(sym("self.%s is None" % f, "bool"), NONE, v)
            elif "bool" in ks: v = sym("self." + f, "bool")
            elif "int" in ks: v = sym("self." + f, "int")
            elif "list" in ks: v = sym("self." + f, "seq")
            else: v = sym("self." + f)
            st.selff[f] = v
        for n in self.cls.body:      # class attributes are the fields of objects that have not set their own
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and t.id not in st.selff: st.selff[t.id] = sym("class." + t.id)
        return st

    # ---- helpers
    def new(self, cls, val, st):
        self.ncell += 1
        c = "new%d" % self.ncell
        self.cellcls[c] = cls
        st.heap[c] = val
        return mkref(c)
    def refcls(self, r):
        c = self.cellcls[r.args[0]]
        for f in r.args[1]: c = self.nat.attr(c, f)[1]
        return c
    def value(self, r, st):
        v = st.heap[r.args[0]]
        c = self.cellcls[r.args[0]]
        for f in r.args[1]:
            n, c2, _ = self.nat.attr(c, f)
            v, c = get(v, n), c2
        return v
    def store(self, r, st, val, cond=TRUE):
        def go(base, c, path):
            if not path: return TT.join(cond, val, base)
            n, c2, _ = self.nat.attr(c, path[0])
            return setf(base, n, go(get(base, n), c2, path[1:]))
        st.heap[r.args[0]] = go(st.heap[r.args[0]], self.cellcls[r.args[0]], r.args[1])
    def reify(self, v, st):
        """Objects replaced by what they hold."""
        if not isinstance(v, T): raise Unsupported("a Python container as value")
        return lift([v], lambda x: self.value(x, st) if isref(x) else x)
    def leaves(self, v):
        """[(condition, leaf)]"""
        if v.op == "ite" and v.sort != "bool":
            c = v.args[0]
            return [(AND(c, d), x) for d, x in self.leaves(v.args[1])] + [(AND(NOT(c), d), x) for d, x in self.leaves(v.args[2])]
        return [(TRUE, v)]
    def throw(self, st, cond, kind):
        t = AND(st.pc, cond)
        if t is FALSE: return
        self.throws.append((t, kind, st.copy()))
        st.pc = AND(st.pc, NOT(cond))
        lits = TT.literals(NOT(cond))
        if lits: self.narrow(st, lits)
    def narrow(self, st, lits):
        for d in (st.loc, st.selff):
            for k, v in list(d.items()):
                if isinstance(v, T): d[k] = TT.assume(v, lits)
    def truth(self, v, st):
        if not isinstance(v, T): return TRUE if v else FALSE
        def g(x):
            if x is NONE: return FALSE
            if isref(x):
                if self.nat.row(self.refcls(x), "__len__") is not None: raise Unsupported("truth of a native container")
                return TRUE
            if TT.is_bool(x): return x
            if x.sort in TT.NUMERIC: return NOT(eq(x, const(0)))
            if x.sort == "seq" or x.op in ("empty",): return lt(const(0), size(x))
            if x.op == "str": return TRUE if x.args[0] else FALSE
            return app("truth", [x], "bool")
        r = FALSE
        for c, x in self.leaves(v): r = OR(r, AND(c, g(x)))
        return r
    def isnone(self, v):
        r = FALSE
        for c, x in self.leaves(v):
            if x is NONE: b = TRUE
            elif isref(x) or x.op != "sym" or x.sort != "any" or x.args[0] in self.notnone: b = FALSE
            else: b = app("isnone", [x], "bool")
            r = OR(r, AND(c, b))
        return r

    # ---- statements
    def block(self, body, st):
        for s in body:
            if st.pc is FALSE: return
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None: raise Unsupported("statement " + type(s).__name__)
            m(s, st)
    def s_Pass(self, s, st): pass
    def s_Import(self, s, st): pass
    def s_ImportFrom(self, s, st): pass
    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant): return
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Attribute) \
                and s.value.func.attr in ("clear", "append", "extend", "sort", "pop", "remove", "insert", "reverse"):
            # a list read from a native object is a copy of it
            v = self.ev(s.value.func.value, st)
            if all(not isref(x) and x.op == "get" for _, x in self.leaves(v)):
                for a in s.value.args: self.ev(a, st)
                return
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
            for a in s.value.args: self.ev(a, st)
            return
        self.ev(s.value, st)
    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets: self.assign(t, v, st)
    def s_AnnAssign(self, s, st):
        if s.value is not None: self.assign(s.target, self.ev(s.value, st), st)
    def s_AugAssign(self, s, st):
        t = s.target
        if not isinstance(t, (ast.Name, ast.Attribute)): raise Unsupported("augmented assignment")
        load = ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(t.value, t.attr, ast.Load())
        self.assign(t, self.binop(s.op, self.ev(load, st), self.ev(s.value, st)), st)
    def assign(self, t, v, st):
        if isinstance(t, ast.Name): st.loc[t.id] = v
        elif isinstance(t, ast.Tuple) and isinstance(v, list) and len(v) == len(t.elts):
            for x, y in zip(t.elts, v): self.assign(x, y, st)
        elif isinstance(t, ast.Attribute): self.setattr(self.obj(t.value, st), t.attr, v, st)
        else: raise Unsupported("assignment to " + type(t).__name__)
    def setattr(self, o, name, v, st):
        if o == "self": st.selff[name] = v; return
        if not isinstance(v, T): raise Unsupported("container stored in a native object")
        v = self.reify(v, st)
        ls = self.leaves(o)
        bad = FALSE
        for c, x in ls:
            if not isref(x): bad = OR(bad, c)
        self.throw(st, bad, "AttributeError")
        if st.pc is FALSE: return
        for c, x in ls:
            if not isref(x): continue
            cls = self.refcls(x)
            a = self.nat.attr(cls, name)
            if a is None:
                if self.nat.row(cls, name) is None and not self.nat.tree.problems: self.throw(st, c, "AttributeError"); continue
                raise Unsupported("attribute %s of %s" % (name, cls))
            base = self.value(x, st)
            self.store(x, st, setf(base, a[0], v), c)
    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        if c is TRUE or c is FALSE:
            self.block(s.body if c is TRUE else s.orelse, st); return
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        self.narrow(a, TT.literals(c)); self.narrow(b, TT.literals(NOT(c)))
        if a.pc is not FALSE: self.block(s.body, a)
        if b.pc is not FALSE: self.block(s.orelse, b)
        if a.pc is FALSE: st.set(b)
        elif b.pc is FALSE: st.set(a)
        else:
            m = merge(c, a, b); m.pc = OR(a.pc, b.pc); st.set(m)
    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.exits.append((st.pc, st.copy(), v))
        st.pc = FALSE
    def s_Raise(self, s, st):
        k = s.exc
        if isinstance(k, ast.Call): k = k.func
        if not isinstance(k, ast.Name): raise Unsupported("raise")
        self.throw(st, TRUE, k.id)
        st.pc = FALSE
    def s_Assert(self, s, st):
        self.throw(st, NOT(self.truth(self.ev(s.test, st), st)), "AssertionError")
    def s_Try(self, s, st):
        if s.finalbody or s.orelse: raise Unsupported("try with else or finally")
        n0 = len(self.throws)
        self.block(s.body, st)
        new = self.throws[n0:]; del self.throws[n0:]
        for h in s.handlers:
            names = None
            if h.type is not None:
                names = {x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)}
            if names is not None and names & {"Exception", "BaseException"}: names = None
            hit = [x for x in new if names is None or x[1] in names]
            rest = [x for x in new if x not in hit]
            if any(x[1].startswith("native") for x in rest): raise Unsupported("which native errors are caught")
            new = rest
            for pc, kind, snap in hit:
                b = snap.copy(); b.pc = pc
                if h.name: b.loc[h.name] = app("exception", [])
                reraise = len(h.body) >= 1 and isinstance(h.body[-1], ast.Raise) and h.body[-1].exc is None
                self.block(h.body[:-1] if reraise else h.body, b)
                if reraise and b.pc is not FALSE: self.throws.append((b.pc, kind, b.copy())); b.pc = FALSE
                if b.pc is not FALSE:
                    if st.pc is FALSE: st.set(b)
                    else:
                        m = merge(pc, b, st); m.pc = OR(b.pc, st.pc); st.set(m)
        self.throws.extend(new)
    def s_For(self, s, st):
        if s.orelse: raise Unsupported("for with else")
        it = self.ev(s.iter, st)
        if isinstance(it, list):
            if any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)): raise Unsupported("jump in an unrolled loop")
            for x in it:
                self.assign(s.target, x, st)
                self.block(s.body, st)
            return
        if isinstance(it, T) and isinstance(s.target, ast.Name) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse \
                and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Raise):
            e, k, x = self.element(it, st)
            b = st.copy(); b.loc[s.target.id] = x
            c = self.truth(self.ev(s.body[0].test, b), b)
            a = st.copy()
            cond = existsf(size(e), k, c)
            a.pc = AND(st.pc, cond)
            if a.pc is not FALSE: self.block(s.body[0].body, a)
            st.pc = AND(st.pc, NOT(cond))
            return
        raise Unsupported("loop")
    def element(self, it, st):
        e = self.reify(it, st)
        k = fresh("k", "int")
        return e, k, at(e, k, "int" if e.op == "sym" and e.args[0] in self.intlists else None)

    # ---- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None: raise Unsupported("expression " + type(n).__name__)
        return m(n, st)
    def e_Constant(self, n, st):
        v = n.value
        if v is None: return NONE
        if isinstance(v, bool): return TRUE if v else FALSE
        if isinstance(v, int): return const(v)
        if isinstance(v, float):
            from fractions import Fraction
            return const(Fraction(repr(v)) if v == v and abs(v) != float("inf") else 0, "real") if abs(v) != float("inf") else app("inf", [])
        if isinstance(v, str): return string(v)
        raise Unsupported("constant")
    def e_JoinedStr(self, n, st):
        for v in n.values:
            if isinstance(v, ast.FormattedValue): self.ev(v.value, st)
        return app("text", [])
    def e_Name(self, n, st):
        if n.id == "self": raise Unsupported("self as a value")
        if n.id in st.loc:
            return st.loc[n.id]
        if n.id in self.mod.consts:
            self.depth += 1
            if self.depth > MAXDEPTH: raise Unsupported("depth")
            v = self.ev(self.mod.consts[n.id], St({}, {}, {}, TRUE)); self.depth -= 1
            return v
        raise Unsupported("name " + n.id)
    def e_Tuple(self, n, st): return [self.ev(x, st) for x in n.elts]
    def e_List(self, n, st):
        if not n.elts: return empty_seq()
        return [self.ev(x, st) for x in n.elts]
    def e_Dict(self, n, st):
        if any(k is None for k in n.keys): raise Unsupported("dict unpacking")
        return {self.text(self.ev(k, st)): self.ev(v, st) for k, v in zip(n.keys, n.values)}
    def text(self, v):
        if isinstance(v, T) and v.op == "str": return v.args[0]
        raise Unsupported("computed name")
    def obj(self, n, st):
        if isinstance(n, ast.Name) and n.id == "self": return "self"
        v = self.ev(n, st)
        return v
    def e_Attribute(self, n, st):
        o = self.obj(n.value, st)
        return self.getattr(o, n.attr, st)
    def getattr(self, o, name, st):
        if o == "self":
            if name in st.selff:
                self.read.add(name); return st.selff[name]
            m = self.meths.get(name)
            if m is not None and any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list): return self.inline(m, ["self"], {}, st, True)
            raise Unsupported("field self." + name)
        if not isinstance(o, T): raise Unsupported("attribute of a container")
        bad, out = FALSE, None
        for c, x in self.leaves(o):
            if isref(x):
                cls = self.refcls(x)
                a = self.nat.attr(cls, name)
                if a is None:
                    if self.nat.row(cls, name) is None and not self.nat.tree.problems: bad = OR(bad, c); continue
                    raise Unsupported("attribute %s of %s" % (name, cls))
                v = mkref(x.args[0], x.args[1] + (name,)) if a[1] is not None else get(self.value(x, st), a[0], a[2])
            elif x is NONE: bad = OR(bad, c); continue
            else: raise Unsupported("attribute %s of a value" % name)
            out = v if out is None else TT.join(c, v, out)
        self.throw(st, bad, "AttributeError")
        return out if out is not None else NONE
    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        r = TRUE
        for o, b in zip(n.ops, n.comparators):
            v = self.ev(b, st)
            r = AND(r, self.cmp(o, l, v, st)); l = v
        return r
    def cmp(self, o, a, b, st):
        if isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (a is NONE or b is NONE):
            r = self.isnone(b if a is NONE else a)
            return NOT(r) if isinstance(o, (ast.IsNot, ast.NotEq)) else r
        if not isinstance(a, T) or not isinstance(b, T): raise Unsupported("comparison of containers")
        if isinstance(o, (ast.Is, ast.IsNot)):
            if TT.is_bool(a) and TT.is_bool(b):
                r = OR(AND(a, b), AND(NOT(a), NOT(b)))
                return NOT(r) if isinstance(o, ast.IsNot) else r
            raise Unsupported("identity")
        a, b = self.reify(a, st), self.reify(b, st)
        f = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge, ast.Eq: eq}.get(type(o))
        if f is not None: return lift2(f, a, b)
        if isinstance(o, ast.NotEq): return NOT(lift2(eq, a, b))
        return app("py:" + type(o).__name__, [a, b], "bool")
    def e_BoolOp(self, n, st):
        vals = []
        v = self.ev(n.values[0], st)
        for x in n.values[1:]:
            c = self.truth(v, st)
            skip = c if isinstance(n.op, ast.Or) else NOT(c)
            if skip is TRUE: return v
            b = st.copy(); b.pc = AND(st.pc, NOT(skip))
            self.narrow(b, TT.literals(NOT(skip)))
            w = self.ev(x, b)
            lost = AND(AND(st.pc, NOT(skip)), NOT(b.pc))
            m = merge(skip, st, b); st.heap, st.selff = m.heap, m.selff
            st.pc = AND(st.pc, NOT(lost))
            if not isinstance(v, T) or not isinstance(w, T): raise Unsupported("boolean operator on containers")
            v = TT.join(skip, v, w) if not (TT.is_bool(v) and TT.is_bool(w)) else (OR(v, w) if isinstance(n.op, ast.Or) else AND(v, w))
        return v
    def e_IfExp(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        if c is TRUE: return self.ev(n.body, st)
        if c is FALSE: return self.ev(n.orelse, st)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        self.narrow(a, TT.literals(c)); self.narrow(b, TT.literals(NOT(c)))
        x, y = self.ev(n.body, a), self.ev(n.orelse, b)
        m = merge(c, a, b); m.pc = OR(a.pc, b.pc); st.set(m)
        if not isinstance(x, T) or not isinstance(y, T): raise Unsupported("conditional container")
        return TT.join(c, x, y)
    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not): return NOT(self.truth(v, st))
        if isinstance(n.op, ast.USub): return neg(v)
        raise Unsupported("operator")
    def e_BinOp(self, n, st): return self.binop(n.op, self.ev(n.left, st), self.ev(n.right, st))
    def binop(self, o, a, b):
        if not isinstance(a, T) or not isinstance(b, T): raise Unsupported("operator on containers")
        if isinstance(o, ast.Add) and a.sort != "seq" and a.op != "str": return add(a, b)
        if isinstance(o, ast.Sub): return sub(a, b)
        if isinstance(o, ast.Mult): return mul(a, b)
        return app("py:" + type(o).__name__, [a, b], a.sort if a.sort in TT.NUMERIC else "any")
    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st); self.assign(n.target, v, st); return v
    def e_Subscript(self, n, st): raise Unsupported("subscript")
    def quantified(self, n, st, neg_):
        """all/any over a generator: exists an element for which it is false/true."""
        if len(n.generators) != 1 or n.generators[0].is_async or not isinstance(n.generators[0].target, ast.Name): raise Unsupported("comprehension")
        g = n.generators[0]
        it = self.ev(g.iter, st)
        if isinstance(it, list):
            r = FALSE
            for x in it:
                b = st.copy(); b.loc[g.target.id] = x
                c = self.truth(self.ev(n.elt, b), b)
                for i in g.ifs: raise Unsupported("filter")
                r = OR(r, NOT(c) if neg_ else c)
            return r
        e, k, x = self.element(it, st)
        b = st.copy(); b.loc[g.target.id] = x
        n0 = len(self.throws)
        c = self.truth(self.ev(n.elt, b), b)
        if neg_: c = NOT(c)
        for i in g.ifs: c = AND(self.truth(self.ev(i, b), b), c)
        if len(self.throws) != n0: raise Unsupported("errors in a comprehension")
        return existsf(size(e), k, c)
    def e_ListComp(self, n, st):
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name) and isinstance(n.elt, ast.Name) \
                and n.elt.id == n.generators[0].target.id:
            return self.reify(self.ev(n.generators[0].iter, st), st)
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            it = self.ev(n.generators[0].iter, st)
            if isinstance(it, T):
                e, k, x = self.element(it, st)
                b = st.copy(); b.loc[n.generators[0].target.id] = x
                return TT.tabf(size(e), k, self.reify(self.ev(n.elt, b), b))
        raise Unsupported("comprehension")
    def e_Call(self, n, st):
        f = n.func
        kw = {}
        for k in n.keywords:
            if k.arg is None: raise Unsupported("** arguments")
            kw[k.arg] = k.value
        if any(isinstance(a, ast.Starred) for a in n.args): raise Unsupported("* arguments")
        if isinstance(f, ast.Name):
            if f.id in ("all", "any") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
                q = self.quantified(n.args[0], st, f.id == "all")
                return NOT(q) if f.id == "all" else q
            if f.id == "setattr" and len(n.args) == 3:
                o = self.obj(n.args[0], st)
                self.setattr(o, self.text(self.ev(n.args[1], st)), self.ev(n.args[2], st), st); return NONE
            if f.id == "getattr" and len(n.args) == 2:
                return self.getattr(self.obj(n.args[0], st), self.text(self.ev(n.args[1], st)), st)
            if f.id in self.mod.funcs: return self.inline(self.mod.funcs[f.id], [self.obj(a, st) for a in n.args], {k: self.ev(v, st) for k, v in kw.items()}, st, False)
            imp = self.mod.imports.get(f.id)
            if imp is not None and imp[0].endswith("_bindings"):
                return self.native_call(imp[1], [self.ev(a, st) for a in n.args] + [self.ev(v, st) for v in kw.values()], st)
            if imp is None: return self.builtin(f.id, n.args, kw, st)
            return app("py:" + f.id, [self.reify(self.ev(a, st), st) for a in n.args])
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in (self.cls.name,) and f.attr in self.meths:
                return self.inline(self.meths[f.attr], [self.obj(a, st) for a in n.args], {k: self.ev(v, st) for k, v in kw.items()}, st, False)
            o = self.obj(f.value, st) if not (isinstance(f.value, ast.Name) and f.value.id not in st.loc and f.value.id in self.mod.imports and f.value.id != "self") else None
            if o is None:
                if self.mod.imports[f.value.id][0] == "math" and f.attr in ("inf",): return app("inf", [])
                imp = self.mod.imports[f.value.id]
                if imp[1] == "_bindings" or imp[0].endswith("_bindings"): return self.native_call(f.attr, [self.ev(a, st) for a in n.args], st)
                return app("py:%s.%s" % (f.value.id, f.attr), [self.reify(self.ev(a, st), st) for a in n.args])
            if o == "self":
                m = self.meths.get(f.attr)
                if m is None: raise Unsupported("method self." + f.attr)
                static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list)
                if any(isinstance(d, ast.Name) and d.id not in ("staticmethod",) for d in m.decorator_list): raise Unsupported("decorated method")
                return self.inline(m, ([] if static else ["self"]) + [self.obj(a, st) for a in n.args], {k: self.ev(v, st) for k, v in kw.items()}, st, False)
            if isinstance(o, dict):
                if f.attr == "items" and not n.args: return [[string(k), v] for k, v in o.items()]
                if f.attr == "keys" and not n.args: return [string(k) for k in o]
                if f.attr == "values" and not n.args: return list(o.values())
                raise Unsupported("dict method")
            if not isinstance(o, T): raise Unsupported("method of a container")
            return self.method(o, f.attr, [self.ev(a, st) for a in n.args] + [self.ev(v, st) for v in kw.values()], st)
        raise Unsupported("call")
    def method(self, o, name, args, st):
        bad, out = FALSE, None
        args = [self.reify(a, st) for a in args]
        for c, x in self.leaves(o):
            if x is NONE: bad = OR(bad, c); continue
            if not isref(x): raise Unsupported("method %s of a value" % name)
            cls = self.refcls(x)
            if self.nat.row(cls, name) is None: raise Unsupported("method %s of %s" % (name, cls))
            val = self.value(x, st)
            label = "%s.%s" % (cls, name)
            outs = self.nat.lambda_outs(cls, name)
            if args: self.throw(st, AND(c, app("convert:" + label, args, "bool")), "native TypeError")
            if outs is not None and outs.get("p0.left") is not None or outs is not None and outs["throws"] is FALSE:
                m = {}
                for s in {s for t in outs.values() for s in t.free if s.op == "sym"}:
                    i = str(s.args[0])
                    if i == "p0": m[s] = val
                    elif i[0] == "p" and i[1:].isdigit() and int(i[1:]) - 1 < len(args): m[s] = args[int(i[1:]) - 1]
                    elif i != "p0.rnd": raise Unsupported("free symbol %s of %s" % (i, label))
                o2 = {k: subst(t, m) for k, t in outs.items()}
                thr = o2["throws"]
                lits = TT.literals(NOT(thr)) if thr is not FALSE else []
                if thr is not FALSE:
                    snap = st.copy()
                    if "p0.left" in o2: self.store(x, snap, TT.constrain(o2["p0.left"], thr), AND(c, thr))
                    t = AND(st.pc, AND(c, thr))
                    if t is not FALSE: self.throws.append((t, "native RuntimeError", snap))
                    st.pc = AND(st.pc, NOT(AND(c, thr)))
                if "p0" in o2: self.store(x, st, TT.constrain(o2["p0"], NOT(thr)), c)
                r = TT.constrain(o2["return"], NOT(thr)) if "return" in o2 else NONE
            else:
                self.throw(st, AND(c, app("throws:" + label, [val] + args, "bool")), "native RuntimeError")
                r = app("ret:" + label, [val] + args)
                self.store(x, st, app("new:" + label, [val] + args), c)
            if name == "copy": r = self.new(cls, r, st)
            out = r if out is None else TT.join(c, r, out)
        self.throw(st, bad, "AttributeError")
        return out if out is not None else NONE
    def native_call(self, name, args, st):
        if name in self.nat.cls:
            if args: raise Unsupported("constructor arguments")
            return self.new(name, app("new " + name, []), st)
        f = self.nat.function(name)
        if f is None: raise Unsupported("native function " + name)
        ins = []
        for i, a in enumerate(args):
            if not isinstance(a, T): raise Unsupported("container argument")
            v = self.reify(a, st)
            cl = {self.refcls(x) for _, x in self.leaves(a) if isref(x)}
            if cl == {"Environment"}:
                fs = self.envfields(f[0])
                for fl in fs: self.calls.setdefault(name, []).append((fl, st.pc, get(v, fl)))
                v = app("env", [])
            ins.append(v)
        # in-order arguments decide; the environment is an output of its own
        self.throw(st, app("throws:" + name, ins, "bool"), "native error")
        ret = f[1].split("(")[0].replace("cft::", "").strip()
        r = app("ret:" + name, ins)
        if ret in self.nat.tree.classes: return self.new(self.nat.tree.classes[ret], r, st)
        return NONE if ret == "void" else r
    def envfields(self, q):
        """Fields of the parameters a native function looks at."""
        fp = (self.nat.C.footprints.get(q) or {}).get("p0")
        fs = set(fp[0]) if fp and fp[0] is not None else None
        if fs is None: raise Unsupported("footprint of " + q)
        if q == "cft::run": fs |= {"seed", "verbose"}
        return sorted(fs - {"rnd", "timer"})
    def builtin(self, name, args, kw, st):
        if kw: raise Unsupported("keyword arguments of " + name)
        vs = [self.ev(a, st) for a in args]
        if name in ("ValueError", "RuntimeError", "TypeError", "Exception"): return app("exception", [])
        if name == "dict" and not vs: return {}
        if name == "list" and not vs: return empty_seq()
        if name == "list" and len(vs) == 1 and isinstance(vs[0], list): return vs[0]
        if name in ("enumerate", "zip", "range", "isinstance", "hasattr", "locals", "vars", "map", "filter"): raise Unsupported(name)
        if any(not isinstance(v, T) for v in vs): raise Unsupported("container argument of " + name)
        vs = [self.reify(v, st) for v in vs]
        if name in ("list", "str") and len(vs) == 1: return vs[0]
        if name == "float" and len(vs) == 1:
            if vs[0].op == "str" and vs[0].args[0].lower().lstrip("+") in ("inf", "infinity"): return app("inf", [])
            return vs[0]
        if name == "int" and len(vs) == 1 and vs[0].sort in ("int", "nat"): return vs[0]
        if name == "bool" and len(vs) == 1: return self.truth(vs[0], st)
        if name == "len" and len(vs) == 1: return size(vs[0])
        if name in ("max", "min"):
            if len(vs) == 2: return (tmax if name == "max" else tmin)(*vs)
            if len(vs) == 1:
                self.throw(st, eq(size(vs[0]), const(0)), "ValueError")
                return app("py:" + name, vs, "int" if vs[0].op == "sym" and vs[0].args[0] in self.intlists else "any")
        if name in PURE: return app("py:" + name, vs, vs[0].sort if vs and name in ("abs", "sorted", "round") else "any")
        raise Unsupported("call of " + name)
    def inline(self, fn, args, kw, st, prop):
        self.depth += 1
        if self.depth > MAXDEPTH: raise Unsupported("call depth")
        a = fn.args
        if a.vararg or a.kwarg: raise Unsupported("variadic function")
        loc = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        first_self = bool(args) and args[0] == "self"
        if first_self:
            if names[:1] != ["self"]: raise Unsupported("self under another name")
            names, args = names[1:], args[1:]
        if any(isinstance(x, str) for x in args): raise Unsupported("self as an argument")
        for n, v in zip(names, args): loc[n] = v
        for k, v in kw.items(): loc[k] = v
        defs = dict(zip(names[::-1], a.defaults[::-1]))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in loc:
                if n not in defs: raise Unsupported("missing argument " + n)
                loc[n] = self.ev(defs[n], St({}, {}, {}, TRUE))
        ex0, self.exits = self.exits, []
        inner = St(loc, st.selff, st.heap, st.pc)
        self.block(fn.body, inner)
        outs = self.exits; self.exits = ex0
        if inner.pc is not FALSE: outs.append((inner.pc, inner, NONE))
        self.depth -= 1
        if not outs:
            st.pc = FALSE
            return NONE
        pc, cur, val = outs[-1]
        cur = cur.copy(); allpc = pc
        for p, s2, v in reversed(outs[:-1]):
            cur = merge(p, s2, cur)
            if isinstance(v, T) and isinstance(val, T): val = TT.join(p, v, val)
            elif v is not val: raise Unsupported("containers returned on different paths")
            allpc = OR(allpc, p)
        st.selff, st.heap, st.pc = cur.selff, cur.heap, allpc
        if isinstance(val, T) and allpc is not TRUE: pass
        return val

def lift2(f, a, b): return lift([a, b], f)

def summarize(mod, clsname, name, native):
    """{output: term} of a method; Unsupported if some construct is not modelled."""
    TT.reset_work()
    cls = mod.classes[clsname]
    ex = Exec(mod, cls, native)
    fn = ex.meths[name]
    st = ex.entry()
    ex.intlists, ex.notnone = set(), set()
    a = fn.args
    if a.vararg or a.kwarg: raise Unsupported("variadic method")
    ps = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
    if not ps or ps[0].arg != "self": raise Unsupported("no self")
    defs = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1]))
    for x in ps[1:]:
        s, opt = ann_sort(x.annotation)
        d = defs.get(x.arg)
        if d is not None and isinstance(d, ast.Constant) and d.value is None: opt = True
        if s == "seq" and x.annotation is not None and "int" in ast.unparse(x.annotation): ex.intlists.add("arg." + x.arg)
        if not opt: ex.notnone.add("arg." + x.arg)
        st.loc[x.arg] = sym("arg." + x.arg, "any" if opt else s)
    ex.block(fn.body, st)
    outs = list(ex.exits)
    if st.pc is not FALSE: outs.append((st.pc, st, NONE))
    res = {}
    UND = app("no-output", [])
    ends = [(pc, s, v, None) for pc, s, v in outs] + [(pc, s, None, k) for pc, k, s in ex.throws]
    fields = sorted({f for _, s, _, _ in ends for f in s.selff})
    for f in fields:
        v = None
        for pc, s, _, _ in reversed(ends):
            x = s.selff.get(f, UNBOUND)
            x = ex.reify(x, s)
            v = x if v is None else TT.join(pc, x, v)
        res["self." + f] = v
    r, t = UND, app("none", [])
    for pc, s, v, k in reversed(ends):
        if k is None:
            if not isinstance(v, T): raise Unsupported("container returned")
            r = TT.join(pc, ex.reify(v, s), r)
        else: t = TT.join(pc, app("exc:" + k, []), t)
    res["return"], res["throws"] = r, t
    for n, l in ex.calls.items():
        for fl in {f for f, _, _ in l}:
            v = UND
            for f, pc, x in reversed(l):
                if f == fl: v = TT.join(pc, x, v)
            res["%s.env.%s" % (n, fl)] = v
    return res, ex
