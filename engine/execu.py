"""Gated value numbering over the type-checked C++ syntax tree.

Every function is summarised once: each statement transforms a symbolic store, branches are merged
with gates, loops become loop terms.  No concrete values, no path enumeration, no solver."""
import re
from fractions import Fraction
from terms import *
import terms as TT
import cpp
from cpp import qtype, qtype_sugar, has_body, body, params

class Unsupported(Exception):
    def __init__(self, why, node=None):
        Exception.__init__(self, why)
        self.node = node

_rid = [0]
ROOTS = {}
class Root:
    __slots__ = ("name", "label", "sort")
    def __init__(self, label):
        self.sort = None
        _rid[0] += 1
        self.label = label
        self.name = "%s@%d" % (label, _rid[0])
        ROOTS[self.name] = self
    def __repr__(self): return self.name

HEAP = {}
def heap_root(t):
    r = HEAP.get(t)
    if r is None:
        r = HEAP[t] = Root("heap")
        r_heap[r] = t
    return r
r_heap = {}

class LV:
    __slots__ = ("root", "path")
    def __init__(self, root, path=()):
        self.root, self.path = root, path
    def f(self, name): return LV(self.root, self.path + (("f", name),))
    def i(self, t): return LV(self.root, self.path + (("i", t),))
    def __repr__(self): return "%s%s" % (self.root, self.path)
    def same(self, o): return self.root is o.root and self.path == o.path

class State:
    __slots__ = ("mem", "pc")
    def __init__(self, mem, pc): self.mem, self.pc = mem, pc
    def copy(self): return State(dict(self.mem), self.pc)
    def set(self, o): self.mem, self.pc = o.mem, o.pc

class Thrown(str):
    """Type of a thrown object, with the storage as it was when it was thrown (where known)."""
    mem = None
EXC_BASE = {"invalid_argument": "logic_error", "domain_error": "logic_error", "length_error": "logic_error", "out_of_range": "logic_error", "future_error": "logic_error",
            "range_error": "runtime_error", "overflow_error": "runtime_error", "underflow_error": "runtime_error", "system_error": "runtime_error", "failure": "system_error",
            "logic_error": "exception", "runtime_error": "exception", "bad_alloc": "exception", "bad_cast": "exception", "bad_function_call": "exception"}
def catches(ty, what):
    """Whether a handler for ty takes what is thrown (None: not known, it comes out of a callee)."""
    if ty == "...": return True
    t = ty.replace("const ", "").rstrip("& ").split("::")[-1]
    w = str(what).replace("const ", "").rstrip("& ").split("::")[-1]
    if t == "exception": return True
    if w not in EXC_BASE: return t == w or None
    while w is not None:
        if w == t: return True
        w = EXC_BASE.get(w)
    return False
def thrown_at(what, mem):
    w = Thrown(what)
    w.mem = mem
    return w
def kept(what, base, keys):
    """Thrown in some iteration of a loop: what the loop never changes is still as before it."""
    mem = getattr(what, "mem", None)
    w = Thrown(what)
    if mem is not None:
        mod = {k[0] for k in keys}
        w.mem = {r: v for r, v in base.items() if r not in mod and mem.get(r) is v}
    return w

class Frame:
    def __init__(self):
        self.map = {}
        self.this = None
        self.exits = []      # (pc, mem, value)
        self.throws = []     # (pc, what)
        self.retref = False
        self.loops = []      # [(breaks, continues)]
        self.fn = None

def has_effects(n):
    """Whether evaluating an expression could change something: only then is the argument of a log message looked into."""
    st = [n]
    while st:
        x = st.pop()
        k = x.get("kind")
        if k in ("CompoundAssignOperator", "LambdaExpr", "CXXThrowExpr", "CXXNewExpr", "CXXDeleteExpr"): return True
        if k == "BinaryOperator" and x.get("opcode") == "=": return True
        if k == "UnaryOperator" and x.get("opcode") in ("++", "--"): return True
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
            c = [y for y in x.get("inner", ()) if y]
            f = c[0] if c else {}
            while f.get("kind") in ("ImplicitCastExpr", "ParenExpr"): f = [y for y in f.get("inner", ()) if y][0]
            nm = f.get("name") or (f.get("referencedDecl") or {}).get("name")
            if nm not in PURE_METHODS and nm not in ("elapsed", "csize", "rsize", "operator[]", "join", "as_cidx", "as_ridx", "as_real", "checked_cast"):
                return True
        st.extend(y for y in x.get("inner", ()) if y)
    return False

class Closure:
    def __init__(self, node, caps, this): self.node, self.caps, self.this = node, caps, this

INTS = {"int", "short", "char", "signed char", "long", "long long", "unsigned int", "unsigned short", "unsigned char",
        "unsigned long", "unsigned long long", "bool", "size_t", "std::size_t", "uint64_t", "uint32_t", "int64_t", "ptrdiff_t",
        "unsigned", "int32_t", "int16_t", "cidx_t", "ridx_t", "cft::cidx_t", "cft::ridx_t", "wchar_t", "std::ptrdiff_t", "size_type",
        "std::string::size_type", "native_t<cidx_t>", "native_t<ridx_t>", "native_t<int>", "native_t<short>", "counter_t"}
REALS = {"float", "double", "long double", "real_t", "cft::real_t"}

def isrefq(q):
    q = q.rstrip()
    return q.endswith("&") or "(&)" in q

def strip_cv(q):
    q = re.sub(r"\s+", " ", q.strip())
    if "(&)[" in q: q = q.replace(" (&)[", "[").replace("(&)[", "[")
    while True:
        o = q
        q = q.rstrip("& ").strip()
        for w in ("const", "volatile", "constexpr"):
            if q.startswith(w + " "):
                if q.endswith("*"): return q
                q = q[len(w) + 1:].strip()
            if q.endswith(" " + w): q = q[:-len(w) - 1].strip()
            if q.endswith("*" + w): q = q[:-len(w)].strip()
        if q == o: return q

def sort_of(q):
    r = strip_cv(q)
    if r.endswith("*") or "__normal_iterator<" in r.split("::")[-1] or r.startswith("__gnu_cxx::__normal_iterator<") or r.endswith("*const"):
        return "ptr"
    if r.startswith("std::vector<") or r.startswith("vector<"):
        return "seq"
    if r == "bool" or r == "std::_Bit_reference" or r.endswith("_Bit_reference"):
        return "bool"
    if r in REALS:
        return "real"
    if r in INTS:
        return "nat" if (r.startswith("unsigned") or "size_t" in r or r.startswith("uint") or r in ("size_type", "counter_t")) else "int"
    if r.endswith("]"):
        return "seq"
    if re.match(r"(std::)?(__cxx11::)?basic_string<", r) or r in ("std::string", "string"):
        return "seq"
    return "any"

def is_assert(n):
    """The failing branch of an assertion."""
    st = [n]
    while st:
        x = st.pop()
        d = x.get("referencedDecl")
        if d and d.get("name") == "__assert_fail": return True
        if x.get("kind") in ("CompoundStmt", "LambdaExpr"): continue
        st.extend(c for c in x.get("inner", ()) if c)
    return False

def pure_syntax(n):
    """No assignment, increment or call of a method that is not const (a sufficient condition for no effect)."""
    st = [n]
    while st:
        x = st.pop()
        k = x.get("kind")
        if k == "CompoundAssignOperator" or (k == "BinaryOperator" and x.get("opcode") == "="): return False
        if k == "UnaryOperator" and x.get("opcode") in ("++", "--"): return False
        if k in ("CXXNewExpr", "CXXDeleteExpr", "CXXThrowExpr"): return False
        if k == "CXXMemberCallExpr":
            t = (x.get("inner") or [{}])[0]
            m = (t.get("type") or {}).get("qualType", "")
            q = "".join((c.get("type") or {}).get("qualType", "") for c in t.get("inner", ()) if c)
            if t.get("kind") == "MemberExpr" and "const" not in q and "begin" != t.get("name") and "end" != t.get("name") and "size" != t.get("name"): return False
        if k == "CXXOperatorCallExpr":
            t = (x.get("inner") or [{}])[0]
            nm = str([y.get("name") for y in cpp.refs_in(t)])
            if re.search(r"operator(\+\+|--|=(?!=)|[-+*/%&|^]=|<<|>>)", nm): return False
        st.extend(c for c in x.get("inner", ()) if c)
    return True

class Config:
    """Which callees are contracts (not inlined) and which of their arguments are caches."""
    def __init__(self, boundary=None, ignore_types=()):
        self.boundary = boundary or {}
        self.footprints = {}
        self.left = False        # whether what an exception leaves behind is an output
        self.stdout = False      # whether what is printed is an output
        self.ignore_types = ignore_types

PURE_METHODS = {"size", "empty", "is_open", "fail", "good", "eof", "bad", "c_str", "data", "find", "end", "begin", "cbegin", "cend", "what", "count", "length",
                "substr", "compare", "capacity", "get", "str", "operator bool", "operator!", "rdstate", "max_size", "index"}
NOOP_METHODS = {"reserve", "shrink_to_fit", "imbue"}
BINOPS = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||", ",", "&", "|", "^", "<<", ">>"}

class Exec:
    def __init__(self, tu, cfg):
        self.tu, self.cfg = tu, cfg
        self.closures = {}
        self.depth = 0
        self.calls = []          # contract calls recorded for clause rules
        self.gates = []          # enclosing gates
        self.notes = []
        self.inlined = set()
        self._specs = None
        self._budget = 0
        self.clock = Root("clock")
        self.stderr, self.stdout = Root("stderr"), Root("stdout")
        self.clock_reads = 0
        self.reals = {}

    # ------------------------------------------------------------ records
    def record(self, q):
        q = strip_cv(q)
        if self._specs is None:
            self._specs = {}
            for name, nodes in self.tu.records.items():
                for n in nodes:
                    if n.get("kind") == "ClassTemplateSpecializationDecl":
                        args = []
                        for c in n.get("inner", ()):
                            if c and c.get("kind") == "TemplateArgument":
                                t = c.get("type")
                                if t: args.append(t.get("desugaredQualType") or t.get("qualType"))
                                elif "value" in c: args.append(str(c["value"]))
                        self._specs.setdefault(type_key("%s<%s>" % (n.get("name"), ",".join(args))), []).append(n)
                    elif n.get("kind") == "CXXRecordDecl" and n.get("completeDefinition"):
                        k = n.get("name") if n.get("name") else None
                        if k: self._specs.setdefault(k, []).append(n)
            self._rc = {}
        if q in self._rc: return self._rc[q]
        c = self._specs.get(type_key(q), [])
        if len(c) > 1:
            # same unqualified name in several scopes: compare the qualified names
            c2 = [n for n in c if self.tu.qname_of.get(n["id"], "").endswith(norm_t(q).split("<")[0])]
            c = c2 or c
            full = [n for n in c if n.get("completeDefinition")]
            c = full or c
        r = self._rc[q] = c[0] if c else None
        return r

    def fields(self, rec):
        out = []
        for c in rec.get("inner", ()):
            if c and c.get("kind") == "FieldDecl":
                out.append(c)
        return out

    def rec_tag(self, rec):
        return self.tu.qname_of.get(rec["id"], rec.get("name", "?"))

    def default_value(self, q, S, fr, zero=False):
        s = sort_of(q)
        r = strip_cv(q)
        if r.endswith("]"):
            m = re.match(r"(.*)\[(\d+)\]$", r)
            if m:
                return fill(const(int(m.group(2))), self.default_value(m.group(1), S, fr, zero))
        if s == "seq":
            return empty_seq()
        if s in ("int", "nat", "real"):
            return const(0) if zero else app("undef", [], s)
        if s == "bool":
            return FALSE if zero else app("undef", [], "bool")
        if s == "ptr":
            return app("null", [], "ptr") if zero else app("undef", [], "ptr")
        rec_ = self.record(q)
        if rec_ is not None:
            return self.default_record(rec_, S, fr, zero)
        return app("default:" + norm_t(r), [])

    def default_record(self, rec_, S, fr, zero=False):
        d = {}
        for b in rec_.get("bases", ()):
            br = self.record((b.get("type") or {}).get("desugaredQualType") or (b.get("type") or {}).get("qualType", ""))
            if br is not None:
                d["§base"] = self.default_record(br, S, fr, zero)
        for f in self.fields(rec_):
            init = [c for c in f.get("inner", ()) if c and c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
            if f.get("hasInClassInitializer") and init:
                d[f["name"]] = self.ev(init[-1], fr, S)
            else:
                d[f["name"]] = self.default_value(qtype(f), S, fr, zero)
        return rec(self.rec_tag(rec_), d)

    # ------------------------------------------------------------ memory
    def read(self, S, lv, sort=None):
        v = S.mem.get(lv.root)
        if v is None:
            if lv.root in r_heap:
                v = app("mem", [r_heap[lv.root]])
            else:
                raise Unsupported("read of unknown location %s" % lv)
        n = len(lv.path)
        for j, (k, x) in enumerate(lv.path):
            so = sort if j == n - 1 else None
            if k == "f":
                v = get(v, x, so)
            elif k == "i":
                v = at(v, x, so)
        return v

    def write(self, S, lv, val):
        def go(v, path):
            if not path:
                return val
            (k, x), rest = path[0], path[1:]
            if k == "f":
                return setf(v, x, go(get(v, x), rest)) if v.op != "ite" or True else None
            return upd(v, x, go(at(v, x), rest))
        base = S.mem.get(lv.root)
        if base is None:
            if lv.root in r_heap:
                base = app("mem", [r_heap[lv.root]])
            elif lv.path:
                raise Unsupported("write to unknown location %s" % lv)
        if lv.path:
            S.mem[lv.root] = self.norm_rec(go(base, lv.path))
        else:
            S.mem[lv.root] = val

    def norm_rec(self, v):
        return v

    def itb(self, lv):
        return TT._mk("itb", (lv.root.name, lv.path), "ptr")

    def addr(self, lv):
        """pointer to a location"""
        if lv.path and lv.path[-1][0] == "i":
            b = LV(lv.root, lv.path[:-1])
            if b.root in r_heap and not b.path:
                return add(r_heap[b.root], lv.path[-1][1])
            return add(self.itb(b), lv.path[-1][1])
        return TT._mk("addr", (lv.root.name, lv.path), "ptr")

    def deref(self, p):
        if p.op == "ite":
            if is_null(p.args[1]): return self.deref(p.args[2])      # a null pointer is never dereferenced
            if is_null(p.args[2]): return self.deref(p.args[1])
            a, b = self.deref(p.args[1]), self.deref(p.args[2])
            if a.root is b.root and len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1] and a.path and a.path[-1][0] == "i" == b.path[-1][0]:
                return LV(a.root, a.path[:-1] + (("i", ite(p.args[0], a.path[-1][1], b.path[-1][1])),))
            raise Unsupported("conditional pointer " + show(p)[:1500])
        k, m = TT._lin_parts(p)
        bases = [a for a, c in m.items() if a.sort in ("ptr", "any") and c == 1 and a.op not in ("num",) and a.sort == "ptr"]
        if len(bases) != 1:
            bases = [a for a, c in m.items() if c == 1 and a.sort in ("ptr", "any")]
            if len(bases) != 1:
                raise Unsupported("pointer base of %s" % show(p))
        b = bases[0]
        off = sub(p, b)
        if b.op == "itb":
            return LV(ROOTS[b.args[0]], b.args[1] + (("i", off),))
        if b.op == "addr":
            if off is const(0):
                return LV(ROOTS[b.args[0]], b.args[1])
            raise Unsupported("arithmetic on address of scalar")
        return LV(heap_root(b), (("i", off),))

    def temp(self, S, v, label="tmp", sort=None):
        r = Root(label)
        r.sort = sort
        S.mem[r] = v
        return LV(r)

    def join_states(self, c, S1, S2):
        if S1.pc is FALSE: return S2
        if S2.pc is FALSE: return S1
        mem = {}
        for r, v in S1.mem.items():
            w = S2.mem.get(r)
            mem[r] = v if w is None or w is v else join(c, v, w)
        for r, w in S2.mem.items():
            if r not in S1.mem:
                mem[r] = w
        return State(mem, OR(S1.pc, S2.pc))

    # ------------------------------------------------------------ expressions
    def is_lv(self, n):
        return n.get("valueCategory") in ("lvalue", "xvalue")

    def ev(self, n, fr, S):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is not None:
            return m(n, fr, S)
        if self.is_lv(n):
            return self.read(S, self.lval(n, fr, S), self.srt(n))
        raise Unsupported("expression %s" % k, n)

    def srt(self, n):
        s = sort_of(qtype(n))
        if s == "any":
            s2 = sort_of(qtype_sugar(n))
            if s2 != "any": s = s2
        return None if s == "any" else s

    def sub1(self, n):
        return [c for c in n.get("inner", ()) if c]

    def passthru(self, n, fr, S):
        return self.ev(self.sub1(n)[0], fr, S)
    e_ExprWithCleanups = e_ConstantExpr = e_CXXBindTemporaryExpr = passthru
    def e_SubstNonTypeTemplateParmExpr(self, n, fr, S): return self.ev(self.sub1(n)[-1], fr, S)

    def e_ParenExpr(self, n, fr, S): return self.ev(self.sub1(n)[0], fr, S)
    def e_MaterializeTemporaryExpr(self, n, fr, S): return self.ev(self.sub1(n)[0], fr, S)

    def e_IntegerLiteral(self, n, fr, S): return const(int(n["value"]))
    def e_CharacterLiteral(self, n, fr, S): return const(int(n["value"]))
    def e_FloatingLiteral(self, n, fr, S):
        v = str(n["value"]).rstrip("fFlL")
        try:
            return const(Fraction(v))
        except ValueError:
            return app("float:" + v, [], "real")
    def e_CXXBoolLiteralExpr(self, n, fr, S): return TRUE if n["value"] else FALSE
    def e_StringLiteral(self, n, fr, S): return string(n["value"])
    def e_CXXNullPtrLiteralExpr(self, n, fr, S): return app("null", [], "ptr")
    def e_ImplicitValueInitExpr(self, n, fr, S): return self.default_value(qtype(n), S, fr, True)
    def e_CXXScalarValueInitExpr(self, n, fr, S): return self.default_value(qtype(n), S, fr, True)
    def e_UserDefinedLiteral(self, n, fr, S): return self.e_CallExpr(n, fr, S)
    def e_CXXTypeidExpr(self, n, fr, S): return app("typeid", [])
    def e_UnaryExprOrTypeTraitExpr(self, n, fr, S):
        a = (n.get("argType") or {}).get("qualType")
        sz = {"float": 4, "double": 8, "int": 4, "short": 2, "long": 8, "unsigned long": 8, "unsigned int": 4, "long double": 16, "char": 1}
        a = (n.get("argType") or {}).get("desugaredQualType") or a
        if a is None:
            c = self.sub1(n)
            if c: a = qtype(c[0])
        if a: a = strip_cv(a)
        if a in sz: return const(sz[a])
        return app("sizeof:" + str(a), [], "nat")
    def e_TypeTraitExpr(self, n, fr, S): return app("trait", [], "bool")
    def e_CXXThisExpr(self, n, fr, S):
        if fr.this is None: raise Unsupported("this")
        return TT._mk("addr", (fr.this.root.name, fr.this.path), "ptr") if not (fr.this.path and fr.this.path[-1][0] == "i") else self.addr(fr.this)

    def e_DeclRefExpr(self, n, fr, S):
        rd = n.get("referencedDecl") or {}
        if rd.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return app("fn:" + str(rd.get("name")), [])
        if rd.get("kind") == "EnumConstantDecl":
            return app("enum:" + rd.get("name", ""), [], "int")
        if rd.get("id") in self.tu.consts:
            v = self.tu.consts[rd["id"]]
            return (TRUE if v else FALSE) if "bool" in qtype(rd) else const(v)
        return self.read(S, self.lval(n, fr, S), self.srt(n))

    def e_ImplicitCastExpr(self, n, fr, S):
        ck = n.get("castKind")
        c = self.sub1(n)[0]
        return self.cast(ck, n, c, fr, S)

    def cast(self, ck, n, c, fr, S):
        if ck == "LValueToRValue":
            return self.ev(c, fr, S) if not self.is_lv(c) else self.read_lv(c, fr, S)
        if ck in ("NoOp", "IntegralCast", "IntegralToFloating", "FloatingCast", "ConstructorConversion", "UserDefinedConversion",
                  "BuiltinFnToFnPtr", "FunctionToPointerDecay", "BitCast", "LValueBitCast", "ConstantExpr"):
            v = self.ev(c, fr, S)
            if ck == "IntegralCast" and v.sort == "bool":
                v = b2i(v)
            if ck == "IntegralToFloating":
                v = b2i(v)
            return v
        if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
            if self.is_lv(n):
                return self.read(S, self.lval(n, fr, S))
            if qtype(n).rstrip().endswith("*"):
                v = self.ev(c, fr, S)
                rec_ = self.record(qtype(c).rstrip(" *").replace(" const", ""))
                if rec_ is not None and v.op == "addr":
                    lv = self.deref(v)
                    return self.addr(lv.f("§base"))
                return v
            return self.ev(c, fr, S)
        if ck == "FloatingToIntegral":
            v = self.ev(c, fr, S)
            def tr(x):
                if x.op == "num": return const(int(TT.num(x)))
                if x.sort in ("int", "nat"): return x
                return app("trunc", [x], "int")
            return lift([v], tr)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return tobool(self.ev(c, fr, S))
        if ck in ("PointerToBoolean",):
            return NOT(self.mkeq(self.ev(c, fr, S), app("null", [], "ptr")))
        if ck == "NullToPointer":
            return app("null", [], "ptr")
        if ck == "ArrayToPointerDecay":
            if c["kind"] in ("StringLiteral", "PredefinedExpr") or self.strlit(c) is not None:
                lit = self.strlit(c)
                return app("cstr", [string(lit if lit is not None else "?")], "ptr")
            lv = self.lval(c, fr, S)
            return self.itb(lv)
        if ck == "ToVoid":
            self.ev_discard(c, fr, S)
            return const(0)
        raise Unsupported("cast " + str(ck), n)

    def strlit(self, c):
        while c["kind"] in ("ParenExpr", "ConstantExpr"):
            c = self.sub1(c)[0]
        return c["value"] if c["kind"] == "StringLiteral" else None

    def read_lv(self, c, fr, S):
        while c["kind"] == "ParenExpr":
            c = self.sub1(c)[0]
        if c["kind"] == "ConditionalOperator":
            return self.ev(c, fr, S)
        if c["kind"] in ("CallExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr", "ImplicitCastExpr", "UserDefinedLiteral"):
            v = self.ev(c, fr, S)
            return v
        try:
            return self.read(S, self.lval(c, fr, S), self.srt(c))
        except Unsupported as e:
            if str(e).startswith("conditional pointer"):
                return self.read_cond(c, fr, S)
            raise

    def read_cond(self, c, fr, S):
        raise Unsupported("conditional pointer", c)

    def explicit_cast(self, n, fr, S):
        ck = n.get("castKind", "NoOp")
        c = self.sub1(n)
        if not c:
            return self.default_value(qtype(n), S, fr, True)
        return self.cast(ck, n, c[0], fr, S)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = explicit_cast

    def e_ConditionalOperator(self, n, fr, S):
        c, a, b = self.sub1(n)
        if is_assert(b):
            # assert: the condition is evaluated for its effects and taken to hold
            T = S.copy()
            try:
                self.ev(c, fr, T)
            except Unsupported:
                if not pure_syntax(c): raise
                return app("void", [])
            S.set(T)
            return app("void", [])
        cv = tobool(self.ev(c, fr, S))
        if cv is TRUE: return self.ev(a, fr, S)
        if cv is FALSE: return self.ev(b, fr, S)
        S1, S2 = S.copy(), S.copy()
        S1.pc, S2.pc = AND(S.pc, cv), AND(S.pc, NOT(cv))
        self.gates.append(cv)
        x = self.ev(a, fr, S1)
        self.gates[-1] = NOT(cv)
        y = self.ev(b, fr, S2)
        self.gates.pop()
        S.set(self.join_states(cv, S1, S2))
        return join(cv, x, y)

    def e_BinaryOperator(self, n, fr, S):
        op = n["opcode"]
        a, b = self.sub1(n)
        if op == "=":
            lv = self.assign(n, fr, S)
            return self.read(S, lv, self.srt(n))
        if op in ("&&", "||"):
            x = tobool(self.ev(a, fr, S))
            if op == "&&" and x is FALSE: return FALSE
            if op == "||" and x is TRUE: return TRUE
            S1 = S.copy()
            g = x if op == "&&" else NOT(x)
            self.gates.append(g)
            S1.pc = AND(S.pc, g)
            y = tobool(self.ev(b, fr, S1))
            self.gates.pop()
            S2 = S.copy(); S2.pc = AND(S.pc, NOT(g))
            if any(S1.mem.get(r) is not v for r, v in S.mem.items()) or S1.pc is not AND(S.pc, g):
                S.set(self.join_states(g, S1, S2))
            return AND(x, y) if op == "&&" else OR(x, y)
        if op == ",":
            self.ev_discard(a, fr, S)
            return self.ev(b, fr, S)
        x = self.ev(a, fr, S)
        y = self.ev(b, fr, S)
        return self.binop(op, x, y, n)

    def binop(self, op, x, y, n):
        s = self.srt(n)
        if op == "+": return add(x, y)
        if op == "-": return sub(x, y)
        if op == "*": return mul(x, y)
        if op == "/": return div(x, y, s == "real")
        if op == "%": return mod(x, y)
        if op == "<": return lt(x, y)
        if op == ">": return gt(x, y)
        if op == "<=": return le(x, y)
        if op == ">=": return ge(x, y)
        if op == "==": return self.mkeq(x, y)
        if op == "!=": return NOT(self.mkeq(x, y))
        if op == "<<":
            if is_num(y): return mul(x, const(2 ** int(num(y))))
            return app("shl", [x, y], s or "int")
        if op == ">>":
            if is_num(y): return div(x, const(2 ** int(num(y))), False)
            return app("shr", [x, y], s or "int")
        if op in ("&", "|", "^"):
            if x.sort == "bool" and y.sort == "bool":
                r = AND(x, y) if op == "&" else OR(x, y) if op == "|" else NOT(eq(x, y))
                return r
            x, y = b2i(x), b2i(y)
            p, q = sorted((x, y), key=lambda t: t.id)
            return bitop(op, [p, q], s or "int")
        raise Unsupported("operator " + op, n)

    def mkeq(self, x, y):
        return eq(x, y)

    def e_CompoundAssignOperator(self, n, fr, S):
        lv = self.compound(n, fr, S)
        return self.read(S, lv, self.srt(n))

    def compound(self, n, fr, S):
        op = n["opcode"][:-1]
        a, b = self.sub1(n)
        y = self.ev(b, fr, S)
        lv = self.lval(a, fr, S)
        x = self.read(S, lv, self.srt(a))
        ct = (n.get("computeResultType") or {})
        r = self.binop_t(op, x, y, sort_of(ct.get("desugaredQualType") or ct.get("qualType", "")), n)
        if self.srt(a) in ("int", "nat") and sort_of(ct.get("desugaredQualType") or ct.get("qualType", "")) == "real":
            r = lift([r], lambda t: t if t.sort in ("int", "nat", "num") else app("trunc", [t], "int"))
        if self.srt(a) == "bool" and r.sort != "bool":
            r = tobool(r)
        self.write(S, lv, r)
        return lv

    def binop_t(self, op, x, y, s, n):
        if op == "/": return div(x, y, s == "real")
        return self.binop(op, x, y, n)

    def assign(self, n, fr, S):
        a, b = self.sub1(n)
        v = self.ev(b, fr, S)
        lv = self.lval(a, fr, S)
        if self.srt(a) == "bool" and v.sort != "bool":
            v = tobool(v)
        self.write(S, lv, v)
        return lv

    def e_UnaryOperator(self, n, fr, S):
        op = n["opcode"]
        c = self.sub1(n)[0]
        if op == "!": return NOT(tobool(self.ev(c, fr, S)))
        if op == "-": return neg(self.ev(c, fr, S))
        if op == "+": return self.ev(c, fr, S)
        if op == "&":
            return self.addr(self.lval(c, fr, S))
        if op in ("++", "--"):
            lv = self.lval(c, fr, S)
            old = self.read(S, lv, self.srt(c))
            new = add(old, const(1 if op == "++" else -1))
            self.write(S, lv, new)
            return old if n.get("isPostfix") else new
        if op == "*":
            return self.read(S, self.lval(n, fr, S), self.srt(n))
        if op == "~":
            return app("bit~", [self.ev(c, fr, S)], "int")
        raise Unsupported("unary " + op, n)

    def e_MemberExpr(self, n, fr, S):
        if self.is_lv(n):
            return self.read(S, self.lval(n, fr, S), self.srt(n))
        c = self.sub1(n)[0]
        return get(self.ev(c, fr, S), n["name"].strip(), self.srt(n))

    def e_ArraySubscriptExpr(self, n, fr, S):
        return self.read(S, self.lval(n, fr, S), self.srt(n))

    def e_CXXDefaultInitExpr(self, n, fr, S):
        # initializer of the field being initialised: resolved by the constructor code
        c = self.sub1(n)
        if c:
            return self.ev(c[0], fr, S)
        raise Unsupported("default init without field", n)

    def e_InitListExpr(self, n, fr, S):
        q = qtype(n)
        els = [c for c in n.get("inner", ()) if c]
        s = sort_of(q)
        if "array_filler" in n:
            m = re.match(r"(.*)\[(\d+)\]$", strip_cv(q))
            els2 = [c for c in n["array_filler"] if c]
            vals = []
            for c in els2:
                if c.get("kind") == "ImplicitValueInitExpr" and c is els2[0]:
                    continue
                vals.append(self.ev(c, fr, S))
            num_ = int(m.group(2)) if m else len(vals)
            z = self.default_value(m.group(1), S, fr, True) if m else const(0)
            if not vals:
                return fill(const(num_), z)
            r = empty_seq()
            for v in vals: r = push(r, v)
            for _ in range(num_ - len(vals)): r = push(r, z)
            return r
        if s in ("int", "nat", "real", "bool", "ptr") and len(els) <= 1:
            return self.ev(els[0], fr, S) if els else self.default_value(q, S, fr, True)
        if s == "seq" or strip_cv(q).endswith("]"):
            r = empty_seq()
            for c in els: r = push(r, self.ev(c, fr, S))
            return r
        rec_ = self.record(q)
        if rec_ is not None:
            fs = self.fields(rec_)
            d = {}
            for f, c in zip(fs, els):
                if c.get("kind") == "CXXDefaultInitExpr":
                    d[f["name"]] = self.field_init(f, fr, S)
                else:
                    d[f["name"]] = self.ev(c, fr, S)
            for f in fs[len(els):]:
                d[f["name"]] = self.field_init(f, fr, S)
            return rec(self.rec_tag(rec_), d)
        if len(els) == 1:
            return self.ev(els[0], fr, S)
        raise Unsupported("init list of " + q, n)

    def field_init(self, f, fr, S, zero=True):
        init = [c for c in f.get("inner", ()) if c and c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        if f.get("hasInClassInitializer") and init:
            return self.ev(init[-1], fr, S)
        return self.default_value(qtype(f), S, fr, zero)

    def e_CXXStdInitializerListExpr(self, n, fr, S):
        return self.ev(self.sub1(n)[0], fr, S)

    def e_LambdaExpr(self, n, fr, S):
        rec_ = self.sub1(n)[0]
        fs = self.fields(rec_)
        meth = None
        for c in rec_.get("inner", ()):
            if c and c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                meth = c
        caps = dict(fr.map)       # enclosing locations stay reachable (by-reference captures)
        inits = [c for c in n.get("inner", ())[1:] if c and c.get("kind") not in ("CompoundStmt",)]
        for f, c in zip(fs, inits):
            d = c
            while d.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr", "ParenExpr", "ExprWithCleanups") and self.sub1(d):
                d = self.sub1(d)[0]
            if d.get("kind") == "DeclRefExpr" and not isrefq(qtype_sugar(f)) and not isrefq(qtype(f)):
                vid = d["referencedDecl"]["id"]
                caps[vid] = self.temp(S, self.ev(c, fr, S), "cap")
        cid = len(self.closures)
        self.closures[cid] = Closure(rec_, caps, fr.this)
        return TT._mk("lam", (id(self) % 100000007, cid), "lam")

    # constructors
    def e_CXXConstructExpr(self, n, fr, S):
        q = qtype(n)
        args = [c for c in n.get("inner", ()) if c]
        return self.construct(q, args, n, fr, S)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, q, args, n, fr, S):
        r = strip_cv(q)
        s = sort_of(q)
        args = [a for a in args]
        ctype = (n.get("ctorType") or {}).get("qualType", "")
        if r.startswith("std::vector<") or r.startswith("vector<"):
            args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if not args: return empty_seq()
            if len(args) == 1:
                v = self.ev(args[0], fr, S)
                if self.srt(args[0]) in ("int", "nat"):
                    em = re.match(r"(?:std::)?vector<(.*)>$", r)
                    et = split_targs(em.group(1))[0] if em else "int"
                    return fill(v, self.default_value(et, S, fr, True))
                return v
            v, w = self.ev(args[0], fr, S), self.ev(args[1], fr, S)
            if self.srt(args[0]) == "ptr":
                return self.range_value(v, w, S)
            if "vector<bool" in r and w.sort != "bool": w = tobool(w)
            return fill(v, w)
        if type_key(r).split("<")[0] in ("basic_string", "string"):
            args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if not args: return empty_seq()
            if len(args) == 1:
                v = self.ev(args[0], fr, S)
                if v.op == "app" and v.args[0] == "cstr": return v.args[1]
                return app("string", [v], "seq") if self.srt(args[0]) == "ptr" else v
            vs = [self.ev(a, fr, S) for a in args]
            if self.srt(args[0]) == "ptr" and self.srt(args[1]) == "ptr":
                try:
                    return self.range_value(vs[0], vs[1], S)
                except Unsupported:
                    pass
            return app("string", vs, "seq")
        rec_ = self.record(q)
        if rec_ is not None:
            ctors = [c for c in rec_.get("inner", ()) if c and c.get("kind") == "CXXConstructorDecl"]
            for c in rec_.get("inner", ()):
                if c and c.get("kind") == "FunctionTemplateDecl":
                    ctors += [x for x in c.get("inner", ()) if x and x.get("kind") == "CXXConstructorDecl"]
            if len(args) == 1 and one_ref_param(ctype) and self.same_record(qtype(args[0]), rec_):
                user = [c for c in ctors if (c.get("type") or {}).get("qualType") == ctype and has_body(c) and not c.get("isImplicit") and not c.get("explicitlyDefaulted")]
                if not user:
                    return self.ev(args[0], fr, S)
            cand = [c for c in ctors if (c.get("type") or {}).get("qualType") == ctype and has_body(c) and not c.get("isImplicit")]
            if not cand:
                cand = [c for c in ctors if (c.get("type") or {}).get("qualType", "").split(" noexcept")[0] == ctype.split(" noexcept")[0] and has_body(c) and not c.get("isImplicit")]
            cand = [c for c in cand if not c.get("explicitlyDefaulted")]
            if cand:
                return self.run_ctor(cand[0], rec_, args, fr, S)
            if not args:
                return self.default_record(rec_, S, fr, bool(n.get("zeroing")))
            raise Unsupported("constructor %s %s" % (q, ctype), n)
        if r.startswith("std::") or "iterator" in r or True:
            args2 = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if len(args2) == 1 and (self.srt(args2[0]) == s and s is not None and s != "any"):
                return self.ev(args2[0], fr, S)
            if len(args2) == 1 and strip_cv(qtype(args2[0])) == r:
                return self.ev(args2[0], fr, S)
            vs = [self.ev(a, fr, S) for a in args2]
            return app("new:" + short_t(r), vs, s if s else "any")

    def same_record(self, q, rec_):
        return self.record(q) is rec_ or type_key(strip_cv(q)).split("<")[0] == rec_.get("name")

    def run_ctor(self, c, rec_, args, fr, S):
        f2 = Frame(); f2.fn = c
        root = Root("obj")
        S.mem[root] = rec(self.rec_tag(rec_), {})
        f2.this = LV(root)
        self.bind_params(c, args, fr, f2, S)
        pc0 = S.pc; S.pc = TRUE
        for i in c.get("inner", ()):
            if i and i.get("kind") == "CXXCtorInitializer":
                e = self.sub1(i)[0] if self.sub1(i) else None
                if "anyInit" in i:
                    name = i["anyInit"]["name"]
                    fd = [f for f in self.fields(rec_) if f["name"] == name]
                    if e is None or e.get("kind") == "CXXDefaultInitExpr":
                        v = self.field_init(fd[0], f2, S, zero=False)
                    else:
                        v = self.ev(e, f2, S)
                    self.write(S, f2.this.f(name), v)
                elif "baseInit" in i:
                    bt = i["baseInit"].get("desugaredQualType") or i["baseInit"].get("qualType", "")
                    v = self.ev(e, f2, S) if e is not None else app("undef", [])
                    if self.record(bt) is rec_ and "lambda" not in bt:
                        self.write(S, f2.this, v)
                    else:
                        self.write(S, f2.this.f("§base"), v)
        cur = S.mem[root]
        have = dict(cur.args[1]) if cur.op == "rec" else {}
        for f in self.fields(rec_):
            if f["name"] not in have:
                self.write(S, f2.this.f(f["name"]), self.field_init(f, f2, S, zero=False))
        b = body(c)
        if b is not None:
            self.x(b, f2, S)
        self.finish(f2, S, fr, pc0)
        return S.mem[root]

    # ------------------------------------------------------------ lvalues
    def lval(self, n, fr, S):
        k = n["kind"]
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            lv = fr.map.get(rd["id"])
            if lv is not None:
                return lv
            d = self.tu.decl.get(rd["id"])
            if d is not None and d.get("kind") == "VarDecl":
                init = [c for c in d.get("inner", ()) if c and "Attr" not in c.get("kind", "")]
                if init:
                    tmp = Frame(); tmp.this = fr.this; tmp.map = fr.map
                    return self.temp(S, self.ev(init[-1], tmp, S), "const")
            if rd.get("id") in self.tu.consts:
                v = self.tu.consts[rd["id"]]
                return self.temp(S, (TRUE if v else FALSE) if "bool" in qtype(rd) else const(v), "const")
            if rd.get("kind") == "VarDecl":
                return self.temp(S, sym("global:" + rd.get("name", "?"), sort_of((rd.get("type") or {}).get("qualType", ""))), "glob")
            raise Unsupported("unknown variable %s" % rd.get("name"), n)
        if k in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr"):
            return self.lval(self.sub1(n)[0], fr, S)
        if k == "SubstNonTypeTemplateParmExpr":
            return self.lval(self.sub1(n)[-1], fr, S)
        if k == "MaterializeTemporaryExpr":
            if "_Bit_reference" in qtype(n): return self.lval_any(n, fr, S)
            return self.temp(S, self.ev(self.sub1(n)[0], fr, S))
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            c = self.sub1(n)[0]
            if n.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase"):
                lv = self.lval(c, fr, S)
                rec_ = self.record(qtype(c))
                return lv.f("§base") if rec_ is not None else lv
            if n.get("castKind") in ("NoOp",) and self.is_lv(c):
                return self.lval(c, fr, S)
            return self.temp(S, self.ev(n, fr, S))
        if k == "MemberExpr":
            c = self.sub1(n)[0]
            rm = self.tu.decl.get(n.get("referencedMemberDecl"))
            if rm is not None and rm.get("kind") == "VarDecl":   # static member
                init = [x for x in rm.get("inner", ()) if x]
                return self.temp(S, self.ev(init[-1], fr, S), "const")
            if n.get("isArrow"):
                lv = self.deref_obj(self.ev(c, fr, S))
            elif self.is_lv(c):
                lv = self.lval(c, fr, S)
            else:
                lv = self.temp(S, self.ev(c, fr, S))
            return lv.f(n["name"].strip())
        if k == "ArraySubscriptExpr":
            a, b = self.sub1(n)
            i = self.ev(b, fr, S)
            a2 = a
            while a2["kind"] in ("ParenExpr",):
                a2 = self.sub1(a2)[0]
            if a2["kind"] == "ImplicitCastExpr" and a2.get("castKind") == "ArrayToPointerDecay":
                return self.lval(self.sub1(a2)[0], fr, S).i(i)
            return self.deref(add(self.ev(a, fr, S), i))
        if k == "UnaryOperator":
            op = n["opcode"]
            c = self.sub1(n)[0]
            if op == "*":
                return self.deref_obj(self.ev(c, fr, S))
            if op in ("++", "--"):
                lv = self.lval(c, fr, S)
                old = self.read(S, lv, self.srt(c))
                self.write(S, lv, add(old, const(1 if op == "++" else -1)))
                return lv
        if k == "BinaryOperator":
            if n["opcode"] == "=": return self.assign(n, fr, S)
            if n["opcode"] == ",":
                self.ev_discard(self.sub1(n)[0], fr, S)
                return self.lval(self.sub1(n)[1], fr, S)
        if k == "CompoundAssignOperator":
            return self.compound(n, fr, S)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
            r = self.call(n, fr, S, want_lv=True)
            if isinstance(r, LV): return r
            return self.temp(S, r)
        if k == "ConditionalOperator":
            c, a, b = self.sub1(n)
            cv = tobool(self.ev(c, fr, S))
            if cv is TRUE: return self.lval(a, fr, S)
            if cv is FALSE: return self.lval(b, fr, S)
            la, lb = self.lval(a, fr, S), self.lval(b, fr, S)
            if la.same(lb): return la
            if la.root is lb.root and len(la.path) == len(lb.path) and la.path[:-1] == lb.path[:-1] and la.path and la.path[-1][0] == "i" == lb.path[-1][0]:
                return LV(la.root, la.path[:-1] + (("i", ite(cv, la.path[-1][1], lb.path[-1][1])),))
            if "const" in qtype(n) or not self.is_lv(n) or True:
                # read-only use: a merged copy
                return self.temp(S, join(cv, self.read(S, la), self.read(S, lb)))
        if k == "StringLiteral":
            return self.temp(S, string(n["value"]))
        if k == "CXXThisExpr":
            return self.temp(S, self.ev(n, fr, S))
        if k in ("CXXTypeidExpr",):
            return self.temp(S, app("typeid", []))
        if k == "CXXDefaultArgExpr":
            raise Unsupported("default argument", n)
        return self.temp(S, self.ev(n, fr, S))

    def deref_obj(self, p):
        if p.op == "addr":
            return LV(ROOTS[p.args[0]], p.args[1])
        return self.deref(p)

    def obj_lv(self, c, arrow, fr, S):
        if arrow:
            return self.deref_obj(self.ev(c, fr, S))
        if self.is_lv(c):
            return self.lval(c, fr, S)
        return self.temp(S, self.ev(c, fr, S))

    def ev_discard(self, n, fr, S):
        if self.is_lv(n) and n["kind"] not in ("DeclRefExpr", "MemberExpr"):
            if n["kind"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                self.call(n, fr, S, want_lv=True)
            elif n["kind"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "ParenExpr", "ExprWithCleanups", "ConditionalOperator"):
                if n["kind"] == "ConditionalOperator": self.ev(n, fr, S)
                else: self.lval(n, fr, S)
            return
        self.ev(n, fr, S)

    # ------------------------------------------------------------ calls
    def callee(self, n):
        c = self.sub1(n)[0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = self.sub1(c)[0]
        return c

    def e_CallExpr(self, n, fr, S):
        r = self.call(n, fr, S, want_lv=False)
        if isinstance(r, LV):
            return self.read(S, r, self.srt(n))
        return r
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def call(self, n, fr, S, want_lv):
        k = n["kind"]
        if k == "CXXMemberCallExpr":
            return self.member_call(n, fr, S, want_lv)
        if k == "CXXOperatorCallExpr":
            return self.operator_call(n, fr, S, want_lv)
        c = self.callee(n)
        args = self.sub1(n)[1:]
        if c["kind"] == "DeclRefExpr":
            rd = c.get("referencedDecl") or {}
            d = self.tu.definition(rd.get("id"))
            if d is not None and d.get("kind") in cpp.FUNC:
                return self.invoke(d, None, args, n, fr, S, want_lv)
            return self.std_call(rd.get("name", "?"), args, n, fr, S, want_lv, c)
        if c["kind"] == "MemberExpr":
            rd = self.tu.definition(c.get("referencedMemberDecl"))
            if rd is not None:
                return self.invoke(rd, None, args, n, fr, S, want_lv)
        raise Unsupported("call through " + c["kind"], n)

    def member_call(self, n, fr, S, want_lv):
        c = self.callee(n)
        args = self.sub1(n)[1:]
        if c["kind"] != "MemberExpr":
            raise Unsupported("member call " + c["kind"], n)
        name = c["name"].lstrip("->.").strip()
        obj = self.sub1(c)[0]
        d = self.tu.definition(c.get("referencedMemberDecl"))
        if d is not None and has_body(d):
            static = d.get("storageClass") == "static"
            lv = None if static else self.obj_lv(obj, c.get("isArrow"), fr, S)
            return self.invoke(d, lv, args, n, fr, S, want_lv)
        lv = self.obj_lv(obj, c.get("isArrow"), fr, S)
        if d is not None:
            nm = self.tu.qname_of.get(d["id"], name)
            if name.startswith("operator"):   # implicit operators
                return self.read(S, lv)
        q = qtype(obj)
        if c.get("isArrow"):
            q = re.sub(r"\*\s*(const)?$", "", q.strip())
        return self.std_member(lv, strip_cv(q), name, args, n, fr, S, want_lv)

    def operator_call(self, n, fr, S, want_lv):
        c = self.callee(n)
        rd = c.get("referencedDecl") or {}
        name = rd.get("name", "")
        args = self.sub1(n)[1:]
        d = self.tu.definition(rd.get("id"))
        if d is not None and has_body(d) and not (d.get("isImplicit") or d.get("explicitlyDefaulted")):
            if d["kind"] == "CXXMethodDecl":
                obj = args[0]
                lv = self.lval(obj, fr, S) if self.is_lv(obj) else self.temp(S, self.ev(obj, fr, S))
                return self.invoke(d, lv, args[1:], n, fr, S, want_lv)
            return self.invoke(d, None, args, n, fr, S, want_lv)
        if name == "operator=":
            v = self.ev(args[1], fr, S)
            lv = self.lval(args[0], fr, S) if self.is_lv(args[0]) else self.lval_any(args[0], fr, S)
            q = qtype(args[0])
            if type_key(strip_cv(q)).split("<")[0] in ("basic_string", "string"):
                if v.op == "app" and v.args[0] == "cstr": v = v.args[1]
                elif self.srt(args[1]) == "ptr": v = app("string", [v], "seq")
            if "_Bit_reference" in q and v.sort != "bool": v = tobool(v)
            self.write(S, lv, v)
            return lv
        q0 = qtype(args[0])
        if name == "operator[]":
            lv = self.lval(args[0], fr, S) if self.is_lv(args[0]) else self.temp(S, self.ev(args[0], fr, S))
            i = self.ev(args[1], fr, S)
            if "map<" in q0:
                # a missing key is value-initialised on access
                return lv.i(i)
            if sort_of(q0) == "ptr":
                return self.deref(add(self.read(S, lv, "ptr"), i))
            return lv.i(i)
        if name == "operator()":
            v = self.ev(args[0], fr, S)
            raise Unsupported("call of unknown functor", n)
        if sort_of(q0) == "ptr" or (len(args) > 1 and sort_of(qtype(args[1])) == "ptr" and sort_of(q0) == "ptr"):
            if name == "operator*" and len(args) == 1:
                return self.deref_obj(self.ev(args[0], fr, S))
            if name == "operator->":
                return self.ev(args[0], fr, S)
            if name in ("operator++", "operator--"):
                lv = self.lval(args[0], fr, S)
                old = self.read(S, lv, "ptr")
                new = add(old, const(1 if name == "operator++" else -1))
                self.write(S, lv, new)
                return old if len(args) == 2 else (lv if want_lv else new)
            if name in ("operator+=", "operator-="):
                v = self.ev(args[1], fr, S)
                lv = self.lval(args[0], fr, S)
                self.write(S, lv, (add if name[8] == "+" else sub)(self.read(S, lv, "ptr"), v))
                return lv
        op = name[8:]
        if op in ("<<", ">>") and len(args) == 2 and sort_of(q0) == "any":
            lv = self.lval(args[0], fr, S)
            v = self.ev(args[1], fr, S)
            if op == "<<":
                self.write(S, lv, app("write", [self.read(S, lv), v]))
                return lv
            raise Unsupported("stream extraction", n)
        if op in BINOPS and len(args) == 2:
            x, y = self.ev(args[0], fr, S), self.ev(args[1], fr, S)
            q1 = qtype(args[1])
            def strv(v):
                return v.args[1] if v.op == "app" and v.args[0] == "cstr" else v
            x, y = strv(x), strv(y)
            if op in ("==", "!="):
                e = self.mkeq(x, y)
                return e if op == "==" else NOT(e)
            if sort_of(q0) == "ptr":
                return self.binop(op, x, y, n)
            if op == "+" and ("basic_string" in q0 or "basic_string" in q1 or "std::string" in q0):
                return app("strcat", [x, y], "seq")
            if "chrono" in q0 or "chrono" in qtype(n) or "duration" in q0:
                return app("chrono" + op, [x, y], "bool" if op in ("<", ">", "<=", ">=") else "any")
            return app("op" + op, [x, y], self.srt(n) or "any")
        if op == "!" and len(args) == 1:
            return NOT(tobool(self.stream_ok(self.ev(args[0], fr, S))))
        if op == "+=":
            lv = self.lval(args[0], fr, S)
            y = self.ev(args[1], fr, S)
            if y.op == "app" and y.args[0] == "cstr": y = y.args[1]
            self.write(S, lv, app("strcat", [self.read(S, lv), y], "seq"))
            return lv
        if op == "*" and len(args) == 1:
            return self.deref_obj(self.ev(args[0], fr, S))
        if op == "->":
            return self.ev(args[0], fr, S)
        if op in ("++", "--"):
            lv = self.lval(args[0], fr, S)
            old = self.read(S, lv)
            self.write(S, lv, add(old, const(1 if op == "++" else -1)))
            return lv if len(args) == 1 else old
        raise Unsupported("operator call " + name + " on " + q0, n)

    def stream_ok(self, v):
        return app("stream_ok", [v], "bool") if v.sort != "bool" else v

    def lval_any(self, n, fr, S):
        """Proxy results (vector<bool>) denote the element."""
        while n["kind"] in ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "ImplicitCastExpr"):
            n = self.sub1(n)[0]
        if n["kind"] == "DeclRefExpr": return self.lval(n, fr, S)
        r = self.call(n, fr, S, want_lv=True)
        if isinstance(r, LV): return r
        raise Unsupported("assignment to a temporary", n)

    def default_arg(self, p):
        init = [c for c in p.get("inner", ()) if c and "Attr" not in c.get("kind", "") and c.get("kind") != "FullComment"]
        return init[-1] if init else None

    def bind_params(self, d, args, fr, f2, S):
        ps = params(d)
        pattern = None
        if len(args) > len(ps):
            args = args[:len(ps)]
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            src = fr
            if a is None or a.get("kind") == "CXXDefaultArgExpr":
                a = self.default_arg(p)
                if a is None:
                    a = self.find_default(d, i)
                if a is None:
                    raise Unsupported("missing default argument")
                src = f2
            q = qtype_sugar(p)
            qd = qtype(p)
            if isrefq(q) or isrefq(qd):
                lv = self.lval(a, src, S) if (self.is_lv(a) or a["kind"] in ("MaterializeTemporaryExpr",)) else self.temp(S, self.ev(a, src, S), p.get("name", "p"))
                f2.map[p["id"]] = lv
            else:
                v = self.ev(a, src, S)
                if sort_of(qd) == "bool" and v.sort != "bool" and v.sort != "any": v = tobool(v)
                if sort_of(qd) in ("int", "nat") and v.sort == "bool": v = b2i(v)
                f2.map[p["id"]] = self.temp(S, v, p.get("name", "p"), sort_of(qd))

    def find_default(self, d, i):
        qn = self.tu.qname_of.get(d["id"])
        for f in self.tu.funcs.get(qn, []) + [x for x in self.tu.decl.values() if x.get("kind") in cpp.FUNC and x.get("name") == d.get("name") and self.tu.qname_of.get(x["id"]) == qn]:
            ps = params(f)
            if i < len(ps):
                a = self.default_arg(ps[i])
                if a is not None:
                    return a
        return None

    def qname(self, d):
        return self.tu.qname_of.get(d["id"], d.get("name", "?"))

    def invoke(self, d, lv, args, n, fr, S, want_lv):
        qn = self.qname(d)
        if qn == "cft::print" and not self.cfg.stdout:
            for a in args[1:]:
                if has_effects(a): self.ev_discard(a, fr, S)
            return const(0)
        if not has_body(d):
            return self.std_call(d.get("name", "?"), args, n, fr, S, want_lv, None, qn)
        if d.get("name") == "checked_cast" and qn == "cft::checked_cast":
            v = self.ev(args[0], fr, S)
            s = self.srt(n)
            if s in ("int", "nat"):
                v = b2i(v)
                return lift([v], lambda x: const(int(num(x))) if x.op == "num" else (app("trunc", [x], "int") if x.sort == "real" else x))
            return b2i(v) if v.sort == "bool" else v
        spec = self.cfg.boundary.get(qn)
        if spec is not None:
            return self.contract(qn, spec, d, lv, args, n, fr, S)
        if self.depth > 40:
            raise Unsupported("call depth", n)
        f2 = Frame(); f2.fn = d
        lamparent = self.tu.parent.get(d["id"])
        if lv is not None:
            v = None
            prec = self.tu.decl.get(lamparent) if lamparent else None
            if prec is not None and is_lambda(prec):
                v = self.read(S, lv)
                if v.op != "lam":
                    # a functor received from outside: an uninterpreted pure function
                    vs = [self.ev(a, fr, S) for a in args]
                    return app("apply", [v] + vs, self.srt(n) or "any")
                cl = self.closures[v.args[1]]
                f2.map.update(cl.caps)
                f2.this = cl.this
            else:
                f2.this = lv
        self.bind_params(d, args, fr, f2, S)
        rt = (d.get("type") or {}).get("qualType", "")
        f2.retref = bool(re.match(r"^[^()]*&\s*\(", rt)) or (n.get("valueCategory") in ("lvalue",))
        self.inlined.add(qn)
        self.depth += 1
        pc0 = S.pc
        S.pc = TRUE
        try:
            self.x(body(d), f2, S)
        finally:
            self.depth -= 1
        r = self.finish(f2, S, fr, pc0)
        if r is None:
            return const(0)
        return r

    def finish(self, f2, S, fr, pc0):
        """Merge the exits of an inlined function into the caller."""
        exits = list(f2.exits)
        if S.pc is not FALSE:
            exits.append((S.pc, S.mem, None))
        for pc, what in f2.throws:
            fr.throws.append((AND(pc0, pc), what))
        if not exits:
            S.pc = FALSE
            return app("noreturn", [])
        pc, mem, val = exits[-1]
        allpc = pc
        st = State(dict(mem), TRUE)
        for pc, m, v in reversed(exits[:-1]):
            allpc = OR(allpc, pc)
            st = self.join_states(pc, State(m, TRUE), st)
            if val is None:
                val = v
            elif isinstance(v, LV) or isinstance(val, LV):
                if isinstance(v, LV) and isinstance(val, LV) and v.same(val):
                    pass
                elif isinstance(v, LV) and isinstance(val, LV) and v.root is val.root and v.path[:-1] == val.path[:-1] and v.path and v.path[-1][0] == "i":
                    val = LV(v.root, v.path[:-1] + (("i", ite(pc, v.path[-1][1], val.path[-1][1])),))
                else:
                    a = self.read(State(m, TRUE), v) if isinstance(v, LV) else v
                    b = self.read(st, val) if isinstance(val, LV) else val
                    val = join(pc, a, b)
            elif v is not None:
                val = join(pc, v, val)
        S.mem = st.mem
        S.pc = AND(pc0, allpc) if f2.throws else pc0
        return val

    def reify(self, S, t, memo=None):
        """Replace pointers into known storage by what they denote (storage names are run specific)."""
        if not t.loc:
            return t
        if memo is None: memo = {}
        r = memo.get(t)
        if r is not None: return r
        if t.op == "rec" and not isinstance(t.args[0], T) and len(t.args[1]) == 2:
            a, b = t.args[1][0][1], t.args[1][1][1]
            names = [x[0] for x in t.args[1]]
            if "finish" in names or "end" in names:
                beg, end = (a, b) if names[0] in ("start", "begin", "beg") else (b, a)
                try:
                    lv = self.deref(beg)
                    n_ = sub(end, beg)
                    if not n_.loc and lv.root not in r_heap:
                        v = self.reify(S, self.read(S, LV(lv.root, lv.path[:-1])), memo)
                        r = app("range", [slice_(v, lv.path[-1][1], n_)])
                except Unsupported:
                    r = None
        if r is None and t.op in ("itb", "addr"):
            lv = LV(ROOTS[t.args[0]], t.args[1])
            memo[t] = app("self-reference", [])
            try:
                r = app("into" if t.op == "itb" else "ref", [self.reify(S, self.read(S, lv), memo)], "ptr")
            except Unsupported:
                r = app("into", [], "ptr")
        if r is None:
            r = TT.rebuild(t, lambda x: self.reify(S, x, memo))
        memo[t] = r
        return r

    def targs(self, d):
        out = []
        def ta(n):
            r = []
            for c in n.get("inner", ()):
                if c and c.get("kind") == "TemplateArgument":
                    t = c.get("type")
                    if t: r.append(norm_t(t.get("desugaredQualType") or t.get("qualType")))
                    elif "value" in c: r.append(str(c["value"]))
            return r
        par = self.tu.decl.get(self.tu.parent.get(d["id"]))
        if par is not None: out += ta(par)
        out += ta(d)
        return "<%s>" % ",".join(out) if out else ""

    def contract(self, qn, spec, d, lv, args, n, fr, S):
        """A callee with obligations of its own: an uninterpreted function of its inputs."""
        ps = params(d)
        if spec.get("model") in ("eq", "ne"):
            x = self.read(S, lv)
            y = self.ev(args[0], fr, S)
            x, y = sorted((self.reify(S, x), self.reify(S, y)), key=lambda t: t.id)
            r = app("streq", [x, y], "bool")
            return r if spec["model"] == "eq" else NOT(r)
        name = spec.get("name", qn.split("::")[-1] if not qn.endswith("operator()") else "::".join(qn.split("::")[-2:]))
        if spec.get("targs"):
            name = "::".join(qn.split("::")[-2:]) + self.targs(d)
        ins, outs = [], []
        const_m = (d.get("type") or {}).get("qualType", "").rstrip().endswith("const")
        fp = self.cfg.footprints.get(qn, {})
        def use(nm, l, v):
            """The part of an argument the callee reads."""
            r = fp.get(nm, [None])[0]
            if r is None: ins.append(v() if callable(v) else v)
            elif l is not None:
                for f in r: ins.append(self.read(S, l.f(f)))
            else:
                w = self.reify(S, v() if callable(v) else v)
                for f in r: ins.append(TT.get(w, f))
        def put(nm, l):
            w = fp.get(nm, [None, None])[1]
            if w is None: outs.append((nm, l))
            else: outs.extend((nm + "." + f, l.f(f)) for f in w)
        if lv is not None and not spec.get("nothis"):
            use("this", lv, lambda: self.read(S, lv))
            if not const_m and not spec.get("const"):
                put("this", lv)
        for i, p in enumerate(ps):
            q = qtype_sugar(p)
            qd = qtype(p)
            a = args[i] if i < len(args) else None
            src = fr
            if a is None or a.get("kind") == "CXXDefaultArgExpr":
                a = self.default_arg(p)
                if a is None: a = self.find_default(d, i)
                src = Frame()
            isref = isrefq(q) or isrefq(qd)
            ign = any(re.search(r"\b%s\b" % t, q) for t in spec.get("cache", ()))
            if isref:
                l = self.lval(a, src, S) if self.is_lv(a) else self.temp(S, self.ev(a, src, S))
                nonconst = not re.search(r"\bconst\b", q)
                if ign:
                    continue
                if i in spec.get("out", ()):
                    outs.append(("p%d" % i, l))
                    continue
                use("p%d" % i, l, lambda: self.read(S, l))
                if nonconst:
                    put("p%d" % i, l)
                elif "Environment" in q and spec.get("rnd"):
                    outs.append(("rnd", l.f("rnd")))
            else:
                v = self.ev(a, src, S)
                if ign: continue
                use("p%d" % i, None, v)
        ins = [self.reify(S, v) for v in ins]
        clk = S.mem.get(self.clock)
        if spec.get("clock"):
            ins.append(clk)
            self.clock_reads += 1
        if spec.get("timed"):
            S.mem[self.clock] = app("tick", [clk])
        self.calls.append((qn, tuple(ins), tuple(self.gates), n))
        for nm, l in outs:
            self.write(S, l, app("out:%s:%s" % (name, nm), ins, "any"))
        if spec.get("throws"):
            t = app("throws:" + name, ins, "bool")
            fr.throws.append((AND(S.pc, t), name))
            S.pc = AND(S.pc, NOT(t))
        s = self.srt(n)
        return app("ret:" + name, ins, s or "any")

    # ------------------------------------------------------------ std models
    def range_value(self, b, e, S):
        """The sequence denoted by an iterator range."""
        off_n = sub(e, b)
        lv = self.deref(b)
        off = lv.path[-1][1]
        v = self.read(S, LV(lv.root, lv.path[:-1]))
        return slice_(v, off, off_n)

    def apply_fn(self, f, vals, S, fr, n):
        """Apply a closure or functor value to values."""
        if f.op == "lam":
            cl = self.closures[f.args[1]]
            meth = None
            cand = [c for c in cl.node.get("inner", ()) if c and c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
            for c in cl.node.get("inner", ()):
                if c and c.get("kind") == "FunctionTemplateDecl":
                    cand += [x for x in c.get("inner", ()) if x and x.get("kind") == "CXXMethodDecl" and not cpp.is_dependent(x)]
            meth = cand[-1]
            f2 = Frame(); f2.fn = meth
            f2.map.update(cl.caps); f2.this = cl.this
        elif f.op == "rec" or f.op == "app":
            tag = f.args[0]
            recs = self.tu.records.get(tag, []) if isinstance(tag, str) else []
            cand = [c for r in recs for c in r.get("inner", ()) if c and c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
            if not cand: raise Unsupported("functor " + show(f), n)
            meth = cand[0]
            f2 = Frame(); f2.fn = meth; f2.this = self.temp(S, f)
        elif f.op in ("sym", "get"):
            return app("apply", [f] + [self.read(S, v) if isinstance(v, LV) else v for v in vals], self.srt(n) or "any")
        else:
            raise Unsupported("functor " + show(f), n)
        for p, v in zip(params(meth), vals):
            f2.map[p["id"]] = v if isinstance(v, LV) else self.temp(S, v)
        pc0 = S.pc; S.pc = TRUE
        self.x(body(meth), f2, S)
        r = self.finish(f2, S, fr, pc0)
        return self.read(S, r) if isinstance(r, LV) else r

    def elem(self, seqv, k, like=None):
        return at(seqv, k)

    def key_fn(self, f, nargs, S, fr, n):
        """A comparator as a closed function term."""
        ks = [fresh("a", "any") for _ in range(nargs)]
        S2 = S.copy()
        b = self.apply_fn(f, ks, S2, fr, n)
        return fnterm(ks, b)

    def container_lv(self, b):
        lv = self.deref(b)
        return LV(lv.root, lv.path[:-1]), lv.path[-1][1]

    def std_call(self, name, args, n, fr, S, want_lv, c=None, qn=None):
        A = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        s = self.srt(n)
        if name in ("move", "forward", "addressof", "as_const", "ref", "cref", "swap", "declval"):
            if name == "addressof":
                return self.addr(self.lval(A[0], fr, S))
            if name == "swap" and len(A) == 2:
                la, lb = self.lval_or_proxy(A[0], fr, S), self.lval_or_proxy(A[1], fr, S)
                va, vb = self.read(S, la), self.read(S, lb)
                self.write(S, la, vb)
                self.write(S, lb, va)
                return const(0)
            if self.is_lv(A[0]):
                lv = self.lval(A[0], fr, S)
                return lv
            return self.ev(A[0], fr, S)
        if name in ("print", "fflush", "fputs", "printf", "vprint", "puts", "perror"):
            if name == "print" and A:
                q = qtype(A[0])
                if "ofstream" in q or "ostream" in q:
                    lv = self.lval(A[0], fr, S)
                    vs = [self.ev(a, fr, S) for a in A[1:]]
                    self.write(S, lv, app("write", [self.read(S, lv)] + vs))
                elif any(r.get("name") == "stderr" for r in cpp.refs_in(A[0])):
                    S.mem[self.stderr] = TRUE
                elif self.cfg.stdout:
                    vs = [self.ev(a, fr, S) for a in A]
                    S.mem[self.stdout] = app("printed", [S.mem[self.stdout]] + vs)
            elif A and any(r.get("name") == "stderr" for a in A for r in cpp.refs_in(a)):
                S.mem[self.stderr] = TRUE
            return const(0)
        if name in ("max", "min", "lowest", "infinity", "epsilon", "quiet_NaN", "denorm_min") and not A:
            r = app("%s:%s" % (name, norm_t(qtype(n))), [], s or "any")
            return r
        if name in ("min", "max") and len(A) == 2:
            x, y = self.ev(A[0], fr, S), self.ev(A[1], fr, S)
            return ite(lt(y, x), y, x) if name == "min" else ite(lt(x, y), y, x)
        if name in ("min", "max") and len(A) == 1:
            raise Unsupported("min/max of list", n)
        if name in ("abs", "fabs") and len(A) == 1:
            x = self.ev(A[0], fr, S)
            return ite(lt(x, const(0)), neg(x), x)
        if name in ("isfinite", "isnan", "isinf", "sqrt", "floor", "ceil", "round", "trunc", "isdigit", "isspace", "strlen", "exp", "log", "pow",
                    "isalpha", "tolower", "toupper"):
            vs = [self.ev(a, fr, S) for a in A]
            if name == "strlen" and vs[0].op == "app" and vs[0].args[0] == "cstr":
                return const(len(vs[0].args[1].args[0].strip('"')))
            return app(name, vs, s or "any")
        if name == "distance" and len(A) == 2:
            x, y = self.ev(A[0], fr, S), self.ev(A[1], fr, S)
            return sub(y, x)
        if name in ("next", "prev") and A:
            x = self.ev(A[0], fr, S)
            k = self.ev(A[1], fr, S) if len(A) > 1 else const(1)
            return add(x, k) if name == "next" else sub(x, k)
        if name in ("begin", "end", "cbegin", "cend", "size", "empty", "data") and len(A) == 1:
            lv = self.lval(A[0], fr, S) if self.is_lv(A[0]) else self.temp(S, self.ev(A[0], fr, S))
            return self.std_member(lv, strip_cv(qtype(A[0])), name, [], n, fr, S, want_lv)
        if name in ("sort", "stable_sort", "nth_element", "partial_sort", "reverse", "iota", "fill", "any_of", "all_of", "none_of", "find_if", "find_if_not",
                    "find", "count", "count_if", "accumulate", "for_each", "copy", "remove_if", "remove", "unique", "max_element", "min_element", "transform",
                    "lower_bound", "upper_bound", "binary_search", "copy_if", "fill_n", "equal", "rotate", "is_sorted"):
            return self.algorithm(name, A, n, fr, S)
        if name == "__errno_location":
            return self.addr(LV(self.errno_root(S)))
        if name == "now":
            return app("now", [S.mem.get(self.clock, const(0))])
        if name == "getline" and len(A) >= 2:
            a, b = self.lval(A[0], fr, S), self.lval(A[1], fr, S)
            v = self.read(S, a)
            self.write(S, b, app("getline", [v], "seq"))
            self.write(S, a, app("getline:in", [v]))
            return a if want_lv else app("getline:in", [v])
        if name == "duration_cast":
            return app("duration_cast:" + norm_t(qtype(n)), [self.ev(A[0], fr, S)])
        if name == "make_pair" and len(A) == 2:
            return rec("std::pair", {"first": self.ev(A[0], fr, S), "second": self.ev(A[1], fr, S)})
        if name in ("__builtin_expect",):
            return self.ev(A[0], fr, S)
        # unknown external function: uninterpreted, with outputs through non-const references and pointers
        vs, outs = [], []
        ct = (qtype(c) if c is not None else "")
        pts = split_targs(paren_args(ct))
        for i, a in enumerate(A):
            pt = pts[i] if i < len(pts) else ""
            if self.is_lv(a) and isrefq(pt) and "const" not in pt and not pt.rstrip().endswith("&&"):
                lv = self.lval(a, fr, S)
                outs.append((i, lv)); vs.append(self.read(S, lv))
            else:
                v = self.ev(a, fr, S)
                vs.append(v)
                pt = pt.replace("__restrict", "").strip()
                if v.op == "addr" and pt.endswith("*") and not pt.strip().startswith("const"):
                    outs.append((i, self.deref(v)))
                    vs[-1] = app("outptr", [])
        nm = qn or ("ext:" + name)
        if re.match(r"(std::)?(strto|ato)", name):
            r = self.errno_root(S)
            S.mem[r] = app("errno:" + name, vs + [S.mem[r]], "int")
        for i, lv in outs:
            self.write(S, lv, app("out:%s:%d" % (nm, i), vs))
        return app(nm, vs, s or "any")

    def errno_root(self, S):
        r = getattr(self, "_errno", None)
        if r is None:
            r = self._errno = Root("errno")
        if r not in S.mem:
            S.mem[r] = sym("errno0", "int")
        return r

    def lval_or_proxy(self, a, fr, S):
        return self.lval(a, fr, S) if self.is_lv(a) else self.lval_any(a, fr, S)

    def algorithm(self, name, A, n, fr, S):
        vals = []
        for a in A:
            vals.append(self.ev(a, fr, S))
        b, e = vals[0], vals[1]
        cnt = sub(e, b)
        clv, off = self.container_lv(b)
        v = self.read(S, clv)
        whole = off is const(0) and cnt is size(v)
        if name in ("sort", "stable_sort", "nth_element", "reverse", "partial_sort"):
            key = self.key_fn(vals[-1], 2, S, fr, n) if vals[-1].op in ("lam", "rec") else app("less", [])
            key = canon_cmp(key)
            extra = []
            if name == "nth_element":
                end = vals[2]
                if sub(end, b) is not size(v): raise Unsupported("partial nth_element", n)
                r = app("std::nth_element", [v, sub(e, b), key], "seq")
            else:
                if not whole:
                    self.write(S, clv, app("std::%s:part" % name, [v, off, cnt, key], "seq"))
                    return const(0)
                r = app("std::" + name, [v] + ([key] if name != "reverse" else []), "seq")
            self.write(S, clv, r)
            return const(0)
        k = fresh("k", "int")
        el = at(v, add(off, k))
        if name in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if"):
            S2 = S.copy()
            g = tobool(self.apply_fn(vals[2], [el], S2, fr, n))
            if any(S2.mem.get(r) is not x for r, x in S.mem.items()):
                raise Unsupported("impure predicate", n)
            if name == "any_of": return existsf(cnt, k, g)
            if name == "none_of": return NOT(existsf(cnt, k, g))
            if name == "all_of": return NOT(existsf(cnt, k, NOT(g)))
            if name == "find_if": return add(b, firstf(cnt, k, g))
            if name == "find_if_not": return add(b, firstf(cnt, k, NOT(g)))
            return sumf(cnt, k, ite(g, const(1), const(0)))
        if name in ("find", "count"):
            g = eq(el, vals[2])
            return add(b, firstf(cnt, k, g)) if name == "find" else sumf(cnt, k, ite(g, const(1), const(0)))
        if name == "accumulate" and len(vals) == 3:
            return add(vals[2], sumf(cnt, k, el))
        if name == "iota":
            self.write(S, clv, mapf(v, off, cnt, k, add(vals[2], k)))
            return const(0)
        if name == "fill":
            self.write(S, clv, mapf(v, off, cnt, k, vals[2]))
            return const(0)
        if name == "for_each":
            ir = Root("i")
            S.mem[ir] = const(0)
            def cond(St): return lt(St.mem[ir], cnt)
            def bod(St, fr2): self.apply_fn(vals[2], [self.deref(add(b, St.mem[ir]))], St, fr2, n)
            def inc(St): St.mem[ir] = add(St.mem[ir], const(1))
            self.loop(fr, S, cond, bod, inc, n)
            return vals[2]
        raise Unsupported("algorithm " + name, n)

    def std_member(self, lv, q, name, args, n, fr, S, want_lv):
        A = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        q0 = type_key(q).split("<")[0]
        seq = q0 in ("vector", "basic_string", "string", "array") or q.endswith("]")
        s = self.srt(n)
        if name.startswith("operator "):     # conversions
            if "stream" in q or "basic_ios" in q: return self.stream_ok(self.read(S, lv))
            if "_Bit_reference" in q:
                v = self.read(S, lv, "bool")
                return v
            return self.read(S, lv, s)
        if seq:
            if name in ("size", "length"): return size(self.read(S, lv))
            if name == "empty": return eq(size(self.read(S, lv)), const(0))
            if name in ("begin", "cbegin", "data", "c_str"): return self.itb(lv)
            if name in ("end", "cend"): return add(self.itb(lv), size(self.read(S, lv)))
            if name in ("rbegin", "rend", "crbegin", "crend"): raise Unsupported("reverse iterator", n)
            if name in NOOP_METHODS:
                return const(0)
            if name in ("operator[]", "at"):
                return lv.i(self.ev(A[0], fr, S))
            if name == "front": return lv.i(const(0))
            if name == "back": return lv.i(sub(size(self.read(S, lv)), const(1)))
            if name in ("push_back", "emplace_back"):
                if len(A) == 1:
                    v = self.ev(A[0], fr, S)
                    em = re.match(r"(?:std::)?vector<(.*)>$", q)
                    if em and split_targs(em.group(1))[0] == "bool" and v.sort != "bool": v = tobool(v)
                else:
                    raise Unsupported("emplace_back with %d args" % len(A), n)
                self.write(S, lv, push(self.read(S, lv), v))
                return const(0)
            if name == "pop_back":
                self.write(S, lv, pop(self.read(S, lv))); return const(0)
            if name == "clear":
                self.write(S, lv, empty_seq()); return const(0)
            if name == "resize":
                m = self.ev(A[0], fr, S)
                cur = self.read(S, lv)
                if len(A) > 1:
                    x = self.ev(A[1], fr, S)
                else:
                    em = re.match(r"(?:std::)?vector<(.*)>$", q)
                    x = self.default_value(split_targs(em.group(1))[0], S, fr, True) if em else const(0)
                self.write(S, lv, resize(cur, m, x)); return const(0)
            if name == "assign":
                x, y = self.ev(A[0], fr, S), (self.ev(A[1], fr, S) if len(A) > 1 else None)
                if y is None: self.write(S, lv, x)
                elif self.srt(A[0]) == "ptr": self.write(S, lv, self.range_value(x, y, S))
                else:
                    if "vector<bool" in q and y.sort != "bool": y = tobool(y)
                    self.write(S, lv, fill(x, y))
                return const(0)
            if name == "insert" and len(A) == 3 and self.srt(A[1]) == "ptr":
                pos, x, y = [self.ev(a, fr, S) for a in A]
                cur = self.read(S, lv)
                if sub(pos, self.itb(lv)) is size(cur):
                    self.write(S, lv, cat(cur, self.range_value(x, y, S)))
                    return const(0)
            if name == "erase" and len(A) == 2:
                x, y = [self.ev(a, fr, S) for a in A]
                cur = self.read(S, lv)
                if sub(y, self.itb(lv)) is size(cur):
                    self.write(S, lv, resize(cur, sub(x, self.itb(lv))))
                    return const(0)
            if name == "swap":
                l2 = self.lval(A[0], fr, S)
                a, b = self.read(S, lv), self.read(S, l2)
                self.write(S, lv, b); self.write(S, l2, a)
                return const(0)
            if name in ("substr", "find", "compare", "append", "rfind", "find_last_of"):
                vs = [self.ev(a, fr, S) for a in A]
                if name == "append":
                    self.write(S, lv, app("strcat", [self.read(S, lv)] + vs, "seq")); return lv
                return app("str:" + name, [self.read(S, lv)] + vs, s or "any")
            raise Unsupported("method %s of %s" % (name, q), n)
        vs = []
        for a in A:
            v = self.ev(a, fr, S)
            if v.op == "app" and v.args[0] == "cstr": v = v.args[1]
            vs.append(v)
        cur = self.read(S, lv)
        if "map<" in q:
            if name == "find": return app("map:find", [cur] + vs, "any")
            if name in ("end", "cend"): return app("map:end", [], "any")
            if name in ("size", "empty", "count"): return app("map:" + name, [cur] + vs, s or "any")
        if name == "count" and "duration" in q:
            return app("count", [cur], "int")
        if name not in PURE_METHODS and name not in NOOP_METHODS:
            self.write(S, lv, app("m:" + name, [cur] + vs))
        return app("call:" + name, [cur] + vs, s or "any")

    # ------------------------------------------------------------ statements
    def x(self, n, fr, S):
        if S.pc is FALSE:
            return
        self._budget += 1
        if self._budget > 60000:
            raise Unsupported("analysis budget exceeded", n)
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            m(n, fr, S)
        else:
            self.ev_discard(n, fr, S)

    def s_CompoundStmt(self, n, fr, S):
        for c in n.get("inner", ()):
            if c:
                self.x(c, fr, S)
                if S.pc is FALSE:
                    return
    def s_NullStmt(self, n, fr, S): pass
    def s_CXXTryStmt(self, n, fr, S):
        parts = self.sub1(n)
        handlers = [h for h in parts[1:] if h["kind"] == "CXXCatchStmt"]
        n0 = len(fr.throws)
        mem0, pc0 = dict(S.mem), S.pc
        self.x(parts[0], fr, S)
        new = fr.throws[n0:]
        if not new or not handlers: return
        del fr.throws[n0:]
        for h in handlers:
            d = [c for c in h.get("inner", ()) if c and c["kind"] == "VarDecl"]
            blk = [c for c in h.get("inner", ()) if c and c["kind"] == "CompoundStmt"][-1]
            ty = strip_cv(qtype(d[0])) if d else "..."
            hit, rest = [], []
            for pc, what in new:
                m = catches(ty, what)
                if m is None:           # thrown by a callee: of that type or not
                    c = app("throws-as:%s:%s" % (what, ty), [], "bool")
                    hit.append((AND(pc, c), what)); rest.append((AND(pc, NOT(c)), what))
                else: (hit if m else rest).append((pc, what))
            new = rest
            T = FALSE
            for pc, _ in hit: T = OR(T, pc)
            if T is FALSE: continue
            H = State(dict(mem0), T)
            for r, v in S.mem.items():
                if r in H.mem and H.mem[r] is not v and r not in (self.clock, self.stderr):
                    H.mem[r] = app("at-throw", [H.mem[r], v])
            if d: fr.map[d[0]["id"]] = self.temp(H, app("exception", []), d[0].get("name", "e"))
            self.x(blk, fr, H)
            if H.pc is not FALSE:
                base = S.copy()
                S.set(self.join_states(T, H, base))
        fr.throws.extend(new)
    def s_AttributedStmt(self, n, fr, S):
        self.x(self.sub1(n)[-1], fr, S)

    def s_DeclStmt(self, n, fr, S):
        for d in n.get("inner", ()):
            if d and d.get("kind") == "VarDecl":
                self.declare(d, fr, S)

    def declare(self, d, fr, S):
        init = [c for c in d.get("inner", ()) if c and "Attr" not in c.get("kind", "")]
        q = qtype(d)
        qs = qtype_sugar(d)
        if "_Bit_reference" in q and init:
            fr.map[d["id"]] = self.lval_any(init[-1], fr, S)
            return
        if (isrefq(qs) or isrefq(q)) and init:
            i = init[-1]
            fr.map[d["id"]] = self.lval(i, fr, S) if self.is_lv(i) else self.temp(S, self.ev(i, fr, S), d.get("name", "v"))
            return
        if init:
            v = self.ev(init[-1], fr, S)
            so = sort_of(q)
            if so == "bool" and v.sort not in ("bool", "any"): v = tobool(v)
            if so in ("int", "nat") and v.sort == "bool": v = b2i(v)
        else:
            v = self.default_value(q, S, fr, False)
        fr.map[d["id"]] = self.temp(S, v, d.get("name", "v"), sort_of(q))

    def s_ReturnStmt(self, n, fr, S):
        c = self.sub1(n)
        v = None
        if c:
            if fr.retref and self.is_lv(c[0]):
                v = self.lval(c[0], fr, S)
            elif self.is_lv(c[0]):
                v = self.ev(c[0], fr, S)
            else:
                v = self.ev(c[0], fr, S)
        fr.exits.append((S.pc, S.mem, v))
        S.pc = FALSE
        S.mem = dict(S.mem)

    def e_CXXThrowExpr(self, n, fr, S):
        what = qtype(self.sub1(n)[0]) if self.sub1(n) else "rethrow"
        fr.throws.append((S.pc, thrown_at(strip_cv(what), dict(S.mem))))
        S.pc = FALSE
        return const(0)

    def s_IfStmt(self, n, fr, S):
        parts = self.sub1(n)
        if n.get("hasInit") or n.get("hasVar"):
            self.x(parts[0], fr, S)
            parts = parts[1:]
        c = tobool(self.ev(parts[0], fr, S))
        th = parts[1]
        el = parts[2] if n.get("hasElse") else None
        if S.pc is FALSE: return
        if c is TRUE:
            return self.x(th, fr, S)
        if c is FALSE:
            if el is not None: self.x(el, fr, S)
            return
        S1, S2 = S.copy(), S.copy()
        S1.pc, S2.pc = AND(S.pc, c), AND(S.pc, NOT(c))
        self.gates.append(c)
        if S1.pc is not FALSE: self.x(th, fr, S1)
        self.gates[-1] = NOT(c)
        if el is not None and S2.pc is not FALSE: self.x(el, fr, S2)
        self.gates.pop()
        S.set(self.join_states(c, S1, S2))

    def s_BreakStmt(self, n, fr, S):
        fr.loops[-1][0].append((S.pc, S.mem)); S.pc = FALSE; S.mem = dict(S.mem)
    def s_ContinueStmt(self, n, fr, S):
        for l in reversed(fr.loops):
            if l[1] is not None:
                l[1].append((S.pc, S.mem)); break
        S.pc = FALSE; S.mem = dict(S.mem)

    def s_ForStmt(self, n, fr, S):
        init, var, cond, inc, bod = (n["inner"] + [None] * 5)[:5]
        if init: self.x(init, fr, S)
        self.loop(fr, S, (lambda St: tobool(self.ev(cond, fr, St))) if cond and cond.get("kind") else (lambda St: TRUE),
                  lambda St, f: self.x(bod, f, St),
                  (lambda St: self.ev_discard(inc, fr, St)) if inc and inc.get("kind") else None, n)

    def s_WhileStmt(self, n, fr, S):
        parts = self.sub1(n)
        if len(parts) == 3:
            raise Unsupported("while with declaration", n)
        self.loop(fr, S, lambda St: tobool(self.ev(parts[0], fr, St)), lambda St, f: self.x(parts[1], f, St), None, n)

    def s_DoStmt(self, n, fr, S):
        bod, cond = self.sub1(n)
        first = Root("first")
        S.mem[first] = TRUE
        def c(St):
            if St.mem[first] is TRUE: return TRUE
            S1 = St.copy()
            v = tobool(self.ev(cond, fr, S1))
            if any(S1.mem.get(r) is not w for r, w in St.mem.items()):
                raise Unsupported("do condition with effects", n)
            return OR(St.mem[first], v)
        def b(St, f):
            St.mem[first] = FALSE
            self.x(bod, f, St)
        self.loop(fr, S, c, b, None, n)

    def s_CXXForRangeStmt(self, n, fr, S):
        inner = [c for c in n["inner"] if c]
        rng = inner[0] if inner[0]["kind"] == "DeclStmt" else None
        decls = [c for c in inner if c["kind"] == "DeclStmt"]
        rv = self.sub1(decls[0])[0]
        self.declare(rv, fr, S)
        loopvar = self.sub1(decls[-1])[0]
        bod = inner[-1]
        q = qtype(rv)
        b = self.sub1(decls[1])[0]; e = self.sub1(decls[2])[0]
        self.declare(b, fr, S); self.declare(e, fr, S)
        bv_ = self.read(S, fr.map[b["id"]], "ptr"); ev_ = self.read(S, fr.map[e["id"]], "ptr")
        cnt = sub(ev_, bv_)
        if cnt.op == "ite" or bv_.op == "ite":
            pass
        ir = Root("ri")
        S.mem[ir] = const(0)
        isref = isrefq(qtype_sugar(loopvar)) or isrefq(qtype(loopvar)) or "_Bit_reference" in qtype(loopvar)
        def body_(St, f):
            p = add(bv_, St.mem[ir])
            lv = self.deref(p)
            if isref:
                f.map[loopvar["id"]] = lv
            else:
                v = self.read(St, lv, self.srt(loopvar))
                f.map[loopvar["id"]] = self.temp(St, v, loopvar.get("name", "e"))
            self.x(bod, f, St)
        def inc(St): St.mem[ir] = add(St.mem[ir], const(1))
        self.loop(fr, S, lambda St: lt(St.mem[ir], cnt), body_, inc, n)
        S.mem.pop(ir, None)

    def s_SwitchStmt(self, n, fr, S):
        raise Unsupported("switch", n)

    # ------------------------------------------------------------ loops
    def diff_paths(self, old, new, path, out):
        if old is new:
            return
        def parts(x):
            return (x.args[0], dict(x.args[1])) if x.op == "rec" else (x, {})
        bo, fo = parts(old); bn, fn = parts(new)
        same = bo is bn or (not isinstance(bo, T) and not isinstance(bn, T) and bo == bn)
        if same and (fo or fn):
            for f in sorted(set(fo) | set(fn)):
                o = fo[f] if f in fo else get(bo, f) if isinstance(bo, T) else None
                w = fn[f] if f in fn else get(bn, f) if isinstance(bn, T) else None
                if o is None or w is None:
                    out.add(path); return
                self.diff_paths(o, w, path + (f,), out)
            return
        if not same and len(path) < 4:
            tag, src = (bn, fn) if TT.complete_tag(bn) else (bo, fo) if TT.complete_tag(bo) else (None, None)
            if tag is not None and (isinstance(bo, T) or set(fo) == set(src)) and (isinstance(bn, T) or set(fn) == set(src)) \
                    and old.op != "ite" and new.op != "ite":
                for f in sorted(src):
                    self.diff_paths(get(old, f), get(new, f), path + (f,), out)
                return
        out.add(path)

    def getp(self, v, path):
        for f in path: v = get(v, f)
        return v
    def setp(self, v, path, x):
        if not path: return x
        return setf(v, path[0], self.setp(get(v, path[0]), path[1:], x))

    def loop(self, fr, S, cond, bod, inc, node):
        pc0 = S.pc
        mod = {}         # (root, path) -> (phi, init)
        base_mem = dict(S.mem)
        gates0 = len(self.gates)
        ncalls = len(self.calls)
        reads0 = self.clock_reads
        for rounds in range(30):
            del self.calls[ncalls:]
            mem = dict(base_mem)
            for (r, p), (phi, init, base) in mod.items():
                mem[r] = self.setp(mem[r], p, phi if base is None else add(base, phi))
            St = State(dict(mem), TRUE)
            nex = len(fr.exits); nth = len(fr.throws)
            c = cond(St)
            condmem = dict(St.mem)
            St.pc = TRUE
            breaks, conts = [], []
            fr.loops.append((breaks, conts))
            self.gates.append(c)
            try:
                if c is not FALSE:
                    bod(St, fr)
            finally:
                fr.loops.pop()
                del self.gates[gates0:]
            for pc, m in conts:
                St = self.join_states(pc, State(m, pc), St) if St.pc is not FALSE else State(dict(m), pc)
            if inc is not None and St.pc is not FALSE:
                inc(St)
            if self.clock_reads > reads0 and St.mem.get(self.clock) is mem.get(self.clock) and self.clock in mem:
                St.mem[self.clock] = app("tick", [mem[self.clock]])
            rets = fr.exits[nex:]; del fr.exits[nex:]
            thr = fr.throws[nth:]; del fr.throws[nth:]
            changed = set()
            outs = [condmem] + ([St.mem] if St.pc is not FALSE else []) + [m for _, m in breaks] + [m for _, m, _ in rets]
            for om in outs:
                for r, old in mem.items():
                    new = om.get(r)
                    if new is None or new is old: continue
                    ps = set()
                    self.diff_paths(old, new, (), ps)
                    for p in ps: changed.add((r, p))
            fresh_ = [c_ for c_ in changed if not any(m[0] is c_[0] and c_[1][:len(m[1])] == m[1] for m in mod)]
            # phis merged into a parent location
            drop = [m for m in mod for c_ in fresh_ if m[0] is c_[0] and m[1][:len(c_[1])] == c_[1]]
            if not fresh_:
                break
            for m in drop: mod.pop(m, None)
            for r, p in sorted(fresh_, key=lambda z: (z[0].name, z[1])):
                init = self.getp(base_mem[r], p)
                srt_ = init.sort if init.sort not in ("num",) else "int"
                if srt_ == "nat" or srt_ == "int":
                    srt_ = "int"
                newv = [self.getp(om[r], p) for om in outs if r in om]
                if any(v.sort == "real" for v in newv) and srt_ != "seq": srt_ = "real"
                if any(v.sort == "seq" for v in newv): srt_ = "seq"
                if not p and r.sort not in (None, "any"):
                    srt_ = "int" if r.sort == "nat" else r.sort
                base = None
                if srt_ in ("ptr", "any"):
                    for v in [init] + newv:
                        base = ptr_base(v)
                        if base is not None: break
                    if base is not None:
                        init, srt_ = ptr_off(init, base), "int"
                mod[(r, p)] = (fresh("phi:%s%s" % (r.label, "".join("." + x for x in p)), srt_), init, base)
        else:
            raise Unsupported("loop analysis does not converge", node)
        keys = list(mod)
        phis = [mod[k_][0] for k_ in keys]
        inits = [mod[k_][1] for k_ in keys]
        # a sequence of which the loop changes one element only: that element is the loop variable
        cells = {}
        ends = ([St.mem] if St.pc is not FALSE else []) + [condmem] + [m for _, m in breaks] + [m for _, m, _ in rets]
        for k_ in keys:
            p, init, base = mod[k_]
            if base is not None or p.sort not in ("seq", "any"): continue
            cand = []
            for m in ends:
                for i0 in written_cells(self.getp(m[k_[0]], k_[1]), p):
                    if i0 not in cand: cand.append(i0)
            if len(cand) != 1 or cand[0].free & set(phis): continue
            i0 = cand[0]
            q = fresh("cell", at(init, i0).sort)
            sb = {p: upd(init, i0, q)}
            ok = True
            X = fresh("x", "any")
            for m in ends:
                w = subst(self.getp(m[k_[0]], k_[1]), sb)
                if upd(w, i0, X) is not upd(init, i0, X):
                    ok = False
                vals_ = at(w, i0)
                if q.sort == "any" and vals_.sort != "any": q_sort = vals_.sort
            if not ok: continue
            srts = {at(subst(self.getp(m[k_[0]], k_[1]), sb), i0).sort for m in ends} - {"any", "num"}
            if q.sort == "any" and len(srts) == 1:
                q = fresh("cell", srts.pop() if "nat" not in srts else "int"); sb = {p: upd(init, i0, q)}
            c = subst(c, sb)
            def sm(m): return {r: subst(v, sb) for r, v in m.items()}
            def sl(v):
                if isinstance(v, LV): return LV(v.root, tuple((a, subst(b, sb)) if a == "i" else (a, b) for a, b in v.path))
                return None if v is None else subst(v, sb)
            St = State(sm(St.mem), subst(St.pc, sb))
            cm_ = sm(condmem)
            breaks = [(subst(pc, sb), cm_ if m is condmem else sm(m)) for pc, m in breaks]
            rets = [(subst(pc, sb), sm(m), sl(v)) for pc, m, v in rets]
            thr = [(subst(pc, sb), w) for pc, w in thr]
            condmem = cm_
            ends = ([St.mem] if St.pc is not FALSE else []) + [condmem] + [m for _, m in breaks] + [m for _, m, _ in rets]
            cells[k_] = (i0, init)
            mod[k_] = (q, at(init, i0), None)
            phis = [mod[x][0] for x in keys]; inits = [mod[x][1] for x in keys]
        def val(m, k_):
            v = self.getp(m[k_[0]], k_[1])
            if k_ in cells: return at(v, cells[k_][0])
            return v if mod[k_][2] is None else ptr_off(v, mod[k_][2])
        # leaving without any effect is the same as a stronger loop condition
        for pc, m in list(breaks):
            if c is not FALSE and all(m.get(r) is v for r, v in condmem.items()):
                c = AND(c, NOT(pc)); breaks = [b_ for b_ in breaks if b_[1] is not m]
        exits = [(pc, m, "b", None) for pc, m in breaks] + [(pc, m, "r", v) for pc, m, v in rets]
        endv = []
        for k_ in keys:
            if St.pc is not FALSE: endv.append(val(St.mem, k_))
            else: endv.append(mod[k_][0])
        # ---- induction variable, possibly with further conditions, which become a test at the head of the body
        plain, head = (exits, thr), TRUE
        ind = self.induction(c, keys, phis, inits, endv)
        if ind is None and c.sort == "bool" and c is not TRUE:
            for lit, rest_ in conjuncts(c):
                ind = self.induction(lit, keys, phis, inits, endv)
                if ind is not None:
                    head = rest_
                    break
        if head is not TRUE:
            exits = [(NOT(head), condmem, "b", None)] + [(AND(head, pc), m, kd, v) for pc, m, kd, v in exits]
            thr = [(AND(head, pc), w) for pc, w in thr]
        g = FALSE
        for pc, *_ in exits: g = OR(g, pc)
        gt_ = FALSE
        for pc, _ in thr: gt_ = OR(gt_, pc)
        stopg = OR(g, gt_)
        simple = ind is not None
        if simple:
            ii, lo, step, n_ = ind
            k = fresh("k", "int")
            clo = {phis[ii]: add(lo, scale(k, Fraction(step)))}
            # invariants and secondary linear inductions
            for j, p in enumerate(phis):
                if j != ii:
                    d = sub(endv[j], p) if (p.sort in ("int", "ptr", "real")) else None
                    if endv[j] is p: clo[p] = inits[j]
                    elif d is not None and is_num(d): clo[p] = add(inits[j], mul(d, k))
            sg = subst(stopg, clo)
            dep = [p for p in phis if p in sg.free]
            if not dep:
                nn = n_ if sg is FALSE else firstf(n_, k, sg)
                res = self.solve_counted(k, nn, keys, phis, inits, endv, clo, sg)
                self.after_loop(fr, S, pc0, base_mem, condmem, keys, phis, res, k, nn, n_, sg, exits, thr, clo, node)
                return
        # ---- general loop with a stop flag
        exits, thr = plain
        # leaving without any effect is the same as a stronger loop condition, with a test after the loop
        early = []
        for x in list(exits):
            pc, m, kd, v = x
            if kd == "r" and c is not FALSE and all(m.get(r) is w for r, w in condmem.items()):
                early.append((AND(c, pc), m, v, None))
                c = AND(c, NOT(pc)); exits = [y for y in exits if y is not x]
                rets = [y for y in rets if y[1] is not m]
        for x in (list(thr) if early else ()):
            early.append((AND(c, x[0]), None, None, x[1]))
            c = AND(c, NOT(x[0])); thr = [y for y in thr if y is not x]
        g = gt_ = FALSE
        for pc, *_ in exits: g = OR(g, pc)
        for pc, _ in thr: gt_ = OR(gt_, pc)
        stopg = OR(g, gt_)
        bphis, bin, bnx = list(phis), list(inits), []
        for j, k_ in enumerate(keys):
            v = endv[j]
            for pc, m, kind, rv in exits:
                v = join(pc, val(m, k_), v)
            for pc, _ in thr:
                v = join(pc, phis[j], v)
            bnx.append(v)
        ctl = c
        stop = ret = retv = thrown = None
        if stopg is not FALSE:
            stop = fresh("stop", "bool")
            bphis.append(stop); bin.append(FALSE); bnx.append(stopg)
            ctl = AND(c, NOT(stop))
        if rets:
            gr = FALSE
            for pc, _, _ in rets: gr = OR(gr, pc)
            ret = fresh("ret", "bool")
            if gr is stopg:
                ret = stop
            else:
                bphis.append(ret); bin.append(FALSE); bnx.append(gr)
            rvs = [v for _, _, v in rets]
            if rvs[0] is not None:
                rvs = [self.read(State(m, TRUE), v) if isinstance(v, LV) else v for (_, m, v) in rets]
                x = rvs[-1]
                for (pc, _, _), v in zip(reversed(rets[:-1]), reversed(rvs[:-1])): x = join(pc, v, x)
                if not any(p in x.free for p in bphis):
                    retv = x
                else:
                    rp = fresh("retv", x.sort if x.sort != "num" else "int")
                    retv = rp
                    bphis.append(rp); bin.append(app("undef", [], x.sort)); bnx.append(join(gr, x, rp))
        if thr:
            if gt_ is stopg:
                thrown = stop
            else:
                thrown = fresh("thrown", "bool")
                bphis.append(thrown); bin.append(FALSE); bnx.append(gt_)
        out = {}
        for j, p in enumerate(bphis):
            out[p] = mk_mu("wmu", list(bphis), ctl, list(bin), list(bnx), j)
        def fin(t): return subst(t, out)
        stop_v = out[stop] if stop is not None else FALSE
        mem2 = dict(base_mem)
        for j, k_ in enumerate(keys):
            v = fin(val(condmem, k_))
            if stop_v is not FALSE and val(condmem, k_) is not phis[j]:
                v = join(stop_v, out[phis[j]], v)
            if mod[k_][2] is not None: v = add(mod[k_][2], v)
            if k_ in cells: v = upd(cells[k_][1], cells[k_][0], v)
            mem2[k_[0]] = self.setp(mem2[k_[0]], k_[1], v)
        S.mem = mem2
        if thrown is not None:
            tv = out[thrown]
            fr.throws.append((AND(pc0, tv), kept(thr[0][1], base_mem, keys)))
        alive = pc0
        for pc, m, v, what in early:
            f = AND(alive, NOT(stop_v), fin(pc))
            if f is FALSE: continue
            if what is not None: fr.throws.append((f, kept(what, base_mem, keys)))
            else:
                if isinstance(v, LV): v = self.read(State(m, TRUE), v)
                fr.exits.append((f, dict(mem2), fin(v) if v is not None else None))
            alive = AND(alive, OR(stop_v, NOT(fin(pc))))
        if ret is not None:
            rv = out[ret]
            fr.exits.append((AND(pc0, rv), dict(mem2), fin(retv) if retv is not None else None))
            alive = AND(alive, NOT(rv))
        if thrown is not None:
            alive = AND(alive, NOT(out[thrown]))
        S.pc = alive

    def induction(self, c, keys, phis, inits, endv):
        """A phi stepping by a constant against an invariant bound: (index, start, step, trip count)."""
        ps = set(phis)
        cf = [p for p in phis if p in c.free]
        if c.sort != "bool" or not cf:
            return None
        if len(cf) > 1:
            szs = {}
            for p, i, e in zip(phis, inits, endv):
                if p in cf and p.sort in ("seq", "any") and size(e) is size(p): szs[size(p)] = size(i)
            if szs:
                c = subst_terms(c, szs)
                cf = [p for p in phis if p in c.free]
        if c.op == "ite" and not (c.args[0].free & ps):
            a, b = self.induction(c.args[1], keys, phis, inits, endv), self.induction(c.args[2], keys, phis, inits, endv)
            if a is None or b is None or a[0] != b[0] or a[1] is not b[1] or a[2] != b[2]: return None
            return (a[0], a[1], a[2], ite(c.args[0], a[3], b[3]))
        inv = {p: i for p, i, e in zip(phis, inits, endv) if e is p}
        if inv:
            c = subst(c, inv)
            cf = [p for p in phis if p in c.free]
        if len(cf) != 1:
            return None
        i = phis.index(cf[0])
        p = phis[i]
        d = sub(endv[i], p)
        if not is_num(d) or num(d) not in (1, -1):
            return None
        step = int(num(d))
        r = None
        if c.op == "le":
            r = (c.args[0], c.args[1], False)          # L <= t
        elif c.op == "ite" and c.args[0].op == "le" and c.args[1] is FALSE and c.args[2] is TRUE:
            r = (c.args[0].args[0], c.args[0].args[1], True)   # not (L <= t)
        elif c.op == "ite" and c.args[0].op == "le" and c.args[1] is TRUE:
            # L != t : le(L, t-1) or not le(L, t)
            x = c.args[2]
            if x.op == "ite" and x.args[0].op == "le" and x.args[0].args[0] is c.args[0].args[0] and x.args[1] is FALSE and x.args[2] is TRUE \
                    and x.args[0].args[1] == c.args[0].args[1] + 1:
                L, t = c.args[0].args
                kk, m = TT._lin_parts(L)
                a = m.get(p)
                if a in (1, -1):
                    # L - t0 == 0 ; value v = a*p + rest ; stops when equal
                    rest = sub(L, scale(p, a))
                    bound = scale(sub(const(t + 1), rest), 1 / a)
                    if p in bound.free: return None
                    n_ = sub(bound, inits[i]) if step > 0 else sub(inits[i], bound)
                    return (i, inits[i], step, n_)
            return None
        if r is None:
            return None
        L, t, negd = r
        if L.op == "ite": return None
        kk, m = TT._lin_parts(L)
        a = m.get(p)
        if a is None or abs(a) != 1:
            return None
        rest = sub(L, scale(p, a))
        if p in rest.free: return None
        # a*p + rest <= t   (or > t when negated)
        if not negd:
            if a == 1: up, bound = True, sub(const(t), rest)        # p <= bound
            else: up, bound = False, sub(rest, const(t))            # p >= bound
        else:
            if a == 1: up, bound = False, add(sub(const(t), rest), const(1))    # p >= bound
            else: up, bound = True, sub(sub(rest, const(t)), const(1))          # p <= bound
        if up and step == 1:
            return (i, inits[i], 1, add(sub(bound, inits[i]), const(1)))
        if (not up) and step == -1:
            return (i, inits[i], -1, add(sub(inits[i], bound), const(1)))
        return None

    def solve_counted(self, k, n, keys, phis, inits, endv, clo, sg):
        """Final values of the loop-carried locations of a counted loop."""
        nx = []
        for e in endv:
            e2 = subst(e, clo)
            if sg is not FALSE:
                e2 = cof_deep(e2, sg)
            nx.append(e2)
        res = {}
        clo_final = {p: subst(v, {k: n}) for p, v in clo.items()}
        rest = [p for p in phis if p not in clo]
        for j, p in enumerate(phis):
            if p in clo:
                res[p] = clo_final[p]
                continue
            res[p] = self.recognise(k, n, p, inits[j], nx[j], rest)
        todo = [j for j, p in enumerate(phis) if res[p] is None]
        if todo:
            idx = [j for j, p in enumerate(phis) if p not in clo]
            bph = [phis[j] for j in idx]
            for j in todo:
                r = mk_mu("mu", [k] + bph, n, [inits[i] for i in idx], [nx[i] for i in idx], idx.index(j))
                res[phis[j]] = r
        return res

    def recognise(self, k, n, p, init, e, rest):
        others = [q for q in rest if q is not p and q in e.free]
        if others:
            return None
        if p not in e.free:
            # last value wins: value of the last iteration (if any)
            last = subst(e, {k: sub(n, const(1))})
            return join(gt(n, const(0)), last, init)
        if p.sort in ("int", "real", "nat", "any") and e.sort in ("int", "nat", "real", "num", "any"):
            d = sub(e, p)
            if p not in d.free:
                return add(init, sumf(n, k, d))
        # guarded constant: p := c when g(k)
        gc = guarded_const(e, p)
        if gc is not None:
            g, cst = gc
            if p not in g.free and p not in cst.free and k not in cst.free:
                return join(existsf(n, k, g), cst, init)
        if p.sort == "seq" or e.sort == "seq" or e.op in ("push", "upd", "cat", "map"):
            d = strip_prefix(e, p)
            if d is not None and p not in d.free:
                return appendf(init, n, k, d)
            m = inplace(e, p, k)
            if m is not None:
                lo, newv = m
                w = at(p, add(lo, k))
                ph = fresh("w", "any")
                # the element being rewritten still holds its initial value
                def repl(t, memo={}):
                    return replace_at(t, p, add(lo, k), at(init, add(lo, k)), {})
                nv = repl(newv)
                if p not in nv.free:
                    return mapf(init, lo, n, k, nv)
        return None

    def after_loop(self, fr, S, pc0, base_mem, condmem, keys, phis, res, k, nn, n_, sg, exits, thr, clo, node):
        full = dict(res)
        def fin(t):
            t = subst(t, {p: v for p, v in clo.items() if p in t.free and v is not None}) if False else t
            m = dict(full)
            return subst(t, m)
        def at_exit(t):
            # values in the iteration that leaves the loop
            m = dict(full); m[k] = nn
            return subst(t, m)
        ex = FALSE if sg is FALSE else existsf(n_, k, sg)
        if sg is not FALSE and nn.op == "first":
            ex = exists_of_first(nn, n_, k, sg)
        mem2 = dict(base_mem)
        for k_ in keys:
            v = fin(self.getp(condmem[k_[0]], k_[1]))
            mem2[k_[0]] = self.setp(mem2[k_[0]], k_[1], v)
        normal = State(mem2, AND(pc0, NOT(ex)))
        if sg is FALSE:
            S.mem, S.pc = mem2, pc0
            return
        cur = normal
        allret = FALSE
        for pc, m, kind, rv in exits:
            pcx = TT.constrain(subst(pc, clo), sg)      # only looked at where the loop is left
            if pcx is TRUE: pcx = sg
            single = pcx is sg
            cnd = ex if single else AND(ex, at_exit(pcx))
            m2 = dict(base_mem)
            for k_ in keys:
                v = at_exit(TT.constrain(subst(self.getp(m[k_[0]], k_[1]), clo), sg))
                m2[k_[0]] = self.setp(m2[k_[0]], k_[1], v)
            if kind == "b":
                cur = self.join_states(cnd, State(m2, AND(pc0, cnd)), cur)
            else:
                if isinstance(rv, LV):
                    rv = LV(rv.root, tuple((a, at_exit(b)) if a == "i" else (a, b) for a, b in rv.path))
                elif rv is not None:
                    rv = at_exit(rv)
                fr.exits.append((AND(pc0, cnd), m2, rv))
        for pc, what in thr:
            pcx = TT.constrain(subst(pc, clo), sg)
            cnd = ex if pcx is sg or pcx is TRUE else AND(ex, at_exit(pcx))
            fr.throws.append((AND(pc0, cnd), kept(what, base_mem, keys)))
        S.mem, S.pc = cur.mem, cur.pc

def conjuncts(c):
    """Ways to write c as a conjunction of a literal (a comparison or an inequality) and the rest."""
    seen, st, atoms = set(), [c], []
    while st:
        t = st.pop()
        if t in seen or t.op != "ite": continue
        seen.add(t)
        atoms.append(t.args[0]); st.extend(t.args[1:])
    atoms.sort(key=TT.atom_key)
    out = []
    for a in dict.fromkeys(atoms):
        hi, lo = TT.cofactor(c, a, True), TT.cofactor(c, a, False)
        if lo is FALSE: out.append((a, hi))
        if hi is FALSE: out.append((NOT(a), lo))
        if a.op == "le":
            b = TT._mk("le", (a.args[0], a.args[1] + 1), "bool")       # L == c + 1 is  b and not a
            if AND(c, AND(b, NOT(a))) is FALSE:
                x, y = TT.cofactor(c, a, True), TT.cofactor(c, b, False)
                if x is y: out.append((OR(a, NOT(b)), x))
    return out

def subst_terms(t, m):
    """Replace whole subterms (outside binders)."""
    memo = {}
    def go(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            if x.op in ("sym", "num", "str", "bv") or x.op in BINDERS or not TT.iter_args_any(x): r = x
            else: r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)

def written_cells(e, p):
    """Indexes at which e rewrites the sequence p."""
    out, st, seen = [], [e], set()
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == "ite": st += t.args[1:]
        elif t.op == "upd":
            if t.args[1] not in out: out.append(t.args[1])
            st.append(t.args[0])
    return out

def exists_of_first(f, n_, k, sg):
    return existsf(n_, k, sg)

def cof_deep(e, sg):
    """Simplify a value under the assumption that the stop guard is false."""
    if sg.op == "ite" and sg.sort == "bool":
        # restrict on single literal guards only
        if sg.args[1] is FALSE and sg.args[2] is TRUE:
            return restrict_atom(e, sg.args[0], True)
        return e
    if TT._is_atom(sg):
        return restrict_atom(e, sg, False)
    return e

def restrict_atom(e, a, val):
    if e.op == "ite":
        if e.args[0] is a:
            return e.args[1] if val else e.args[2]
        r = TT._implied(a, val, e.args[0])
        if r is not None:
            return restrict_atom(e.args[1] if r else e.args[2], a, val)
        return ite(e.args[0], restrict_atom(e.args[1], a, val), restrict_atom(e.args[2], a, val))
    if e is a: return TRUE if val else FALSE
    return e

def guarded_const(e, p):
    """e == ite(g, c, p) with a single constant c."""
    vals = set()
    def go(t):
        if t.op == "ite" and t.sort != "bool":
            return ite(t.args[0], go(t.args[1]), go(t.args[2]))
        if t is p: return FALSE
        vals.add(t)
        return TRUE
    if p.sort == "bool" and e.sort == "bool":
        # monotone forms: p or g, p and g
        hi, lo = TT.ite(TRUE, subst(e, {p: TRUE}), e), subst(e, {p: FALSE})
        if hi is TRUE: return (lo, TRUE)
        if lo is FALSE: return (NOT(hi), FALSE)
        return None
    if e.op != "ite": return None
    g = go(e)
    if len(vals) == 1:
        return (g, vals.pop())
    return None

def strip_prefix(t, p):
    """d such that t == p ++ d"""
    if t is p: return empty_seq()
    if t.op == "ite":
        a = strip_prefix(t.args[1], p)
        if a is None: return None
        b = strip_prefix(t.args[2], p)
        if b is None: return None
        return ite(t.args[0], a, b)
    if t.op == "push":
        a = strip_prefix(t.args[0], p)
        return None if a is None else push(a, t.args[1])
    if t.op == "cat":
        a = strip_prefix(t.args[0], p)
        return None if a is None else cat(a, t.args[1])
    return None

def inplace(e, p, k):
    """e rewrites only the element at lo + k of p: (lo, new element)."""
    idx = [None]
    def go(t):
        if t is p: return "same"
        if t.op == "ite":
            a, b = go(t.args[1]), go(t.args[2])
            if a is None or b is None: return None
            if idx[0] is None: return "same"
            w = at(p, idx[0])
            return ite(t.args[0], w if isinstance(a, str) else a, w if isinstance(b, str) else b)
        if t.op == "upd" and t.args[0] is p:
            if idx[0] is None: idx[0] = t.args[1]
            if idx[0] is not t.args[1]: return None
            return t.args[2]
        return None
    r = go(e)
    if r is None or isinstance(r, str) or idx[0] is None: return None
    lo = sub(idx[0], k)
    if k in lo.free or p in lo.free: return None
    return lo, r

def replace_at(t, p, i, new, memo):
    """Replace the reads p[i] by new."""
    if p not in t.free: return t
    if t.op == "at" and t.args[0] is p and t.args[1] is i: return new
    def go(x):
        if p not in x.free: return x
        if x.op == "at" and x.args[0] is p and x.args[1] is i: return new
        r = memo.get(x)
        if r is None:
            if x is p:
                return p
            if x.op in BINDERS:
                r = x
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)

def canon_cmp(f):
    """Comparators key(a) < key(b) given as function terms stay as they are (already canonical)."""
    return f

def is_lambda(recn):
    return not recn.get("name") and recn.get("kind") == "CXXRecordDecl" and any(
        c and c.get("name") == "operator()" for c in recn.get("inner", ())) or bool((recn.get("definitionData") or {}).get("isLambda"))

def type_key(q):
    """Type spelling without qualifiers and defaulted allocators."""
    q = q.replace("(anonymous namespace)::", "").replace("(anonymous class)", "")
    q = re.sub(r"\b(struct|class|enum|typename) ", "", q)
    q = re.sub(r"(\w+::)+", "", q)
    q = q.replace("ULL", "").replace("UL", "")
    q = re.sub(r"\s+", "", q)
    i = q.find(",allocator<")
    while i >= 0:
        d, j = 0, i + 10
        while True:
            if q[j] == "<": d += 1
            if q[j] == ">":
                d -= 1
                if d == 0: break
            j += 1
        q = q[:i] + q[j + 1:]
        i = q.find(",allocator<")
    return q

def paren_args(ct):
    """The parameter list of a printed function type."""
    i = ct.find("(")
    if i < 0: return ""
    d = 0
    for j in range(i, len(ct)):
        d += {"(": 1, ")": -1}.get(ct[j], 0)
        if d == 0: return ct[i + 1:j]
    return ""

def one_ref_param(ctype):
    m = re.match(r"void \((.*?)\)( noexcept(\(\w+\))?)?$", ctype)
    if not m: return False
    ps = split_targs(m.group(1))
    return len(ps) == 1 and ps[0].rstrip().endswith("&")

def is_null(t):
    if t.op == "lin": return any(is_null(a) for a, _ in t.args[1])
    return t.op == "app" and (t.args[0] == "null" or (t.args[0] == "undef" and t.sort == "ptr") or (t.args[0].startswith("new:") and "__normal_iterator" in t.args[0] and len(t.args) == 1))

def ptr_base(t):
    """The base address of a pointer expression (None when it is not a pointer or is null)."""
    if t.op == "ite":
        return ptr_base(t.args[1]) or ptr_base(t.args[2])
    if is_null(t) or t.sort in ("num", "bool"): return None
    k, m = TT._lin_parts(t)
    b = [a for a, c in m.items() if c == 1 and a.sort == "ptr"]
    if len(b) == 1 and b[0].op == "ite": return ptr_base(b[0])
    return b[0] if len(b) == 1 else None

def ptr_off(t, base):
    if t.op == "ite":
        return ite(t.args[0], ptr_off(t.args[1], base), ptr_off(t.args[2], base))
    if is_null(t): return const(0)
    if t.op == "app" and t.args[0] == "undef": return app("undef", [], "int")
    d = sub(t, base)
    if ptr_base(d) is not None: raise Unsupported("a pointer moves between objects")
    return d

def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def norm_t(q):
    q = q.replace("(anonymous namespace)::", "")
    q = re.sub(r"\bcft::", "", q)
    q = re.sub(r"\bstruct |\bclass ", "", q)
    q = re.sub(r"\s+", " ", q).strip()
    q = q.replace("ULL", "").replace("UL", "")
    return ("cft::" + q) if not q.startswith("std::") and False else q

def short_t(q):
    return norm_t(q).split("<")[0]
