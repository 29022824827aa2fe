"""Hash-consed term algebra used by the gated value-numbering analysis.

Scalars are kept in a linear normal form, booleans as decision diagrams over canonical
comparison atoms, conditional values as multi-terminal decision diagrams over the same atoms.
Nothing here evaluates program values: terms are symbolic summaries built from the AST."""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

BINDERS = ("sum", "exists", "first", "append", "tab", "map", "fn", "mu", "wmu")
class Blowup(Exception):
    pass

class T:
    __slots__ = ("op", "args", "sort", "id", "free", "loc", "_tops", "__weakref__")
    def __repr__(self):
        return show(self)

_table = {}
_all = []
SORT_NUM = ("int", "nat", "real")

def _mk(op, args, sort):
    key = (op, args) if op in ("at", "get", "app") else (op, args, sort)
    t = _table.get(key)
    if t is not None:
        if t.sort == "any" and sort != "any":
            t.sort = sort
        return t
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.id = op, args, sort, len(_all)
        _all.append(t)
        _table[key] = t
        fs = set()
        if op in ("sym", "bv"):
            fs.add(t)
        for a in _iter_terms(args):
            fs |= a.free
        if op in BINDERS:
            fs = {f for f in fs if not (f.op == "bv" and f.args[0] == args[0])}
        t.free = frozenset(fs)
        t.loc = op in ("itb", "addr") or any(a.loc for a in _iter_terms(args))
    return t

def _iter_terms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _iter_terms(a)

def iter_args(t):
    return _iter_terms(t.args)

TRUE = _mk("true", (), "bool")
FALSE = _mk("false", (), "bool")

def const(v, sort=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = v.numerator
    if sort == "bool":
        return TRUE if v else FALSE
    return _mk("num", (Fraction(v),), "num")

def is_num(t):
    return t.op == "num"

def num(t):
    return t.args[0]

def string(s):
    return _mk("str", (s,), "str")

def sym(name, sort="any", attrs=()):
    return _mk("sym", (name,) + tuple(attrs), sort)

_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return _mk("sym", ("%s#%d" % (name, _fresh[0]),), sort)

def opaque(reason, sort="any"):
    _fresh[0] += 1
    return _mk("opaque", (reason, _fresh[0]), sort)

def is_bool(t):
    return t.sort == "bool"

# ---------------------------------------------------------------- intervals (for comparison atoms)
def lower_bound(t):
    """A proven lower bound of an atomic numeric term, or None."""
    if t.op == "num":
        return t.args[0]
    if t.sort == "nat":
        return Fraction(0)
    if t.op == "ite":
        a, b = lower_bound(t.args[1]), lower_bound(t.args[2])
        return None if a is None or b is None else min(a, b)
    if t.op == "lin":
        s = t.args[0]
        for a, c in t.args[1]:
            b = lower_bound(a) if c > 0 else upper_bound(a)
            if b is None:
                return None
            s += c * b
        return s
    if t.op in ("size",):
        return Fraction(0)
    return None

def upper_bound(t):
    if t.op == "num":
        return t.args[0]
    if t.op == "ite":
        a, b = upper_bound(t.args[1]), upper_bound(t.args[2])
        return None if a is None or b is None else max(a, b)
    if t.op == "lin":
        s = t.args[0]
        for a, c in t.args[1]:
            b = upper_bound(a) if c > 0 else lower_bound(a)
            if b is None:
                return None
            s += c * b
        return s
    return None

# ---------------------------------------------------------------- decision diagrams
# atom keys: threshold atoms on the same linear form are adjacent and ordered by threshold
def atom_key(a):
    if a.op in ("le", "lt"):
        L, c = a.args
        return (L.id, 0, c, 0 if a.op == "lt" else 1, a.id)
    g = _eq_group(a)
    if g is not None: return (g[0].id, 2, g[1].id, 0, a.id)
    return (a.id, 1, 0, 0, a.id)

def _const_text(t):
    """The literal a term denotes, if it is one (a string constant or a view of it)."""
    if t.op == "str": return t
    if t.op == "app" and t.args[0] == "cstr": return t
    if t.op == "rec" and not t.free and not isinstance(t.args[0], T):
        d = dict(t.args[1])
        s = d.get("start")
        if set(d) == {"start", "finish"} and s.op == "app" and s.args[0] == "cstr" and is_num(sub(d["finish"], s)): return t
    return None

_groups = {}
def _eq_group(a):
    """(x, constant) for an atom that compares x with a literal text: at most one of them holds for each x."""
    if a.op != "app" or a.args[0] != "streq": return None
    r = _groups.get(a, 0)
    if r == 0:
        x, y = a.args[1:3] if len(a.args) > 2 else a.args[1]
        r = None
        if _const_text(x) is not None and _const_text(y) is None: r = (y, x)
        elif _const_text(y) is not None and _const_text(x) is None: r = (x, y)
        _groups[a] = r
    return r

def _is_atom(t):
    return t.sort == "bool" and t.op not in ("ite", "true", "false")

def top_atom(t):
    if t.op == "ite":
        return t.args[0]
    if _is_atom(t):
        return t
    return None

def _cof(t, atom, val):
    """Cofactor of a (MT)BDD w.r.t. atom=val, where atom is at or above the top of t,
    taking implications between thresholds of the same linear form into account."""
    while True:
        if t is atom:
            return TRUE if val else FALSE
        a = top_atom(t)
        if a is None:
            return t
        r = _implied(atom, val, a)
        if r is None:
            return t
        if t.op == "ite":
            t = t.args[1] if r else t.args[2]
        else:
            return TRUE if r else FALSE

def _implied(atom, val, a):
    if a is atom:
        return val
    if atom.op in ("le", "lt") and a.op in ("le", "lt") and atom.args[0] is a.args[0]:
        c, d = atom.args[1], a.args[1]
        if val:   # L <= c or L < c is true
            if d > c or (d == c and (a.op == "le" or atom.op == "lt")):
                return True
        else:     # L > c  or L >= c
            if d < c or (d == c and (a.op == "lt" or atom.op == "le")):
                return False
    elif val and atom.op == "app" and a.op == "app":
        g, h = _eq_group(atom), _eq_group(a)
        if g is not None and h is not None and g[0] is h[0]: return False
    return None

def _same_group(atom, a):
    if atom.op in ("le", "lt") and a.op in ("le", "lt"): return a.args[0] is atom.args[0]
    if atom.op == "app" and a.op == "app":
        g, h = _eq_group(atom), _eq_group(a)
        return g is not None and h is not None and g[0] is h[0]
    return False

def cofactor(t, atom, val, memo=None):
    """t under the assumption that the atom has the given value (anywhere in the diagram)."""
    if memo is None: memo = {}
    a = top_atom(t)
    if a is None: return t
    r = memo.get(t)
    if r is not None: return r
    v = _implied(atom, val, a)
    if t.op == "ite":
        if v is not None: r = cofactor(t.args[1] if v else t.args[2], atom, val, memo)
        else: r = ite(a, cofactor(t.args[1], atom, val, memo), cofactor(t.args[2], atom, val, memo))
    else:
        r = t if v is None else (TRUE if v else FALSE)
    memo[t] = r
    return r

def _restrict_deep(t, atom, val, memo):
    """Restrict implied atoms of the same group below the top (children of a node)."""
    a = top_atom(t)
    if a is None:
        return t
    if atom.op == "app":
        # texts: exactly one literal can be equal
        while val and a is not None and a is not atom and _same_group(atom, a):
            t = t.args[2] if t.op == "ite" else FALSE
            a = top_atom(t)
        return t
    if not _same_group(atom, a):
        return t   # groups are adjacent: nothing of this group below
    r = _implied(atom, val, a)
    if r is not None:
        if t.op == "ite":
            return _restrict_deep(t.args[1] if r else t.args[2], atom, val, memo)
        return TRUE if r else FALSE
    if t.op == "ite":
        return mk_node(a, _restrict_deep(t.args[1], atom, val, memo), _restrict_deep(t.args[2], atom, val, memo))
    return t

def mk_node(atom, hi, lo):
    if hi is lo:
        return hi
    hi = _restrict_deep(hi, atom, True, None)
    lo = _restrict_deep(lo, atom, False, None)
    if hi is lo:
        return hi
    if atom.op == "exists" and hi.sort != "bool":
        fst = _mk("first", atom.args, "nat")
        if mentions(hi, fst, 400):
            n = atom.args[2]
            rep = lambda t: replace_subterm(t, fst, n)
            if rep(hi) is rep(lo): return hi
    if hi is TRUE and lo is FALSE:
        return atom
    # writing the value an element already has
    if atom.op == "le" and lo.op == "ite" and lo.args[0].op == "le" and lo.args[0].args[0] is atom.args[0] \
            and lo.args[0].args[1] == atom.args[1] + 1 and lo.args[2] is hi and hi.op == "upd":
        M = lo.args[1]
        kk, m = _lin_parts(atom.args[0])
        for a, q in m.items():
            if a.op == "at" and q in (1, -1) and at(M, hi.args[1]) is a:
                x = scale(sub(const(atom.args[1] + 1), sub(atom.args[0], scale(a, q))), q)
                if x is hi.args[2] and upd(M, hi.args[1], x) is hi: return hi
    e = _same_where_equal(atom, hi, lo)
    if e is not None: return e
    # same threshold group below: the tighter test is redundant when its true branch agrees
    la = top_atom(lo)
    if la is not None and atom.op in ("le", "lt") and la.op in ("le", "lt") and la.args[0] is atom.args[0]:
        lh = _cof(lo, la, True)
        if lh is hi:
            return lo
    if hi.sort in NUMERIC and lo.sort in NUMERIC and hi.op != "ite" and lo.op != "ite" and atom.op in ("le", "lt"):
        # both values agree on the boundary of the test: use one canonical test
        L, c = atom.args
        d = sub(hi, lo)
        if d.op in ("lin",) or d is L:
            if atom.op == "lt":
                if _proportional(d, sub(L, const(c))):
                    return mk_node(_thr("le", L, c), hi, lo)
            elif _intlike(L) and _proportional(d, sub(L, const(c))):
                a2 = _thr("le", L, c - 1)
                if a2 is TRUE: return hi
                if a2 is FALSE: return lo
                return mk_node(a2, hi, lo)
    if hi.op == "upd" and lo.op == "upd" and hi.args[1] is lo.args[1] and hi.args[0] is lo.args[0]:
        # the same element is written on both sides
        return upd(ite(atom, hi.args[0], lo.args[0]), hi.args[1], ite(atom, hi.args[2], lo.args[2]))
    sort = hi.sort if hi.sort == lo.sort else ("bool" if hi.sort == "bool" else _join_sort(hi, lo))
    return _mk("ite", (atom, hi, lo), sort)

_equal_memo = {}
def _same_where_equal(atom, hi, lo):
    """The branch taken off an equality, when the branch taken on it has the same value there."""
    if atom.op == "le":
        L, c = atom.args
        if L.op != "lin" and not _is_leaf(L): return None
        if lo.op == "ite" and lo.args[0].op == "le" and lo.args[0].args[0] is L and lo.args[0].args[1] == c + 1 and lo.args[2] is hi: A, B, v = lo.args[1], hi, c + 1
        elif _intlike(L) and lower_bound(L) == c: A, B, v = hi, lo, c
        else: return None
    elif atom.op == "lt":
        L, v = atom.args
        if lo.op != "ite" or lo.args[0].op != "le" or lo.args[0].args != atom.args or lo.args[2] is not hi: return None
        A, B = lo.args[1], hi
    elif atom.op == "eq": A, B, v, L = hi, lo, None, None
    elif atom.op == "at" and atom.sort == "bool":
        # storing the truth value an element already has
        for M, W, b in ((hi, lo, TRUE), (lo, hi, FALSE)):
            if W.op == "upd" and W.args[2] is b and W.args[0] is M and atom.args == (M, W.args[1]): return W
        return None
    else: return None
    if A.sort == "bool" or B.sort == "bool" or A.op == "ite" or B.op == "ite" or A.op in ("num", "str") and B.op in ("num", "str"): return None
    if not _comparable(A, B): return None
    key = (atom, A, B)
    if key in _equal_memo: return _equal_memo[key]
    _equal_memo[key] = None
    if L is None: pairs = [(x, y) for x, y in (atom.args, atom.args[::-1]) if x.op not in ("num", "str", "lin")]
    else:
        k, m = _lin_parts(L)
        pairs = [(a, scale(sub(const(v), sub(L, scale(a, q))), q)) for a, q in m.items() if q in (1, -1)]
    for x, y in pairs:
        if mentions(y, x, 60): continue
        if _same_under(A, B, x, y):
            _equal_memo[key] = B; break
    return _equal_memo[key]

def _comparable(A, B):
    """Whether the two values have a form in which one can become the other."""
    if A.sort in NUMERIC and B.sort in NUMERIC: return True
    if B.op == "upd": return A is B.args[0] or A.op == "upd" and A.args[0] is B.args[0] or B.args[0].op == "upd" and B.args[0].args[0] is A
    if B.op == "cat": return A is B.args[0]
    return False

def _same_under(A, B, x, y):
    """A and B have the same value where x has the value y (a sufficient test on small terms)."""
    def sw(t): return swap_in(t, x, y)
    def same(s, t):
        if s is t: return True
        if s.sort in NUMERIC and t.sort in NUMERIC and _small(s, t, 60):
            d = sub(s, t)
            if d.op != "ite" and mentions(d, x, 60) and sw(d) is const(0): return True
        if s.op == "at" and t.op == "at" and s.args[0] is t.args[0]: return same(s.args[1], t.args[1])
        return False
    if A.sort in NUMERIC: return same(A, B)
    if B.op == "cat":
        n = size(B.args[1])
        return _small(n, n, 40) and sw(n) is const(0)
    M, i, v = B.args
    if A is M: return same(at(M, i, v.sort), v)
    if A.op == "upd" and A.args[0] is M: return same(A.args[1], i) and same(A.args[2], v)
    if M.op == "upd" and M.args[0] is A:
        return same(M.args[1], i) and same(at(A, i, v.sort), v)
    return False

def _is_leaf(t): return t.op in ("size", "sym", "bv", "at", "get", "app", "imod", "idiv", "sum", "first")
def _small(a, b, budget):
    seen, st = set(), [a, b]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        if len(seen) > budget: return False
        st.extend(iter_args(y))
    return True

def swap_in(t, x, v):
    """t with every occurrence of x replaced, inside binders as well."""
    memo = {}
    def has(y):
        seen, st = set(), [y]
        while st:
            z = st.pop()
            if z is x: return True
            if z in seen: continue
            seen.add(z); st.extend(iter_args(z))
        return False
    def go(y):
        if y is x: return v
        r = memo.get(y)
        if r is None:
            if not has(y): r = y
            else:
                _tick(); r = rebuild(y, go)
            memo[y] = r
        return r
    return go(t)

def _join_sort(a, b):
    s = {a.sort, b.sort} - {"num"}
    if len(s) == 1:
        return s.pop()
    if s == {"int", "nat"}:
        return "int"
    if "real" in s and s <= {"int", "nat", "real"}:
        return "real"
    if not s:
        return "int"
    return "any"

NUMERIC = ("int", "nat", "num", "real")
def _proportional(d, e):
    k1, m1 = _lin_parts(d); k2, m2 = _lin_parts(e)
    if not m1 or set(m1) != set(m2):
        return False
    a = next(iter(m1))
    q = m1[a] / m2[a]
    return all(m1[x] == q * m2[x] for x in m1) and k1 == q * k2

def mentions(t, x, budget):
    """Whether x occurs in t, giving up (no) on large terms."""
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y is x: return True
        if y in seen: continue
        seen.add(y)
        if len(seen) > budget: return False
        st.extend(iter_args(y))
    return False

def replace_subterm(t, x, v):
    memo = {}
    def go(y):
        if y is x: return v
        r = memo.get(y)
        if r is None:
            if y.op in ("sym", "num", "str", "bv") or y.op in BINDERS or not iter_args_any(y): r = y
            else: r = rebuild(y, go)
            memo[y] = r
        return r
    return go(t)

def iter_args_any(t):
    for _ in iter_args(t): return True
    return False

_ite_memo = {}
_work = [0]
LIMIT = 400000
def reset_work():
    _work[0] = 0
def _tick(n=1):
    _work[0] += n
    if _work[0] > LIMIT:
        raise Blowup()

def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    _tick()
    tops = [x for x in (top_atom(c), top_atom(a), top_atom(b)) if x is not None]
    if not tops: return ite(NOT(eq(c, const(0))), a, b)    # a flag kept as a number
    m = min(tops, key=atom_key)
    hi = ite(_cof(c, m, True), _cof(a, m, True), _cof(b, m, True))
    lo = ite(_cof(c, m, False), _cof(a, m, False), _cof(b, m, False))
    r = mk_node(m, hi, lo)
    _ite_memo[key] = r
    return r

def NOT(a):
    return ite(a, FALSE, TRUE)
def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r
def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r
def implies(a, b):
    """True if the boolean function a implies b (as decision diagrams)."""
    return AND(a, NOT(b)) is FALSE

def lift(args, f):
    """Apply f leaf-wise over conditional arguments."""
    tops = []
    for a in args:
        if isinstance(a, T) and a.op == "ite" and a.sort != "bool":
            tops.append(a.args[0])
    if not tops:
        return f(*args)
    _tick()
    m = min(tops, key=atom_key)
    def cof(a, v):
        return _cof(a, m, v) if isinstance(a, T) and a.op == "ite" and a.sort != "bool" else a
    hi = lift([cof(a, True) for a in args], f)
    lo = lift([cof(a, False) for a in args], f)
    return ite(m, hi, lo)

# ---------------------------------------------------------------- arithmetic
def _lin_parts(t):
    if t.op == "num":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return Fraction(0), {t: Fraction(1)}

def _sort_of_atoms(m):
    s = {a.sort for a in m}
    if "real" in s:
        return "real"
    if s & {"any", "ptr"}:
        return "ptr" if "ptr" in s else "any"
    return "int"

def _from_parts(k, m):
    m = {a: c for a, c in m.items() if c != 0}
    if not m:
        return const(k)
    if k == 0 and len(m) == 1:
        (a, c), = m.items()
        if c == 1:
            return a
    items = tuple(sorted(m.items(), key=lambda ac: ac[0].id))
    return _mk("lin", (Fraction(k), items), _sort_of_atoms(m))

def b2i(t):
    if t.sort == "bool":
        return ite(t, const(1), const(0))
    return t

def add(a, b):
    def f(x, y):
        k1, m1 = _lin_parts(x); k2, m2 = _lin_parts(y)
        m = dict(m1)
        for t, c in m2.items():
            m[t] = m.get(t, 0) + c
        return _from_parts(k1 + k2, m)
    return lift([b2i(a), b2i(b)], f)

def scale(a, q):
    def f(x):
        k, m = _lin_parts(x)
        return _from_parts(k * q, {t: c * q for t, c in m.items()})
    return lift([b2i(a)], f)

def sub(a, b):
    return add(a, scale(b, Fraction(-1)))

def neg(a):
    return scale(a, Fraction(-1))

def isreal(t):
    return t.sort == "real"

def mul(a, b):
    def f(x, y):
        if is_num(x):
            return scale(y, num(x))
        if is_num(y):
            return scale(x, num(y))
        # distribute over sums so that factored and expanded forms agree
        if x.op == "lin" or y.op == "lin":
            k1, m1 = _lin_parts(x); k2, m2 = _lin_parts(y)
            r = const(k1 * k2)
            parts = [r]
            for t, c in m1.items():
                if k2:
                    parts.append(scale(t, c * k2))
            for t, c in m2.items():
                if k1:
                    parts.append(scale(t, c * k1))
            for t, c in m1.items():
                for u, d in m2.items():
                    parts.append(scale(_mulatom(t, u), c * d))
            out = parts[0]
            for p in parts[1:]:
                out = add(out, p)
            return out
        return _mulatom(x, y)
    return lift([b2i(a), b2i(b)], f)

def _mulatom(x, y):
    xs = list(x.args) if x.op == "mul" else [x]
    ys = list(y.args) if y.op == "mul" else [y]
    fs = tuple(sorted(xs + ys, key=lambda t: t.id))
    s = "real" if any(t.sort == "real" for t in fs) else ("nat" if all(t.sort == "nat" for t in fs) else "int")
    return _mk("mul", fs, s)

def div(a, b, real):
    def f(x, y):
        if is_num(y) and num(y) != 0 and real:
            return scale(x, 1 / num(y))
        if is_num(x) and is_num(y) and num(y) != 0 and not real:
            q = num(x) / num(y)
            return const(int(q))
        if is_num(y) and num(y) == 1:
            return x
        if real:
            k, m = _lin_parts(x)
            if len(m) == 1 and k == 0:
                (t, c), = m.items()
                if c != 1:
                    return scale(_mk("rdiv", (t, y), "real"), c)
            return _mk("rdiv", (x, y), "real")
        return _mk("idiv", (x, y), "nat" if x.sort == "nat" and y.sort in ("nat", "num") else "int")
    return lift([b2i(a), b2i(b)], f)

def mod(a, b):
    def f(x, y):
        if is_num(x) and is_num(y) and num(y) != 0:
            return const(int(num(x)) % int(num(y)))
        return _mk("imod", (x, y), "nat" if x.sort == "nat" else "int")
    return lift([b2i(a), b2i(b)], f)

def app(name, args, sort="any"):
    """Uninterpreted application (leaf-wise over conditional arguments)."""
    def f(*xs):
        return _mk("app", (name,) + tuple(xs), sort)
    return lift(list(args), f)

# ---------------------------------------------------------------- comparisons
def _cmp0(d, strict, intlike):
    """canonical atom for d < 0 (strict) or d <= 0"""
    k, m = _lin_parts(d)
    if not m:
        return const((k < 0) if strict else (k <= 0), "bool")
    lo, hi = lower_bound(d), upper_bound(d)
    if hi is not None and (hi < 0 or (hi == 0 and not strict)):
        return TRUE
    if lo is not None and (lo > 0 or (lo == 0 and strict)):
        return FALSE
    if intlike:
        for a, c in m.items():
            if a.op != "first" or c not in (1, -1): continue
            n = a.args[2]
            r = sub(d, scale(sub(a, n), c))          # d = c * (first - n) + r
            if not is_num(r): continue
            r = num(r)
            t = -r if c == 1 else r                  # first - n (<|<=) t   or   first - n (>|>=) t
            if c == 1:
                if t > 0 or (t == 0 and not strict): return TRUE
                if (t == 0 and strict) or (t == -1 and not strict): return _exists_like(a)
            else:
                if t > 0 or (t == 0 and strict): return FALSE
                if (t == 0 and not strict) or (t == -1 and strict): return NOT(_exists_like(a))
    items = sorted(m.items(), key=lambda ac: ac[0].id)
    lead = items[0][1]
    s = abs(lead)
    if intlike:
        from math import gcd
        den = 1
        for _, c in items:
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for _, c in items:
            g = gcd(g, int(c * den))
        s = Fraction(g, den)
    L = _from_parts(Fraction(0), {a: c / s for a, c in items})
    kk = -k / s            # L < kk  or L <= kk
    flip = (items[0][1] < 0)
    if intlike:
        import math
        thr = math.ceil(kk) - 1 if strict else math.floor(kk)   # L <= thr
        if not flip:
            return _thr("le", L, Fraction(thr))
        Lp = neg(L)        # -Lp <= thr  <=> Lp >= -thr <=> not (Lp <= -thr-1)
        return NOT(_thr("le", Lp, Fraction(-thr - 1)))
    if not flip:
        return _thr("lt" if strict else "le", L, kk)
    Lp = neg(L)
    # -Lp < kk <=> Lp > -kk <=> not (Lp <= -kk);   -Lp <= kk <=> not (Lp < -kk)
    return NOT(_thr("le" if strict else "lt", Lp, -kk))

def _exists_like(f):
    """Whether the search that the term first describes succeeds."""
    return _mk("exists", f.args, "bool")

def _thr(op, L, c):
    lo, hi = lower_bound(L), upper_bound(L)
    if lo is not None:
        if lo > c or (lo == c and op == "lt"):
            return FALSE
    if hi is not None:
        if hi < c or (hi == c and op == "le"):
            return TRUE
    return _mk(op, (L, c), "bool")

def _intlike(t):
    k, m = _lin_parts(t)
    return all(a.sort in ("int", "nat", "num", "ptr") for a in m)

def _rel(a, b, strict):
    def f(x, y):
        d = sub(x, y)
        def g(dd):
            return _cmp0(dd, strict, _intlike(dd))
        return lift([d], g)
    return lift([b2i(a), b2i(b)], f)

def lt(a, b): return _rel(a, b, True)
def le(a, b): return _rel(a, b, False)
def gt(a, b): return _rel(b, a, True)
def ge(a, b): return _rel(b, a, False)

def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "bool" and b.sort == "bool":
        return ite(a, b, NOT(b))
    def f(x, y):
        if x is y:
            return TRUE
        if x.sort in ("int", "nat", "num", "real", "ptr") and y.sort in ("int", "nat", "num", "real", "ptr") or \
           (x.op == "lin" or y.op == "lin"):
            return AND(le(x, y), le(y, x))
        if x.op == "str" and y.op == "str":
            return const(x.args[0] == y.args[0], "bool")
        p, q = sorted((x, y), key=lambda t: t.id)
        return _mk("eq", (p, q), "bool")
    return lift([b2i(a), b2i(b)], f)

def tobool(t):
    if t.sort == "bool":
        return t
    return NOT(eq(t, const(0)))

def tmin(a, b):
    return ite(le(a, b), a, b)
def tmax(a, b):
    return ite(le(b, a), a, b)

# ---------------------------------------------------------------- containers / records
SIZE_KEEPING = set()
def size(v):
    def f(x):
        o = x.op
        if o == "push":
            return add(size(x.args[0]), const(1))
        if o == "upd":
            return size(x.args[0])
        if o == "resize":
            return x.args[1]
        if o == "fill":
            return x.args[0]
        if o == "empty":
            return const(0)
        if o == "tab":
            return x.args[2]
        if o == "map":
            return size(x.args[2])
        if o == "slice":
            return x.args[2]
        if o == "cat":
            return add(size(x.args[0]), size(x.args[1]))
        if o == "append":
            (k,), (n, d) = open_binder(x)
            return sumf(n, k, size(d))
        if o == "pop":
            return sub(size(x.args[0]), const(1))
        if o == "str":
            return const(len(x.args[0]))
        if o == "app" and x.args[0] in ("std::sort", "std::nth_element", "std::reverse", "std::stable_sort"):
            return size(x.args[1])
        if o in ("mu", "wmu"):
            r = _mu_size(x)
            if r is not None:
                return r
        return _mk("size", (x,), "nat")
    return lift([v], f)

def _mu_size(x):
    """A loop-carried container that is only overwritten in place keeps its initial size."""
    inits, nexts, res = x.args[3], x.args[4], x.args[5]
    bs = bound_syms(x)
    phi = bs[res + (1 if x.op == "mu" else 0)]
    def keeps(t, seen):
        if t is phi: return True
        if t.op == "ite": return keeps(t.args[1], seen) and keeps(t.args[2], seen)
        if t.op == "upd": return keeps(t.args[0], seen)
        if t.op == "map": return keeps(t.args[2], seen)
        if t.op == "app" and t.args[0] in ("std::sort", "std::nth_element", "std::reverse"): return keeps(t.args[1], seen)
        if t.op in ("mu", "wmu"):
            i2, n2, r2 = t.args[3], t.args[4], t.args[5]
            if not keeps(i2[r2], seen): return False
            p2 = bound_syms(t)[r2 + (1 if t.op == "mu" else 0)]
            return _keeps_phi(n2[r2], p2)
        return False
    def _keeps_phi(t, p2):
        if t is p2: return True
        if t.op == "ite": return _keeps_phi(t.args[1], p2) and _keeps_phi(t.args[2], p2)
        if t.op == "upd": return _keeps_phi(t.args[0], p2)
        if t.op == "map": return _keeps_phi(t.args[2], p2)
        if t.op in ("mu", "wmu"):
            i3, n3, r3 = t.args[3], t.args[4], t.args[5]
            return _keeps_phi(i3[r3], p2) and _keeps_phi(n3[r3], bound_syms(t)[r3 + (1 if t.op == "mu" else 0)])
        return False
    if keeps(nexts[res], set()):
        return size(inits[res])
    return None

def slice_(v, b, n):
    def f(x, bb, nn):
        if bb is const(0) and nn is size(x):
            return x
        if nn is const(0):
            return empty_seq()
        if x.op == "slice":
            return slice_(x.args[0], add(x.args[1], bb), nn)
        return _mk("slice", (x, bb, nn), "seq")
    return lift([v, b, n], f)

def at(v, i, sort=None):
    def f(x, k):
        o = x.op
        if o == "upd":
            c = eq(k, x.args[1])
            if c is TRUE:
                return x.args[2]
            if c is FALSE:
                return at(x.args[0], k, sort)
        elif o == "push":
            n = size(x.args[0])
            c = eq(k, n)
            if c is TRUE:
                return x.args[1]
            if lt(k, n) is TRUE or c is FALSE:
                return at(x.args[0], k, sort)
        elif o == "fill":
            return x.args[1]
        elif o == "tab":
            (q,), (n, e) = open_binder(x)
            return subst(e, {q: k})
        elif o == "slice":
            return at(x.args[0], add(x.args[1], k), sort)
        elif o == "pop":
            return at(x.args[0], k, sort)
        elif o == "resize":
            if lt(k, size(x.args[0])) is TRUE:
                return at(x.args[0], k, sort)
        elif o == "cat":
            if lt(k, size(x.args[0])) is TRUE:
                return at(x.args[0], k, sort)
            if x.args[0].op in ("fill", "tab", "empty", "push") and ge(k, size(x.args[0])) is TRUE:
                return at(x.args[1], sub(k, size(x.args[0])), sort)
        return _mk("at", (x, k), sort or "any")
    return lift([v, i], f)

def upd(v, i, val):
    def f(x, k):
        if val.op == "at" and val.args[0] is x and val.args[1] is k:
            return x
        if x.op == "upd" and x.args[1] is k:
            return upd(x.args[0], k, val)
        if x.op == "push" and eq(k, size(x.args[0])) is TRUE:
            return push(x.args[0], val)
        if x.op == "upd":
            d = eq(k, x.args[1])
            if d is FALSE and k.id < x.args[1].id:     # distinct positions commute
                return upd(upd(x.args[0], k, val), x.args[1], x.args[2])
            if d is FALSE:                              # an older write at the same position is dead
                y = _drop_upd(x.args[0], k)
                if y is not x.args[0]: return upd(upd(y, x.args[1], x.args[2]), k, val)
        return _mk("upd", (x, k, val), "seq")
    return lift([v, i], f)

def _drop_upd(x, k):
    if x.op != "upd": return x
    if x.args[1] is k: return x.args[0]
    if eq(k, x.args[1]) is not FALSE: return x
    y = _drop_upd(x.args[0], k)
    return x if y is x.args[0] else upd(y, x.args[1], x.args[2])

def bitop(op, xs, sort):
    """Associative, commutative bit operations."""
    fl = []
    for x in xs:
        if x.op == "app" and x.args[0] == "bit" + op: fl.extend(x.args[1:])
        else: fl.append(x)
    fl.sort(key=lambda t: t.id)
    return app("bit" + op, fl, sort)

def push(v, x):
    return lift([v], lambda u: _mk("push", (u, x), "seq"))

def pop(v):
    def f(u):
        if u.op == "push":
            return u.args[0]
        return _mk("pop", (u,), "seq")
    return lift([v], f)

def empty_seq():
    return _mk("empty", (), "seq")

def fill(n, x):
    def f(m):
        if m is const(0): return empty_seq()
        if is_num(m) and 0 < num(m) <= 16:
            r = empty_seq()
            for _ in range(int(num(m))): r = push(r, x)
            return r
        return _mk("fill", (m, x), "seq")
    return lift([n], f)

def resize(v, n, x=None):
    def f(u, m):
        if m is size(u):
            return u
        if m is const(0):
            return empty_seq()
        if u.op == "empty" and x is not None:
            return fill(m, x)
        if u.op == "push" and m is size(u.args[0]):
            return u.args[0]
        return _mk("resize", (u, m) + ((x,) if x is not None else ()), "seq")
    return lift([v, n], f)

def cat(a, b):
    def f(x, y):
        if x.op == "empty":
            return y
        if y.op == "empty":
            return x
        if y.op == "push":
            return push(cat(x, y.args[0]), y.args[1])
        if y.op == "cat":
            return cat(cat(x, y.args[0]), y.args[1])
        return _mk("cat", (x, y), "seq")
    return lift([a, b], f)

# Field sets that identify a record type: a record all of whose fields are known does not depend on what it was before.
COMPLETE = {}
def register_records(sets):
    COMPLETE.clear()
    allsets = {frozenset(s) for s in sets if s}
    for s in allsets:
        if not any(s < o for o in allsets): COMPLETE[s] = "{" + ",".join(sorted(s)) + "}"

def rec(tag, fields):
    if not isinstance(tag, T):
        t2 = COMPLETE.get(frozenset(fields))
        if t2 is not None:
            tag = t2
            src = None
            for f, v in fields.items():
                if v.op != "get" or v.args[1] != f or (src is not None and v.args[0] is not src):
                    src = None; break
                src = v.args[0]
            if src is not None: return src
    return _mk("rec", (tag, tuple(sorted(fields.items()))), "rec")

def complete_tag(tag):
    return not isinstance(tag, T) and tag.startswith("{")

def get(v, f, sort=None):
    def g(x):
        if x.op == "rec":
            for n, val in x.args[1]:
                if n == f:
                    return val
            base = x.args[0]
            if isinstance(base, T):
                return get(base, f, sort)
        return _mk("get", (x, f), sort or "any")
    return lift([v], g)

def setf(v, f, val):
    def g(x):
        if x.op == "rec":
            d = dict(x.args[1]); base = x.args[0]
        else:
            d = {}; base = x
        if isinstance(base, T) and get(base, f) is val:
            d.pop(f, None)
            if not d:
                return base
        else:
            d[f] = val
        if isinstance(base, T):
            t2 = COMPLETE.get(frozenset(d))
            if t2 is not None: return rec(t2, d)
            return _mk("rec", (base, tuple(sorted(d.items()))), "rec")
        return rec(base, d)
    return lift([v], g)

def join(c, a, b):
    """Merge two values under a condition, field by field for records."""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if (a.op == "rec" or b.op == "rec"):
        def parts(x):
            if x.op == "rec":
                return x.args[0], dict(x.args[1])
            return x, {}
        ba, fa = parts(a); bb, fb = parts(b)
        if ba is not bb and (complete_tag(ba) or complete_tag(bb)) and a.op != "ite" and b.op != "ite":
            tag, src = (ba, fa) if complete_tag(ba) else (bb, fb)
            if (isinstance(ba, T) or complete_tag(ba) and set(fa) == set(src)) and (isinstance(bb, T) or complete_tag(bb) and set(fb) == set(src)):
                return rec(tag, {n: join(c, get(a, n), get(b, n)) for n in sorted(src)})
        if ba is bb or (not isinstance(ba, T) and not isinstance(bb, T) and ba == bb and set(fa) == set(fb)):
            names = sorted(set(fa) | set(fb))
            out = {n: join(c, fa[n] if n in fa else get(ba, n), fb[n] if n in fb else get(bb, n)) for n in names}
            if isinstance(ba, T):
                r = ba
                for n in names:
                    r = setf(r, n, out[n])
                return r
            return rec(ba, out)
    return ite(c, a, b)

# ---------------------------------------------------------------- binders
# Bound variables are numbered by the height of their binder, so that alpha-equivalent terms are
# the same object.  A binder is _mk(op, (level, nb) + parts) and binds bv(level, 0..nb-1).
BINDERS = ("sum", "exists", "first", "append", "tab", "map", "fn", "mu", "wmu")
_height = {}
def height(t):
    h = _height.get(t)
    if h is None:
        st = [t]
        while st:
            x = st[-1]
            if x in _height:
                st.pop(); continue
            todo = [a for a in _iter_terms(x.args) if a not in _height]
            if todo:
                st.extend(todo); continue
            h = 0
            for a in _iter_terms(x.args):
                if _height[a] > h: h = _height[a]
            if x.op in BINDERS:
                h = max(h + 1, x.args[0] + 1)
            _height[x] = h
            st.pop()
        h = _height[t]
    return h

def bv(level, idx, sort="int"):
    return _mk("bv", (level, idx), sort)

def bind(op, bound, parts, sort, builder=None):
    """Create a binder over the symbols `bound` (renamed to canonical bound variables)."""
    def close(p, m):
        if isinstance(p, T):
            return subst(p, m)
        if isinstance(p, tuple):
            return tuple(close(x, m) for x in p)
        return p
    level = 0
    for a in _iter_terms(tuple(parts)):
        h = height(a)
        if h > level: level = h
    # renaming can only simplify, hence the level is recomputed until it is stable
    while True:
        m = {s: bv(level, i, s.sort) for i, s in enumerate(bound)}
        ps = tuple(close(p, m) for p in parts)
        l2 = 0
        for a in _iter_terms(ps):
            h = height(a)
            if h > l2: l2 = h
        if l2 == level:
            break
        bound = [bv(level, i, s.sort) for i, s in enumerate(bound)]
        parts = ps
        level = l2
    return _mk(op, (level, len(bound)) + ps, sort)

def bound_syms(t):
    """The bound variables of a binder term (as they occur in its parts)."""
    level, nb = t.args[0], t.args[1]
    found = {}
    seen = set()
    st = list(_iter_terms(t.args))
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "bv":
            if x.args[0] == level: found[x.args[1]] = x
        elif any(f.op == "bv" and f.args[0] == level for f in x.free):
            st.extend(_iter_terms(x.args))
    return [found.get(i) or bv(level, i) for i in range(nb)]

def open_binder(t):
    """Fresh symbols for the bound variables and the parts expressed over them."""
    bs = bound_syms(t)
    fs = [fresh("o", b.sort) for b in bs]
    m = dict(zip(bs, fs))
    memo = {}
    def op_(p):
        if isinstance(p, T): return subst(p, m, memo)
        if isinstance(p, tuple): return tuple(op_(x) for x in p)
        return p
    return fs, tuple(op_(p) for p in t.args[2:])

def subst(t, m, memo=None):
    """Simultaneous substitution of symbols, renormalising on the way."""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    def go(x):
        if x in m:
            return m[x]
        if not (x.free & keys):
            return x
        r = memo.get(x)
        if r is None:
            _tick()
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)

def map_args(args, go):
    return tuple(go(a) if isinstance(a, T) else (map_args(a, go) if isinstance(a, tuple) else a) for a in args)

def rebuild(x, go):
    o, a = x.op, x.args
    if o == "lin":
        r = const(a[0])
        for t, c in a[1]:
            r = add(r, scale(go(t), c))
        return r
    if o == "mul":
        r = go(a[0])
        for t in a[1:]:
            r = mul(r, go(t))
        return r
    if o == "rdiv":
        return div(go(a[0]), go(a[1]), True)
    if o == "idiv":
        return div(go(a[0]), go(a[1]), False)
    if o == "imod":
        return mod(go(a[0]), go(a[1]))
    if o == "ite":
        return ite(go(a[0]), go(a[1]), go(a[2]))
    if o in ("le", "lt"):
        L = go(a[0])
        return le(L, const(a[1])) if o == "le" else lt(L, const(a[1]))
    if o == "eq":
        return eq(go(a[0]), go(a[1]))
    if o == "size":
        return size(go(a[0]))
    if o == "slice":
        return slice_(go(a[0]), go(a[1]), go(a[2]))
    if o == "at":
        return at(go(a[0]), go(a[1]), x.sort)
    if o == "upd":
        return upd(go(a[0]), go(a[1]), go(a[2]))
    if o == "push":
        return push(go(a[0]), go(a[1]))
    if o == "pop":
        return pop(go(a[0]))
    if o == "fill":
        return fill(go(a[0]), go(a[1]))
    if o == "resize":
        return resize(go(a[0]), go(a[1]), go(a[2]) if len(a) > 2 else None)
    if o == "cat":
        return cat(go(a[0]), go(a[1]))
    if o == "get":
        return get(go(a[0]), a[1], x.sort)
    if o == "rec":
        base = go(a[0]) if isinstance(a[0], T) else a[0]
        if isinstance(base, T):
            r = base
            for f, v in a[1]:
                r = setf(r, f, go(v))
            return r
        return rec(base, {f: go(v) for f, v in a[1]})
    if o == "app":
        return app(a[0], [go(y) if isinstance(y, T) else y for y in a[1:]], x.sort)
    if o in BINDERS:
        # substituted terms never mention this binder's variables, but they may be higher
        fs, parts = open_binder(x)
        parts = map_args(parts, go)
        return BUILD[o](fs, parts, x.sort)
    return _mk(o, map_args(a, go), x.sort)

BUILD = {}

def _builds(op):
    def d(f):
        BUILD[op] = f
        return f
    return d

def sumf(n, k, e):
    """sum over k in [0, n) of e"""
    e = b2i(e)
    if e.op == "num":
        return scale(n, num(e))
    if e.op == "lin":
        q, m = _lin_parts(e)
        r = scale(n, q) if q else const(0)
        for t, c in m.items():
            r = add(r, scale(sumf(n, k, t), c))
        return r
    if k not in e.free:
        return mul(n, e)
    sort = "real" if e.sort == "real" else ("nat" if _nonneg(e) else e.sort if e.sort in ("nat",) else "int")
    def f(nn):
        if nn.op == "num" and num(nn) <= 0: return const(0)
        return bind("sum", [k], (nn, e), sort)
    return lift([n], f)
@_builds("sum")
def _(fs, p, s): return sumf(p[0], fs[0], p[1])

def _nonneg(e):
    b = lower_bound(e)
    return b is not None and b >= 0

def existsf(n, k, g):
    if g is FALSE:
        return FALSE
    if k not in g.free:
        return AND(g, gt(n, const(0)))
    def f(nn):
        if nn.op == "num" and num(nn) <= 0: return FALSE
        return bind("exists", [k], (nn, g), "bool")
    return lift([n], f)
@_builds("exists")
def _(fs, p, s): return existsf(p[0], fs[0], p[1])

def firstf(n, k, g):
    """the smallest k in [0, n) satisfying g, or n"""
    if g is FALSE:
        return n
    if g is TRUE:
        return const(0)
    if k not in g.free:
        return ite(g, const(0), n)
    return lift([n], lambda nn: nn if nn.op == "num" and num(nn) <= 0 else bind("first", [k], (nn, g), "nat"))
@_builds("first")
def _(fs, p, s): return firstf(p[0], fs[0], p[1])

def appendf(base, n, k, d):
    """base followed by d(0), ..., d(n-1)"""
    if d.op == "empty":
        return base
    if k not in d.free and d.op == "push" and d.args[0].op == "empty":
        return cat(base, fill(n, d.args[1]))
    def f(nn):
        if nn.op == "num" and num(nn) <= 0: return base
        if d.op == "push" and d.args[0].op == "empty":
            return cat(base, tabf(nn, k, d.args[1]))
        return cat(base, bind("append", [k], (nn, d), "seq"))
    return lift([n], f)
@_builds("append")
def _(fs, p, s): return appendf(empty_seq(), p[0], fs[0], p[1])

def tabf(n, k, e):
    """the sequence e(0), ..., e(n-1)"""
    if k not in e.free:
        return fill(n, e)
    if e.op == "at" and k not in e.args[0].free:
        off = sub(e.args[1], k)
        if k not in off.free:
            return slice_(e.args[0], off, n)
    def f(nn):
        if nn.op == "num" and num(nn) <= 0: return empty_seq()
        return bind("tab", [k], (nn, e), "seq")
    return lift([n], f)
@_builds("tab")
def _(fs, p, s): return tabf(p[0], fs[0], p[1])

def mapf(init, lo, n, k, e):
    """init with the elements lo..lo+n-1 replaced by e(0), ..., e(n-1)"""
    if e.op == "at" and e.args[0] is init and e.args[1] is add(lo, k):
        return init
    if lo is const(0) and size(init) is n:
        return tabf(n, k, e)
    return bind("map", [k], (init, lo, n, e), "seq")
@_builds("map")
def _(fs, p, s): return mapf(p[0], p[1], p[2], fs[0], p[3])

@_builds("fn")
def _(fs, p, s): return bind("fn", list(fs), p, s)
def fnterm(ks, body):
    return bind("fn", list(ks), (body,), "fn")

# mu: counted loop  parts = (count, inits, nexts, result)   bound = k, phi...
# wmu: while loop   parts = (cond, inits, nexts, result)    bound = phi...
def muf(op, bound, parts, sort):
    ctl, inits, nexts, res = parts
    return mk_mu(op, list(bound), ctl, list(inits), list(nexts), res)
BUILD["mu"] = lambda fs, p, s: muf("mu", fs, p, s)
BUILD["wmu"] = lambda fs, p, s: muf("wmu", fs, p, s)

def _color(t, cm, memo):
    """Structural colour of a term, independent of the identity of symbols in cm and of diagram order."""
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if t in cm:
        r = hash(("phi", cm[t]))
    elif not (t.free & cm["keys"]):
        r = _stable(t, memo)
    elif o == "lin":
        r = hash(("lin", t.args[0], tuple(sorted((_color(a, cm, memo), c) for a, c in t.args[1]))))
    elif o == "mul":
        r = hash(("mul", tuple(sorted(_color(a, cm, memo) for a in t.args))))
    elif o in ("ite", "le", "lt", "eq") and (o == "ite" or True):
        if o == "ite":
            atoms, leaves, st, seen = set(), set(), [t], set()
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x.op == "ite":
                    atoms.add(_color(x.args[0], cm, memo)); st.append(x.args[1]); st.append(x.args[2])
                elif _is_atom(x):
                    atoms.add(_color(x, cm, memo)); st.append(TRUE); st.append(FALSE)
                else:
                    leaves.add(_color(x, cm, memo))
            r = hash(("ite", tuple(sorted(atoms)), tuple(sorted(leaves))))
        elif o == "eq":
            r = hash(("eq", tuple(sorted(_color(a, cm, memo) for a in t.args))))
        else:
            # sign of the linear form depends on the order of its atoms
            L, c = t.args
            k, m = _lin_parts(L)
            r = hash(("cmp", tuple(sorted((_color(a, cm, memo), abs(q)) for a, q in m.items()))))
    else:
        def h(a):
            if isinstance(a, T): return _color(a, cm, memo)
            if isinstance(a, tuple): return tuple(h(x) for x in a)
            return a
        r = hash((o,) + tuple(h(a) for a in t.args))
    memo[t] = r
    return r

def _stable(t, memo):
    if t.op == "sym" and "#" in str(t.args[0]):
        return hash(("fresh", t.sort))
    if not t.free or t.op in ("sym", "bv", "num", "str"):
        return hash(("id", t.id))
    fr = any(f.op == "sym" and "#" in str(f.args[0]) for f in t.free)
    if not fr:
        return hash(("id", t.id))
    cm = {"keys": frozenset(t.free)}
    cm.update({f: hash(("fresh", f.sort)) if (f.op == "sym" and "#" in str(f.args[0])) else hash(("id", f.id)) for f in t.free})
    return _color(t, cm, {})

def literals(c):
    """[(atom, value)] the condition implies."""
    seen, st, atoms = set(), [c], []
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == "ite": atoms.append(t.args[0]); st.extend(t.args[1:])
        elif _is_atom(t): atoms.append(t)
    atoms = list(dict.fromkeys(atoms))
    if len(atoms) > 24: return []
    out = []
    for a in sorted(atoms, key=atom_key):
        if cofactor(c, a, False) is FALSE: out.append((a, True))
        elif cofactor(c, a, True) is FALSE: out.append((a, False))
    return out

def assume(t, lits):
    """t where all the literals hold, at the top of diagrams and in the fields of records."""
    for a, v in lits:
        t = _assume(t, a, v)
    return t

def constrain(f, c, memo=None):
    """Generalised cofactor: the same term for any two terms that agree wherever c holds."""
    if c is TRUE or c is FALSE or is_num(f): return f
    if f.op == "rec":
        base, fs = f.args
        new = {n: constrain(x, c) for n, x in fs}
        if all(new[n] is x for n, x in fs): return f
        if not isinstance(base, T): return rec(base, new)
        for n, x in new.items(): base = setf(base, n, x)
        return base
    if memo is None: memo = {}
    r = memo.get((f, c))
    if r is not None: return r
    _tick()
    a, b = top_atom(f), top_atom(c)
    if a is None: return f
    if b is None or (a is not b and atom_key(a) < atom_key(b)): x = a
    else: x = b
    c1, c0 = _cof(c, x, True), _cof(c, x, False)
    f1, f0 = _cof(f, x, True), _cof(f, x, False)
    if c1 is FALSE: r = constrain(f0, c0, memo)
    elif c0 is FALSE: r = constrain(f1, c1, memo)
    else: r = ite(x, constrain(f1, c1, memo), constrain(f0, c0, memo))
    memo[(f, c)] = r
    return r

def _assume(t, a, v):
    if t.op == "rec":
        base, fs = t.args
        new = {f: _assume(x, a, v) for f, x in fs}
        if all(new[f] is x for f, x in fs): return t
        r = base if isinstance(base, T) else None
        if r is None: return rec(base, new)
        for f, x in new.items(): r = setf(r, f, x)
        return r
    return cofactor(t, a, v)

def mk_mu(op, bound, ctl, inits, nexts, res):
    """Canonically ordered loop term; bound = [k] + phis for mu, phis for wmu; res = index of the result."""
    off = 1 if op == "mu" else 0
    phis = bound[off:]
    if op == "wmu":
        lits = literals(ctl)
        if lits: nexts = [assume(x, lits) for x in nexts]
        # counters start at zero and step by one
        sb = {}
        for i, p in enumerate(phis):
            if p.sort not in ("int", "nat", "real", "ptr", "num"): continue
            d = sub(nexts[i], p)
            if is_num(d) and num(d) != 0 and not (inits[i] is const(0) and num(d) == 1 and p.sort == "int"):
                sb[i] = (num(d), fresh("n", "int"))
        if sb:
            m = {phis[i]: add(inits[i], scale(q, st)) for i, (st, q) in sb.items()}
            nx = [add(sb[i][1], const(1)) if i in sb else subst(x, m) for i, x in enumerate(nexts)]
            t = mk_mu(op, [sb[i][1] if i in sb else p for i, p in enumerate(phis)], subst(ctl, m),
                      [const(0) if i in sb else x for i, x in enumerate(inits)], nx, res)
            return add(inits[res], scale(t, sb[res][0])) if res in sb else t
    # drop what the result does not depend on
    idx = {p: i for i, p in enumerate(phis)}
    need, st = set(), [res]
    if op == "wmu":
        st += [idx[f] for f in ctl.free if f in idx]
    while st:
        i = st.pop()
        if i in need: continue
        need.add(i)
        st += [idx[f] for f in nexts[i].free if f in idx]
    # components that never change
    inv = {phis[i]: inits[i] for i in need if nexts[i] is phis[i]}
    if inv:
        if phis[res] in inv:
            return inv[phis[res]]
        ctl = subst(ctl, inv)
        nexts = [subst(x, inv) if i in need else x for i, x in enumerate(nexts)]
        keep = [i for i in range(len(phis)) if i in need and phis[i] not in inv]
        return mk_mu(op, bound[:off] + [phis[i] for i in keep], ctl, [inits[i] for i in keep],
                     [nexts[i] for i in keep], keep.index(res))
    if op == "wmu" and ctl is FALSE:
        return inits[res]
    order = sorted(need)
    cm = {p: hash((p.sort, _stable(inits[idx[p]], {}), idx[p] == res)) for p in (phis[i] for i in order)}
    if off:
        cm[bound[0]] = hash("k")
    for _ in range(min(6, len(order) + 1)):
        cm2 = dict(cm); cm2["keys"] = frozenset(cm)
        memo = {}
        ctlc = _color(ctl, cm2, memo)
        new = {phis[i]: hash((cm[phis[i]], _color(nexts[i], cm2, memo), phis[i] in ctl.free and ctlc)) for i in order}
        if off:
            new[bound[0]] = cm[bound[0]]
        cm = new
    order.sort(key=lambda i: (cm[phis[i]], i))
    b2 = bound[:off] + [phis[i] for i in order]
    parts = (ctl, tuple(inits[i] for i in order), tuple(nexts[i] for i in order), order.index(res))
    sort = phis[res].sort
    return bind(op, b2, parts, sort)

# ---------------------------------------------------------------- queries
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(iter_args(x))

def has_opaque(t):
    return any(x.op == "opaque" for x in subterms(t))

def show(t, depth=12):
    def s(x, d):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return "(" + ", ".join(s(y, d) for y in x) + ")"
            return str(x)
        if d <= 0:
            return "…"
        o = x.op
        if o == "num":
            return str(x.args[0])
        if o == "sym":
            return str(x.args[0])
        if o == "bv":
            return "k%d.%d" % x.args
        if o == "str":
            return repr(x.args[0])
        if o == "lin":
            ps = []
            for a, c in x.args[1]:
                ps.append(s(a, d - 1) if c == 1 else "-" + s(a, d - 1) if c == -1 else "%s*%s" % (c, s(a, d - 1)))
            if x.args[0]:
                ps.append(str(x.args[0]))
            return "(" + " + ".join(ps) + ")"
        if o == "le":
            return "[%s <= %s]" % (s(x.args[0], d - 1), x.args[1])
        if o == "lt":
            return "[%s < %s]" % (s(x.args[0], d - 1), x.args[1])
        if o == "ite":
            return "ite(%s ? %s : %s)" % tuple(s(y, d - 1) for y in x.args)
        if o == "at":
            return "%s[%s]" % tuple(s(y, d - 1) for y in x.args)
        if o == "get":
            return "%s.%s" % (s(x.args[0], d - 1), x.args[1])
        if o == "app":
            return "%s(%s)" % (x.args[0], ", ".join(s(y, d - 1) for y in x.args[1:]))
        return "%s(%s)" % (o, ", ".join(s(y, d - 1) for y in x.args))
    return s(t, depth)

def locate(a, b, limit=6):
    """Smallest differing subterms of two terms: [(a', b')]."""
    out, seen = [], set()
    def kids(t):
        r = []
        for x in t.args:
            if isinstance(x, T): r.append(x)
            elif isinstance(x, tuple): r.extend(kids_t(x))
        return r
    def kids_t(x):
        r = []
        for y in x:
            if isinstance(y, T): r.append(y)
            elif isinstance(y, tuple): r.extend(kids_t(y))
        return r
    def shape(t):
        def s(x):
            if isinstance(x, T): return "."
            if isinstance(x, tuple): return tuple(s(y) for y in x)
            return x
        return (t.op, s(t.args))
    def go(x, y):
        if x is y or len(out) >= limit or (x, y) in seen: return
        seen.add((x, y))
        if shape(x) == shape(y):
            k1, k2 = kids(x), kids(y)
            d = [(u, v) for u, v in zip(k1, k2) if u is not v]
            if d and (len(d) <= 2 or len(d) < len(k1)):
                for u, v in d: go(u, v)
                return
        out.append((x, y))
    go(a, b)
    return out
