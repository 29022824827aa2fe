"""Comparison of the analysed tree with the reference semantics, unit by unit.

Both trees are summarised in the same term table, so two outputs are equal iff they are the same term.
"""
import os, re, time, json
import cpp, execu, summary
from terms import *
import terms as TT
from execu import Config, Unsupported
from summary import summarize, diff, Summary
import contracts

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")

class Tree:
    """One source tree: its syntax trees and the summaries of its functions."""
    def __init__(self, name, src, defs=("-DNDEBUG",)):
        self.name, self.src = name, src
        self.error = None
        tu = os.path.join(VERIF, "tu", "unit.cpp")
        base = os.path.join(VERIF, "tu", "base.cpp")
        self.partial = False
        try:
            docs = cpp.dump(tu, [src], defs)
        except cpp.AstError as e:
            try:
                docs = cpp.dump(tu, [src], tuple(defs) + ("-DCFT_PLAIN_MAIN",))
            except cpp.AstError:
                self.error = str(e)
                self.partial = True
                try: docs = cpp.dump(base, [src], defs)
                except cpp.AstError: docs = cpp.dump(base, [src], tuple(defs) + ("-DCFT_PLAIN_MAIN",))
        self.tu = cpp.TU(docs)
        self.memo = {}
        self.names = set(self.tu.funcs)

    def find(self, q):
        if q == "main":
            q = "cft_program::main"
            if not self.tu.find(q): q = "cft_program_main"
        return [(self.tu, f) for f in self.tu.find(q)]

def typekey(f):
    q = (f.get("type") or {}).get("desugaredQualType") or (f.get("type") or {}).get("qualType") or ""
    q = re.sub(r"\(lambda at [^)]*\)", "(lambda)", q)
    q = re.sub(r"\(anonymous namespace\)::", "", q)
    return q

def targkey(tu, f):
    """Template arguments of the function and of the classes around it."""
    out = []
    n = f
    for c in f.get("inner", ()):
        if c and c.get("kind") == "TemplateArgument":
            out.append(str((c.get("type") or {}).get("qualType") or c.get("value")))
    p = tu.parent.get(f["id"])
    while p is not None:
        d = tu.decl.get(p)
        if d is None: break
        for c in d.get("inner", ()):
            if c and c.get("kind") == "TemplateArgument":
                out.append(str((c.get("type") or {}).get("qualType") or c.get("value")))
        p = tu.parent.get(p)
    return re.sub(r"\(lambda at [^)]*\)", "(lambda)", ",".join(out))

def pairs(spec, cur, q):
    """Pairs of instantiations of q: (spec, cur or None)."""
    A, B = spec.find(q), cur.find(q)
    key = lambda tf: (typekey(tf[1]), targkey(*tf))
    kb = {}
    for x in B: kb.setdefault(key(x), []).append(x)
    out, rest = [], []
    for x in A:
        l = kb.get(key(x))
        if l: out.append((x, l.pop(0)))
        else: rest.append(x)
    left = [x for l in kb.values() for x in l]
    np = lambda tf: len(cpp.params(tf[1]))
    for x in rest:
        c = [y for y in left if np(y) == np(x)]
        if len(c) == 1 and len([z for z in rest if np(z) == np(x)]) == 1:
            out.append((x, c[0])); left.remove(c[0])
        else:
            out.append((x, None))
    return out

def signature_ok(spec, cur, q):
    a, b = spec.find(q), cur.find(q)
    if not a: return False
    if not b: return False
    s = lambda l: sorted({(re.sub(r"\(lambda\)", "L", typekey(f))) for _, f in l})
    n = lambda l: sorted({(len(cpp.params(f)), f["kind"]) for _, f in l})
    def outs(l):
        return sorted({tuple("&" if execu.isrefq(cpp.qtype_sugar(p)) and not summary.is_const_ref(cpp.qtype(p)) else "v"
                              for p in cpp.params(f)) + ((f.get("type") or {}).get("qualType", "").split("(")[0].strip(),) for _, f in l})
    return n(a) == n(b) and (s(a) == s(b) or outs(a) == outs(b))

def views(q):
    """The comparison operators of views are themselves the subject there, so they are not replaced by equality."""
    return q.startswith(("cft::StringView::", "cft::client::sv_"))

class Result:
    EQ, DIFF, UNDEC = "equal", "different", "undecided"

class Comparer:
    def __init__(self, cur_src=None, spec_src=None, verbose=False, limit=None, spec=None, cur=None, nothrow=()):
        self.spec = spec or Tree("spec", spec_src or os.path.join(VERIF, "spec", "src"))
        self.cur = cur or Tree("cur", cur_src or os.path.join(REPO, "src"))
        self.verbose = verbose
        TT.register_records(cpp.field_sets(self.spec.tu) | cpp.field_sets(self.cur.tu))
        allb = dict(contracts.B); allb.update(contracts.HELPERS)
        self.dropped = []
        self.bound = {}
        for q, sp in allb.items():
            if q in nothrow: sp = {k: v for k, v in sp.items() if k != "throws"}
            if signature_ok(self.spec, self.cur, q): self.bound[q] = sp
            else: self.dropped.append(q)
        fp = os.path.join(VERIF, "spec", "footprints.json")
        self.footprints = json.load(open(fp))["functions"] if os.path.exists(fp) else {}
        self.helpers = {q for q in contracts.HELPERS if q in self.bound}
        self.cache = {}
        self.hstate = {}
        self.limit = limit
        self.left = False

    def summ(self, tree, tu, fn, inline=frozenset(), limit=None):
        key = (tree.name, id(tu), fn["id"], inline)
        if key in self.cache:
            return self.cache[key]
        cfg = Config({k: v for k, v in self.bound.items() if k not in inline and not (v.get("model") and views(tu.qname_of.get(fn["id"], "")))})
        cfg.footprints = self.footprints
        cfg.left = self.left
        cfg.stdout = tu.qname_of.get(fn["id"], "").startswith("cft::client::pr")
        old = TT.LIMIT
        if limit: TT.LIMIT = limit
        try:
            summarize(tu, fn, cfg)          # the first pass only completes the sorts of shared terms
            r = summarize(tu, fn, cfg)
        except (Unsupported, TT.Blowup, RecursionError) as e:
            r = e
        finally:
            TT.LIMIT = old
        self.cache[key] = r
        return r

    def compare(self, x, y, inline=frozenset(), limit=None):
        """(status, [(output, spec term, cur term)], reason)"""
        (ta, fa), (tb, fb) = x, y
        a = self.summ(self.spec, ta, fa, inline, limit)
        b = self.summ(self.cur, tb, fb, inline, limit)
        # sorts may have been refined by the second tree
        if isinstance(a, Summary) and isinstance(b, Summary):
            d = diff(a, b)
            if d:
                self.cache.pop((self.spec.name, id(ta), fa["id"], inline), None); self.cache.pop((self.cur.name, id(tb), fb["id"], inline), None)
                a = self.summ(self.spec, ta, fa, inline, limit)
                b = self.summ(self.cur, tb, fb, inline, limit)
        for s, w in ((a, "reference"), (b, "current")):
            if not isinstance(s, Summary):
                return Result.UNDEC, [], "%s: %s %s" % (w, type(s).__name__, str(s)[:200])
        d = diff(a, b)
        return (Result.DIFF if d else Result.EQ), d, ""

    def helper_state(self, q):
        """Whether a private helper agrees in both trees (with the other helpers as boundaries)."""
        if q in self.hstate: return self.hstate[q]
        self.hstate[q] = Result.EQ
        st = Result.EQ
        for x, y in pairs(self.spec, self.cur, q):
            if y is None:
                continue
            s, d, why = self.compare(x, y)
            if s != Result.EQ:
                st = s
        # instantiations that exist only in the current tree have no counterpart
        if len(self.cur.find(q)) > len(self.spec.find(q)): st = Result.UNDEC if st == Result.EQ else st
        self.hstate[q] = st
        return st

    def calls_of(self, q):
        """Helpers reachable from the helper q in either tree."""
        r = self.__dict__.setdefault("_hreach", {}).get(q)
        if r is None:
            r = set()
            for t in (self.spec, self.cur):
                for tu, f in t.find(q): r |= reachable(tu, f)
            r = self._hreach[q] = frozenset(r & self.helpers)
        return r

    def bad_helpers(self, among):
        """Of the given helpers, those that do not agree or that reach one that does not."""
        own = {q for q in among if self.helper_state(q) != Result.EQ}
        return frozenset(q for q in among if q in own or self.calls_of(q) & own)

    def unit(self, q):
        """Compares every instantiation of a public anchor."""
        out = []
        ps = pairs(self.spec, self.cur, q)
        for x, y in ps:
            if y is None:
                out.append((x, None, Result.UNDEC, [], "no counterpart in the current tree"))
                continue
            used = self.bad_helpers(self.helpers & self.reach(x, y)) - {q}
            s, d, why = self.compare(x, y, used, 3000000 if used else None)
            out.append((x, y, s, d, why))
        return out

    def nouts(self, x):
        """Number of observable outputs of a reference instantiation."""
        for (name, tu, fid, inl), r in self.cache.items():
            if name == self.spec.name and fid == x[1]["id"] and isinstance(r, Summary): return len(r.outs)
        return 0

    def sample(self, q, x, where):
        for (name, tu, fid, inl), r in self.cache.items():
            if name == self.spec.name and fid == x[1]["id"] and isinstance(r, Summary):
                for k, t in r.outs.items(): return "%s at %s, output %s = %s" % (q, where, k, show(t)[:160])
        return None

    def reach(self, x, y):
        r = set()
        for tree, (tu, f) in ((self.spec, x), (self.cur, y)):
            r |= reachable(tu, f)
        return frozenset(r)

def reachable(tu, f):
    cache = tu.__dict__.setdefault("_reach", {})
    if f["id"] in cache: return cache[f["id"]]
    seen, st, names = set(), [f], set()
    while st:
        g = st.pop()
        if g["id"] in seen: continue
        seen.add(g["id"])
        stack = [g]
        while stack:
            n = stack.pop()
            for k in ("referencedDecl",):
                d = n.get(k)
                if d and d.get("kind") in cpp.FUNC:
                    t = tu.definition(d["id"])
                    if t is not None and t.get("id") in tu.qname_of:
                        names.add(tu.qname_of[t["id"]]); st.append(t)
            m = n.get("referencedMemberDecl")
            if m:
                t = tu.definition(m)
                if t is not None and t.get("kind") in cpp.FUNC and t.get("id") in tu.qname_of:
                    names.add(tu.qname_of[t["id"]]); st.append(t)
            stack.extend(c for c in n.get("inner", ()) if c)
    cache[f["id"]] = names
    return names
