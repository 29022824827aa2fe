"""Decisions about the Python module: the binding table and the wrapper class against their reference."""
import os
import bind, pyexec, gate, compare
import terms as TT
from execu import Unsupported
from rules import Res
from compare import VERIF, REPO

_C = None
def loaded():
    global _C
    if _C is None: _C = bind.load()
    return _C

P24_ROWS = {("Instance", "add"), ("Instance", "prepare"), ("Instance", "copy"), ("CftResult", "copy"), ("Solution", "copy"), ("", "run"), ("", "parse_inst_and_initsol")}

def bindings(pid):
    def rule(C_, tier):
        r = Res("binding-table", "every attribute and function of the native module is bound to the native field or function the reference binds it to; bound "
                "lambdas have the outputs (and leave behind, when they throw, the state) the reference requires; an attribute named like a field is that field")
        try: C = loaded()
        except compare.cpp.AstError as e:
            r.undecided.append("the binding file cannot be analysed: %s" % str(e)[:300]); return r
        cur, spec = C.cur, C.spec
        for p in cur.problems: r.undecided.append(p)
        for key, rows in sorted(spec.rows.items()):
            if key[1] == "__repr__": continue
            if pid == "P24" and key not in P24_ROWS: continue
            if pid == "P23" and key in (("Instance", "prepare"),): continue
            r.sites += 1
            now = cur.rows.get(key)
            if now is None:
                if cur.problems: r.undecided.append("%s is not in the part of the table that was found" % ".".join(key))
                else: r.bad("src/pycft/_bindings.cpp", "%s is no longer bound" % ".".join(key))
                continue
            if len(now) != len(rows):
                r.undecided.append("%s is bound %d times" % (".".join(key), len(now))); continue
            for a, b in zip(rows, now):
                if pid == "P23" and key == ("Instance", "add"): pass
                s, why = bind.compare_rows(C, key, a, b)
                if s == "diff": r.bad(bind.where_of(C, b), why)
                elif s == "undecided": r.undecided.append("%s: %s" % (".".join(key), why))
                elif len(r.samples) < 4: r.samples.append("%s -> %s %s" % (".".join(key), b[0], bind.text(b[1]) if b[0] != "init" else b[1]))
        if pid == "P23":
            fields = {}
            for q, rs in cur.tu.records.items():
                for x in rs:
                    for c in x.get("inner", ()):
                        if c and c.get("kind") == "FieldDecl" and c.get("name"): fields.setdefault(q.split("::")[-1], set()).add(c["name"])
            for (c, n), rows in sorted(cur.rows.items()):
                for k in rows:
                    if k[0] == "init" or k[1][0][0] != "field": continue
                    r.sites += 1
                    own = {t for t, nm in cur.classes.items() if nm == c}
                    fs = set().union(*[fields.get(t.split("<")[0].split("::")[-1], set()) for t in own]) if own else set()
                    if n in fs and k[1][0][1] != n: r.bad("src/pycft/_bindings.cpp", "attribute %s.%s is bound to the field %s" % (c, n, k[1][0][1]))
        return r
    rule.__name__ = "bindings_" + pid
    return rule

def props(method, out):
    if method == "solve" and out.startswith("run.env."): return {"P23"}
    if method == "from_file" and ".env." in out: return {"P23", "P24"}
    if method.startswith("get_") and out == "return": return {"P23", "P24"}
    return {"P24"}

def find_class(src):
    d = os.path.join(src, "pycft")
    for f in ["set_cover_solver.py"] + sorted(os.listdir(d)):
        if not f.endswith(".py"): continue
        p = os.path.join(d, f)
        if not os.path.exists(p): continue
        m = pyexec.Module(p)
        if "SetCoverSolver" in m.classes: return m, "src/pycft/" + f
    return None, None

def labels(ts): return {str(t.args[0]) for x in ts for t in TT.subterms(x) if t.op == "app"}
def syms(ts): return {str(t.args[0]) for x in ts for t in TT.subterms(x) if t.op == "sym"}

def wrapper(pid):
    def rule(C_, tier):
        r = Res("python-wrapper", "every effect of every public method of the Python solver class (fields of the object afterwards, also when an error is raised, "
                "the value returned, the error, the environment handed to the native call) equals the reference's, native calls standing as functions")
        try: C = loaded()
        except compare.cpp.AstError as e:
            r.undecided.append("the binding file cannot be analysed: %s" % str(e)[:300]); return r
        try:
            ms, _ = find_class(os.path.join(VERIF, "spec", "src")); mc, where = find_class(os.path.join(REPO, "src"))
        except SyntaxError as e:
            r.undecided.append("the wrapper does not parse: %s" % e); return r
        if mc is None:
            r.undecided.append("no class SetCoverSolver in src/pycft"); return r
        ns, nc = pyexec.Native(C.spec, C, C.spec), pyexec.Native(C.cur, C, C.spec)
        have = pyexec.methods(mc.classes["SetCoverSolver"])
        if mc.classes["SetCoverSolver"].bases: r.undecided.append("the class has base classes")
        for m in pyexec.methods(ms.classes["SetCoverSolver"]):
            if m.startswith("_") and m != "__init__": continue
            if m not in have:
                r.undecided.append("method %s is not defined in the class" % m); continue
            loc = "%s:%d" % (where, have[m].lineno)
            res = []
            for rounds in range(2):      # the first round completes the sorts of shared terms
                res = []
                for mod, n in ((ms, ns), (mc, nc)):
                    try: res.append(pyexec.summarize(mod, "SetCoverSolver", m, n))
                    except (Unsupported, TT.Blowup, RecursionError, KeyError, AttributeError, TypeError, IndexError) as e: res.append(e)
            bad = [x for x in res if isinstance(x, Exception)]
            if bad:
                r.undecided.append("%s: %s" % (m, str(bad[0])[:200])); continue
            (a, ea), (b, eb) = res
            foreign = eb.read - set(ea.fields)
            for k in sorted(set(a) | set(b)):
                if pid not in props(m, k): continue
                if k not in a: continue                     # fields of its own are not observable
                r.sites += 1
                u, v = a[k], b.get(k)
                if u is v:
                    if len(r.samples) < 4 and u.op not in ("sym",): r.samples.append("%s %s = %s" % (m, k, TT.show(u)[:160]))
                    continue
                if v is None:
                    r.undecided.append("%s: no output %s" % (m, k)); continue
                new = labels([v]) - labels([u])
                unknown = [x for x in new if not (x.startswith("py:") and x[3:] in pyexec.PURE) and not x.startswith(("exc:", "throws:", "ret:", "new "))
                           and x not in ("no-output", "None", "none", "unbound", "inf", "env", "exception")]
                msg = "%s: %s differs\n  required: %s\n  found:    %s" % (m, k, *(" ".join(TT.show(x)[:400] for x in y) for y in zip(*TT.locate(u, v)[:2])))
                if unknown or foreign or "isnone" in unknown: r.undecided.append("%s: %s uses %s" % (m, k, ", ".join(sorted(set(unknown) | foreign))))
                elif k == "throws" and only_kind(u, v): r.undecided.append("%s: another error is raised first" % m)
                else: r.bad(loc, msg)
        return r
    rule.__name__ = "wrapper_" + pid
    return rule

def only_kind(u, v):
    """Whether both raise in the same cases and differ in the type only."""
    ok = TT.app("none", [])
    f = lambda t: TT.lift([t], lambda x: TT.FALSE if x is ok else TT.TRUE)
    return f(u) is f(v)
