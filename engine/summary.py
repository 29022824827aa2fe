"""Summaries of functions: one term per observable output, as a function of the inputs."""
import sys
from terms import *
import terms as TT
import cpp, execu
from execu import Exec, Config, State, Frame, LV, Root, Unsupported, sort_of, strip_cv
from cpp import qtype, qtype_sugar, params, body
sys.setrecursionlimit(20000)

UNDEF = app("no-output", [])

class Summary:
    def __init__(self):
        self.outs = {}        # observable name -> term
        self.calls = []
        self.inlined = set()
        self.fn = None
        self.unknown_left = False

def param_sym(q, i):
    return sym("p%d" % i, sort_of(q))

def summarize(tu, fn, cfg):
    TT.reset_work()
    bs = dict(cfg.boundary)
    qn = tu.qname_of.get(fn["id"])
    if not bs.get(qn, {}).get("recursive"): bs.pop(qn, None)
    c2 = Config(bs)
    c2.stdout = cfg.stdout
    c2.left = cfg.left
    c2.footprints = cfg.footprints
    ex = Exec(tu, c2)
    S = State({}, TRUE)
    S.mem[ex.clock] = sym("clock", "any")
    S.mem[ex.stderr] = FALSE
    S.mem[ex.stdout] = app("no-text", [])
    fr = Frame(); fr.fn = fn
    refs = []
    ps = params(fn)
    for i, p in enumerate(ps):
        q, qs = qtype(p), qtype_sugar(p)
        v = param_sym(q, i)
        lv = ex.temp(S, v, "p%d" % i)
        fr.map[p["id"]] = lv
        if execu.isrefq(q) or execu.isrefq(qs):
            if not is_const_ref(q):
                refs.append(("p%d" % i, lv))
            elif "Environment" in q:
                refs.append(("p%d.rnd" % i, lv.f("rnd")))
    static = fn.get("storageClass") == "static"
    if fn["kind"] in ("CXXMethodDecl", "CXXConversionDecl") and not static:
        r = Root("this")
        S.mem[r] = sym("this")
        fr.this = LV(r)
        if not (fn.get("type") or {}).get("qualType", "").rstrip().endswith("const"):
            refs.append(("this", fr.this))
    rt = (fn.get("type") or {}).get("qualType", "")
    fr.retref = rt.split("(")[0].rstrip().endswith("&")
    if fn["kind"] == "CXXConstructorDecl":
        rec_ = tu.decl.get(tu.parent.get(fn["id"]))
        raise Unsupported("summary of constructor")
    ex.x(body(fn), fr, S)
    top = Frame()
    val = ex.finish(fr, S, top, TRUE)
    thr = FALSE
    for pc, what in top.throws:
        thr = OR(thr, pc)
    res = Summary()
    res.fn = fn
    res.ex = ex
    if isinstance(val, LV):
        val = ex.read(S, val)
    def obs(v):
        v = ex.reify(S, v)
        return v if thr is FALSE else TT.join(thr, UNDEF, v)
    if val is not None and rt.split("(")[0].strip() not in ("void",):
        res.outs["return"] = obs(val)
    for nm, lv in refs:
        try:
            v = ex.read(S, lv)
        except Unsupported:
            continue
        res.outs[nm] = obs(v)
    res.outs["throws"] = thr
    if cfg.left and thr is not FALSE:
        for nm, lv in refs:
            v = UNDEF
            for pc, what in reversed(top.throws):
                mem = getattr(what, "mem", None)
                if mem is None or lv.root not in mem: v = None; break
                v = TT.join(pc, ex.reify(S, ex.read(State(mem, TRUE), lv)), v)
            if v is not None: res.outs[nm + ".left"] = v
            else: res.unknown_left = True
    if fn.get("name") in ("main", "cft_program_main"): res.outs["stderr"] = obs(S.mem[ex.stderr])
    if cfg.stdout: res.outs["stdout"] = obs(S.mem[ex.stdout])
    res.calls = ex.calls
    res.inlined = ex.inlined
    return res

def is_const_ref(q):
    q = q.strip()
    b = q.rstrip("& ").strip()
    return b.startswith("const ") or b.endswith("const")

def diff(a, b):
    """Names (with field paths) of the outputs that differ."""
    out = []
    for k in sorted(set(a.outs) | set(b.outs)):
        x, y = a.outs.get(k), b.outs.get(k)
        if x is y: continue
        if x is None or y is None:
            out.append((k, x, y)); continue
        fielddiff(k, x, y, out)
    return out

def fielddiff(k, x, y, out):
    if x.op == "rec" and y.op == "rec" and (x.args[0] is y.args[0] or x.args[0] == y.args[0]):
        fx, fy = dict(x.args[1]), dict(y.args[1])
        base = x.args[0]
        for f in sorted(set(fx) | set(fy)):
            u = fx.get(f) if f in fx else (get(base, f) if isinstance(base, TT.T) else None)
            v = fy.get(f) if f in fy else (get(base, f) if isinstance(base, TT.T) else None)
            if u is v: continue
            if u is None or v is None: out.append((k + "." + f, u, v))
            else: fielddiff(k + "." + f, u, v, out)
        return
    if x.op == "rec" or y.op == "rec":
        tag, names = (x.args[0], x.args[1]) if x.op == "rec" else (y.args[0], y.args[1])
        if TT.complete_tag(tag) and (x.op != "rec" or y.op != "rec" ) and x.op != "ite" and y.op != "ite":
            for f, _ in names:
                u, v = get(x, f), get(y, f)
                if u is not v: fielddiff(k + "." + f, u, v, out)
            return
    out.append((k, x, y))
