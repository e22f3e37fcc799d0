"""Obligation discharge, jobs, lemmas, parallel runner."""
import os, sys, time, json, subprocess, tempfile, traceback, multiprocessing as mp
import z3
from core import *
from interp import *
import interp, core

CVC5 = "cvc5"
SCALE = float(os.environ.get("SMLV_SCALE", "1"))

# ---------------------------------------------------------------- lemmas and definitions on Prog
def define(prog, group, f, ty, cases, rest=()):
    """definition of f by cases on its first argument (a TData), constructor by constructor"""
    for i, (c, _) in enumerate(ty.cons):
        fs = [z3.Const(f"{c.replace(':', 'c')}{j}_", t.sort()) for j, t in enumerate(ty.fieldtys(i))]
        rs = [z3.Const(f"r{j}_", s) for j, s in enumerate(rest)]
        con = ty.sort().constructor(i)(*fs) if fs else ty.sort().constructor(i)()
        lhs = f(con, *rs)
        rhs = cases[c](*fs, *rs)
        if isinstance(rhs, (int, bool)): rhs = z3.IntVal(rhs) if not isinstance(rhs, bool) else z3.BoolVal(rhs)
        body = lhs == rhs
        vs = fs + rs
        prog.axiom(group, f"def {f.name()} {c}", z3.ForAll(vs, body, patterns=[lhs]) if vs else body)

class Lemma:
    def __init__(self, name, group, sorts, body, induct=None, patterns=None, uses=None, names=None, axiom_only=False, steps=None, extra=None):
        self.name, self.group, self.sorts, self.body, self.induct, self.patterns = name, group, sorts, body, induct, patterns
        self.uses, self.steps, self.extra = uses, steps, extra
        self.vars = [z3.Const((names[i] if names else f"v{i}") + "_", s) for i, s in enumerate(sorts)]
    def formula(self):
        b = self.body(*self.vars)
        if not self.vars: return b
        pats = self.patterns(*self.vars) if self.patterns else None
        if pats is None: return z3.ForAll(self.vars, b)
        pats = pats if isinstance(pats, list) else [pats]
        pats = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats]
        return z3.ForAll(self.vars, b, patterns=pats)

class Inst:
    """an instance of a lemma proved elsewhere, used as a step"""
    def __init__(self, lem, *args): self.f = lem.body(*args)

def lemma(prog, *a, **k):
    l = Lemma(*a, **k)
    prog.__dict__.setdefault("lemmas", []).append(l)
    l.pos = len(prog.axioms)
    prog.axiom(l.group, f"lemma {l.name}", l.formula())
    return l

# ---------------------------------------------------------------- discharge
_cnt = [0]
def check_z3(forms, timeout_ms, mbqi, extra=None):
    s = z3.SimpleSolver() if False else z3.Solver()
    s.set("timeout", int(timeout_ms))
    if not mbqi:
        s.set("auto_config", False); s.set("mbqi", False)
    s.set("random_seed", 7)
    for f in forms: s.add(f)
    r = s.check()
    m = None
    if r == z3.sat:
        try: m = s.model()
        except z3.Z3Exception: m = None
    return str(r), m

ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
         z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM, z3.Z3_OP_TO_REAL, z3.Z3_OP_XOR}
def abstract(f, memo):
    """non-arithmetic subterms become constants (drops facts, adds none)"""
    k = f.get_id()
    if k in memo: return memo[k][1]
    if z3.is_app(f):
        op = f.decl().kind()
        ch = f.children()
        if op in ARITH and (op != z3.Z3_OP_ITE or z3.is_int(f) or z3.is_bool(f) or z3.is_real(f)):
            r = f.decl()(*[abstract(c, memo) for c in ch]) if ch else f
            if op == z3.Z3_OP_AND: r = z3.And(*[abstract(c, memo) for c in ch])
            elif op == z3.Z3_OP_OR: r = z3.Or(*[abstract(c, memo) for c in ch])
            elif op == z3.Z3_OP_ADD: r = z3.Sum(*[abstract(c, memo) for c in ch])
            elif op == z3.Z3_OP_MUL: r = z3.Product(*[abstract(c, memo) for c in ch])
        elif op in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and (z3.is_arith(ch[0]) or z3.is_bool(ch[0])) and len(ch) == 2:
            x, y = abstract(ch[0], memo), abstract(ch[1], memo)
            r = x == y if op == z3.Z3_OP_EQ else x != y
        elif not ch and (z3.is_arith(f) or z3.is_bool(f)): r = f
        else: r = z3.FreshConst(f.sort(), "ab") if not (z3.is_arith(f) or z3.is_bool(f)) else (z3.FreshConst(f.sort(), "ab"))
    else: r = z3.FreshConst(f.sort(), "ab")
    memo[k] = (f, r)
    return r
def check_nl(forms, timeout_ms):
    memo = {}
    t = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", z3.With("simplify", som=True), "smt")
    s = t.solver()
    s.set("timeout", int(timeout_ms))
    try:
        for f in forms: s.add(abstract(f, memo))
        return str(s.check())
    except z3.Z3Exception: return "unknown"

def check_cvc5(forms, timeout_s):
    s = z3.Solver()
    for f in forms: s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    txt = txt.replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt); nm = fh.name
    try:
        p = subprocess.run([CVC5, f"--tlimit={int(timeout_s*1000)}", nm], capture_output=True, text=True, timeout=timeout_s + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(nm)

def split(g):
    if z3.is_and(g):
        out = []
        for c in g.children(): out += split(c)
        return out
    if z3.is_implies(g):
        a, b = g.children()
        bs = split(b)
        if len(bs) > 1: return [z3.Implies(a, x) for x in bs]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), g.var_name(i).replace("!", "_")) for i in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        return split(b)
    return [g]

def discharge(axs, pc, goal, timeout=None):
    """returns (status, back end, seconds, model text)"""
    t0 = time.time()
    T = (timeout or 10) * SCALE
    model = None
    for g in split(goal):
        ng = z3.Not(g)
        qf = [c for c in pc if not has_quant(c)]
        backend = None
        gq = has_quant(g)
        full = axs + pc + [ng]
        for eng, lim in (("qf", 1.0), ("e", 1.5), ("nl", 2), ("cvc5", 4), ("e", T), ("cvc5", T), ("nl", T / 2), ("mbqi", T)):
            lim *= SCALE if eng != "e" or lim != T else 1
            if eng in ("qf", "nl") and gq: continue
            if eng == "qf": r, m = check_z3(qf + [ng], lim * 1000, True)
            elif eng == "nl": r, m = check_nl(qf + [ng], lim * 1000), None
            elif eng == "e": r, m = check_z3(full, lim * 1000, False)
            elif eng == "cvc5": r, m = check_cvc5(full, lim), None
            else: r, m = check_z3(full, lim * 1000, True)
            if r == "unsat": backend = "cvc5" if eng == "cvc5" else "z3"; break
            if m is not None and eng in ("qf", "mbqi"): model = m
            if r == "sat" and eng == "qf" and not axs and not any(has_quant(c) for c in pc): break
        if backend is None:
            txt = model_text(model) if model is not None else ""
            return "failed", None, time.time() - t0, f"goal: {trunc(g)}\n{txt}"
    return "proved", backend or "z3", time.time() - t0, None

def trunc(t, n=600):
    s = str(t).replace("\n", " ")
    return s if len(s) < n else s[:n] + " ..."
def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append(f"  {d.name()} = {trunc(m[d], 200)}")
    return "\n".join(sorted(out)[:80])

# ---------------------------------------------------------------- jobs
class Job:
    def __init__(self, prog, target, host):
        self.prog, self.target, self.host = prog, target, host
        self.name = host
        self.c = prog.contracts[target]
        self.obs = []; self.exits = 0; self.exn_exits = 0
        self.owner = {}; self.seen_local = set(); self.rec_names = set()
        self.nfail = 0; self.nt = 0
        self.vac = None
        uses = self.c.uses
        self.axs = [f for g, n, f in prog.axioms if uses is None or g in uses]
        self.transit = 0
        self.paths = 0
        self.deadline = None
    def proving(self): return self.transit == 0
    def trivial(self, label):
        if self.proving(): self.obs.append((label, "proved", "simplify", 0.0, None))
    def oblige(self, cx, goal, label):
        if not self.proving(): return
        if self.nfail >= 3:
            self.obs.append((label, "skipped", None, 0.0, None)); return
        if self.deadline and time.time() > self.deadline:
            self.obs.append((label, "skipped", None, 0.0, "time")); self.nt += 1; return
        st, be, dt, info = discharge(self.axs, cx.pc, goal, self.c.timeout)
        if st != "proved":
            self.nfail += 1
            info = (info or "") + "\npath:\n" + "\n".join("  " + trunc(c, 300) for c in cx.pc if not has_quant(c))[:6000]
        self.obs.append((label, st, be, round(dt, 3), info))
        if os.environ.get("SMLV_V"): print(f"   [{st} {be} {dt:.2f}s] {label}", flush=True)
    def oblige_pure(self, hyps, goal, label):
        if not self.proving(): return
        if self.nfail >= 3 or (self.deadline and time.time() > self.deadline):
            self.obs.append((label, "skipped", None, 0.0, None)); return
        st, be, dt, info = discharge([], list(hyps), goal, self.c.timeout)
        if st != "proved": self.nfail += 1
        self.obs.append((label, st, be, round(dt, 3), info))
        if os.environ.get("SMLV_V"): print(f"   [{st} {be} {dt:.2f}s] {label}", flush=True)
    def local_vacuity(self, cx, c):
        if self.vac is None and self.proving():
            r, _ = check_z3([p for p in cx.pc if not has_quant(p)], 3000, True)
            r2, _ = check_z3(self.axs + cx.pc, 1500, False)
            self.vac = "ok" if (r != "unsat" and r2 != "unsat") else "contradictory precondition"

def run_job(prog, target, limit=300):
    """verify the function `target` (dotted path).  Enclosing functions are entered generically."""
    t0 = time.time()
    res = {"function": target, "status": None, "obligations": [], "detail": None}
    try:
        # find the host: longest prefix that is a top-level value
        parts = target.split(".")
        host = None
        for n in range(len(parts), 0, -1):
            p = ".".join(parts[:n])
            try: v = prog.value(p)
            except Shape: continue
            if isinstance(v, interp.Poison): raise Shape(v.why)
            host = p; hv = v; break
        if host is None: raise Shape(f"{target} not found")
        runner = None
        if not isinstance(hv, (Clo, Prim)): raise Shape(f"{host} is not a function")
        if isinstance(hv, Prim) or hv.args or hv.path != host:
            runner = hv
            hv = Clo(host, [], hv.env if isinstance(hv, Clo) else prog.top, 0)
        hc = prog.contracts.get(host)
        if hc is None: raise Shape(f"host {host} of {target} has no contract")
        job = Job(prog, target, host)
        job.deadline = t0 + limit
        work = [[]]
        while work:
            if len(job.obs) > 20000 or time.time() - t0 > limit: raise Shape(f"{target}: exploration limit reached")
            prefix = work.pop()
            cx = Ctx(prog, prefix, job)
            cx.nid = prog.loadcx.nid
            cx.heap = {k: v.copy() for k, v in prog.loadcx.heap.items()}
            job.name = host; job.transit = 0; job.paths += 1
            try:
                if host == target:
                    interp.verify_body(cx, hc, hv, runner)
                else:
                    job.transit = 1
                    interp.verify_body(cx, hc, hv, runner)
            except (Infeasible, PathDone): pass
            except SMLRaise: 
                if job.transit == 0: raise Shape("uncaught exception")
            work += cx.pending
            if job.nfail >= 3: break
        if job.exits == 0 and job.nfail == 0: raise Shape(f"{target}: no path through the function was found")
        failed = [o for o in job.obs if o[1] == "failed"]
        res["obligations"] = job.obs
        res["paths"] = job.paths
        if job.vac != "ok": res["status"] = "vacuous"; res["detail"] = job.vac or "precondition never reached"
        elif failed: res["status"] = "failed"
        elif any(o[1] == "skipped" for o in job.obs): res["status"] = "unknown"; res["detail"] = "time limit"
        else: res["status"] = "proved"
    except Shape as e:
        res["status"] = "shape"; res["detail"] = str(e)
        if os.environ.get("SMLV_V"): traceback.print_exc()
    except RecursionError as e:
        res["status"] = "shape"; res["detail"] = "recursion"
    except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, ValueError) as e:
        res["status"] = "shape"; res["detail"] = f"{type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-1500:]
    res["time"] = round(time.time() - t0, 2)
    return res

def run_lemma(prog, l):
    t0 = time.time()
    axs = [f for i, (g, n, f) in enumerate(prog.axioms) if i < l.pos and (l.uses is None or g in l.uses)]
    obs = []
    vs = l.vars
    def go(pc, goal, label):
        st, be, dt, info = discharge(axs, pc, goal, 20)
        obs.append((label, st, be, round(dt, 3), info))
    consts = [z3.Const(f"{v.decl().name()}c", v.sort()) for v in vs]
    if l.induct is None:
        pc = [x for x in (l.steps(*consts) if l.steps else [])]
        go([], l.body(*consts), f"lemma {l.name}") if not pc else None
        if pc:
            acc = []
            for i, stp in enumerate(pc):
                if isinstance(stp, Inst): acc = acc + [stp.f]
                else: go(acc, stp, f"lemma {l.name}: step {i+1}"); acc = acc + [stp]
            go(acc, l.body(*consts), f"lemma {l.name}")
    elif l.induct[0] == "nat":
        k = l.induct[1]
        n = consts[k]
        qv = [z3.Const(f"{v.decl().name()}q", v.sort()) for v in vs]
        ihb = l.body(*qv)
        meas = l.induct[2] if len(l.induct) > 2 else (lambda *a: a[k])
        pats = l.patterns(*qv) if l.patterns else None
        ihp = {}
        if pats is not None:
            pats = pats if isinstance(pats, list) else [pats]
            ihp = dict(patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
        ih = z3.ForAll(qv, z3.Implies(z3.And(0 <= meas(*qv), meas(*qv) < meas(*consts)), ihb), **ihp)
        pc = [ih] + ([x for x in l.extra(*consts)] if l.extra else [])
        if l.steps:
            acc = list(pc)
            for i, stp in enumerate(l.steps(*consts)):
                if isinstance(stp, Inst): acc = acc + [stp.f]
                else: go(acc, stp, f"lemma {l.name}: step {i+1}"); acc = acc + [stp]
            pc = acc
        go(pc, l.body(*consts), f"lemma {l.name}")
    else:
        ty, k = l.induct[0], l.induct[1]
        for i, (c, _) in enumerate(ty.cons):
            fs = [z3.Const(f"f{j}!", t.sort()) for j, t in enumerate(ty.fieldtys(i))]
            con = ty.sort().constructor(i)(*fs) if fs else ty.sort().constructor(i)()
            ihs = []
            for f, t in zip(fs, ty.fieldtys(i)):
                if t is ty:
                    qv = [z3.Const(f"{v.decl().name()}q", v.sort()) for v in vs]
                    args = [f if j == k else qv[j] for j in range(len(vs))]
                    b = l.body(*args)
                    oq = [qv[j] for j in range(len(vs)) if j != k]
                    pats = None
                    if oq and l.patterns:
                        pats = l.patterns(*args)
                        pats = pats if isinstance(pats, list) else [pats]
                        pats = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats]
                    ihs.append((z3.ForAll(oq, b, patterns=pats) if pats else z3.ForAll(oq, b)) if oq else b)
            args = [con if j == k else consts[j] for j in range(len(vs))]
            acc = ihs
            if l.steps:
                for i2, stp in enumerate(l.steps(*args)):
                    if isinstance(stp, Inst): acc = acc + [stp.f]
                    else: go(acc, stp, f"lemma {l.name}: case {c} step {i2+1}"); acc = acc + [stp]
            go(acc, l.body(*args), f"lemma {l.name}: case {c}")
    failed = [o for o in obs if o[1] != "proved"]
    return {"function": f"lemma {l.name}", "status": "failed" if failed else "proved", "obligations": obs, "detail": None, "time": round(time.time() - t0, 2), "lemma": True}

_P = [None]
def _work(item):
    kind, x = item
    try:
        if kind == "lemma": return run_lemma(_P[0], _P[0].lemmas[x])
        return run_job(_P[0], x)
    except Exception as e:
        return {"function": str(x), "status": "shape", "detail": f"{type(e).__name__}: {e}", "obligations": [], "time": 0, "trace": traceback.format_exc()[-1500:]}

def run_all(prog, only=None, procs=8, wall=600, exact=False):
    items = [("lemma", i) for i, l in enumerate(getattr(prog, "lemmas", []))] + [("fun", n) for n in prog.contracts if ">" not in n and not getattr(prog.contracts[n], "assumed", False)]
    if only and exact: items = [it for it in items if (it[1] if it[0] == "fun" else "lemma " + prog.lemmas[it[1]].name) in only]
    elif only: items = [it for it in items if (it[0] == "fun" and any(o in it[1] for o in only)) or (it[0] == "lemma" and any(o in "lemma " + prog.lemmas[it[1]].name for o in only))]
    _P[0] = prog
    out = []
    cost = getattr(prog, "cost", {})
    items.sort(key=lambda it: -cost.get(it[1], 0))
    if procs == 1 or len(items) == 1:
        return [_work(it) for it in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(items)), maxtasksperchild=None) as pool:
        rs = [pool.apply_async(_work, (it,)) for it in items]
        end = time.time() + wall
        for it, r in zip(items, rs):
            try: out.append(r.get(max(1, end - time.time())))
            except mp.TimeoutError:
                nm = it[1] if it[0] == "fun" else "lemma " + prog.lemmas[it[1]].name
                out.append({"function": nm, "status": "unknown", "detail": "wall-clock limit", "obligations": [], "time": wall})
        pool.terminate()
    return out
