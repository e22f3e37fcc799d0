"""Signals and run-time requests: every signal is counted and delivered once, an interrupted program resumes exactly where it was, and each request of ML code is served and answered."""
from mlspec import *
from ctables import *
import cbuild
from c_objects import fo, s64
G = Group("signal")
SU, US, RM, MS, SL = "mach-dep/signal-util.c", "mach-dep/unix-signal.c", "kernel/run-ml.c", "kernel/ml-state.c", "c-libs/smlnj-signals/"
JANY, XANY, SANY = z3.BitVec("any_signal_index", 64), z3.BitVec("any_offset", 64), z3.BitVec("any_signal", 32)
_sc = None
def sconst(k):
    """constants of the generated table of signals"""
    global _sc
    if _sc is None:
        t = open(os.path.join(cbuild.scratch(), "runtime/objs/system-signals.h")).read(); import re
        _sc = {m.group(1): int(m.group(2)) for m in re.finditer(r"#define (\w+)\s+(-?\d+)", t)}
    return _sc[k]
def vf(eng, f): return fo(eng, "vproc_state", f)
def V(st, f, rg=None):
    o, n = vf(st.eng, f); return st.loadr(rg or st.regions["vproc"], o, n)
def vproc(eng, st):
    b = st.region("vproc", None, kind="heapd"); st.ghost["v0"] = st.regions["vproc"].copy()
    st.assume(z3.And(z3.Extract(2, 0, XANY) == 0, XANY >= 0, XANY < 1 << 16))
    return b
def cnt(st, i, k, rg=None):
    """counts[i].nReceived (k = 0) or nHandled (k = 1)"""
    return st.loadr(rg or st.regions["vproc"], simp(vf(st.eng, "vp_sigCounts")[0] + i * 16 + 8 * k), 8)
def tot(st, k, rg=None): return st.loadr(rg or st.regions["vproc"], vf(st.eng, "vp_totalSigCount")[0] + 8 * k, 8)
def vframe(r, touched, label="nothing else of the processor's state changes"):
    """no word of the vproc state changes except those at the offsets touched"""
    st = r.st; s = st.fork_done(); off = XANY
    try: s.assume(z3.And(*[z3.Not(z3.And(off >= (simp(bvof(o) & ~7) if not isinstance(o, int) else o & ~7), off < bvof(o) + n)) for o, n in touched]))
    except Dead: return
    r.eng.prove(s, s.loadr(s.regions["vproc"], off, 8) == s.loadr(s.ghost["v0"], off, 8), r.name(label))
def inrange(i): return z3.And(i >= sconst("MIN_SYSTEM_SIG"), i < sconst("SIGMAP_SZ"))
# ------------------------------------------------------------ receiving a signal
def hargs(eng, st, A):
    vb = vproc(eng, st); eng.gaddr(st, "VProc", eng.mods[0]); g = st.regions["g:VProc"]; g.fix = {0: vb}; g.writable = False
    s = z3.BitVec("sig", 32); st.assume(z3.And(s >= sconst("MIN_SYSTEM_SIG"), s <= sconst("MAX_SYSTEM_SIG")))
    c = st.region("context", cbuild.probe(["ucontext.h"], ["sizeof(ucontext_t)"])[0], kind="cobj"); st.ghost["c0"] = st.regions["context"].copy(); i = st.region("siginfo", 128, kind="cobj", writable=False)
    return [s, i, c]
def handlerfree(st): v = st.ghost["v0"]; return z3.And(V(st, "vp_inMLFlag", v) != 0, V(st, "vp_handlerPending", v) == 0, V(st, "vp_inSigHandler", v) == 0)
def received(r, i):
    st = r.st; v0 = st.ghost["v0"]
    r.eq(cnt(st, i, 0), cnt(st, i, 0, v0) + 1, "the signal is counted once"); r.eq(tot(st, 0), tot(st, 0, v0) + 1, "the total is counted once")
    return [(simp(vf(r.eng, "vp_sigCounts")[0] + i * 16), 8), (vf(r.eng, "vp_totalSigCount")[0], 8)]
def hpost(r):
    st = r.st; i = s64(z3.BitVec("sig", 32)); touched = received(r, i); o, n = vf(r.eng, "vp_limitPtrMask")
    r.eq(V(st, "vp_limitPtrMask"), 0, "C code that returns to ML finds its limit cleared"); touched.append((o, n))
    R14 = cbuild.probe(["stddef.h", "ucontext.h"], ["offsetof(ucontext_t, uc_mcontext.gregs[0]) + 8 * REG_R14"])[0]; c = st.regions["context"]
    if r.case(handlerfree(st)):
        r.prove(V(st, "vp_handlerPending") != 0, "running ML code: the handler is pending"); touched.append(vf(r.eng, "vp_handlerPending"))
        r.eq(st.loadr(c, R14, 8), 0, "running ML code: its heap limit is cleared so that it stops soon"); keep = XANY != R14
    else: keep = z3.BoolVal(True)
    s = st.fork_done(); s.assume(z3.And(keep, z3.ULT(XANY, BV(cbuild.probe(["ucontext.h"], ["sizeof(ucontext_t)"])[0] & ~7))))
    r.eng.prove(s, s.loadr(c, XANY, 8) == s.loadr(st.ghost["c0"], XANY, 8), r.name("the interrupted code's other registers are not changed"))
    vframe(r, touched)
G.add(US, "CSigHandler", None, hpost, args=hargs, msp=False)
def gcargs(eng, st, A): return [vproc(eng, st), z3.BitVec("nGen", 32)]
def gcpost(r):
    st = r.st; v0 = st.ghost["v0"]; GC = sconst("RUNSIG_GC")
    if r.case(z3.And(V(st, "vp_gcSigState", v0) == 2, z3.BitVec("nGen", 32) >= V(st, "vp_gcSigThreshold", v0), z3.Not(z3.And(V(st, "vp_inSigHandler", v0) != 0, V(st, "vp_sigCode", v0) == GC)))):
        touched = received(r, BV(GC))
        if r.case(handlerfree(st)): r.prove(V(st, "vp_handlerPending") != 0, "running ML code: the handler is pending"); touched.append(vf(r.eng, "vp_handlerPending"))
        vframe(r, touched)
    else: vframe(r, [], "a collection that is not signalled changes nothing")
G.add(SU, "GCSignal", None, gcpost, args=gcargs, msp=False)
# ------------------------------------------------------------ choosing the signal to deliver
def dist(i, start): return z3.If(i > start, i - start, i - start + (sconst("SIGMAP_SZ") - sconst("MIN_SYSTEM_SIG")))
def pend(st, i, rg=None): return cnt(st, i, 0, rg) - cnt(st, i, 1, rg)
PANY = z3.BitVec("pending_signal", 64)
def chargs(eng, st, A):
    b = vproc(eng, st); v0 = st.ghost["v0"]; n = s64(V(st, "vp_nextPendingSig")); st.assume(inrange(n)); st.ghost["start"] = n
    for i in (PANY, JANY): st.assume(inrange(i)); st.assume(z3.ULT(pend(st, i), BV(1 << 31)))
    st.assume(pend(st, PANY) != 0)
    return [b]
def chinv(L):
    st = L.st; n0 = st.ghost["start"]; i = s64(L.get("i", 4)); k = BV(0) if L.phase == "entry" else st.ghost["k"] if L.phase == "assume" else simp(st.ghost["k"] + 1)
    N = sconst("SIGMAP_SZ") - sconst("MIN_SYSTEM_SIG")
    return [("position", z3.And(k >= 0, k < N, i == z3.If(n0 + k < sconst("SIGMAP_SZ"), n0 + k, n0 + k - N))), ("a pending signal is ahead", k < dist(PANY, n0)), ("the signals so far are not pending", z3.Implies(dist(JANY, n0) <= k, pend(st, JANY) == 0))]
def chsetup(L): k = L.st.fresh("k"); L.st.ghost["k"] = k
def chpost(r):
    st = r.st; v0 = st.ghost["v0"]; n0 = st.ghost["start"]; c = V(st, "vp_sigCode"); i = s64(c); d = pend(st, i, v0)
    r.prove(inrange(i), "the chosen signal is a signal"); r.prove(z3.Extract(31, 0, d) != 0, "the chosen signal is pending")
    r.prove(z3.Implies(dist(JANY, n0) < dist(i, n0), pend(st, JANY, v0) == 0), "no pending signal is passed over")
    small = z3.ULT(d, BV(1 << 31))
    r.prove(z3.Implies(small, s64(V(st, "vp_sigCount")) == d), "the handler is told how many were received")
    r.prove(z3.Implies(small, cnt(st, i, 1) == cnt(st, i, 0, v0)), "all of them count as handled"); r.prove(z3.Implies(small, tot(st, 1) == tot(st, 1, v0) + d), "total handled")
    r.eq(V(st, "vp_nextPendingSig"), c, "the next search starts after this signal")
    vframe(r, [(simp(vf(r.eng, "vp_sigCounts")[0] + i * 16 + 8), 8), (vf(r.eng, "vp_totalSigCount")[0] + 8, 8)] + [vf(r.eng, f) for f in ("vp_sigCode", "vp_sigCount", "vp_nextPendingSig")])
    for f in ("vp_gcSigState", "vp_gcSigThreshold"): r.eq(V(st, f), V(st, f, v0), f"{f} stays")
G.add(SU, "ChooseSignal", None, chpost, args=chargs, loops={"ChooseSignal": Loop(chinv, setup=chsetup, dec=lambda L: simp(64 - L.st.ghost["k"] - (1 if L.phase == "kept" else 0)))}, msp=False, bound=0)
# ------------------------------------------------------------ the handler's argument and resumption
REGS = ("arg", "cont", "closure", "linkReg", "pc", "exnCont")
def regoff(eng):
    o = [fo(eng, "ml_state", "ml_" + f)[0] for f in REGS]; c = fo(eng, "ml_state", "ml_calleeSave")[0]; return o + [c, c + 8, c + 16]
def mregs(st, rg=None): return [st.loadr(rg or st.regions["msp"], o, 8) for o in regoff(st.eng)]
def mframe(r, touched, base=None, label="no other register changes"):
    st = r.st; s = st.fork_done(); o = XANY
    try: s.assume(z3.And(z3.ULT(o, BV(160)), *[o != t for t in touched]))
    except Dead: return
    r.eng.prove(s, s.loadr(s.regions["msp"], o, 8) == s.loadr(base or st.ghost["m0"], o, 8), r.name(label))
def xany(st): st.assume(z3.And(z3.Extract(2, 0, XANY) == 0, XANY >= 0, XANY < 1 << 16))
def rargs(eng, st, A):
    xany(st); b = st.region("resume", None, kind="cobj", writable=False); m = st.regions["msp"]; st.ghost["m0"] = m.copy()
    return [m.base, b]
def resumecont(r, v, regs, what):
    st = r.st; o, off = r.obj(v, what); b = st.regions["resume"].base
    r.eq(st.loadr(o, r.sub8(off), 8), DESC(10, "record"), f"{what}: a record of ten words"); r.eq(st.loadr(o, off, 8), b, f"{what}: code")
    for k, (w, nm) in enumerate(zip(regs, REGS + ("calleeSave0", "calleeSave1", "calleeSave2"))): r.eq(st.loadr(o, r.add(off, 8 * k + 8), 8), w, f"{what}: holds register {nm}")
def apost(r, words):
    st = r.st; ap = r.eng.off["allocPtr"]; r.eq(r.field("allocPtr"), st.regions["alloc"].base + 8 * words, "the allocation pointer moves past the new objects"); mframe(r, [ap])
def rpost(r): resumecont(r, r.ret, mregs(r.st, r.st.ghost["m0"]), "resumption closure"); apost(r, 11)
G.add(SU, "MakeResumeCont", None, rpost, args=rargs)
def mhargs(eng, st, A):
    a = rargs(eng, st, A); vb = vproc(eng, st); m = st.regions["msp"]; m.fix = {**m.fix, fo(eng, "ml_state", "ml_vproc")[0]: vb}; st.ghost["m0"] = m.copy(); return a
def mhpost(r):
    st = r.st; v0 = st.ghost["v0"]
    r.match(r.ret, eRec(eInt(s64(V(st, "vp_sigCode", v0))), eInt(s64(V(st, "vp_sigCount", v0))), lambda r, v, w: resumecont(r, v, mregs(st, st.ghost["m0"]), "resumption closure")), "the handler's argument")
    apost(r, 15); vframe(r, [])
G.add(SU, "MakeHandlerArg", None, mhpost, args=mhargs)
def ldargs(eng, st, A):
    xany(st); b = st.region("closure", 80, kind="ml", writable=False, lo=-8); m = st.regions["msp"]; m.fix = {**m.fix, eng.off["closure"]: b}; st.ghost["m0"] = m.copy(); return [m.base]
def ldpost(r):
    st = r.st; c = st.regions["closure"]
    for k, (w, nm) in enumerate(zip(mregs(st), REGS + ("calleeSave0", "calleeSave1", "calleeSave2"))): r.eq(w, st.loadr(c, 8 * k + 8, 8), f"register {nm} is the one that was saved")
    mframe(r, regoff(r.eng))
G.add(SU, "LoadResumeState", None, ldpost, args=ldargs)
# ------------------------------------------------------------ signal states
SA = cbuild.probe(["stddef.h", "signal.h"], ["sizeof(struct sigaction)", "offsetof(struct sigaction, sa_mask)", "offsetof(struct sigaction, sa_flags)", "SA_SIGINFO", "SIG_SETMASK", "sizeof(sigset_t)"])
def inset(st, lab): return st.ghost.get(("set", lab))
def setptr(x, i):
    rg, off = x.st.resolve(x.args[i]); return rg, num(off)
def s_empty(v):
    def h(x):
        rg, off = setptr(x, 0); x.st._bounds_n(rg, bvof(off), BV(SA[5]), f"{x.fr.f.name} -> {x.name}: the set"); x.st.ghost["set", rg.label, off] = z3.BoolVal(v); return BV(0, 32)
    return h
def s_add(x):
    rg, off = setptr(x, 0); k = ("set", rg.label, off)
    if k not in x.st.ghost: x.require(False, "the set is initialized"); raise Dead()
    x.require(z3.And(x.args[1] >= 1, x.args[1] <= 64), "a signal number")
    x.st.ghost[k] = z3.Or(x.st.ghost[k], x.args[1] == SANY); return BV(0, 32)
ISMEM = z3.Function("in_mask", z3.BitVecSort(32), z3.BoolSort())
def s_ismem(x):
    rg, off = setptr(x, 0)
    if x.st.ghost.get(("setof", rg.label, off)) is None: raise Shape("a set that was not read")
    return z3.If(ISMEM(x.args[1]), BV(1, 32), BV(0, 32))
def s_sigaction(x):
    st = x.st; e = x.event(BV(0, 32))
    if num(x.args[1]) != 0 and not st.entails(x.args[1] == 0):
        rg, off = setptr(x, 1); st._bounds_n(rg, bvof(off), BV(SA[0]), f"{x.fr.f.name} -> {x.name}: the action"); e.out["act"] = (st.loadr(rg, off, 8), st.loadr(rg, off + SA[2], 4), st.ghost.get(("set", rg.label, off + SA[1])))
    if num(x.args[2]) != 0 and not st.entails(x.args[2] == 0):
        rg, off = setptr(x, 2); st._bounds_n(rg, bvof(off), BV(SA[0]), f"{x.fr.f.name} -> {x.name}: the action"); st.havoc(rg.label); st.storer(rg, off, z3.BitVec("handler", 64), 8); e.out["old"] = True
    return e.ret
def s_procmask(x):
    st = x.st; e = x.event(BV(0, 32))
    if num(x.args[1]) != 0: rg, off = setptr(x, 1); e.out["new"] = st.ghost.get(("set", rg.label, off))
    if num(x.args[2]) != 0: rg, off = setptr(x, 2); st.ghost["setof", rg.label, off] = True; e.out["old"] = True
    return e.ret
SIGST = {"sigemptyset": s_empty(False), "sigfillset": s_empty(True), "sigaddset": s_add, "sigismember": s_ismem, "sigaction": s_sigaction, "sigprocmask": s_procmask, "pause": sysc(), "Die": lambda x: x.event()}
def ssargs(*states):
    def args(eng, st, A):
        b = vproc(eng, st); s, t = z3.BitVec("sigNum", 32), z3.BitVec("sigState", 32)
        st.assume(z3.Or(z3.And(s >= sconst("MIN_SYSTEM_SIG"), s <= sconst("MAX_SYSTEM_SIG")), s == sconst("RUNSIG_GC"))); st.assume(z3.And(t >= 0, t <= 2))
        return [b, s, t]
    return args
def sspost(r):
    st = r.st; s, t = z3.BitVec("sigNum", 32), z3.BitVec("sigState", 32)
    if r.case(s == sconst("RUNSIG_GC")):
        if r.effects(): r.fail("the collection signal is not a system signal")
        r.eq(V(st, "vp_gcSigState"), t, "the state of the collection signal is set"); vframe(r, [vf(r.eng, "vp_gcSigState")])
        for f in ("vp_sigCode", "vp_sigCount", "vp_nextPendingSig", "vp_gcSigThreshold"): r.eq(V(st, f), V(st, f, st.ghost["v0"]), f"{f} stays")
        return
    e = r.sys("sigaction", s); act = e.out.get("act")
    if act is None: r.fail("an action is installed")
    h, fl, mask = act
    if mask is None: r.fail("the mask of the action is set")
    r.prove(mask, "every signal is blocked while the handler runs")
    if r.case(t == 2):
        if num(simp(h)) is not None: r.fail("an enabled signal is caught by the run-time system's handler")
        f = r.eng.gaddr(st, "CSigHandler", r.eng.mods[0]); r.eq(h, f, "an enabled signal is caught by the run-time system's handler")
        r.prove((fl & SA[3]) != 0, "the handler gets the interrupted context"); r.prove((fl & ~BV(SA[3], 32)) == 0, "no other flags")
    else:
        r.eq(h, z3.If(t == 0, BV(1), BV(0)), "an ignored or default signal is ignored or reset"); r.eq(fl, 0, "no flags")
    vframe(r, [])
G.add(US, "SetSignalState", None, sspost, args=ssargs(), stubs=SIGST, msp=False)
def gspost(r):
    st = r.st; s = z3.BitVec("sigNum", 32); h = z3.BitVec("handler", 64)
    if r.case(s == sconst("RUNSIG_GC")):
        if r.effects(): r.fail("the collection signal is not a system signal")
        r.eq(r.ret, V(st, "vp_gcSigState", st.ghost["v0"]), "the state of the collection signal")
    else:
        e = r.sys("sigaction", s, 0)
        if not e.out.get("old"): r.fail("the current action is read")
        r.eq(r.ret, z3.If(h == 1, BV(0, 32), z3.If(h == 0, BV(1, 32), BV(2, 32))), "the state of the signal")
    vframe(r, [])
G.add(US, "GetSignalState", None, gspost, args=lambda eng, st, A: ssargs()(eng, st, A)[:2], stubs=SIGST, msp=False)
# ------------------------------------------------------------ signal masks
INL = z3.Function("in_list", z3.BitVecSort(64), z3.BoolSort())      # SANY is among the first i elements
def lists(): return tList("pair", ok=lambda k, v: z3.And(v >= 1, v <= 64) if k == 32 else z3.BoolVal(True))
def eltno(L, i): a = L.eng.A.v; return z3.Extract(31, 0, a.sel(i, 32) >> 1)
def maskkey(L): return next(k for k in L.st.ghost if isinstance(k, tuple) and k[0] == "set")
def smpos(L): return BV(0) if L.phase == "entry" else L.st.ghost["i"] if L.phase == "assume" else simp(L.st.ghost["i"] + 1)
def sminv(L):
    st = L.st; a = L.eng.A.v; i = smpos(L)
    if L.phase == "entry": st.assume(z3.Not(INL(BV(0))))
    out = [("position", z3.And(i >= 0, i <= a.n)), ("next element", L.get("sigList") == a.at(i)), ("the mask holds the signals of the list so far", st.ghost[maskkey(L)] == INL(i))]
    return out
def smsetup(L):
    st = L.st; a = L.eng.A.v; i = st.fresh("i"); st.ghost["i"] = i; st.assume(z3.And(i >= 0, i <= a.n)); L.set("sigList", a.at(i)); st.ghost[maskkey(L)] = INL(i)
    st.assume(INL(simp(i + 1)) == z3.Or(INL(i), eltno(L, i) == SANY))       # definition of in_list
def siginfo(eng, st):
    """the table of signals of the system"""
    eng.gaddr(st, "SigInfo", eng.mods[0]); return st.regions["g:SigInfo"]
def smpost(r):
    st = r.st; e = r.sys("sigprocmask", BV(SA[4], 32), None, 0); m = e.out.get("new")
    if m is None: r.fail("the mask is set")
    if r.A.v is None: r.prove(z3.Not(m), "NONE: no signal is masked")
    elif r.case(r.A.v.n == 0):
        ids = [st.loadr(siginfo(r.eng, st), 16 * k, 4) for k in range(sconst("NUM_SYSTEM_SIGS"))]
        r.prove(m == z3.Or(*[SANY == i for i in ids]), "SOME []: every signal of the table is masked")
    else: r.prove(m == INL(r.A.v.n), "SOME l: exactly the signals of the list are masked")
G.add(US, "SetSignalMask", OPT(lists()), smpost, args=lambda eng, st, A: [A.hdr], stubs=SIGST, consts=("SigInfo",), loops={("SetSignalMask", 1): Loop(sminv, mods=["auto"], setup=smsetup, dec=lambda L: simp(L.eng.A.v.n - L.st.ghost["i"] - (1 if L.phase == "kept" else 0)))}, bound=4)
# reading the mask
def idat(st, eng, i): return st.loadr(siginfo(eng, st), simp(i * 16), 4)
def gmcount(L):
    st = L.st; i, n = s64(L.get("i", 4)), s64(L.get("n", 4)); m = lambda j: ISMEM(idat(st, L.eng, j)); J = JANY; NS = sconst("NUM_SYSTEM_SIGS")
    return [("position", z3.And(i >= 0, i <= NS)), ("at most one per signal", z3.And(n >= 0, n <= i)), ("a masked signal is counted", z3.Implies(z3.And(J < i, m(J)), n >= 1)), ("a signal that is not masked is not counted", z3.Implies(z3.And(J < i, z3.Not(m(J))), n < i)),
            ("the count of all", z3.Implies(n == i, z3.Or(J >= i, m(J))))]
def gmbuild(L):
    st = L.st; i = s64(L.get("i", 4)); NS = sconst("NUM_SYSTEM_SIGS"); p = L.get("sigList"); out = [("position", z3.And(i >= 0, i <= NS))]
    if L.phase == "entry": return out + [("starts with the empty list", p == 1), ("starts with the first signal", i == 0)]
    if L.phase == "assume": return out
    old, k = st.ghost["gm"]; r = R(L.eng, st, L.eng.A, None, L.eng.spec)
    r.prove(i == k + 1, "one signal per round")
    if r.case(ISMEM(idat(st, L.eng, k))):
        def tl(r, v, what): r.prove(v == old, f"{what}: the signals before it"); r.notstale(v, what)
        r.match(p, eRec(eRec(eInt(s64(idat(st, L.eng, k))), eCStr(st.loadr(siginfo(L.eng, st), simp(k * 16 + 8), 8))), tl), "a masked signal: its number and name, in front of the others")
    else: r.prove(p == old, "a signal that is not masked is not in the list")
    return out
def gmsetup(L):
    st = L.st; st.nf += 1; b = st.region(f"list{st.nf}", None, kind="mlnew", writable=False, lo=-8); i = s64(L.get("i", 4)); st.assume(z3.And(i >= 0, i <= sconst("NUM_SYSTEM_SIGS")))
    v = simp(z3.If(z3.Bool("none_yet"), BV(1), b)); L.set("sigList", v); st.ghost["gm"] = (v, simp(i)); st.ghost["gmend"] = (v, i)
def gmargs(eng, st, A): siginfo(eng, st); st.assume(z3.And(JANY >= 0, JANY < sconst("NUM_SYSTEM_SIGS"))); return [st.regions["msp"].base]
def gmpost(r):
    st = r.st; e = r.sys("sigprocmask", None, 0)
    if not e.out.get("old"): r.fail("the mask is read")
    mJ = ISMEM(idat(st, r.eng, JANY)); g = st.ghost.get("gmend")
    if r.case(r.ret == 1): r.prove(z3.Not(mJ), "NONE: no signal is masked"); return
    def lst(r, v, what):
        if g is not None and st.entails(v == g[0]): r.eq(g[1], sconst("NUM_SYSTEM_SIGS"), "SOME l: every signal of the table was looked at"); return
        r.prove(v == 1, "SOME []"); r.prove(mJ, "SOME []: every signal is masked")
    r.match(r.ret, eSome(lst), "result")
G.add(US, "GetSignalMask", None, gmpost, args=gmargs, stubs=SIGST, consts=("SigInfo",), loops={("GetSignalMask", 0): Loop(gmcount, mods=["auto"]), ("GetSignalMask", 1): Loop(gmbuild, mods=["auto", "alloc*"], setup=gmsetup)}, bound=0)
def lspost(r):
    e = r.one("ML_SysConstList"); o, off = r.st.resolve(e.args[1])
    if o.label != "g:SigTbl" or num(off) != 0: r.fail("the table of signals")
    r.eq(r.ret, e.ret, "result")
G.add(US, "ListSignals", None, lspost, args=lambda eng, st, A: [st.regions["msp"].base], stubs=SIGST)
def tblcheck(mod):
    """the table that SML sees: all signals, each name with the number of the system"""
    es = table(mod, "SigInfo"); n = sconst("NUM_SYSTEM_SIGS") + 1; t = mod.globals["SigTbl"]; f = [q[1] for q in t.init[2]]
    names = [nm.decode() for nm, i in es]; sysn = [x for x in names if x != "GC"]; probe = dict(zip(sysn, cbuild.probe(["signal.h"], ["SIG" + x for x in sysn])))
    for nm, i in zip(names, (i for _, i in es)): yield f"signals: {nm} has its number", i == (sconst("RUNSIG_GC") if nm == "GC" else probe[nm]), f"{i}"
    for nm in "HUP INT QUIT ALRM TERM USR1 USR2 CHLD WINCH URG IO TSTP CONT TTIN TTOU VTALRM PIPE GC".split(): yield f"signals: {nm} is in the table", names.count(nm) == 1, f"{names.count(nm)} times"
    yield "signals: the system's signals come first", names[-1] == "GC" and len(es) == n, f"{names}"
    yield "signals: the table has all entries", f[0][2] == len(es), f"{f[0]}"
    yield "signals: the table is the table of signals", f[1][1] == "SigInfo", f"{f[1]}"
G.check(US, "SigTbl", tblcheck)
def pspost(r): r.sys("pause"); r.eng.ok(r.name("waits for a signal"))
G.add(US, "PauseUntilSignal", None, pspost, args=lambda eng, st, A: [vproc(eng, st)], stubs=SIGST, msp=False)
# the ML-callable functions
def onvp(eng, st, A): b = st.region("vproc", None, kind="heapd"); m = st.regions["msp"]; m.fix = {**m.fix, fo(eng, "ml_state", "ml_vproc")[0]: b}
SIGNO = tInt(-(1 << 31), (1 << 31) - 1)
def ev(ret=None):
    def h(x): x.event(r := (None if x.isvoid() else ret(x) if ret else x.fresh("r_" + x.name))); return r
    return h
@G.fn(SL + "setsigstate.c", "_ml_Sig_setsigstate", REC(REC(SIGNO, ANY), SIGNO), pre=onvp, stubs={"SetSignalState": ev()})
def _(r): r.sys("SetSignalState", r.st.regions["vproc"].base, z3.Extract(31, 0, r.A[0][0]), z3.Extract(31, 0, r.A[1])); r.match(r.ret, eUnit())
@G.fn(SL + "getsigstate.c", "_ml_Sig_getsigstate", REC(SIGNO, ANY), pre=onvp, stubs={"GetSignalState": ev()})
def _(r): e = r.sys("GetSignalState", r.st.regions["vproc"].base, z3.Extract(31, 0, r.A[0])); r.match(r.ret, eInt(s64(e.ret)))
@G.fn(SL + "setsigmask.c", "_ml_Sig_setsigmask", ANY, stubs={"SetSignalMask": ev()})
def _(r): r.sys("SetSignalMask", r.raw); r.match(r.ret, eUnit())
@G.fn(SL + "getsigmask.c", "_ml_Sig_getsigmask", ANY, stubs={"GetSignalMask": ev()})
def _(r): e = r.sys("GetSignalMask", r.st.regions["msp"].base); r.eq(r.ret, e.ret, "result")
@G.fn(SL + "listsignals.c", "_ml_Sig_listsigs", ANY, stubs={"ListSignals": ev()})
def _(r): e = r.sys("ListSignals", r.st.regions["msp"].base); r.eq(r.ret, e.ret, "result")
@G.fn(SL + "pause.c", "_ml_Sig_pause", ANY, pre=onvp, stubs={"PauseUntilSignal": ev()})
def _(r): r.sys("PauseUntilSignal", r.st.regions["vproc"].base); r.match(r.ret, eUnit())
G.bind("smlnj-signals", "smlnj-sig-lib.c")
# ------------------------------------------------------------ requests of ML code
_REQ = dict(GC=0, RETURN=1, EXN=2, FAULT=3, BIND_CFUN=4, CALLC=5, ALLOC_STRING=6, ALLOC_BYTEARRAY=7, ALLOC_REALDARRAY=8, ALLOC_ARRAY=9, ALLOC_VECTOR=10, SIG_RETURN=11, SIG_RESUME=12)
def reqno(q):
    import re
    m = re.search(rf"#define\s+REQ_{q}\s+(\d+)", open(os.path.join(cbuild.scratch(), "runtime/include/ml-request.h")).read())
    if not m: raise Shape(f"request {q} is not defined")
    return int(m.group(1))
REQ = list(_REQ)
PROF_RUNTIME, PROF_OTHER = 1, 7
INTARG = ("ALLOC_STRING", "ALLOC_BYTEARRAY", "ALLOC_REALDARRAY")
MOVED = lambda n: z3.Function(f"moved{n}", z3.BitVecSort(64), z3.BitVecSort(64))
def prof(st, rg=None): return st.loadr(rg or st.regions["g:_ProfCurrent"], 8, 8)
def setarg(st, term=None):
    """the ML argument register refers to a new copy of the argument"""
    st.nf += 1; lab = f"mlarg{st.nf}"; b = st.region(lab, None, kind="ml", writable=False, lo=-8); st.ghost["argreg"] = lab
    if st.ghost["request"] == "BIND_CFUN":
        fx = {}
        for k in (0, 1):
            h = st.region(f"{lab}_{k}", 16, kind="ml", writable=False, lo=-8); d = st.region(f"{lab}_{k}d", None, kind="ml", writable=False, lo=-8); st.regions[f"{lab}_{k}"].fix = {0: d, -8: BV(DESC_string)}; fx[8 * k] = h
        st.regions[lab].fix = fx
    if st.ghost["request"] == "CALLC":
        if "binding" not in st.regions: st.region("binding", 24, kind="cobj", writable=False)
        st.regions[lab].fix = {0: st.regions["binding"].base}
    if term is not None: st.alias(term, lab)
    return term if term is not None else b
def moved(eng, st):
    """a collection: the registers refer to the moved objects, everything else that points into the heap is stale"""
    req = st.ghost["request"]; keep = []; n = st.ghost["gcs"] = st.ghost.get("gcs", 0) + 1; m = st.regions["msp"]; old = mregs(st); ao = regoff(eng)
    stale(st); f = MOVED(n)
    for o, w in zip(ao, old):
        if simp(w).eq(simp(BV(1))): continue
        st.setw(m, o, f(w)); st.assume(f(BV(1)) == 1)
        st.assume(z3.Implies(z3.Extract(0, 0, w) == 1, f(w) == w))
    if req not in INTARG: st.setw(m, ao[0], setarg(st, f(old[0])))
    st.nf += 1; lab = f"hclos{st.nf}"; st.region(lab, None, kind="ml", writable=False, lo=-8); st.setw(st.regions["g:_MLSignalHandler"], 8, st.regions[lab].base); st.ghost["hclos"] = lab
    newalloc(st)
def rmregs(x, what):
    if prof is not None: x.require(prof(x.st) == PROF_RUNTIME, "time spent here is charged to the run-time system")
def s_gc(x):
    st = x.st; x.require(x.args[0] == st.regions["msp"].base, "passes the ML state"); rmregs(x, ""); e = x.event(); moved(x.eng, st); e.post = {k: v.copy() for k, v in st.regions.items()}
def s_need(x):
    x.require(x.args[0] == x.st.regions["msp"].base, "passes the ML state"); r = x.fresh("r_NeedGC"); x.st.assume(z3.Or(r == 0, r == 1)); x.event(r); return r
def s_restore(x):
    """ML code runs, until it makes a request"""
    st = x.st; req = st.ghost["request"]; x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
    e = x.event(); m = st.regions["msp"]; st.havoc("msp"); st.havoc("vproc"); st.havoc("g:_ProfCurrent"); m = st.regions["msp"]
    st.setw(m, fo(x.eng, "ml_state", "ml_vproc")[0], st.regions["vproc"].base); newalloc(st); ao = regoff(x.eng)
    if req in INTARG: v = z3.BitVec(f"length{st.nf}", 64); st.assume(z3.Extract(0, 0, v) == 1); st.setw(m, ao[0], v)
    else: st.setw(m, ao[0], setarg(st))
    if req == "SIG_RETURN": st.nf += 1; st.setw(m, ao[1], st.region(f"cont{st.nf}", None, kind="ml", writable=False, lo=-8))
    if req == "GC": st.assume(z3.Or(V(st, "vp_handlerPending") == 0, V(st, "vp_handlerPending") == 1))
    e.post = {k: v.copy() for k, v in st.regions.items()}
    if req == "other": r = z3.BitVec("request", 32); st.assume(z3.And(*[r != reqno(q) for q in REQ])); return r
    return BV(reqno(req), 32)
def s_choose(x): x.require(x.args[0] == x.st.regions["vproc"].base, "this processor"); x.event(); vs = x.st.regions["vproc"]; o, n = vf(x.eng, "vp_handlerPending"); i, k = vf(x.eng, "vp_inSigHandler"); a, b = x.st.loadr(vs, o, 8), x.st.loadr(vs, i, 8); x.st.havoc("vproc"); x.st.setw(x.st.regions["vproc"], o, a); x.st.setw(x.st.regions["vproc"], i, b); x.st.ghost["v0"] = x.st.regions["vproc"].copy()
def s_obj(moves=False):
    """an allocation request; moves: a collection may happen first"""
    def h(x):
        st = x.st; x.require(x.args[0] == st.regions["msp"].base, "passes the ML state"); rmregs(x, ""); e = x.event()
        if moves: moved(x.eng, st)
        else: newalloc(st)
        st.nf += 1; e.ret = st.region(f"obj{st.nf}", None, kind="mlnew", writable=False, lo=-8); e.post = {k: v.copy() for k, v in st.regions.items()}; return e.ret
    return h
def s_ccall(x):
    """a C function called from ML: it may change the ML state (to raise an exception)"""
    st = x.st; rmregs(x, ""); e = x.event(x.fresh("r_cfun")); vo = fo(x.eng, "ml_state", "ml_vproc")[0]; e.ghost = dict(st.ghost); st.havoc("msp"); m = st.regions["msp"]; st.setw(m, vo, st.regions["vproc"].base); stale(st); newalloc(st)
    e.post = {k: v.copy() for k, v in st.regions.items()}; return e.ret
def s_sprintf(x):
    """bounded output: the format's fixed text and its fields fit in the buffer"""
    st = x.st; k = 1 if x.name == "sprintf" else 2; f = conststr(st, x.args[k]); rg, off = st.resolve(x.args[0])
    if f is None: raise Shape("format not constant")
    if k == 2: st._bounds_n(rg, off, x.args[1], f"{x.fr.f.name} -> snprintf: buffer")
    else:
        import re
        n = BV(1); a = k + 1; pos = 0
        for m in re.finditer(rb"%(?:\.(\d+|\*))?(l*)([sdu%])", f):
            n = n + (m.start() - pos); pos = m.end(); p, l, c = m.groups()
            if c == b"%": n = n + 1; continue
            if p == b"*": w = s64(x.args[a]) if x.args[a].size() == 32 else x.args[a]; a += 1; x.require(w >= 0, "the precision is not negative")
            elif p: w = BV(int(p))
            else: w = None
            if c == b"s" and w is None:
                t = conststr(st, x.args[a])
                if t is None: x.require(False, "the string that is printed has a bound"); raise Dead()
                w = BV(len(t))
            elif c != b"s": w = BV(20 if l else 11)
            n = n + w; a += 1
        n = n + (len(f) - pos); x.require(z3.And(n <= (rg.size if not isinstance(rg.size, int) else BV(rg.size)) - off, n >= 0), "the text fits in the buffer")
    e = x.event(x.fresh("r_" + x.name)); st.havoc(rg.label); e.fmt = f
    if num(off) == 0: l = st.fresh("strlen"); st.assume(z3.ULT(l, n if k == 1 else x.args[1])); st.ghost["strlen", rg.label] = l
    return e.ret
def rmargs(req):
    def args(eng, st, A):
        xany(st); vb = vproc(eng, st); m = st.regions["msp"]; m.fix = {**m.fix, fo(eng, "ml_state", "ml_vproc")[0]: vb}; st.ghost["request"] = req
        for g in ("_ProfCurrent", "_MLSignalHandler", "handle_v", "sigh_return_c", "sigh_resume"): eng.gaddr(st, g, eng.mods[0])
        c = st.region("hclos", None, kind="ml", writable=False, lo=-8); st.regions["g:_MLSignalHandler"].fix = {8: c}; st.ghost["hclos"] = "hclos"
        for g in ("_MLSignalHandler", "handle_v", "sigh_return_c", "sigh_resume"): st.regions["g:" + g].writable = False
        return [m.base]
    return args
def evs(st): return [e for e in last(st) if e.name not in ("ML_CString", "sprintf", "snprintf") and not e.name.startswith("llvm.")]
class Step:
    """one round of RunML: the request and what was done about it"""
    def __init__(self, r):
        self.r = r; st = r.st; es = evs(st)
        if not es or es[0].name != "restoreregs": r.fail("ML code is run first")
        self.run = es[0]; self.es = es[1:]; self.last = self.run
    def regs(self, e=None): return (e or self.last).post["msp"]
    def expect(self, *names):
        if [e.name for e in self.es] != list(names): self.r.fail(f"request {self.r.st.ghost['request']}: " + (", then ".join(names) or "no call") + f" (not {[e.name for e in self.es]})")
        self.r.eng.ok(self.r.name(f"request {self.r.st.ghost['request']}: calls"))
    def final(self, base, **want):
        """the ML state: the given registers have these values, all others those of base"""
        r = self.r; st = r.st; touched = []
        for k, v in want.items(): o = fo(r.eng, "ml_state", "ml_" + k)[0]; touched.append(o); r.eq(st.loadr(st.regions["msp"], o, 8), v, f"request {st.ghost['request']}: register {k}")
        mframe(r, touched, base, f"request {st.ghost['request']}: no other register changes")
    def vproc(self, base, **want):
        r = self.r; st = r.st
        for k, v in want.items(): r.eq(V(st, k), v, f"request {st.ghost['request']}: {k}")
        st.ghost["v0"] = base; vframe(r, [vf(r.eng, k) for k in want])
def regof(st, rg, f): return st.loadr(rg, fo(st.eng, "ml_state", "ml_" + f)[0], 8)
def served(r):
    """the contract of one request"""
    st = r.st; req = st.ghost["request"]; s = Step(r); p = s.run.post; m = p["msp"]; v = p["vproc"]; names = [e.name for e in s.es]
    r.prove(prof(st) == PROF_RUNTIME, "time outside ML code is charged to the run-time system")
    if req == "GC":
        if not r.case(V(st, "vp_handlerPending", v) != 0):
            s.expect("InvokeGC"); r.eq(s.es[0].args[1], 0, "a collection of the allocation area"); s.final(s.es[0].post["msp"]); s.vproc(v); return
        if names[:1] != ["NeedGC"]: r.fail("there is room for the handler's argument")
        r.prove(z3.UGE(s.es[0].args[1], BV(15 * 8)), "there is room for the handler's argument")
        if r.case(s.es[0].ret != 0): s.expect("NeedGC", "InvokeGC", "ChooseSignal", "MakeHandlerArg"); m = s.es[1].post["msp"]
        else: s.expect("NeedGC", "ChooseSignal", "MakeHandlerArg")
        e = s.es[-1]; r.eq(e.args[0], st.regions["msp"].base, "this ML state"); r.eq(e.args[1], st.regions["g:sigh_resume"].base, "resumes through the resume entry")
        for a, b in zip(mregs(st, e.regs["msp"]), mregs(st, m)): r.prove(a == b, "the interrupted state is saved before it is changed")
        c = st.regions[st.ghost["hclos"]]; code = st.loadr(c, 0, 8)
        s.final(e.post["msp"], arg=e.ret, cont=st.loadr(st.regions["g:sigh_return_c"], 0, 8), exnCont=st.regions["g:handle_v"].base + 8, closure=c.base, pc=code, linkReg=code)
        s.vproc(s.es[-2].out["v"], vp_inSigHandler=1, vp_handlerPending=0)
    elif req == "FAULT":
        s.expect("BO_AddrToCodeObjTag", "RaiseMLExn"); e = s.es[-1]; r.eq(s.es[0].args[0], regof(st, m, "faultPC"), "the place of the fault")
        cs = r.calls("ML_CString"); ns = len(cs)
        if ns != 1: r.fail("one string says where")
        t = conststr(st, cs[0].args[1]); found = r.case(s.es[0].ret != 0)
        if found: r.prove(bool([x for x in r.calls("sprintf") + r.calls("snprintf") if x.fmt.startswith(b"<file %")]) and t is None, "the file is named")
        else: r.prove(t == b"<unknown file>", "an unknown file")
        def loc(r, v, w): r.eq(v, cs[0].ret, w)
        r.match(e.args[1], eRec(eVal(regof(st, m, "faultExn")), eUnit(), eRec(loc, eNil())), "the exception packet")
        s.final(e.post["msp"]); s.vproc(v)
    elif req == "BIND_CFUN":
        s.expect("BindCFun"); e = s.es[0]; a = p[st.ghost["argreg"]]; lab = st.ghost["argreg"]
        for k in (0, 1): r.eq(e.args[k], st.regions[f"{lab}_{k}d"].base, "name of the " + ("library", "function")[k])
        s.final(e.post["msp"], arg=e.ret, closure=1, pc=regof(st, m, "cont")); s.vproc(v)
    elif req == "CALLC":
        e = s.es[-1] if s.es else None
        if names[:1] == ["NeedGC"]: r.prove(z3.UGE(s.es[0].args[1], BV(8192)), "the C function finds 8192 bytes")
        if names[:1] == ["NeedGC"] and r.case(s.es[0].ret != 0): s.expect("NeedGC", "InvokeGC", "*indirect*"); m = s.es[1].post["msp"]
        else: s.expect("NeedGC", "*indirect*")
        a = st.regions[e.ghost["argreg"]]; b = st.regions["binding"]
        r.eq(e.args[0], st.loadr(b, r.fieldof("cfunc_binding_t", "cfunc")[0], 8), "the function of the binding"); r.eq(e.args[1], st.regions["msp"].base, "gets the ML state"); r.eq(e.args[2], st.loadr(a, 8, 8), "gets its argument")
        q = e.regs["msp"]; r.eq(regof(st, q, "closure"), 1, "returns to ML"); r.eq(regof(st, q, "pc"), regof(st, q, "cont"), "returns to the caller's continuation")
        for f in ("cont", "linkReg", "exnCont", "varReg"): r.eq(regof(st, q, f), regof(st, m, f), f"register {f} stays")
        s.final(e.post["msp"], arg=e.ret); s.vproc(v)
    elif req.startswith("ALLOC"):
        fn = {"ALLOC_STRING": "ML_AllocString", "ALLOC_BYTEARRAY": "ML_AllocBytearray", "ALLOC_REALDARRAY": "ML_AllocRealdarray", "ALLOC_ARRAY": "ML_AllocArray", "ALLOC_VECTOR": "ML_AllocVector"}[req]
        s.expect(fn); e = s.es[0]; q = e.post["msp"]
        if req in INTARG: n = regof(st, m, "arg")
        else: a = st.regions[st.ghost["argreg0"]]; n = st.loadr(a, 0, 8); r.eq(e.args[2], st.loadr(a, 8, 8), f"request {req}: initial value")
        L = e.args[1]; r.eq(L if L.size() == 64 else s64(L), n >> 1, f"request {req}: length")
        s.final(q, arg=e.ret, closure=1, pc=regof(st, q, "cont")); s.vproc(v)
    elif req == "SIG_RETURN":
        s.expect(); a = st.regions[st.ghost["argreg"]]; code = st.loadr(a, 0, 8)
        s.final(m, closure=a.base, cont=1, pc=code, linkReg=code, exnCont=1, arg=1); s.vproc(v, vp_inSigHandler=0)
    elif req == "SIG_RESUME":
        s.expect("LoadResumeState"); e = s.es[0]; r.eq(e.args[0], st.regions["msp"].base, "this ML state"); s.final(e.post["msp"]); s.vproc(v)
        for a, b in zip(mregs(st, e.regs["msp"]), mregs(st, m)): r.prove(a == b, "the resumption closure is still in its register")
    else: r.fail(f"request {req}: the loop does not go on")
def rminv(L):
    st = L.st; p = L.get("prevProfIndex")
    if L.phase == "entry": return [("time before the first request is charged to other code", p == PROF_OTHER)]
    if L.phase == "assume": st.ghost["prev"] = simp(p); return []
    r = R(L.eng, st, L.eng.A, None, L.eng.spec); served(r); e = evs(st)[0]; L.eng.completed = getattr(L.eng, "completed", 0) + 1
    return [("the ML code's time account is kept", p == prof(st, e.post["g:_ProfCurrent"]))]
def s_restore1(x):
    x.require(prof(x.st) == x.st.ghost["prev"], "time in ML code is charged to its own account"); r = s_restore(x); x.st.ghost["argreg0"] = x.st.ghost.get("argreg"); return r
def s_mkarg(x):
    x.require(x.args[0] == x.st.regions["msp"].base, "passes the ML state"); st = x.st; e = x.event(); newalloc(st); st.nf += 1; e.ret = st.region(f"harg{st.nf}", None, kind="mlnew", writable=False, lo=-8); e.post = {k: v.copy() for k, v in st.regions.items()}; return e.ret
def s_choose1(x): s_choose(x); x.st.events[-1].out["v"] = x.st.regions["vproc"].copy()
def s_post(ret=True, hv=False):
    def h(x):
        st = x.st; e = x.event()
        if hv: o = fo(x.eng, "ml_state", "ml_vproc")[0]; st.havoc("msp"); st.setw(st.regions["msp"], o, st.regions["vproc"].base); newalloc(st)
        if not x.isvoid(): e.ret = x.fresh("r_" + x.name)
        e.post = {k: v.copy() for k, v in st.regions.items()}; return e.ret
    return h
RUN = {"restoreregs": s_restore1, "NeedGC": s_need, "InvokeGC": s_gc, "ChooseSignal": s_choose1, "MakeHandlerArg": s_mkarg, "LoadResumeState": s_post(hv=True), "RaiseMLExn": s_post(hv=True), "UncaughtExn": s_post(), "BindCFun": s_post(), "BO_AddrToCodeObjTag": s_post(), "*indirect*": s_ccall,
       "ML_AllocString": s_obj(True), "ML_AllocBytearray": s_obj(True), "ML_AllocRealdarray": s_obj(True), "ML_AllocArray": s_obj(True), "ML_AllocVector": s_obj(True), "sprintf": s_sprintf, "snprintf": s_sprintf, "Die": lambda x: (x.event(), dead())}
def dead(): raise Dead()
def rmpost(r):
    st = r.st; req = st.ghost["request"]; s = Step(r); p = s.run.post
    if req == "RETURN": s.expect("InvokeGC"); r.eq(s.es[0].args[1], 0, "a collection of the allocation area"); s.final(s.es[0].post["msp"]); s.vproc(p["vproc"])
    elif req == "EXN": s.expect("UncaughtExn"); r.eq(s.es[0].args[0], regof(st, p["msp"], "arg"), "the exception is reported")
    elif req == "other": s.expect("Die")
    else: r.fail(f"request {req}: ML code goes on")
RMODS = ["msp", "vproc", "g:_ProfCurrent", "alloc*", "auto"]
for q in REQ:
    G.add(RM, "RunML", None, rmpost, args=rmargs(q), stubs=RUN, loops={"RunML": Loop(rminv, mods=RMODS)}, bound=0)
# a request that is not known: an error, never silence
def s_diechk(x):
    st = x.st; r = R(x.eng, st, None, None, x.eng.spec); s = Step(r); s.expect(); x.eng.completed = getattr(x.eng, "completed", 0) + 1; raise Dead()
G.add(RM, "RunML", None, rmpost, args=rmargs("other"), stubs={**RUN, "Die": s_diechk}, loops={"RunML": Loop(rminv, mods=RMODS)}, bound=0)
# ------------------------------------------------------------ calling ML from C
def apargs(eng, st, A):
    xany(st); vproc(eng, st); m = st.regions["msp"]; c = st.region("f", None, kind="ml", writable=False, lo=-8)
    for g in ("handle_v", "return_c"): eng.gaddr(st, g, eng.mods[0]); st.regions["g:" + g].writable = False
    st.ghost["m0"] = m.copy(); return [m.base, c, z3.BitVec("arg", 64), z3.BitVec("useCont", 32)]
def s_initml(x): x.event(); x.st.setw(x.st.regions["msp"], x.eng.off["storePtr"], BV(1))
def s_runml(x):
    st = x.st; e = x.event(); st.havoc("msp"); e.post = {k: v.copy() for k, v in st.regions.items()}
def appost(r):
    st = r.st; e = r.one("RunML"); q = e.regs["msp"]; m0 = st.ghost["m0"]; code = st.loadr(st.regions["f"], 0, 8); r.eq(e.args[0], st.regions["msp"].base, "this ML state")
    want = dict(exnCont=st.regions["g:handle_v"].base + 8, varReg=BV(1), arg=z3.BitVec("arg", 64), closure=st.regions["f"].base, pc=code, linkReg=code, storePtr=BV(1))
    want["cont"] = z3.If(z3.BitVec("useCont", 32) != 0, regof(st, m0, "cont"), st.loadr(st.regions["g:return_c"], 0, 8))
    for k, v in want.items(): r.eq(regof(st, q, k), v, f"register {k} of the call")
    r.eq(r.ret, regof(st, e.post["msp"], "arg"), "result: what the ML function returned")
    s = st.fork_done(); s.assume(z3.And(z3.ULT(XANY, BV(160)), *[XANY != fo(r.eng, "ml_state", "ml_" + k)[0] for k in want])); r.eng.prove(s, s.loadr(q, XANY, 8) == s.loadr(m0, XANY, 8), r.name("no other register changes before the call"))
G.add(RM, "ApplyMLFn", None, appost, args=apargs, contracts={"RunML": s_runml}, stubs={"InitMLState": s_initml})
def impost(r): r.eq(r.field("storePtr"), 1, "the store list is empty"); mframe(r, [r.eng.off["storePtr"]])
G.add(MS, "InitMLState", None, impost, args=lambda eng, st, A: (xany(st), st.ghost.update(m0=st.regions["msp"].copy()), [st.regions["msp"].base])[-1])
# ------------------------------------------------------------ an exception that no handler catches
def uxargs(val):
    def args(eng, st, A):
        w = lambda lab, fx, size=None: (st.region(lab, size, kind="ml", writable=False, lo=-8), st.regions[lab].__setattr__("fix", fx))[0]
        def strv(lab):
            n = z3.BitVec(lab + "_len", 64); st.assume(z3.And(n >= 0, n < 1 << 40)); d = st.region(lab + "_data", simp((n + 8) & BV(M64 & ~7)), kind="ml", writable=False, lo=-8); return w(lab, {0: d, 8: tag(n), -8: BV(DESC_string)}, 16)
        nm = strv("name"); eid = w("exnid", {0: nm}, 8)
        if val == "int": v = z3.BitVec("val", 64); st.assume(z3.Extract(0, 0, v) == 1)
        elif val == "string": v = strv("val")
        else: v = st.region("val", None, kind="ml", writable=False, lo=-8); d = st.loadr(st.regions["val"], -8, 8); st.assume(d != DESC_string)
        n = z3.BitVec("trace_n", 64); h, t = tList("str").make(st, "trace"); st.ghost["trace"] = t
        return [w("exn", {0: eid, 8: v, 16: h}, 24)]
    return args
def uxinv(L):
    st = L.st; t = st.ghost["trace"]; i = BV(0) if L.phase == "entry" else st.ghost["i"] if L.phase == "assume" else simp(st.ghost["i"] + 1)
    return [("position", z3.And(i >= 0, i < t.n)), ("next cell", L.get("next") == t.at(i))]
def uxsetup(L): st = L.st; t = st.ghost["trace"]; i = st.fresh("i"); st.ghost["i"] = i; st.assume(z3.And(i >= 0, i < t.n)); L.set("next", simp(t.ptr + i * 64))
def uxpost(r):
    st = r.st; e = r.one("Die", "the exception is reported"); t = st.ghost["trace"]; pr = r.calls("sprintf") + r.calls("snprintf") + [e]
    def printed(p, what): r.prove(z3.Or(*[a == p for x in pr for a in x.args if a is not None and z3.is_bv(a) and a.size() == 64]), what)
    printed(st.regions["name_data"].base, "the exception's name is printed")
    if "val_data" in st.regions: printed(st.regions["val_data"].base, "its string argument is printed")
    elif z3.is_bv(z3.BitVec("val", 64)) and "val" not in st.regions: printed(z3.BitVec("val", 64) >> 1, "its integer argument is printed")
    if r.case(t.n != 0): printed(t.sel(t.n - 1, 32), "the place where it was raised is printed")
    x = r.one("Exit", "the program ends"); r.prove(x.args[0] != 0, "exit status of a failure")
UX = {"sprintf": s_sprintf, "snprintf": s_sprintf, "Die": ev(), "Exit": ev()}
for v in ("int", "string", "other"):
    G.add(RM, "UncaughtExn", None, uxpost, args=uxargs(v), stubs=UX, loops={"UncaughtExn": Loop(uxinv, mods=[], setup=uxsetup, dec=lambda L: simp(L.st.ghost["trace"].n - L.st.ghost["i"] - (1 if L.phase == "kept" else 0)))}, msp=False, bound=0)
# ------------------------------------------------------------ the state of a processor at the start; values that C code keeps across ML code
def ivargs(eng, st, A):
    b = vproc(eng, st); m = st.region("msp0", None, kind="heapd"); v = st.regions["vproc"]; v.fix = {vf(eng, "vp_state")[0]: m}; st.ghost["v0"] = v.copy(); st.ghost["m0"] = st.regions["msp0"].copy(); st.assume(z3.And(JANY >= 0, JANY < sconst("SIGMAP_SZ"))); return [b]
def s_new(x): e = x.event(); x.st.nf += 1; e.ret = x.st.region(f"malloc{x.st.nf}", x.args[0], kind="malloc"); return e.ret
def ivpost(r):
    st = r.st; m = st.regions["msp0"]
    for f, v in (("vp_inMLFlag", 0), ("vp_handlerPending", 0), ("vp_inSigHandler", 0), ("vp_gcSigState", 0), ("vp_gcSigThreshold", 1)): r.eq(V(st, f), v, f"{f}")
    r.prove(inrange(s64(V(st, "vp_nextPendingSig"))), "the search for pending signals starts at a signal")
    for k in (0, 1): r.eq(tot(st, k), 0, "no signal has been received or handled"); r.eq(cnt(st, JANY, k), 0, "the count of every signal is zero")
    r.eq(V(st, "vp_heap"), regof(st, st.ghost["m0"], "heap"), "the heap of the ML state"); r.eq(regof(st, m, "vproc"), st.regions["vproc"].base, "the ML state belongs to this processor")
    for f in REGS + ("varReg",): r.eq(regof(st, m, f), 1, f"register {f} is a unit value")
    for k in range(3): r.eq(st.loadr(m, fo(r.eng, "ml_state", "ml_calleeSave")[0] + 8 * k, 8), 1, "callee-save registers are unit values")
    r.eq(regof(st, m, "storePtr"), 1, "the store list is empty"); a, b = V(st, "vp_gcTime0"), V(st, "vp_gcTime"); r.prove(z3.And(a != b, a != 0, b != 0), "separate timers")
G.add(MS, "InitVProcState", None, ivpost, args=ivargs, stubs={"malloc": s_new}, msp=False)
def svargs(n, back):
    def args(eng, st, A):
        xany(st); m = st.regions["msp"]; eng.gaddr(st, "return_c", eng.mods[0]); st.regions["g:return_c"].writable = False
        for i in range(n): st.region(f"root{i}", 8, kind="cobj", writable=back)
        if back: c = st.region("saved", 8 * n, kind="ml", writable=False, lo=-8); st.regions["saved"].fix = {-8: BV(DESC(n, "arr_data"))}; m.fix = {**m.fix, fo(eng, "ml_state", "ml_calleeSave")[0]: c}
        st.ghost["m0"] = m.copy(); return [m.base]
    return args
def svva(n): return lambda eng, st: [st.regions[f"root{i}"].base for i in range(n)] + [BV(0)]
def svpost(n):
    def post(r):
        st = r.st; c = fo(r.eng, "ml_state", "ml_calleeSave")[0]; o, off = r.obj(st.loadr(st.regions["msp"], c, 8), "the saved values"); r.eq(st.loadr(o, r.sub8(off), 8), DESC(n, "arr_data"), "an object that keeps its header")
        for i in range(n): r.eq(st.loadr(o, r.add(off, 8 * i), 8), st.loadr(st.regions[f"root{i}"], 0, 8), f"value {i} is saved")
        r.eq(r.field("allocPtr"), st.regions["alloc"].base + 8 * n + 8, "the allocation pointer moves past the object"); r.eq(regof(st, st.regions["msp"], "cont"), st.loadr(st.regions["g:return_c"], 0, 8), "ML code will return to C")
        mframe(r, [c, r.eng.off["allocPtr"], r.eng.off["cont"]])
    return post
def rspost(n):
    def post(r):
        for i in range(n): r.eq(r.st.loadr(r.st.regions[f"root{i}"], 0, 8), r.st.loadr(r.st.regions["saved"], 8 * i, 8), f"value {i} is restored")
        mframe(r, [])
    return post
for n in (1, 2, 3, 4):
    G.add(MS, "SaveCState", None, svpost(n), args=svargs(n, False), va=svva(n)); G.add(MS, "RestoreCState", None, rspost(n), args=svargs(n, True), va=svva(n))
