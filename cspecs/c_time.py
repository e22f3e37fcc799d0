"""Dates, times, timers and the elementary functions."""
from mlspec import *
from ctables import *
G = Group("time")
D = "c-libs/smlnj-date/"; T = "c-libs/smlnj-time/"; M = "c-libs/smlnj-math/"; RT_ = "c-libs/smlnj-runtime/"
NS = 1000000000
lo32 = lambda t: simp(z3.Extract(31, 0, t))
s64 = lambda t: sx(t, 64)
TM = ["tm_sec", "tm_min", "tm_hour", "tm_mday", "tm_mon", "tm_year", "tm_wday", "tm_yday", "tm_isdst"]
def s_tmr(x):
    """gmtime_r, localtime_r: fills the structure and returns it, or fails; years fit an int with room to spare"""
    st = x.st; ok = z3.Bool(f"{x.name}_ok!{st.nf}")
    if not st.entails(ok) and not st.entails(z3.Not(ok)): raise NeedFork(ok)
    v = st.entails(ok); st.nf += 1
    p = x.args[1]; rg, off = st.resolve(p)
    st._bounds_n(rg, off, BV(56), f"{x.name}: the structure")
    e = x.event(p if v else BV(0)); e.ok = v
    if v: hv(st, rg, off, BV(56)); e.out[1] = rg.label
    else: havoc_errno(st)
    e.post = {k: w.copy() for k, w in st.regions.items()}
    return p if v else BV(0)
def s_mktime(x):
    st = x.st; p = x.args[0]; rg, off = st.resolve(p)
    st._bounds_n(rg, off, BV(56), f"{x.name}: the structure")
    r = x.fresh("r_mktime"); e = x.event(r)
    hv(st, rg, off, BV(56)); e.out[0] = rg.label; havoc_errno(st)
    e.post = {k: w.copy() for k, w in st.regions.items()}
    return r
def s_strftime(x):
    """the bytes written, without the final zero, or 0"""
    st = x.st; p = x.args[0]; rg, off = st.resolve(p)
    st._bounds_n(rg, off, x.args[1], "strftime: the buffer")
    r = x.fresh("r_strftime"); st.assume(z3.Or(r == 0, z3.ULT(r, x.args[1])))
    e = x.event(r); st.havoc(rg.label); e.out[0] = rg.label; e.post = {k: w.copy() for k, w in st.regions.items()}
    return r
G.stubs.update({"gmtime_r": s_tmr, "localtime_r": s_tmr, "mktime": s_mktime, "strftime": s_strftime, "time": sysc(retlo=None, errno=False), "gettimeofday": sysc([(0, 16)], rethi=0), "getrusage": sysc([(1, 144)], rethi=0),
                "setitimer": sysc(rethi=0), "clock_getres": sysc([(1, 16)], rethi=0), "fegetround": sysc(retlo=None, errno=False), "fesetround": sysc(retlo=None, errno=False)})
def fld(r, regs, p, f):
    off, size = r.fieldof("tm", f); o, b = r.st.resolve(p)
    return r.st.loadr(regs[o.label], num(b) + off, size)
def tmrec(r, e):
    fs = []
    for f in TM:
        v = fld(r, e.post, e.args[1], f); fs.append(eInt(s64(v + 1900 if f == "tm_year" else v)))
    return eRec(*fs)
def secs(A): return z3.UDiv(A.val, BV(NS))
def wordat(r, e, i): 
    o, b = r.st.resolve(e.args[i]); return r.st.loadr(e.regs[o.label], num(b), 8)
def conv(file, fn, call):
    def post(r):
        e = r.sys(call); r.eq(wordat(r, e, 0), secs(r.A), "the time converted, in seconds")
        if not e.ok: r.raised(e)
        else: r.noraise(); r.match(r.ret, tmrec(r, e))
    G.add(D + file, fn, W64, post, link=[D + "unix-date.c"])
conv("gmtime.c", "_ml_Date_gmtime", "gmtime_r"); conv("localtime.c", "_ml_Date_localtime", "localtime_r")
DATE = REC(*[I32] * 9)
def given(r, e, i, A, skip=(), what="the date given"):
    for k, f in enumerate(TM):
        if f not in skip: r.eq(fld(r, e.regs, e.args[i], f), lo32(A[k]) - (1900 if f == "tm_year" else 0), f"{what}: {f}")
@G.fn(D + "mktime.c", "_ml_Date_mktime", DATE)
def _(r):
    e = r.sys("mktime"); given(r, e, 0, r.A, ("tm_wday", "tm_yday"))
    if r.case(e.ret < 0): r.raised(None, True)
    else: r.noraise(); r.match(r.ret, eW64(e.ret * NS))
@G.fn(D + "strftime.c", "_ml_Date_strftime", REC(STR, DATE))
def _(r):
    es = [e for e in r.effects() if e.name != "RaiseSysError"]
    st = r.st; A = r.A[1]
    norm = r.case(lo32(A[8]) < 0)
    want = ["mktime", "strftime"] if norm else ["strftime"]
    if [e.name for e in es] != want[:len(es)] or not es: r.fail("the calls made")
    if norm:
        given(r, es[0], 0, A)
        if r.case(es[0].ret < 0):
            if len(es) > 1: r.fail("an invalid date is not formatted")
            r.raised(None, True); return
    if len(es) != len(want): r.fail("the date is formatted")
    e = es[-1]; r.eq(e.args[2], r.A[0].ptr, "the format")
    if norm:
        o, b = st.resolve(e.args[3]); q, c = st.resolve(es[0].args[0])
        if o.label != q.label: r.fail("formats the normalised date")
        for f in TM: r.eq(fld(r, e.regs, e.args[3], f), fld(r, es[0].post, es[0].args[0], f), f"formats the normalised date: {f}")
    else: given(r, e, 3, A)
    if r.case(e.ret == 0): r.raised(None, True); return
    r.noraise()
    def data(r, d, off, what):
        o, b = st.resolve(e.args[0])
        cp = [x for x in st.events if x.name in ("strncpy", "memcpy") or x.name.startswith("llvm.memcpy")]
        if len(cp) != 1: raise Shape("the text is copied some other way")
        r.eq(cp[0].args[0], st.regions[d.label].base + bvof(off), f"{what}: destination of the copy"); r.eq(cp[0].args[1], e.args[0], f"{what}: the text"); r.eq(cp[0].args[2], e.ret, f"{what}: its length")
    r.match(r.ret, eSeq(DESC_string, e.ret, data))
def s_strncpy(x):
    st = x.st; d, s, n = x.args[:3]
    rd, od = st.resolve(d); rs, os_ = st.resolve(s)
    st._bounds_n(rd, od, n, f"{x.fr.f.name} -> strncpy: destination"); st._bounds_n(rs, os_, n, f"{x.fr.f.name} -> strncpy: source")
    x.event(d); hv(st, rd, od, n)
    return d
G.stubs["strncpy"] = s_strncpy
def localoff(r, t):
    es = [e for e in r.effects() if e.name not in ("RaiseSysError", "time")]
    want = ["localtime_r", "gmtime_r", "mktime"]
    if not es or [e.name for e in es] != want[:len(es)]: r.fail("local time, universal time, and back")
    for e in es[:2]: r.eq(wordat(r, e, 0), t, "the time converted, in seconds")
    if not es[-1].name == "mktime":
        if es[-1].ok: r.fail("local time, universal time, and back")
        r.raised(es[-1]); return
    for f in TM:
        if f != "tm_isdst": r.eq(fld(r, es[2].regs, es[2].args[0], f), fld(r, es[1].post, es[1].args[1], f), f"universal time taken as local: {f}")
    r.eq(fld(r, es[2].regs, es[2].args[0], "tm_isdst"), fld(r, es[0].post, es[0].args[1], "tm_isdst"), "with the local summer time flag")
    r.noraise(); r.match(r.ret, eInt(s64(lo32(es[2].ret - t))))
@G.fn(D + "localoffset.c", "_ml_Date_localOffset", UNIT)
def _(r): e = r.one("time"); r.eq(e.args[0], BV(0), "the present time"); localoff(r, e.ret)
@G.fn(D + "localoffset.c", "_ml_Date_localOffsetForTime", W64)
def _(r): localoff(r, secs(r.A))
# --- time of day, cpu time
@G.fn(T + "timeofday.c", "_ml_Time_timeofday", UNIT)
def _(r):
    e = r.sys("gettimeofday"); r.noraise(); us = r.outfield(e, 0, "timeval", "tv_usec")
    r.st.assume(z3.And(us >= 0, us < 1000000))
    r.match(r.ret, eW64(r.outfield(e, 0, "timeval", "tv_sec") * NS + us * 1000))
def s_cpu(x):
    st = x.st
    e = x.event(None)
    for i, a in enumerate(x.args):
        if num(a) == 0: continue
        rg, off = st.resolve(a); st._bounds_n(rg, off, BV(8), "GetCPUTime: the time"); hv(st, rg, off, BV(8)); e.out[i] = rg.label
        w = st.load(a, 8); s, u = z3.Extract(31, 0, w), z3.Extract(63, 32, w)
        st.assume(z3.And(s >= 0, s < 1 << 30, u >= 0, u < 1000000))
    e.post = {k: w.copy() for k, w in st.regions.items()}
def tpair(r, regs, p):
    o, b = r.st.resolve(p); w = r.st.loadr(regs[o.label], num(b), 8)
    return s64(simp(z3.Extract(31, 0, w))), s64(simp(z3.Extract(63, 32, w)))
def vproc(eng, st, A):
    """the processor state, with the timers it points to"""
    v = st.region("vproc", None, kind="cobj"); g = st.region("gctime", 8, kind="cobj"); g0 = st.region("gctime0", 8, kind="cobj")
    for m in eng.mods:
        try: F = lambda f: m.field("vproc_state_t", f)[0]; fs = {F("vp_gcTime"): g, F("vp_gcTime0"): g0}; break
        except Exception: pass
    else: raise Shape("vproc_state_t")
    st.regions["vproc"].fix = fs
    for l in ("gctime", "gctime0"):
        w = st.loadr(st.regions[l], 0, 8); s, u = z3.Extract(31, 0, w), z3.Extract(63, 32, w); st.assume(z3.And(s >= 0, s < 1 << 30, u >= 0, u <= 1000000))
    return v
def gtpre(eng, st, A):
    v = vproc(eng, st, A)
    for m in eng.mods:
        try: off = m.field("ml_state_t", "ml_vproc")[0]; break
        except Exception: pass
    st.regions["msp"].fix = {**(st.regions["msp"].fix or {}), off: v}
@G.fn(T + "gettime.c", "_ml_Time_gettime", UNIT, pre=gtpre, stubs={"GetCPUTime": s_cpu})
def _(r):
    e = r.sys("GetCPUTime"); r.noraise()
    ns = lambda p: eW64(p[0] * NS + p[1] * 1000)
    g = r.st.regions["gctime"]
    r.match(r.ret, eRec(ns(tpair(r, e.post, e.args[0])), ns(tpair(r, e.post, e.args[1])), ns(tpair(r, r.st.regions, g.base))))
K = "kernel/timers.c"
def vargs(*more): return lambda eng, st, A: [vproc(eng, st, A)] + [m(st) for m in more]
@G.fn(K, "ResetTimers", None, args=vargs())
def _(r):
    s, u = tpair(r, r.st.regions, r.st.regions["gctime"].base); r.eq(s, BV(0), "seconds"); r.eq(u, BV(0), "microseconds")
@G.fn(K, "StartGCTimer", None, args=vargs(), stubs={"GetCPUTime": s_cpu})
def _(r):
    e = r.sys("GetCPUTime", r.st.regions["gctime0"].base)
def lexle(a, b): return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] <= b[1]))
def sameus(a, b):
    """the same number of microseconds (the parts differ by at most 4 seconds)"""
    return z3.Or(*[z3.And(b[0] - a[0] == k, a[1] - b[1] == k * 1000000) for k in range(-4, 5)])
def stop(out):
    def args(eng, st, A):
        v = vproc(eng, st, A); st.ghost["gt"] = {k: q.copy() for k, q in st.regions.items()}
        return [v, st.region("time", 8, kind="cobj") if out else BV(0)]
    def post(r):
        e = r.sys("GetCPUTime"); st = r.st; old = st.ghost["gt"]
        t1 = tpair(r, e.post, e.args[0]); t0 = tpair(r, old, st.regions["gctime0"].base); g = tpair(r, old, st.regions["gctime"].base); n = tpair(r, st.regions, st.regions["gctime"].base)
        st.assume(z3.And(lexle(t0, t1), t1[0] - t0[0] < 1000000))      # the processor time does not decrease (GetCPUTime's contract); a collection takes less than 11 days
        r.prove(sameus(n, (g[0] + t1[0] - t0[0], g[1] + t1[1] - t0[1])), "the time of the collection is added"); r.prove(z3.And(n[1] >= 0, n[1] <= 1000000), "the microseconds stay in range")
        if out:
            d, u = lo32(t1[0] - t0[0]), lo32(t1[1] - t0[1]); v = st.loadr(st.regions["time"], 0, 8)
            d, u = z3.If(u < 0, d - 1, d), z3.If(u < 0, u + 1000000, u)
            r.prove(v == s64(u / 1000 + d * 1000), "the time of the collection in milliseconds")
    G.add(K, "StopGCTimer", None, post, args=args, stubs={"GetCPUTime": s_cpu})
stop(False); stop(True)
# GetCPUTime: the time used, never below the one reported before
def cpu(u, s):
    def args(eng, st, A):
        for l in ("g:lastU", "g:lastS"): eng.gaddr(st, l[2:], eng.mods[0])
        for l in ("g:lastU", "g:lastS"):
            w = st.loadr(st.regions[l], 0, 8); a, b = z3.Extract(31, 0, w), z3.Extract(63, 32, w); st.assume(z3.And(a >= 0, b >= 0, b < 1000000))
        st.ghost["gt"] = {k: q.copy() for k, q in st.regions.items()}
        return [st.region("usr", 8, kind="cobj") if u else BV(0), st.region("sys", 8, kind="cobj") if s else BV(0)]
    def post(r):
        st = r.st; e = r.sys("getrusage", BV(0, 32))
        for on, l, g, f in ((u, "usr", "g:lastU", "ru_utime"), (s, "sys", "g:lastS", "ru_stime")):
            old = tpair(r, st.ghost["gt"], st.regions[g].base); new = tpair(r, st.regions, st.regions[g].base)
            if not on: r.prove(z3.And(new[0] == old[0], new[1] == old[1]), f"{g[2:]} is kept"); continue
            o, b = st.resolve(e.args[1]); k = r.fieldof("rusage", f)[0]; w = e.post[o.label]
            ts, tu = st.loadr(w, num(b) + k, 8), st.loadr(w, num(b) + k + 8, 8)
            st.assume(z3.And(ts >= 0, ts < 1 << 30, tu >= 0, tu < 1000000))
            t = tpair(r, st.regions, st.regions[l].base)
            mx = lexle((ts, tu), old)
            r.prove(z3.Implies(lexle(old, (ts, tu)), z3.And(t[0] == ts, t[1] == tu)), f"{f}: the time used"); r.prove(z3.And(lexle(old, t), z3.Implies(mx, t[0] == old[0])), f"{f}: never before the time reported last"); r.prove(z3.And(new[0] == t[0], new[1] == t[1]), f"{f}: remembered"); r.prove(z3.And(t[1] >= 0, t[1] < 1000000), f"{f}: microseconds in range")
    G.add("kernel/unix-timers.c", "GetCPUTime", None, post, args=args, msp=False)
cpu(True, True); cpu(True, False); cpu(False, True)
# --- interval timer
@G.fn(RT_ + "setitimer.c", "_ml_RunT_setitimer", OPT(W64))
def _(r):
    e = r.sys("setitimer", BV(0, 32), None, BV(0))
    if r.A.v is None: s, u = BV(0), BV(0)
    else: t = z3.UDiv(r.A.v.val, BV(1000)); s, u = z3.UDiv(t, BV(1000000)), z3.URem(t, BV(1000000))
    o, b = r.st.resolve(e.args[1])
    for k, f in enumerate(("it_interval", "it_value")):
        r.eq(r.st.loadr(e.regs[o.label], num(b) + r.fieldof("itimerval", f)[0], 8), s, f"{f}: seconds"); r.eq(r.st.loadr(e.regs[o.label], num(b) + r.fieldof("itimerval", f)[0] + 8, 8), u, f"{f}: microseconds")
    if r.failed(e): r.raised(e)
    else: r.noraise(); r.match(r.ret, eUnit())
@G.fn(RT_ + "itick.c", "_ml_RunT_itick", UNIT)
def _(r):
    if r.calls("clock_getres"):
        e = r.sys("clock_getres", BV(0, 32))
        if r.failed(e): r.raised(e); return
        r.noraise(); r.match(r.ret, eW64(r.outfield(e, 1, "timespec", "tv_sec") * NS + r.outfield(e, 1, "timespec", "tv_nsec")))
    else: r.noraise(); r.match(r.ret, eW64(BV(10000000)))
# --- elementary functions
def mathfn(n, call=None):
    call = call or n
    def post(r):
        e = r.sys(call); r.noraise(); r.eq(e.args[0], r.A.val, f"argument of {call}"); r.match(r.ret, eReal(e.ret))
    G.add(M + n + "64.c", f"_ml_Math_{n}64", tReal(), post, stubs={call: sysc(retlo=None)})
for n in "cos sin exp log sqrt atan".split(): mathfn(n)
MODES = [0, 0xc00, 0x800, 0x400]
@G.fn(M + "ctlrndmode.c", "_ml_Math_ctlrndmode", OPT(tInt(0, 3)), consts=("ModeMap",))
def _(r):
    if r.A.v is None:
        e = r.sys("fegetround"); r.noraise(); v = BV(0, 64)
        r.st.assume(z3.Or(*[e.ret == m for m in MODES]))
        for i, m in enumerate(MODES): v = z3.If(e.ret == m, BV(i), v)
        r.match(r.ret, eInt(v))
    else:
        e = r.sys("fesetround"); v = BV(0, 32)
        for i, m in enumerate(MODES): v = z3.If(r.A.v == i, BV(m, 32), v)
        r.eq(e.args[0], v, "the rounding mode")
for d in ("smlnj-date", "smlnj-time", "smlnj-math"): G.bind(d)
