"""POSIX processes, process environment, user and group database."""
from mlspec import *
from ctables import *
G = Group("process")
D = "c-libs/posix-process/"; N = "c-libs/posix-procenv/"; S = "c-libs/posix-sysdb/"
lo32 = lambda t: simp(z3.Extract(31, 0, t))
NS = 1000000000
def s_exit(x):
    """does not return; the argument is checked where it is called"""
    x.require(x.args[0] == lo32(x.eng.A), "the exit status is the argument")
    x.eng.completed = getattr(x.eng, "completed", 0) + 1
    raise Dead()
def s_exec(x):
    r = x.fresh("r_" + x.name); x.st.assume(r == -1)
    e = x.event(r); havoc_errno(x.st); e.post = {k: v.copy() for k, v in x.st.regions.items()}
    return r
def s_getgroups(x):
    st = x.st; sz, p = x.args
    r = x.fresh("r_getgroups"); st.assume(z3.And(r >= -1, r < 1 << 20))
    e = x.event(r)
    rg, off = st.resolve(p)
    if not st.entails(sz == 0) and not st.entails(r == -1):
        st.assume(r <= sz)
        st._bounds_n(rg, off, simp(sx(sz, 64) * 4), "getgroups: output buffer")
        st.havoc(rg.label); e.out[1] = rg.label
    havoc_errno(st); e.post = {k: v.copy() for k, v in st.regions.items()}
    return r
def s_waitpid(x):
    """the status is written only when a child is reported"""
    st = x.st; ok = z3.Bool(f"waitpid_child!{st.nf}")
    if not st.entails(ok) and not st.entails(z3.Not(ok)): raise NeedFork(ok)
    v = st.entails(ok)
    return sysc([(1, 4)] if v else [], retlo=1 if v else -1, rethi=None if v else 0)(x)
def s_ctermid(x):
    st = x.st; p = x.args[0]
    ok = z3.Bool(f"ctermid_ok!{st.nf}")
    if not st.entails(ok) and not st.entails(z3.Not(ok)): raise NeedFork(ok)
    v = st.entails(ok); st.nf += 1
    rg, off = st.resolve(p)
    st._bounds_n(rg, off, BV(9), "ctermid: buffer of L_ctermid bytes")
    e = x.event(p if v else BV(0)); st.havoc(rg.label)
    e.post = {k: v.copy() for k, v in st.regions.items()}
    return p if v else BV(0)
G.stubs.update({"alarm": sysc(retlo=None, errno=False), "execv": s_exec, "execve": s_exec, "execvp": s_exec, "Exit": s_exit, "fork": sysc(), "kill": sysc(), "pause": sysc(), "nanosleep": sysc([(1, 16)], rethi=0),
                "waitpid": s_waitpid, "getgroups": s_getgroups, "ctermid": s_ctermid, "getenv": cptr(), "getlogin": cptr(), "ttyname": cptr(), "getgrgid": cptr(32), "getgrnam": cptr(32), "getpwnam": cptr(48), "getpwuid": cptr(48),
                "setgid": sysc(), "setuid": sysc(), "setpgid": sysc(), "setsid": sysc(), "isatty": sysc(retlo=0, rethi=1), "uname": sysc([(0, 390)]), "times": sysc([(0, 32)], retlo=None), "time": sysc(retlo=None),
                **{n: sysc(retlo=None, errno=False) for n in "getuid geteuid getgid getegid getpid getppid getpgrp".split()}})
ei = lambda r, e: eInt(sx(e.ret, 64))
G.wrapper(D + "fork.c", "_ml_P_Process_fork", UNIT, "fork", lambda A: [], ei)
G.wrapper(D + "kill.c", "_ml_P_Process_kill", REC(I32, I32), "kill", lambda A: [lo32(A[0]), lo32(A[1])])
G.wrapper(N + "setpgid.c", "_ml_P_ProcEnv_setpgid", REC(I32, I32), "setpgid", lambda A: [lo32(A[0]), lo32(A[1])])
G.wrapper(N + "setsid.c", "_ml_P_ProcEnv_setsid", UNIT, "setsid", lambda A: [], ei)
for n in ("setuid", "setgid"): G.wrapper(N + n + ".c", "_ml_P_ProcEnv_" + n, SYSW, n, lambda A: [lo32(A.val)])
def nofail(file, fn, arg, call, args, ret):
    def post(r):
        e = r.sys(call, *args(r.A)); r.noraise(); r.match(r.ret, ret(r, e))
    G.add(file, fn, arg, post)
for n in "getuid geteuid getgid getegid".split(): nofail(N + n + ".c", "_ml_P_ProcEnv_" + n, UNIT, n, lambda A: [], lambda r, e: eW64(zx(e.ret, 64)))
for n in "getpid getppid getpgrp".split(): nofail(N + n + ".c", "_ml_P_ProcEnv_" + n, UNIT, n, lambda A: [], ei)
nofail(N + "isatty.c", "_ml_P_ProcEnv_isatty", I32, "isatty", lambda A: [lo32(A)], lambda r, e: eBool(e.ret != 0))
nofail(D + "pause.c", "_ml_P_Process_pause", UNIT, "pause", lambda A: [], lambda r, e: eUnit())
@G.fn(D + "alarm.c", "_ml_P_Process_alarm", W64)
def _(r):
    e = r.sys("alarm", lo32(z3.UDiv(r.A.val, BV(NS)))); r.noraise(); r.match(r.ret, eW64(zx(e.ret, 64) * NS))
@G.fn(D + "sleep.c", "_ml_P_Process_sleep", W64)
def _(r):
    e = r.sys("nanosleep")
    r.eq(r.infield(e, 0, "timespec", "tv_sec"), simp(z3.UDiv(r.A.val, BV(NS))), "whole seconds to sleep")
    r.eq(r.infield(e, 0, "timespec", "tv_nsec"), simp(z3.URem(r.A.val, BV(NS))), "nanoseconds to sleep")
    r.noraise()
    if r.failed(e): r.match(r.ret, eW64(r.outfield(e, 1, "timespec", "tv_sec") * NS + r.outfield(e, 1, "timespec", "tv_nsec")))
    else: r.match(r.ret, eW64(BV(0)))
def exitpre(eng, st, A): eng.A = A
@G.fn(D + "exit.c", "_ml_P_Process_exit", I32, pre=exitpre)
def _(r): r.fail("does not return")
@G.fn(D + "waitpid.c", "_ml_P_Process_waitpid", REC(I32, SYSW))
def _(r):
    e = r.sys("waitpid", lo32(r.A[0])); r.eq(e.args[2], lo32(r.A[1].val), "options")
    if r.failed(e): r.raised(e); return
    if r.case(e.ret == 0): r.noraise(); r.match(r.ret, eRec(eInt(0), eAny(), eAny())); return
    o, b = r.st.resolve(e.args[1]); s = r.st.loadr(e.post[o.label], num(b), 4)
    lo = s & 0x7f; hi = sx(z3.LShR(s, 8) & 0xff, 64)
    if r.case(lo == 0): how, v = 0, hi
    elif r.case(lo != 0x7f): how, v = 1, sx(lo, 64)
    elif r.case((s & 0xff) == 0x7f): how, v = 2, hi
    else: r.raised(None, True); return
    r.noraise(); r.match(r.ret, eRec(eInt(sx(e.ret, 64)), eInt(how), eInt(v)))
# --- exec: the vectors given to the kernel are the lists, in order, null terminated
def vec(r, e, p, L, what):
    st = r.st
    o, off = st.resolve(p)
    i = st.fresh("i"); s = st.fork_done()
    s.assume(z3.And(i >= 0, i < L.n))
    regs = e.regs[o.label]
    if s.sat(): r.eng.prove(s, s.loadr(regs, simp(off + i * 8), 8) == L.sel(i, 32), r.name(f"{what}: element i is the i-th string of the list"))
    r.eq(st.loadr(regs, simp(off + L.n * 8), 8), BV(0), f"{what}: null terminated")
def cntloop(var, lv, at):
    def inv(L):
        ls = at(L); n = sx(L.var(var), 64)
        return [("counts the cells passed", z3.And(n >= 0, n <= ls.n, L.var(lv) == ls.at(n)))]
    def setup(L):
        ls = at(L); n = sx(L.var(var), 64)
        L.fr.allocs[L._alloca(lv)] = ls.at(n)
    return Loop(inv, setup=setup, dec=lambda L: at(L).n - sx(L.var(var), 64))
def fillloop(at, first=0, prev=None):
    """*cp++ = string: i cells are copied; first: index in the vector of the first one (a term)"""
    def parts(L):
        ls = at(L); b = L.var("argv"); f = first(L) if callable(first) else BV(first)
        return ls, b, f
    def inv(L):
        ls, b, f = parts(L)
        i = z3.BitVec("gi", 64) if False else None
        off = simp(L.var("cp") - b)
        k = simp(z3.UDiv(off, BV(8)) - f) if False else None
        n = L.st.ghost.get(("fill", id(at)))
        cnt = n if n is not None and not getattr(L, "start", None) is None else None
        c = z3.LShR(off, 3) - f
        j = z3.BitVec("j_", 64); rg = L.st.resolve(b)[0]
        m = L.st.mem_array(rg.label)
        out = [("cp is word aligned in the vector", z3.Extract(2, 0, off) == 0), ("cells copied so far", z3.And(c >= 0, c <= ls.n, L.var("p") == ls.at(c))),
               ("the copied strings", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), z3.Select(m, (f + j) * 8) == ls.sel(j, 32)), patterns=[ls.sel(j, 32), z3.Select(m, (f + j) * 8)]))]
        if prev: out += prev(L, m)
        return out
    def setup(L):
        ls, b, f = parts(L)
        c = L.st.fresh("c")
        L.fr.allocs[L._alloca("cp")] = simp(b + (f + c) * 8)
        L.fr.allocs[L._alloca("p")] = ls.at(c)
        L.st.assume(z3.And(c >= 0, c <= ls.n))
    def mods(L): return [L.st.resolve(L.var("argv"))[0].label]
    return Loop(inv, setup=setup, mods=mods, dec=lambda L: parts(L)[0].n - (z3.LShR(simp(L.var("cp") - L.var("argv")), 3) - parts(L)[2]))
def lst(k): return lambda L: L.eng.A[k]
def mkexec(file, fn, call, env=False):
    def pre(eng, st, A): eng.A = A
    def post(r):
        A = r.A
        e = None
        if not r.calls(call):
            if r.effects() and [x.name for x in r.effects()] != ["RaiseSysError"]: r.fail("no other call")
            r.prove(z3.BoolVal(any(num(x) == 0 for x in r.st.ghost.get("mallocs", ()))), "fails without a call only when memory runs out")
            r.raised(None, True); return
        e = r.sys(call, A[0].ptr)
        vec(r, e, e.args[1], A[1], "argv")
        if env: vec(r, e, e.args[2], A[2], "envp")
        r.raised(e)
    lists = [lst(1), lst(2)]
    loops = {(fn, 0): cntloop("nArgs", "p", lists[0])}
    if env:
        loops[(fn, 1)] = cntloop("nEnv", "p", lists[1])
        loops[(fn, 2)] = fillloop(lists[0])
        def prev(L, m):
            a = L.eng.A[1]; j = z3.BitVec("j_", 64)
            return [("argv is kept", z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), z3.Select(m, j * 8) == a.sel(j, 32)), patterns=[a.sel(j, 32), z3.Select(m, j * 8)]), z3.Select(m, a.n * 8) == 0))]
        loops[(fn, 3)] = fillloop(lists[1], lambda L: L.eng.A[1].n + 1, prev)
    else: loops[(fn, 1)] = fillloop(lists[0])
    G.add(file, fn, REC(STR, tList("str"), tList("str")) if env else REC(STR, tList("str")), post, pre=pre, loops=loops, bound=3)
mkexec(D + "exec.c", "_ml_P_Process_exec", "execv")
mkexec(D + "execp.c", "_ml_P_Process_execp", "execvp")
mkexec(D + "exece.c", "_ml_P_Process_exece", "execve", True)
# --- environment
@G.fn(N + "ctermid.c", "_ml_P_ProcEnv_ctermid", UNIT)
def _(r):
    e = r.sys("ctermid")
    if r.case(e.ret == 0): r.raised(None, True); return
    o, b = r.st.resolve(e.args[0])
    if r.case(r.st.loadr(e.post[o.label], num(b), 1) == 0): r.raised(None, True)
    else: r.noraise(); r.match(r.ret, eCStr(e.args[0]))
@G.fn(N + "environ.c", "_ml_P_ProcEnv_environ", UNIT)
def _(r):
    e = r.one("ML_CStringList"); r.noraise()
    r.eq(e.args[1], r.st.loadr(r.st.regions["g:environ"], 0, 8), "the list is that of environ"); r.match(r.ret, eVal(e.ret))
@G.fn(N + "getenv.c", "_ml_P_ProcEnv_getenv", STR)
def _(r):
    e = r.sys("getenv", r.A.ptr); r.noraise()
    r.match(r.ret, eNone() if r.case(e.ret == 0) else eSome(eCStr(e.ret)))
def named(file, fn, arg, call, args):
    def post(r):
        e = r.sys(call, *args(r.A))
        if r.case(e.ret == 0): r.raised(None, True)
        else: r.noraise(); r.match(r.ret, eCStr(e.ret))
    G.add(file, fn, arg, post)
named(N + "getlogin.c", "_ml_P_ProcEnv_getlogin", UNIT, "getlogin", lambda A: [])
named(N + "ttyname.c", "_ml_P_ProcEnv_ttyname", I32, "ttyname", lambda A: [lo32(A)])
@G.fn(N + "uname.c", "_ml_P_ProcEnv_uname", UNIT)
def _(r):
    e = r.sys("uname")
    if r.failed(e): r.raised(e); return
    r.noraise(); t = eNil()
    f = lambda n: simp(e.args[0] + r.eng.mods[0].field("utsname", n)[0])
    for n in ("machine", "version", "release", "nodename", "sysname"): t = eRec(eRec(eLit(n), eCStr(f(n))), t)
    r.match(r.ret, t)
def fits(t): return sx(simp(z3.Extract(31, 0, t)), 64)
@G.fn(N + "time.c", "_ml_P_ProcEnv_time", UNIT)
def _(r):
    e = r.sys("time", BV(0)); r.noraise()
    r.match(r.ret, eInt(fits(e.ret)))
@G.fn(N + "times.c", "_ml_P_ProcEnv_times", UNIT)
def _(r):
    e = r.sys("times")
    if r.failed(e): r.raised(e); return
    r.noraise(); o = lambda f: eInt(fits(r.outfield(e, 0, "tms", f)))
    r.match(r.ret, eRec(eInt(fits(e.ret)), o("tms_utime"), o("tms_stime"), o("tms_cutime"), o("tms_cstime")))
# --- user and group database
def db(file, fn, arg, call, args, st, fields):
    def post(r):
        e = r.sys(call, *args(r.A), others=("ML_CStringList",))
        if r.case(e.ret == 0): r.raised(e); return
        r.noraise(); fs = []
        for k, f in fields:
            v = r.objfield(e, st, f)
            if k == "s": fs.append(eCStr(v))
            elif k == "w": fs.append(eW64(zx(v, 64)))
            else:
                c = r.one("ML_CStringList"); r.eq(c.args[1], v, f"the list is that of {f}"); fs.append(eVal(c.ret))
        r.match(r.ret, eRec(*fs))
    G.add(file, fn, arg, post)
GR = [("s", "gr_name"), ("w", "gr_gid"), ("l", "gr_mem")]; PW = [("s", "pw_name"), ("w", "pw_uid"), ("w", "pw_gid"), ("s", "pw_dir"), ("s", "pw_shell")]
db(S + "getgrgid.c", "_ml_P_SysDB_getgrgid", SYSW, "getgrgid", lambda A: [lo32(A.val)], "group", GR)
db(S + "getgrnam.c", "_ml_P_SysDB_getgrnam", STR, "getgrnam", lambda A: [A.ptr], "group", GR)
db(S + "getpwuid.c", "_ml_P_SysDB_getpwuid", SYSW, "getpwuid", lambda A: [lo32(A.val)], "passwd", PW)
db(S + "getpwnam.c", "_ml_P_SysDB_getpwnam", STR, "getpwnam", lambda A: [A.ptr], "passwd", PW)
osval(G, D + "osval.c", "_ml_P_Process_osval", ["sys/wait.h"], {"WNOHANG": "WNOHANG", "WUNTRACED": "WUNTRACED"})

# --- getgroups: the list of the group ids, in order
def gidelt(r, i):
    """boxed i-th group id that the last successful getgroups left in its buffer"""
    e = [x for x in r.st.events if x.name == "getgroups"][-1]
    o, off = r.st.resolve(e.args[1])
    return eW64(zx(r.st.loadr(e.post[o.label], simp(off + i * 4), 4), 64))
def ggpost(r):
    es = r.calls("getgroups")
    nomem = any(num(x) == 0 for x in r.st.ghost.get("mallocs", ()))
    if not es or len(es) not in (1, 3) and not (len(es) == 2 and nomem): r.fail("one call of getgroups, or the size and a second one when the buffer was too small")
    if len([e for e in r.effects() if e.name not in ("getgroups", "RaiseSysError")]): r.fail("no other call")
    e = es[0]; r.eq(e.args[0], BV(65536, 32), "first asks for up to NGROUPS_MAX groups")
    er = r.st.loadr(e.post["errno"], 0, 4)
    if len(es) == 1:
        if r.failed(e):
            r.prove(er != 22, "a buffer that was too small is grown"); r.raised(e); return
    else:
        r.eq(e.ret, BV(-1, 32), "asks again only after a failure"); r.eq(er, BV(22, 32), "asks again only when the buffer was too small")
        r.eq(es[1].args[0], BV(0, 32), "asks for the number of groups")
        if len(es) == 2:
            r.raised(); r.eq(r.st.loadr(r.calls("RaiseSysError")[0].regs["errno"], 0, 4), BV(12, 32), "reports ENOMEM"); return
        e = es[2]; r.eq(e.args[0], es[1].ret, "asks for that many")
        if r.failed(e): r.raised(e); return
    r.noraise(); r.match(r.ret, eList(sx(e.ret, 64), gidelt))
def ggleft(L): return sx(z3.If(L.var("ngrps") < 0, BV(0, 32), L.var("ngrps")), 64)
def ggtot(L):
    v = L.entry["vars"]["ngrps"]; return sx(z3.If(v < 0, BV(0, 32), v), 64)
G.add(N + "getgroups.c", "_ml_P_ProcEnv_getgroups", UNIT, ggpost, loops={"mkList": buildloop("p", ggleft, ggtot, gidelt)}, bound=3)

def scval(r, e):
    if e is None: r.raised(None, True); return
    return eW64(e.ret)
conf(G, N + "sysconf.c", "_ml_P_ProcEnv_sysconf", STR, "arg_data", "_SC_", "ARG_MAX CHILD_MAX CLK_TCK NGROUPS_MAX OPEN_MAX STREAM_MAX TZNAME_MAX JOB_CONTROL SAVED_IDS VERSION".split(), "sysconf", 0, lambda A: [], scval)
G.stubs["sysconf"] = sysc()
for d in ("posix-process", "posix-procenv", "posix-sysdb"): G.bind(d)
