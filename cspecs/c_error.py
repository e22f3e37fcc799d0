"""Errors and system constants: raising SysErr, error messages, tables of constants, lookup of C functions by name."""
import json
from mlspec import *
from ctables import *
G = Group("error")
lo32 = lambda t: simp(z3.Extract(31, 0, t))
s64 = lambda t: sx(t, 64)
P = "c-libs/posix-error/"
# --- raising
def s_raise(x):
    x.require(x.args[0] == x.st.regions["msp"].base, "passes the ML state")
    e = x.event(None); e.post = {k: v.copy() for k, v in x.st.regions.items()}
def s_print(x):
    """sprintf and snprintf: the bytes they may write are those of the longest output of the format (%d only)"""
    st = x.st; n = x.name == "snprintf"
    d = x.args[0]; fmt = conststr(st, x.args[2 if n else 1])
    if fmt is None: raise Shape("format")
    rg, off = st.resolve(d)
    mx = BV(len(fmt.replace(b"%d", b"x" * 11)) + 1)
    if fmt.replace(b"%d", b"").find(b"%") >= 0: raise Shape("format")
    st._bounds_n(rg, off, zx(x.args[1], 64) if n else mx, f"{x.fr.f.name} -> {x.name}: destination")
    r = x.fresh("r_sprintf"); e = x.event(r); e.fmt = fmt
    hv(st, rg, off, mx); st.ghost[("text", rg.label)] = (off, fmt, x.args[(3 if n else 2):])
    e.post = {k: v.copy() for k, v in st.regions.items()}
    return r
PR = {"sprintf": s_print, "snprintf": s_print, "strerror": cptr(errno=False), "RaiseMLExn": s_raise}
def text(r, e, v, what):
    """the string v is the message of error number e: what strerror said, or one with the number where it said nothing"""
    s = r.one("strerror"); r.eq(s.args[0], e, "asks for the message of this error number")
    if not r.case(s.ret == 0): r.match(v, eCStr(s.ret), what); return
    for c in r.calls("ML_CString"):
        if not r.st.entails(v == c.ret): continue
        p = r.calls("sprintf") + r.calls("snprintf")
        if len(p) != 1: raise Shape("the message is made some other way")
        r.eq(c.args[1], p[0].args[0], f"{what}: the message"); 
        if len(p[0].args) < 3: r.fail(f"{what}: the message has the error number")
        r.eq(p[0].args[-1], e, f"{what}: the message has the error number"); return
    r.fail(f"{what} is an ML string")
def rse(alt, at):
    def args(eng, st, A):
        a = st.region("alt", None, kind="cobj", writable=False) if alt else BV(0)
        b = st.region("at", None, kind="cobj", writable=False) if at else BV(0)
        eng.alt, eng.at = a, b
        errno_region(st)
        st.ghost["errno0"] = st.loadr(st.regions["errno"], 0, 4)
        return [st.regions["msp"].base, a, b]
    def post(r):
        e = r.one("RaiseMLExn"); no = r.st.ghost["errno0"]
        r.eq(r.ret, e.args[1], "returns the exception it raises")
        if [x for x in r.effects() if x.name not in ("RaiseMLExn", "strerror", "sprintf", "snprintf")]: r.fail("no system call")
        msg = eCStr(r.eng.alt) if alt else (lambda r, v, what: text(r, no, v, what))
        g = r.st.regions.get("g:SysErr_id0") or r.st.regions.get("g:_SysErr_id0")
        if g is None: raise Shape("SysErr_id0")
        r.match(r.ret, eRec(eVal(simp(g.base + 8)), eRec(msg, eNone() if alt else eSome(eInt(s64(no)))), eRec(eCStr(r.eng.at), eNil()) if at else eNil()), "exception")
    G.add("c-libs/unix-raise-syserr.c", "RaiseSysError", None, post, args=args, stubs=dict(PR, RaiseSysError=None) if False else PR)
for a in (False, True):
    for b in (False, True): rse(a, b)
@G.fn("kernel/run-ml.c", "RaiseMLExn", None, args=lambda eng, st, A: [st.regions["msp"].base, z3.BitVec("exn", 64)], pre=lambda eng, st, A: kont(eng, st))
def _(r):
    st = r.st; f = lambda n: r.field(n)
    k = st.regions["kont"].base
    r.eq(f("arg"), z3.BitVec("exn", 64), "the exception is the argument of the handler"); r.eq(f("closure"), k, "the handler's closure is entered"); r.match(f("cont"), eUnit(), "no continuation")
    a = st.loadr(st.regions["kont"], 0, 8); r.eq(f("pc"), a, "control goes to the handler's code"); r.eq(f("linkReg"), a, "link register"); r.eq(f("exncont"), k, "the handler stays")
def kont(eng, st):
    k = st.region("kont", 16, kind="ml", writable=False, lo=-8)
    st.regions["msp"].fix = {**(st.regions["msp"].fix or {}), eng.off["exncont"]: k}
@G.fn(P + "errmsg.c", "_ml_P_Error_errmsg", I32, stubs=PR)
def _(r):
    if [x for x in r.effects() if x.name not in ("strerror", "sprintf", "snprintf")]: r.fail("no other call")
    text(r, lo32(r.A), r.ret, "message")
def isglob(r, v, nm, what):
    o, off = r.st.resolve(v)
    if o.label != "g:" + nm or num(off) != 0: r.fail(what)
    r.eng.ok(r.name(what))
@G.fn(P + "geterror.c", "_ml_P_Error_geterror", I32)
def _(r):
    e = r.one("ML_SysConst"); isglob(r, e.args[1], "_ErrorNo", "the table of error numbers"); r.eq(e.args[2], lo32(r.A), "the error number"); r.eq(r.ret, e.ret, "result")
@G.fn(P + "listerrors.c", "_ml_P_Error_listerrors", UNIT)
def _(r):
    e = r.one("ML_SysConstList"); isglob(r, e.args[1], "_ErrorNo", "the table of error numbers"); r.eq(r.ret, e.ret, "result")
ERR = "toobig acces again badf badmsg busy canceled child deadlk dom exist fault fbig inprogress intr inval io isdir loop mfile mlink msgsize nametoolong nfile nodev noent noexec nolck nomem nospc nosys notdir notempty notsup notty nxio perm pipe range rofs spipe srch xdev".split()
mac = lambda n: {"toobig": "E2BIG"}.get(n, "E" + n.upper())
consttable(G, P + "tbl-errno.c", "_ErrorNo", ["errno.h"], mac, ERR)
osval(G, "c-libs/posix-signal/osval.c", "_ml_P_Signal_osval", ["signal.h"], {n: "SIG" + n.upper() for n in "abrt alrm bus chld cont fpe hup ill int kill pipe quit segv stop term tstp ttin ttou usr1 usr2".split()})
nvspec(G)
for d in ("posix-error", "posix-signal"): G.bind(d)
# --- tables of constants
O = "gc/ml-objects.c"
def tblargs(*more):
    def args(eng, st, A):
        n = z3.BitVec("nconst", 64); st.assume(z3.And(n >= 0, n < (4 if eng.bounded else 1 << 24)))
        names = st.region("names", simp(n * 32), kind="cobj", writable=False)
        cs = st.region("consts", simp(n * 16), kind="cobj", writable=False); rg = st.regions["consts"]
        def gen(s, off):
            lo = simp(z3.Extract(3, 0, off))
            for k in (0, 8):
                if z3.is_true(simp(lo == k)) or s.entails(lo == k): break
            else: return None
            return simp(names + (off - 8) * 2) if k == 8 else z3.Select(rg.arr, off)
        rg.gen = gen
        t = st.region("tbl", 16, kind="cobj", writable=False)
        st.regions["tbl"].fix = {0: zx(simp(z3.Extract(31, 0, n)), 64), 8: cs}
        st.ghost["tbl"] = (n, names)
        return [st.regions["msp"].base, t] + [m for m in more]
    return args
def cid(st, j): return simp(z3.Extract(31, 0, z3.Select(z3.Const("mem_consts", AS), simp(bvof(j) * 16))))
ID = z3.BitVec("id", 32)
def scinv(L):
    n, _ = L.st.ghost["tbl"]; i = s64(L.get("i", 4)); j = z3.BitVec("j_", 64)
    return [("entries looked at", z3.And(i >= 0, i <= n)), ("none of them matches", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), cid(L.st, j) != ID), patterns=[z3.Select(z3.Const("mem_consts", AS), j * 16)]))]
@G.fn(O, "ML_SysConst", None, args=tblargs(ID), loops={"ML_SysConst": Loop(scinv, dec=lambda L: L.st.ghost["tbl"][0] - s64(L.get("i", 4)))}, bound=4)
def _(r):
    st = r.st; n, names = st.ghost["tbl"]
    if r.effects(): r.fail("no effect")
    c = r.one("ML_CString")
    if conststr(st, c.args[1]) is not None:
        r.match(r.ret, eRec(eInt(-1), eLit("<UNKNOWN>")))
        j = st.fresh("j"); s = st.fork_done(); s.assume(z3.And(j >= 0, j < n)); 
        if s.sat(): r.eng.prove(s, cid(s, j) != ID, r.name("a constant of the table is found"))
        return
    off = simp(c.args[1] - names); k = simp(z3.LShR(off, 5))
    r.prove(z3.And(z3.ULT(k, n), off == k * 32), "the name of an entry of the table"); r.eq(cid(st, k), ID, "the entry has this number")
    r.match(r.ret, eRec(eInt(s64(ID)), eCStr(c.args[1])))
def scelt(r, i): return eRec(eInt(s64(cid(r.st, i))), eCStr(simp(r.st.ghost["tbl"][1] + bvof(i) * 32)))
G.add(O, "ML_SysConstList", None, lambda r: r.match(r.ret, eList(r.st.ghost["tbl"][0], scelt)), args=tblargs(), bound=4,
      loops={"ML_SysConstList": buildloop("list", lambda L: s64(L.get("i", 4)), lambda L: L.st.ghost["tbl"][0], scelt)})

# --- C functions by name
LIBS = [("SMLNJ-RunT", "smlnj-runtime", "smlnj-runt-lib.c"), ("SMLNJ-Signals", "smlnj-signals", "smlnj-sig-lib.c"), ("SMLNJ-Prof", "smlnj-prof", None), ("SMLNJ-Time", "smlnj-time", None), ("SMLNJ-Date", "smlnj-date", None), ("SMLNJ-Math", "smlnj-math", None),
        ("SMLNJ-Sockets", "smlnj-sockets", "smlnj-sock-lib.c"), ("POSIX-Error", "posix-error", None), ("POSIX-FileSys", "posix-filesys", None), ("POSIX-IO", "posix-io", None), ("POSIX-ProcEnv", "posix-procenv", None),
        ("POSIX-Process", "posix-process", None), ("POSIX-Signal", "posix-signal", None), ("POSIX-SysDB", "posix-sysdb", None), ("POSIX-TTY", "posix-tty", None), ("POSIX-OS", "posix-os", None), ("UNIX-Dynload", "dl", "unix-dynload-lib.c")]
BIND = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bindings.json")))
LF = [f"c-libs/{d}/{f or d + '-lib.c'}" for _, d, f in LIBS]
CL = ("CLibs", "CFunTable") + tuple("SMLNJ_RunT SMLNJ_Sig SMLNJ_Prof SMLNJ_Time SMLNJ_Date SMLNJ_Math SMLNJ_Sock POSIX_Error POSIX_FileSys POSIX_IO POSIX_ProcEnv POSIX_Process POSIX_Signal POSIX_SysDB POSIX_TTY POSIX_OS UNIX_Dynload".replace(" ", "_Library ").split()) + ("UNIX_Dynload_Library",)
def s_cmp2(x):
    """strcmp of an argument string with a constant: equal for at most one constant"""
    st = x.st; ks = st.ghost["keys"]
    a, b = x.args[:2]
    for p, q in ((a, b), (b, a)):
        try: rg, off = st.resolve(p)
        except Shape: continue
        if rg.label in ks and num(off) == 0:
            c = cstr(st, q)
            if c is None: break
            k = ks[rg.label]; t = st.ghost["codes"]; st.ghost["codes"] = t = t if c in t else {**t, c: len(t) + 1}
            r = x.fresh("strcmp", 32); st.assume((r == 0) == (k == t[c])); return r
    raise Shape("strcmp of other strings")
def bindpre(eng, st, A):
    st.ghost["keys"] = {"mname": z3.BitVec("mcode", 16), "fname": z3.BitVec("fcode", 16)}; st.ghost["codes"] = {}
def bindargs(eng, st, A): return [st.region("mname", None, kind="cobj", writable=False), st.region("fname", None, kind="cobj", writable=False)]
@G.fn("c-libs/c-libraries.c", "BindCFun", None, link=LF, pre=bindpre, args=bindargs, stubs={"strcmp": s_cmp2}, unroll=100, limit=400, msp=False, consts=CL)
def _(r):
    st = r.st; t = st.ghost["codes"]; ks = st.ghost["keys"]
    if r.effects(): r.fail("no effect")
    m = next((l for l in LIBS if l[0].encode() in t and st.entails(ks["mname"] == t[l[0].encode()])), None)
    if m is None:
        r.match(r.ret, eUnit()); 
        for l in LIBS:
            if l[0].encode() not in t: r.fail(f"the library {l[0]} is looked for")
        return
    fs = BIND[m[1]]; f = next((n for n in fs if n.encode() in t and st.entails(ks["fname"] == t[n.encode()])), None)
    if num(r.ret) is not None:
        r.match(r.ret, eUnit())
        for n in fs:
            if n.encode() not in t and not any(n in (x or ()) for x in ()): r.fail(f"{m[0]}.{n} is found")
        return
    o, off = st.resolve(r.ret)
    got = cstr(st, st.loadr(o, num(off) + r.fieldof("cfunc_binding_t", "name")[0], 8)); p = st.loadr(o, num(off) + r.fieldof("cfunc_binding_t", "cfunc")[0], 8)
    q, qo = st.resolve(p)
    if f is None: r.prove(z3.BoolVal(got is not None and got.decode() not in fs), "the entry is that of the name"); return
    if got != f.encode() or q.label != "f:" + fs[f]: r.fail(f"{m[0]}.{f} is bound to {fs[f]}")
    r.eng.ok(r.name(f"{m[0]}.{f} is bound to {fs[f]}"))
def s_snp(x):
    st = x.st; fmt = cstr(st, x.args[2]); n = num(x.args[1])
    if fmt is None or n is None: raise Shape("format")
    vs = [cstr(st, a) for a in x.args[3:]]
    if fmt.count(b"%s") != len(vs) or None in vs or fmt.replace(b"%s", b"").find(b"%") >= 0: raise Shape("format")
    out = fmt
    for v in vs: out = out.replace(b"%s", v, 1)
    rg, off = st.resolve(x.args[0]); st._bounds_n(rg, off, BV(n), "InitCFunList -> snprintf: destination")
    if n: st.ghost["texts"] = {**st.ghost.get("texts", {}), rg.label: out[:n - 1]}
    return BV(len(out), 32)
def s_rec(x):
    st = x.st; rg, off = st.resolve(x.args[0])
    nm = st.ghost.get("texts", {}).get(rg.label) if num(off) == 0 else None
    if nm is None: raise Shape("name of the symbol")
    st.ghost["syms"] = st.ghost.get("syms", ()) + ((nm, x.args[1]),)
def s_mal(x):
    st = x.st; st.nf += 1
    return st.region(f"malloc{st.nf}", num(x.args[0]), kind="malloc")
@G.fn("c-libs/c-libraries.c", "InitCFunList", None, link=LF, args=lambda eng, st, A: [], stubs={"snprintf": s_snp, "RecordCSymbol": s_rec, "malloc": s_mal, **{f: quiet() for f in ("InitSignals",)}}, unroll=400, limit=400, msp=False, consts=CL, note="assumes malloc succeeds")
def _(r):
    st = r.st; got = {}
    for nm, p in st.ghost.get("syms", ()):
        o, off = st.resolve(p); q, _ = st.resolve(st.loadr(o, num(off) + r.fieldof("cfunc_binding_t", "cfunc")[0], 8)); got.setdefault(nm.decode(), []).append(q.label)
    for l, d, _ in LIBS:
        for n, f in BIND[d].items():
            if got.get(f"{l}.{n}") != ["f:" + f]: r.fail(f"{l}.{n} is recorded as the name of {f}")
            r.eng.ok(r.name(f"{l}.{n} is recorded as the name of {f}"))
