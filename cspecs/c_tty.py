"""Terminals, polling, temporary names."""
from mlspec import *
from ctables import *
G = Group("tty")
D = "c-libs/posix-tty/"; O = "c-libs/posix-os/"
lo32 = lambda t: simp(z3.Extract(31, 0, t))
NCCS = 32
TIOS = 60
def s_cfget(x):
    """a function of the settings"""
    x.st.resolve(x.args[0])
    r = x.fresh("r_" + x.name); x.event(r); return r
def s_cfset(x):
    """on success sets the speed: changes only the speed bits of the settings (CBAUD|CBAUDEX of c_cflag, IBAUD0 of c_iflag, c_ispeed, c_ospeed)"""
    st = x.st; r = x.fresh("r_" + x.name); st.assume(z3.And(r >= -1, r <= 0))
    rg, off = st.resolve(x.args[0]); o = num(off)
    e = x.event(r)
    m = x.eng.mods[0]; F = lambda f: o + m.field("termios", f)[0]
    v = st.fresh("spd", 32); st.storer(rg, F("c_cflag"), simp(st.loadr(rg, F("c_cflag"), 4) & ~0x100f | v & 0x100f), 4)
    v = st.fresh("spd", 32); st.storer(rg, F("c_iflag"), simp(st.loadr(rg, F("c_iflag"), 4) & 0x7fffffff | v & 0x80000000), 4)
    for f in ("c_ispeed", "c_ospeed"): st.storer(rg, F(f), st.fresh("spd", 32), 4)
    e.out[0] = rg.label
    havoc_errno(st); e.post = {k: v.copy() for k, v in st.regions.items()}
    return r
G.stubs.update({"ioctl": sysc([(2, 8)], rethi=0), "tcdrain": sysc(), "tcflow": sysc(), "tcflush": sysc(), "tcgetpgrp": sysc(), "tcsetpgrp": sysc(), "tcsendbreak": sysc(), "tcgetattr": sysc([(1, TIOS)]),
                "tcsetattr": sysc(), "cfgetispeed": s_cfget, "cfgetospeed": s_cfget, "cfsetispeed": s_cfset, "cfsetospeed": s_cfset})
G.wrapper(D + "tcdrain.c", "_ml_P_TTY_tcdrain", I32, "tcdrain", lambda A: [lo32(A)])
for n in ("tcflow", "tcflush", "tcsendbreak", "tcsetpgrp"): G.wrapper(D + n + ".c", "_ml_P_TTY_" + n, REC(I32, I32), n, lambda A: [lo32(A[0]), lo32(A[1])])
G.wrapper(D + "tcgetpgrp.c", "_ml_P_TTY_tcgetpgrp", I32, "tcgetpgrp", lambda A: [lo32(A)], lambda r, e: eInt(sx(e.ret, 64)))
TIOCGWINSZ = 0x5413
@G.fn(D + "getwinsz.c", "_ml_P_TTY_getwinsz", I32)
def _(r):
    e = r.sys("ioctl", lo32(r.A), BV(TIOCGWINSZ)); r.noraise()
    if r.case(e.ret == 0): r.match(r.ret, eSome(eRec(eInt(zx(r.outfield(e, 2, "winsize", "ws_row"), 64)), eInt(zx(r.outfield(e, 2, "winsize", "ws_col"), 64)))))
    else: r.match(r.ret, eNone())
@G.fn(D + "tcgetattr.c", "_ml_P_TTY_tcgetattr", I32)
def _(r):
    e = r.sys("tcgetattr", lo32(r.A), others=("cfgetispeed", "cfgetospeed"))
    if r.failed(e): r.raised(e); return
    r.noraise(); o = lambda f: eW64(zx(r.outfield(e, 1, "termios", f), 64))
    def spd(n):
        c = r.one(n); rg, off = r.st.resolve(c.args[0]); g, o2 = r.st.resolve(e.args[1])
        for f in ("c_iflag", "c_cflag", "c_ispeed", "c_ospeed"):
            k, s = r.eng.mods[0].field("termios", f)
            r.eq(r.st.loadr(c.regs[rg.label], num(off) + k, s), r.outfield(e, 1, "termios", f), f"the speed is that of the settings read")
        return eW64(zx(c.ret, 64))
    def cc(r, d, doff, what):
        k = r.eng.mods[0].field("termios", "c_cc")[0]; g, b = r.st.resolve(e.args[1])
        for i in range(NCCS): r.eq(r.st.loadr(d, doff + i, 1), r.st.loadr(e.post[g.label], num(b) + k + i, 1), f"control character {i}")
    r.match(r.ret, eRec(o("c_iflag"), o("c_oflag"), o("c_cflag"), o("c_lflag"), eSeq(DESC_string, NCCS, cc), spd("cfgetispeed"), spd("cfgetospeed")))
def pre(eng, st, A): st.assume(A[2][4].len == NCCS)
@G.fn(D + "tcsetattr.c", "_ml_P_TTY_tcsetattr", REC(I32, I32, REC(SYSW, SYSW, SYSW, SYSW, STR, SYSW, SYSW)), pre=pre)
def _(r):
    T = r.A[2]; i = r.calls("cfsetispeed"); o = r.calls("cfsetospeed")
    def failed(c): return c and r.case(c[0].ret == -1)
    if not r.calls("tcsetattr"):
        if len(i) > 1 or len(o) > 1: r.fail("each speed is set once")
        if failed(i): r.raised(i[0]) if not o else r.fail("stops at the first error"); return
        if failed(o): r.raised(o[0]); return
        r.fail("tcsetattr is called")
    if len(i) != 1 or len(o) != 1: r.fail("each speed is set once")
    r.eq(i[0].args[1], lo32(T[5].val), "input speed"); r.eq(o[0].args[1], lo32(T[6].val), "output speed")
    r.prove(z3.And(i[0].ret == 0, o[0].ret == 0), "settings are applied only when both speeds are legal")
    e = r.sys("tcsetattr", lo32(r.A[0]), lo32(r.A[1]), others=("cfsetispeed", "cfsetospeed"))
    r.prove(z3.And(i[0].args[0] == e.args[2], o[0].args[0] == e.args[2]), "the speeds are those of the settings applied")
    f = lambda n: r.infield(e, 2, "termios", n)
    r.eq(f("c_iflag") & 0x7fffffff, lo32(T[0].val) & 0x7fffffff, "input flags"); r.eq(f("c_oflag"), lo32(T[1].val), "output flags")
    r.eq(f("c_cflag") & ~0x100f, lo32(T[2].val) & ~0x100f, "control flags"); r.eq(f("c_lflag"), lo32(T[3].val), "local flags")
    k = r.eng.mods[0].field("termios", "c_cc")[0]; g, b = r.st.resolve(e.args[2])
    d = r.st.regions[T[4].lab]
    for j in range(NCCS): r.eq(r.st.loadr(e.regs[g.label], num(b) + k + j, 1), r.st.loadr(d, j, 1), f"control character {j}")
    if r.failed(e): r.raised(e)
    else: r.noraise(); r.match(r.ret, eUnit())
V = {n: n for n in "B0 B110 B1200 B134 B150 B1800 B19200 B200 B2400 B300 B38400 B4800 B50 B600 B75 B9600 BRKINT CLOCAL CREAD CS5 CS6 CS7 CS8 CSIZE CSTOPB ECHO ECHOE ECHOK ECHONL HUPCL ICANON ICRNL IEXTEN IGNBRK IGNCR IGNPAR INLCR INPCK ISIG ISTRIP IXOFF IXON NCCS NOFLSH OPOST PARENB PARMRK PARODD TCIFLUSH TCIOFF TCIOFLUSH TCION TCOFLUSH TCOOFF TCOON TCSADRAIN TCSAFLUSH TCSANOW TOSTOP".split()}
V.update({n: "V" + n for n in "EOF EOL ERASE INTR KILL MIN QUIT START STOP SUSP TIME".split()})
osval(G, D + "osval.c", "_ml_P_TTY_osval", ["termios.h"], V)
# --- temporary names
def s_snprintf(x):
    st = x.st; p, n = x.args[:2]
    rg, off = st.resolve(p)
    st._bounds_n(rg, off, n, f"{x.fr.f.name} -> snprintf: buffer")
    r = x.fresh("r_snprintf"); st.assume(r >= 0)
    e = x.event(r); st.havoc(rg.label); e.out[0] = rg.label
    e.post = {k: v.copy() for k, v in st.regions.items()}
    return r
def s_strcpy(x):
    st = x.st; b = conststr(st, x.args[1])
    if b is None: raise Shape("strcpy of a string that is not constant")
    for i, c in enumerate(b + b"\0"): st.store(simp(x.args[0] + i), BV(c, 8), 1)
    return x.args[0]
def s_mkstemp(x):
    st = x.st; rg, off = st.resolve(x.args[0])
    r = x.fresh("r_mkstemp"); st.assume(r >= -1)
    e = x.event(r); st.havoc(rg.label); e.out[0] = rg.label
    havoc_errno(st); e.post = {k: v.copy() for k, v in st.regions.items()}
    return r
@G.fn(O + "tmpname.c", "_ml_OS_tmpname", UNIT, stubs={"getenv": cptr(), "snprintf": s_snprintf, "strcpy": s_strcpy, "mkstemp": s_mkstemp, "close": sysc()})
def _(r):
    bad = [e.name for e in r.effects() if e.name not in ("getenv", "snprintf", "mkstemp", "close", "RaiseSysError")]
    if bad: r.fail(f"no other call ({bad[0]})")
    ms = r.calls("mkstemp"); cs = r.calls("close"); env = r.one("getenv")
    if conststr(r.st, env.args[0]) != b"TMPDIR": r.fail("the directory is that of TMPDIR")
    if not ms: r.fail("a file is created")
    for m in ms[:-1]: r.eq(m.ret, BV(-1, 32), "tries again only after a failure")
    m = ms[-1]
    sn = r.calls("snprintf")
    def std(e):
        """the template is the one in the system's directory"""
        g, o = r.st.resolve(e.args[0])
        return all(num(r.st.loadr(e.regs[g.label], num(o) + i, 1)) == c for i, c in enumerate(b"/tmp/SMLNJ-XXXXXX\0"))
    for e in ms:
        if std(e): continue
        if r.case(env.ret == 0): r.fail("without TMPDIR the file is in the system's directory")
        if len(sn) != 1: r.fail("the template is made once")
        s = sn[0]; fm = conststr(r.st, s.args[2])
        if fm != b"%s/SMLNJ-XXXXXX": r.fail("the template")
        r.eq(s.args[3], env.ret, "the template names the directory of TMPDIR"); r.eq(s.args[0], e.args[0], "the template used is the one made")
        r.prove(z3.And(s.ret >= 0, z3.ULT(sx(s.ret, 64), s.args[1])), "the template is complete")
    if r.failed(m):
        if cs: r.fail("nothing to close")
        if not std(m): r.fail("falls back to the system's directory")
        r.raised(m); return
    if len(cs) != 1: r.fail("the descriptor is closed, once")
    r.eq(cs[0].args[0], m.ret, "the descriptor closed is that of the new file")
    r.noraise(); r.match(r.ret, eCStr(m.args[0]))
# --- polling
RD, WR, ER = 1, 2, 4
def s_select(x):
    st = x.st; sets = []
    for i in (1, 2, 3):
        p = x.args[i]
        if st.entails(p == 0): sets.append(None); continue
        rg, off = st.resolve(p); st._bounds_n(rg, off, BV(128), "select: set"); sets.append((rg, off))
    tv = x.args[4]
    r = x.fresh("r_select"); st.assume(z3.And(r >= -1, r <= 3072))
    e = x.event(r)
    for i, s in enumerate(sets):
        if s: hv(st, s[0], s[1], 128); e.out[i + 1] = s[0].label
    if not st.entails(tv == 0):
        rg, off = st.resolve(tv); hv(st, rg, off, 16); e.out[4] = rg.label
    havoc_errno(st); e.post = {k: v.copy() for k, v in st.regions.items()}
    return r
def bit(r, regs, p, fd):
    g, o = r.st.resolve(p)
    w = r.st.loadr(regs[g.label], simp(o + z3.LShR(fd, 6) * 8), 8)
    return simp(z3.LShR(w, fd & 63) & 1 == 1)
def poll(r):
    L = r.A[0]; T = r.A[1]
    for k in range(8):
        if r.case(L.n == k): break
    else: raise Shape("more items than followed")
    it = [(simp(L.sel(i, 32) >> 1), simp(L.sel(i, 40) >> 1)) for i in range(k)]
    bad = z3.Or(*[z3.Or(f < 0, f >= 1024) for f, _ in it]) if it else z3.BoolVal(False)
    if r.case(bad):
        if r.calls("select"): r.fail("a descriptor out of range is an error")
        r.raised(None, True); return
    e = r.sys("select")
    if T.v is None: r.eq(e.args[4], BV(0), "waits without limit")
    else:
        r.prove(e.args[4] != 0, "waits with a limit")
        r.eq(r.infield(e, 4, "timeval", "tv_sec"), T.v[0], "seconds to wait"); r.eq(r.infield(e, 4, "timeval", "tv_usec"), T.v[1], "microseconds to wait")
    n = sx(e.args[0], 64)
    r.prove(z3.And(n >= 0, n <= 1024, *[z3.Implies((fl & 7) != 0, n > f) for f, fl in it]), "all the descriptors are in the range that is polled")
    for b, i, nm in ((RD, 1, "input"), (WR, 2, "output"), (ER, 3, "priority")):
        p = e.args[i]
        asked = z3.Or(*[(fl & b) != 0 for _, fl in it]) if it else z3.BoolVal(False)
        if r.case(p == 0): r.prove(z3.Not(asked), f"asks for {nm} where an item does"); continue
        x = r.st.fresh("fd"); s = r.st; s.assume(z3.And(x >= 0, x < 1024))
        r.prove(z3.Implies(x < n, bit(r, e.regs, p, x) == z3.Or(*[z3.And(f == x, (fl & b) != 0) for f, fl in it])), f"the descriptors polled for {nm} are those of the items")
    if r.failed(e): r.raised(e); return
    r.noraise()
    if r.case(e.ret == 0): r.match(r.ret, eNil()); return
    t = eNil()
    for f, fl in reversed(it):
        res = BV(0)
        for b, i in ((RD, 1), (WR, 2), (ER, 3)):
            if r.case(e.args[i] == 0): continue
            res = res | z3.If(z3.And((fl & b) != 0, bit(r, e.post, e.args[i], f)), BV(b), BV(0))
        if r.case(simp(res) != 0): t = eRec(eRec(eInt(f), eInt(simp(res))), t)
    r.match(r.ret, t)
ok = lambda k, v: z3.And(v >= -(1 << 31), v < 1 << 31)
def s_malloc1(x):
    """memory exhaustion is not modelled here"""
    st = x.st; st.nf += 1
    return st.region(f"malloc{st.nf}", x.args[0], kind="malloc")
# contracts of the two loops over the items and of the one that builds the result
B64, BO = z3.BitVecSort(64), z3.BoolSort()
ASK = {b: z3.Function(f"ask{b}", B64, BO) for b in (RD, WR, ER)}          # some of the first i items asks for b
SET = {b: z3.Function(f"set{b}", B64, B64, B64) for b in (RD, WR, ER)}     # word x of the set of descriptors that the first i items ask b for
RESF = z3.Function("resf", B64, B64)                                        # what is reported for item q (defined where it is used)
CNT = z3.Function("cnt", B64, B64)                                          # number of the first i items with something to report
SETS = ((RD, "rfds", "rset", 1), (WR, "wfds", "wset", 2), (ER, "efds", "eset", 3))
def item(L, i): return simp(L.sel(i, 32) >> 1), simp(L.sel(i, 40) >> 1)
def reg(L, nm): return L.st.ghost[("obj", nm)]
def ranged(A, q, i, mx):
    """item q is within the range polled, and what it asks for is asked for"""
    return z3.And(A.sel(q, 32) >> 1 >= 0, A.sel(q, 32) >> 1 <= mx, *[z3.Implies((A.sel(q, 40) >> 1) & b != 0, ASK[b](i)) for b in ASK])
def ask_inv(L):
    A = L.eng.A[0]; st = L.st
    if L.phase == "entry": i = BV(0); st.assume(z3.And(*[z3.Not(ASK[b](i)) for b in ASK]))
    else:
        i = st.ghost["i"]
        if L.phase == "kept":
            f, fl = item(A, i)
            for b in ASK:
                x = z3.BitVec("x_", 64)
                st.assume(ASK[b](i + 1) == z3.Or(ASK[b](i), (fl & b) != 0))
                st.assume(z3.ForAll([x], SET[b](i + 1, x) == (z3.If(ASK[b](i), SET[b](i, x), BV(0)) | z3.If(z3.And((fl & b) != 0, z3.LShR(f, 6) * 8 == x), BV(1) << (f & 63), BV(0))), patterns=[SET[b](i + 1, x)]))
            i = simp(i + 1)
    mx = sx(L.get("maxFD", 4), 64); q = z3.BitVec("q_", 64)
    out = [("the items passed", z3.And(i >= 0, i <= A.n, L.get("l") == A.at(i), sx(L.get("nItems", 4), 64) == i)), ("range of the descriptors", z3.And(mx >= 0, mx < 1024))]
    if L.phase == "assume": out.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), ranged(A, q, i, mx)), patterns=[A.sel(q, 32)])); st.ghost["mx"] = mx
    elif L.phase == "kept":
        q = st.fresh("q"); i0 = st.ghost["i"]; st.assume(z3.Implies(z3.And(q >= 0, q < i0), ranged(A, q, i0, st.ghost["mx"])))      # instance of the invariant
        out += [("range of the descriptors: the items before", z3.Implies(z3.And(q >= 0, q < i0), ranged(A, q, i, mx))), ("range of the descriptors: the new item", ranged(A, i0, i, mx))]
    for b, v, o, _ in SETS:
        x = z3.BitVec("x_", 64); m = st.mem_array(reg(L, o))
        out.append((f"{v}: set where it is asked for", L.get(v) == z3.If(ASK[b](i), st.regions[reg(L, o)].base, BV(0))))
        out.append((f"{o}: the descriptors asked for", z3.Implies(ASK[b](i), z3.ForAll([x], z3.Implies(z3.And(z3.ULT(x, 128), x & 7 == 0), z3.Select(m, x) == SET[b](i, x)), patterns=[z3.Select(m, x)] if L.phase == 'assume' else []))))
    return out
def ask_setup(L):
    A = L.eng.A[0]; st = L.st
    i = st.fresh("i"); st.ghost["i"] = i
    st.assume(z3.And(i >= 0, i <= A.n))
    L.set("l", A.at(i)); L.set("nItems", z3.Extract(31, 0, i))
    for b, v, o, _ in SETS: L.set(v, z3.If(ASK[b](i), st.regions[reg(L, o)].base, BV(0)))
ask = Loop(ask_inv, mods=lambda L: [reg(L, o) for o in ("rset", "wset", "eset")] + L.labs("l", "nItems", "maxFD", "item", "fd", "flag", "rfds", "wfds", "efds"), setup=ask_setup)
def sel_ev(st): return [e for e in st.events if e.name == "select"][-1]
def resflag(st, A, q):
    """what is reported for item q: what it asks for and the system says is ready"""
    e = sel_ev(st); f, fl = item(A, q); res = BV(0)
    for b, v, o, i in SETS:
        if st.entails(e.args[i] == 0): continue
        g, off = st.resolve(e.args[i])
        w = st.loadr(e.post[g.label], simp(off + z3.LShR(f, 6) * 8), 8)
        res = res | z3.If(z3.And((fl & b) != 0, z3.LShR(w, f & 63) & 1 == 1), BV(b), BV(0))
    return simp(res)
def res_inv(L):
    A = L.eng.A[0]; st = L.st
    if L.phase == "entry": j = BV(0); st.assume(CNT(j) == 0)
    else:
        j = st.ghost["j"]
        if L.phase == "kept":
            st.assume(RESF(j) == resflag(st, A, j)); st.assume(CNT(j + 1) == CNT(j) + z3.If(RESF(j) != 0, BV(1), BV(0)))
            j = simp(j + 1)
    m = st.mem_array(st.resolve(L.get("resVec"))[0].label)
    def rep(q, m, j): return z3.Implies(z3.And(q >= 0, q < j, RESF(q) != 0), z3.And(CNT(q) >= 0, CNT(q) < CNT(j), z3.Select(m, CNT(q) * 8) == z3.Concat(z3.Extract(31, 0, RESF(q)), z3.Extract(32, 1, A.sel(q, 32)))))
    out = [("the items passed", z3.And(j >= 0, j <= A.n, L.get("l") == A.at(j))), ("number to report", z3.And(sx(L.get("i", 4), 64) == CNT(j), CNT(j) >= 0, CNT(j) <= j))]
    if L.phase == "assume":
        q = z3.BitVec("q_", 64); st.ghost["m0"] = m
        return out + [z3.ForAll([q], rep(q, m, j), patterns=[CNT(q)])]
    if L.phase == "kept":
        q = st.fresh("q"); j0 = st.ghost["j"]
        st.assume(rep(q, st.ghost["m0"], j0)); st.assume(z3.And(j0 >= 0, j0 < A.n, CNT(j0) >= 0, CNT(j0) <= j0))
        return out + [("what is reported so far: the items before", z3.Implies(q != j0, rep(q, m, j))), ("what is reported so far: the new item", rep(j0, m, j))]
    return out
def res_setup(L):
    A = L.eng.A[0]; st = L.st; j = st.fresh("j"); st.ghost["j"] = j
    st.assume(z3.And(j >= 0, j <= A.n, CNT(j) >= 0, CNT(j) <= j)); L.set("l", A.at(j)); L.set("i", z3.Extract(31, 0, CNT(j)))
    L.eng.prove(st, z3.Implies(j < A.n, ranged(A, j, A.n, sx(L.get("maxFD", 4), 64))), "poll: item j is among those polled")
res = Loop(res_inv, mods=lambda L: [L.st.resolve(L.get("resVec"))[0].label] + L.labs("l", "i", "item", "fd", "flag", "resFlag"), setup=res_setup)
def pelt(r, k):
    st = r.st; g, o = st.resolve(r.L.get("resVec") if hasattr(r, "L") else st.ghost["resVec"])
    w = st.loadr(st.regions[g.label], simp(o + k * 8), 8)
    return eRec(eInt(sx(z3.Extract(31, 0, w), 64)), eInt(sx(z3.Extract(63, 32, w), 64)))
def ptot(L):
    L.st.ghost["resVec"] = L.get("resVec"); return CNT(L.eng.A[0].n)
build = buildloop("l", lambda L: sx(L.get("i", 4), 64) + 1, ptot, pelt)
def pollpost(r):
    if r.eng.bounded: return poll(r)
    A = r.A[0]; T = r.A[1]; st = r.st
    if not r.calls("select"):
        i = st.ghost.get("i")
        if i is None: r.fail("the items are polled")
        f, fl = item(A, i)
        r.prove(z3.And(i < A.n, z3.Or(f < 0, f >= 1024)), "refuses only a descriptor out of range"); r.raised(None, True); return
    e = r.sys("select")
    if T.v is None: r.eq(e.args[4], BV(0), "waits without limit")
    else:
        r.prove(e.args[4] != 0, "waits with a limit")
        r.eq(r.infield(e, 4, "timeval", "tv_sec"), T.v[0], "seconds to wait"); r.eq(r.infield(e, 4, "timeval", "tv_usec"), T.v[1], "microseconds to wait")
    n = sx(e.args[0], 64); q = st.fresh("q")
    s = st.fork_done(); 
    try:
        s.assume(z3.And(q >= 0, q < A.n)); s.assume(A.sel(q, 32) == A.sel(q, 32))
        r.eng.prove(s, z3.And(n > (A.sel(q, 32) >> 1), A.sel(q, 32) >> 1 >= 0, n <= 1024), r.name("all the descriptors are in the range that is polled"))
    except Dead: pass
    r.prove(z3.And(n >= 0, n <= 1024), "range of the poll")
    for b, v, o, i in SETS:
        if r.case(e.args[i] == 0): r.prove(z3.Not(ASK[b](A.n)), f"asks for {v} where an item does"); continue
        r.prove(ASK[b](A.n), f"asks for {v} only where an item does")
        g, off = st.resolve(e.args[i]); x = st.fresh("x"); s = st.fork_done(); s.assume(z3.And(z3.ULT(x, 128), x & 7 == 0))
        r.eng.prove(s, s.loadr(e.regs[g.label], simp(off + x), 8) == SET[b](A.n, x), r.name(f"{v}: the set is that of the items"))
    if r.failed(e): r.raised(e); return
    r.noraise()
    if r.case(e.ret == 0): r.match(r.ret, eNil()); return
    # the list is what resVec holds, which is one entry for every item with something to report, in order
    q = st.fresh("q"); s = st.fork_done(); rv, o = st.resolve(st.ghost["resVec"])
    try:
        s.assume(z3.And(q >= 0, q < A.n)); f = resflag(s, A, q); s.assume(f == RESF(q)); s.assume(f != 0)
        r.eng.prove(s, z3.And(CNT(q) >= 0, CNT(q) < CNT(A.n), s.loadr(rv, simp(CNT(q) * 8), 8) == z3.Concat(z3.Extract(31, 0, f), z3.Extract(31, 0, item(A, q)[0]))), r.name("every item with something to report is in the result, in its place"))
    except Dead: pass
    r.match(r.ret, eList(CNT(A.n), pelt))
def ppre(eng, st, A):
    if eng.bounded: st.assume(A[0].n <= 1)
G.add(O + "poll.c", "_ml_OS_poll", REC(tList("pair", ok=ok), OPT(REC(I32, I32))), pollpost, stubs={"select": s_select, "malloc": s_malloc1}, bound=40, pre=ppre, limit=400,
      loops={("ML_Poll", 0): ask, ("ML_Poll", 4): res, ("ML_Poll", 5): build})
for d in ("posix-tty", "posix-os"): G.bind(d)
