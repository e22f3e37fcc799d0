"""Sockets and the network database."""
from mlspec import *
from ctables import *
G = Group("socket")
D = "c-libs/smlnj-sockets/"
lo32 = lambda t: simp(z3.Extract(31, 0, t)); s64 = lambda t: sx(t, 64)
bswap16 = lambda t: z3.Concat(z3.Extract(7, 0, t), z3.Extract(15, 8, t))
CNT = tInt(0, (1 << 31) - 9)
MAXADDR = 128                       # sizeof(struct sockaddr_storage): the kernel's addresses are no longer
def s_bswap(x):
    a = x.args[0]; n = a.size() // 8
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n)]))
def withaddr(ai, li, outs=(), **k):
    """a call that leaves an address in argument ai, its length in li"""
    base = sysc(list(outs), **k)
    def h(x):
        st = x.st
        rb, ob = st.resolve(x.args[ai]); rl, ol = st.resolve(x.args[li])
        lim = st.loadr(rl, num(ol), 4)
        st._bounds_n(rb, ob, zx(lim, 64), f"{x.fr.f.name} -> {x.name}: address buffer")
        r = base(x); e = st.events[-1]
        st.havoc(rb.label); st.havoc(rl.label)
        n = st.loadr(rl, num(ol), 4); st.assume(z3.ULE(n, MAXADDR))
        x.require(z3.UGE(lim, MAXADDR), "room for any address")
        e.out[ai] = rb.label; e.out[li] = rl.label
        e.post = {k: v.copy() for k, v in st.regions.items()}
        return r
    return h
def lim(i): return lambda x: zx(x.args[i], 64)
def s_io(out, base):
    def h(x):
        st = x.st; n = lim(2)(x)
        rg, off = st.resolve(x.args[1]); st._bounds_n(rg, off, n, f"{x.fr.f.name} -> {x.name}: buffer")
        r = base(x); st.assume(z3.And(r <= n, r <= 0x7ffff000)); return r
    return h
G.stubs.update({"accept": withaddr(1, 2), "getsockname": withaddr(1, 2), "getpeername": withaddr(1, 2), "bind": sysc(), "connect": sysc(), "listen": sysc(), "close": sysc(), "shutdown": sysc(), "socket": sysc(), "socketpair": sysc([(3, 8)]),
                "recv": s_io(True, sysc([(1, lim(2))])), "recvfrom": s_io(True, withaddr(4, 5, [(1, lim(2))])), "send": s_io(False, sysc()), "sendto": s_io(False, sysc()),
                "getsockopt": sysc([(3, lambda x: zx(x.st.load(x.args[4], 4), 64)), (4, 4)]), "setsockopt": sysc(), "ioctl": sysc([(2, 4)]), "llvm.bswap": s_bswap, "htons": s_bswap, "ntohs": s_bswap, "htonl": s_bswap, "ntohl": s_bswap, "gethostname": sysc([(0, lambda x: x.args[1])], rethi=0),
                "getprotobyname": cptr(24), "getprotobynumber": cptr(24), "getrpcbyname": cptr(24), "getrpcbynumber": cptr(24), "getservbyname": cptr(32), "getservbyport": cptr(32), "getnetbyname": cptr(24), "getnetbyaddr": cptr(24)})
W = G.wrapper
for n in ("bind", "connect"):
    def post(r, n=n):
        e = r.sys(n, lo32(r.A[0]), r.A[1].ptr, lo32(r.A[1].len))
        if r.failed(e): r.raised(e)
        else: r.noraise(); r.match(r.ret, eUnit())
    G.add(D + n + ".c", "_ml_Sock_" + n, REC(I32, BYTES), post)
W(D + "listen.c", "_ml_Sock_listen", REC(I32, I32), "listen", lambda A: [lo32(A[0]), lo32(A[1])])
W(D + "shutdown.c", "_ml_Sock_shutdown", REC(I32, I32), "shutdown", lambda A: [lo32(A[0]), lo32(A[1])])
W(D + "close.c", "_ml_Sock_close", I32, "close", lambda A: [lo32(A)])
W(D + "socket.c", "_ml_Sock_socket", REC(I32, I32, I32), "socket", lambda A: [lo32(A[i]) for i in range(3)], lambda r, e: eInt(s64(e.ret)))
@G.fn(D + "socketpair.c", "_ml_Sock_socketpair", REC(I32, I32, I32))
def _(r):
    e = r.sys("socketpair", *[lo32(r.A[i]) for i in range(3)])
    if r.failed(e): r.raised(e); return
    r.noraise(); o, b = r.st.resolve(e.args[3]); b = num(b); v = lambda k: eInt(s64(r.st.loadr(e.post[o.label], b + k, 4)))
    r.match(r.ret, eRec(v(0), v(4)))
# --- addresses
def addrof(e, ai, li):
    """the address that call e left in its buffer"""
    def chk(r, v, what):
        st = r.st; rl, ol = st.resolve(e.args[li]); n = zx(st.loadr(e.post[rl.label], num(ol), 4), 64)
        o, off = r.obj(v, what)
        r.eq(st.loadr(o, r.sub8(off), 8), DESC_string, f"{what}: descriptor of a byte vector")
        r.match(st.loadr(o, r.add(off, 8), 8), eInt(n), f"{what}: length of the address")
        d = st.loadr(o, off, 8)
        if r.case(n == 0): r.eq(d, BV(1), f"{what}: no data"); return
        rb, ob = st.resolve(e.args[ai])
        for c in r.calls("ML_CData"):
            if not st.entails(d == c.ret): continue
            r.eq(c.args[1], e.args[ai], f"{what}: data of the address"); r.eq(c.args[2], n, f"{what}: all the data of the address")
            r.samebytes(c.regs[rb.label], ob, e.post[rb.label], ob, n, f"{what}: the bytes of the address"); break
        else: r.fail(f"{what}: data of the address")
        r.notstale(v, what)
    return chk
@G.fn(D + "accept.c", "_ml_Sock_accept", I32)
def _(r):
    e = r.sys("accept", lo32(r.A))
    if r.failed(e): r.raised(e); return
    r.noraise(); r.match(r.ret, eRec(eInt(s64(e.ret)), addrof(e, 1, 2)))
for n in ("getsockname", "getpeername"):
    def post(r, n=n):
        e = r.sys(n, lo32(r.A))
        if r.failed(e): r.raised(e); return
        r.noraise(); r.match(r.ret, addrof(e, 1, 2))
    G.add(D + n + ".c", "_ml_Sock_" + n, I32, post)
def bytesof(d, off, i, n, r): return z3.Concat(*[r.st.loadr(d, off + j, 1) for j in reversed(range(i, i + n))])
def inetdata(port, addr):
    def chk(r, d, off, what):
        B = lambda i, n: bytesof(d, off, i, n, r)
        r.eq(B(0, 2), BV(2, 16), f"{what}: family AF_INET"); r.eq(B(2, 2), bswap16(simp(z3.Extract(15, 0, port))), f"{what}: port in network order")
        r.eq(B(4, 4), addr(r), f"{what}: host address"); r.eq(B(8, 8), BV(0), f"{what}: zero filled")
    return chk
def strbytes(r, s, i, n): return z3.Concat(*[r.st.loadr(r.st.regions[s.lab], j, 1) for j in reversed(range(i, i + n))])
PORT = tInt(0, 65535)
@G.fn(D + "inetany.c", "_ml_Sock_inetany", PORT)
def _(r):
    if r.effects(): r.fail("makes no system call")
    r.match(r.ret, eSeq(DESC_string, 16, inetdata(r.A, lambda r: BV(0, 32))))
@G.fn(D + "to-inetaddr.c", "_ml_Sock_toinetaddr", REC(BYTES, PORT), pre=lambda eng, st, A: st.assume(A[0].len == 4))
def _(r):
    if r.effects(): r.fail("makes no system call")
    r.match(r.ret, eSeq(DESC_string, 16, inetdata(r.A[1], lambda r: strbytes(r, r.A[0], 0, 4))))
@G.fn(D + "from-inetaddr.c", "_ml_Sock_frominetaddr", BYTES, pre=lambda eng, st, A: st.assume(z3.And(A.len >= 16, A.len <= 1024)))
def _(r):
    if r.effects(): r.fail("makes no system call")
    def d(r, d, off, what): r.eq(bytesof(d, off, 0, 4, r), strbytes(r, r.A, 4, 4), f"{what}: host address")
    r.match(r.ret, eRec(eSeq(DESC_string, 4, d), eInt(zx(bswap16(strbytes(r, r.A, 2, 2)), 64))))
@G.fn(D + "from-unixaddr.c", "_ml_Sock_fromunixaddr", BYTES, pre=lambda eng, st, A: st.assume(z3.And(A.len >= 3, A.len <= 1024)))
def _(r):
    if r.effects(): r.fail("makes no system call")
    r.match(r.ret, eCStr(simp(r.A.ptr + 2)))
def s_strcpy(x):
    """copies the string and its terminating zero"""
    st = x.st; d, s = x.args[:2]
    rd, od = st.resolve(d); rs, os_ = st.resolve(s)
    n = x.eng.stubs["strlen"](X(x.eng, st, x.fr, "strlen", [s], x.rt))
    st._bounds_n(rd, od, simp(n + 1), f"{x.fr.f.name} -> strcpy: destination")
    e = x.event(d)
    st.nf += 1
    arr = z3.Const(f"mem_cpy!{st.nf}", AS)
    st.ghost["cpy"] = (rd.label, od, rs.label, os_, n, rd.copy())
    o = num(od)
    keep = [(o // 8 * 8 + i, st.loadr(rd, o // 8 * 8 + i, 1)) for i in range(o % 8)] if o is not None and o < 1 << 62 else []
    hv(st, rd, od, simp(n + 1))
    for i, v in keep: st.storer(rd, i, v, 1)
    st.ghost["cpyregs"] = {k: v.copy() for k, v in st.regions.items()}
    return d
@G.fn(D + "to-unixaddr.c", "_ml_Sock_tounixaddr", STR, stubs={"strcpy": s_strcpy})
def _(r):
    st = r.st
    if [e for e in r.effects() if e.name != "RaiseSysError"]: r.fail("makes no system call")
    n = STRLEN(BV(0), r.A.ptr) if False else cstrlen(r)
    if r.case(z3.UGE(n, BV(108))): r.raised(None, True); return
    r.noraise(); total = simp(n + 3)
    def chk(r, v, what):
        o, off = r.obj(v, what)
        r.eq(st.loadr(o, r.sub8(off), 8), DESC_string, f"{what}: descriptor"); r.match(st.loadr(o, r.add(off, 8), 8), eInt(total), f"{what}: length")
        d = st.loadr(o, off, 8)
        for c in r.calls("ML_CData"):
            if not st.entails(d == c.ret): continue
            r.eq(c.args[2], total, f"{what}: family, path and terminating zero")
            g, b = st.resolve(c.args[1])
            r.eq(st.loadr(c.regs[g.label], num(b), 2), BV(1, 16), f"{what}: family AF_UNIX")
            cp = st.ghost.get("cpy")
            if cp is None or cp[0] != g.label: raise Shape("the path is copied some other way")
            r.eq(bvof(cp[1]), simp(bvof(b) + 2), f"{what}: place of the path"); r.prove(st.regions[cp[2]].base + cp[3] == r.A.ptr, f"{what}: the path")
            break
        else: r.fail(f"{what}: data")
    r.match(r.ret, chk)
def cstrlen(r):
    rg, off = r.st.resolve(r.A.ptr)
    return STRLEN(memver(r.st, rg), off)
# --- data
MSG_OOB, MSG_PEEK, MSG_DONTROUTE = 1, 2, 4
def flags(A, i, a, b): return z3.If(A[i], BV(a, 32), BV(0, 32)) | z3.If(A[i + 1], BV(b, 32), BV(0, 32))
def inrange(eng, st, A): st.assume(z3.And(A[2] >= 0, A[3] >= 0, A[2] <= A[1].len, A[3] <= A[1].len - A[2]))
for file, fn, call, b, frm in (("recvbuf", "recvbuf", "recv", MSG_PEEK, False), ("recvbuffrom", "recvbuffrom", "recvfrom", MSG_PEEK, True), ("sendbuf", "sendbuf", "send", MSG_DONTROUTE, False), ("sendbufto", "sendbufto", "sendto", MSG_DONTROUTE, None)):
    def post(r, call=call, b=b, frm=frm):
        A = r.A
        e = r.sys(call, lo32(A[0]), simp(A[1].ptr + A[2]), None, flags(A, 4, MSG_OOB, b))
        r.eq(zx(e.args[2], 64), A[3], f"byte count of {call}")
        if frm is None: r.eq(e.args[4], A[6].ptr, "address"); r.eq(e.args[5], lo32(A[6].len), "length of the address")
        if r.failed(e): r.raised(e)
        else:
            r.noraise(); n = eInt(s64(e.ret))
            r.match(r.ret, eRec(n, addrof(e, 4, 5)) if frm else n)
    G.add(D + file + ".c", "_ml_Sock_" + fn, REC(I32, BARR, INT, CNT, BOOL, BOOL, *([BYTES] if frm is None else [])), post, pre=inrange)
from c_io import newstring, isempty
for file, call, frm in (("recv", "recv", False), ("recvfrom", "recvfrom", True)):
    def post(r, call=call, frm=frm):
        A = r.A
        e = r.sys(call, lo32(A[0]), None, None, flags(A, 2, MSG_OOB, MSG_PEEK)); r.eq(zx(e.args[2], 64), A[1], f"byte count of {call}")
        if r.failed(e): r.raised(e); return
        r.noraise()
        v = isempty if r.case(e.ret == 0) else newstring(r, e, s64(e.ret))
        r.match(r.ret, eRec(v, addrof(e, 4, 5)) if frm else v)
    G.add(D + file + ".c", "_ml_Sock_" + file, REC(I32, CNT, BOOL, BOOL), post)
# --- options
SOL_SOCKET = 1
def word32(r, e, i, post):
    o, b = r.st.resolve(e.args[i]); return r.st.loadr((e.post if post else e.regs)[o.label], num(b), 4)
def getopt(r, level, opt, size=4):
    e = r.sys("getsockopt", lo32(r.A if z3.is_bv(r.A) else r.A[0]), BV(level, 32), BV(opt, 32)); r.eq(word32(r, e, 4, False), BV(size, 32), "size of the option")
    if r.failed(e): r.raised(e); return None
    r.noraise(); return word32(r, e, 3, True)
def opt(file, fn, level, o, arg, conv, out, link=()):
    def post(r):
        c = r.A[1]
        if c.v is None:
            v = getopt(r, level, o)
            if v is not None: r.match(r.ret, out(v))
            return
        e = r.sys("setsockopt", lo32(r.A[0]), BV(level, 32), BV(o, 32)); r.eq(e.args[4], BV(4, 32), "size of the option"); v = conv(c.v)
        r.eq(word32(r, e, 3, False), v, "value of the option")
        if r.failed(e): r.raised(e)
        else: r.noraise(); r.match(r.ret, out(v))
    G.add(D + file, fn, REC(I32, OPT(arg)), post, link=link)
bconv = lambda b: z3.If(b, BV(1, 32), BV(0, 32)); bout = lambda v: eBool(v != 0)
for n, o in (("BROADCAST", 6), ("DEBUG", 1), ("DONTROUTE", 5), ("KEEPALIVE", 9), ("OOBINLINE", 10), ("REUSEADDR", 2)):
    opt(f"ctl{n}.c", f"_ml_Sock_ctl{n}", SOL_SOCKET, o, BOOL, bconv, bout, [D + "util-sockopt.c"])
opt("ctlNODELAY.c", "_ml_Sock_ctlNODELAY", 6, 1, BOOL, bconv, bout)
for n, o in (("SNDBUF", 7), ("RCVBUF", 8)): opt(f"ctl{n}.c", f"_ml_Sock_ctl{n}", SOL_SOCKET, o, I32, lo32, lambda v: eInt(s64(v)))
@G.fn(D + "ctlLINGER.c", "_ml_Sock_ctlLINGER", REC(I32, OPT(OPT(I32))))
def _(r):
    c = r.A[1]
    def out(on, t): r.match(r.ret, eNone() if r.case(on == 0) else eSome(eInt(s64(t))))
    if c.v is None:
        v = getopt(r, SOL_SOCKET, 13, 8)
        if v is not None:
            e = r.one("getsockopt"); out(r.outfield(e, 3, "linger", "l_onoff"), r.outfield(e, 3, "linger", "l_linger"))
        return
    e = r.sys("setsockopt", lo32(r.A[0]), BV(SOL_SOCKET, 32), BV(13, 32)); r.eq(e.args[4], BV(8, 32), "size of the option")
    on = r.infield(e, 3, "linger", "l_onoff")
    if c.v.v is None: r.eq(on, BV(0, 32), "linger is switched off")
    else: r.prove(on != 0, "linger is switched on"); r.eq(r.infield(e, 3, "linger", "l_linger"), lo32(c.v.v), "linger time")
    if r.failed(e): r.raised(e); return
    r.noraise(); r.match(r.ret, eNone() if c.v.v is None else eSome(eInt(c.v.v)))
@G.fn(D + "getERROR.c", "_ml_Sock_getERROR", I32)
def _(r):
    v = getopt(r, SOL_SOCKET, 4)
    if v is not None: r.match(r.ret, bout(v))
def sysconst(r, glob, v):
    e = r.one("ML_SysConst"); g, off = r.st.resolve(e.args[1])
    if g.label != "g:" + glob or num(off) != 0: r.fail(f"the name is looked up in {glob}")
    r.eq(e.args[2], v, f"the number looked up in {glob}"); return eVal(e.ret)
@G.fn(D + "getTYPE.c", "_ml_Sock_getTYPE", I32)
def _(r):
    e = r.sys("getsockopt", lo32(r.A), BV(SOL_SOCKET, 32), BV(3, 32), others=("ML_SysConst",)); r.eq(word32(r, e, 4, False), BV(4, 32), "size of the option")
    if r.failed(e): r.raised(e); return
    r.noraise(); r.match(r.ret, sysconst(r, "_Sock_Type", word32(r, e, 3, True)))
@G.fn(D + "getaddrfamily.c", "_ml_Sock_getaddrfamily", BYTES, pre=lambda eng, st, A: st.assume(z3.And(A.len >= 2, A.len <= 1024)))
def _(r):
    if [e for e in r.effects() if e.name != "ML_SysConst"]: r.fail("makes no system call")
    r.match(r.ret, sysconst(r, "_Sock_AddrFamily", zx(strbytes(r, r.A, 0, 2), 32)))
for n, g in (("list-addr-families", "_Sock_AddrFamily"), ("list-sock-types", "_Sock_Type")):
    def post(r, g=g):
        e = r.one("ML_SysConstList"); o, off = r.st.resolve(e.args[1])
        if o.label != "g:" + g or num(off) != 0: r.fail(f"the list is that of {g}")
        r.match(r.ret, eVal(e.ret))
    G.add(D + n + ".c", "_ml_Sock_" + n.replace("-", ""), UNIT, post)
def io(file, fn, req, arg, sock, val=None, out=None):
    def post(r):
        e = r.sys("ioctl", lo32(sock(r.A)), BV(req))
        if val: r.eq(word32(r, e, 2, False), val(r.A), "value passed")
        if r.failed(e): r.raised(e)
        else: r.noraise(); r.match(r.ret, out(word32(r, e, 2, True)) if out else eUnit())
    G.add(D + file, fn, arg, post)
io("setNBIO.c", "_ml_Sock_setNBIO", 0x5421, REC(I32, BOOL), lambda A: A[0], lambda A: z3.If(A[1], BV(1, 32), BV(0, 32)))
io("getNREAD.c", "_ml_Sock_getNREAD", 0x541B, I32, lambda A: A, None, lambda v: eInt(s64(v)))
io("getATMARK.c", "_ml_Sock_getATMARK", 0x8905, I32, lambda A: A, None, bout)
# --- network database
@G.fn(D + "gethostname.c", "_ml_NetDB_gethostname", UNIT)
def _(r):
    e = r.sys("gethostname")
    if r.failed(e): r.raised(e)
    else: r.noraise(); r.match(r.ret, eCStr(e.args[0]))
def db(file, fn, arg, call, args, st, fields, link=()):
    def post(r):
        e = r.sys(call, *args(r.A), others=("ML_CStringList", "ML_SysConst")); r.noraise()
        if r.case(e.ret == 0): r.match(r.ret, eNone()); return
        fs = []
        for k, f in fields:
            v = r.objfield(e, st, f)
            if k == "s": fs.append(eCStr(v))
            elif k == "i": fs.append(eInt(s64(v)))
            elif k == "p": fs.append(eInt(zx(bswap16(simp(z3.Extract(15, 0, v))), 64)))
            elif k == "w": fs.append(eW64(zx(v, 64)))
            elif k == "af": fs.append(sysconst(r, "_Sock_AddrFamily", v))
            else:
                c = r.one("ML_CStringList"); r.eq(c.args[1], v, f"the list is that of {f}"); fs.append(eVal(c.ret))
        r.match(r.ret, eSome(eRec(*fs)))
    G.add(D + file, fn, arg, post, link=[D + x for x in link])
PR = [("s", "p_name"), ("l", "p_aliases"), ("i", "p_proto")]; RP = [("s", "r_name"), ("l", "r_aliases"), ("i", "r_number")]
SV = [("s", "s_name"), ("l", "s_aliases"), ("p", "s_port"), ("s", "s_proto")]; NT = [("s", "n_name"), ("l", "n_aliases"), ("af", "n_addrtype"), ("w", "n_net")]
db("getprotbyname.c", "_ml_NetDB_getprotbyname", STR, "getprotobyname", lambda A: [A.ptr], "protoent", PR)
db("getprotbynum.c", "_ml_NetDB_getprotbynum", I32, "getprotobynumber", lambda A: [lo32(A)], "protoent", PR)
db("getrpcbyname.c", "_ml_NetDB_getrpcbyname", STR, "getrpcbyname", lambda A: [A.ptr], "rpcent", RP)
db("getrpcbynum.c", "_ml_NetDB_getrpcbynum", I32, "getrpcbynumber", lambda A: [lo32(A)], "rpcent", RP)
prot = lambda o: BV(0) if o.v is None else o.v.ptr
db("getservbyname.c", "_ml_NetDB_getservbyname", REC(STR, OPT(STR)), "getservbyname", lambda A: [A[0].ptr, prot(A[1])], "servent", SV, ["util-mkservent.c"])
db("getservbyport.c", "_ml_NetDB_getservbyport", REC(PORT, OPT(STR)), "getservbyport", lambda A: [zx(bswap16(simp(z3.Extract(15, 0, A[0]))), 32), prot(A[1])], "servent", SV, ["util-mkservent.c"])
db("getnetbyname.c", "_ml_NetDB_getnetbyname", STR, "getnetbyname", lambda A: [A.ptr], "netent", NT, ["util-mknetent.c"])
db("getnetbyaddr.c", "_ml_NetDB_getnetbyaddr", REC(W64, I32), "getnetbyaddr", lambda A: [lo32(A[0].val), lo32(A[1])], "netent", NT, ["util-mknetent.c"])
# --- hosts: the list of addresses
def hostsetup(x, rg, e):
    st = x.st; n = st.fresh("naddr"); st.assume(z3.And(n >= 0, n < (2 if x.eng.bounded else 1 << 20)))
    m = x.eng.mods[-1]; F = lambda f: m.field("hostent", f)[0]
    data = st.region("haddrs", simp(n * 16), kind="cobj", writable=False)
    lst = st.region("hlist", simp(n * 8 + 8), kind="cobj", writable=False)
    st.regions["hlist"].gen = lambda s, off: simp(z3.If(off == n * 8, BV(0), data + off * 2))
    ln = z3.BitVec("h_length", 32); st.assume(z3.Or(ln == 4, ln == 16))
    rg.fix = {F("h_addr_list"): lst}
    if F("h_length") % 8: rg.fix[F("h_length") - 4] = z3.Concat(ln, z3.BitVec("h_addrtype", 32))
    else: raise Shape("layout of hostent")
    st.ghost["host"] = (n, ln)
hst = cptr(32, setup=hostsetup)
def helt(r, i):
    n, ln = r.st.ghost["host"]
    def data(r, d, off, what):
        if r.case(ln == 4): k = 4
        else: k = 16
        for j in range(0, k, 4): r.eq(r.st.loadr(d, r.add(off, j), 4), r.st.loadr(r.st.regions["haddrs"], simp(bvof(i) * 16 + j), 4), f"{what}: the bytes of the address")
    return eSeq(DESC_string, sx(ln, 64), data)
def hcount(L):
    n = L.st.ghost["host"][0]; v = s64(L.get("nAddrs", 4))
    return [("counts the addresses", z3.And(v >= 0, v <= n))]
UH = "_util_NetDB_mkhostent"
def s_memcpyk(x):
    st = x.st; ln = x.args[2]
    for k in (4, 16):
        if st.entails(ln == k): return s_memcpy(X(x.eng, st, x.fr, x.name, [x.args[0], x.args[1], BV(k)], x.rt))
    if st.sat(ln == 4): raise NeedFork(simp(ln == 4))
    raise Shape("length of an address")
def host(file, fn, arg, call, args, pre=None):
    def post(r):
        e = r.sys(call, *args(r.A), others=("ML_CStringList", "ML_SysConst")); r.noraise()
        if r.case(e.ret == 0): r.match(r.ret, eNone()); return
        n, ln = r.st.ghost["host"]; m = r.eng.mods[-1]
        f = lambda n: r.objfield(e, "hostent", n, m)
        c = r.one("ML_CStringList"); r.eq(c.args[1], f("h_aliases"), "the list is that of h_aliases")
        r.match(r.ret, eSome(eRec(eCStr(f("h_name")), eVal(c.ret), sysconst(r, "_Sock_AddrFamily", f("h_addrtype")), eList(n, helt))))
    left = lambda L: s64(L.get("i", 4))
    G.add(D + file, fn, arg, post, link=[D + "util-mkhostent.c"], stubs={call: hst, "llvm.memcpy": s_memcpyk, "memcpy": s_memcpyk}, pre=pre, bound=4,
          loops={(UH, 0): Loop(hcount, dec=lambda L: L.st.ghost["host"][0] - s64(L.get("nAddrs", 4))), (UH, 1): buildloop("addrs", left, lambda L: L.st.ghost["host"][0], helt)})
host("gethostbyname.c", "_ml_NetDB_gethostbyname", STR, "gethostbyname", lambda A: [A.ptr])
host("gethostbyaddr.c", "_ml_NetDB_gethostbyaddr", BYTES, "gethostbyaddr", lambda A: [A.ptr, BV(4, 32), BV(2, 32)], pre=lambda eng, st, A: st.assume(A.len == 4))
consttable(G, D + "tbl-addr-family.c", "_Sock_AddrFamily", ["sys/socket.h"], "AF_", "UNIX INET SNA DECnet APPLETALK ROUTE X25".split())
consttable(G, D + "tbl-sock-type.c", "_Sock_Type", ["sys/socket.h"], "SOCK_", "STREAM DGRAM RAW RDM SEQPACKET".split())
G.bind("smlnj-sockets", "smlnj-sock-lib.c")
