"""POSIX I/O primitives: read, write, seek, descriptors, flags, locks, pipes."""
from mlspec import *
G = Group("io")
D = "c-libs/posix-io/"
lo32 = lambda t: simp(z3.Extract(31, 0, t))
CNT = tInt(0, (1 << 31) - 9)          # byte counts the callers pass
def rlim(x): return zx(x.args[2], 64) if x.args[2].size() == 32 else x.args[2]
def s_rw(out):
    base = sysc([(1, rlim)] if out else (), retlo=-1)
    def h(x):
        st = x.st
        if not out:
            pt = pointee(st, x.args[1])
            if pt is None: raise Shape("write from an unknown buffer")
            st._bounds_n(pt[0], pt[1], rlim(x), f"{x.fr.f.name} -> {x.name}: buffer")
        r = base(x)
        st.assume(z3.And(r <= rlim(x), r <= 0x7ffff000))
        return r
    return h
F_DUPFD, F_GETFD, F_SETFD, F_GETFL, F_SETFL = range(5)
def s_fcntl(x):
    st = x.st
    r = x.fresh("r_fcntl"); st.assume(r >= -1)
    e = x.event(r)
    if len(x.args) > 2:
        pt = pointee(st, x.args[2])
        if pt is not None and pt[0].kind == "stack": st.havoc(pt[0].label)
    havoc_errno(st); e.post = {k: v.copy() for k, v in st.regions.items()}
    return r
G.stubs.update({"read": s_rw(True), "write": s_rw(False), "close": sysc(), "dup": sysc(), "dup2": sysc(), "fsync": sysc(), "lseek": sysc(), "fcntl": s_fcntl, "pipe": sysc([(0, 8)])})
G.wrapper(D + "close.c", "_ml_P_IO_close", I32, "close", lambda A: [lo32(A)])
G.wrapper(D + "fsync.c", "_ml_P_IO_fsync", I32, "fsync", lambda A: [lo32(A)])
G.wrapper(D + "dup.c", "_ml_P_IO_dup", I32, "dup", lambda A: [lo32(A)], lambda r, e: eInt(sx(e.ret, 64)))
G.wrapper(D + "dup2.c", "_ml_P_IO_dup2", REC(I32, I32), "dup2", lambda A: [lo32(A[0]), lo32(A[1])])
G.wrapper(D + "lseek.c", "_ml_P_IO_lseek", REC(I32, W64, I32), "lseek", lambda A: [lo32(A[0]), A[1].val, lo32(A[2])], lambda r, e: eW64(e.ret))
G.wrapper(D + "fcntl_d.c", "_ml_P_IO_fcntl_d", REC(I32, I32), "fcntl", lambda A: [lo32(A[0]), BV(F_DUPFD, 32), lo32(A[1])], lambda r, e: eInt(sx(e.ret, 64)))
G.wrapper(D + "fcntl_gfd.c", "_ml_P_IO_fcntl_gfd", I32, "fcntl", lambda A: [lo32(A), BV(F_GETFD, 32)], lambda r, e: eW64(zx(e.ret, 64)))
def anyw(a, v):
    """an int argument passed through ..., at int or long width"""
    return v if a.size() == 64 else lo32(v)
for nm, cmd in (("sfd", F_SETFD), ("sfl", F_SETFL)):
    def post(r, cmd=cmd):
        e = r.sys("fcntl", lo32(r.A[0]), BV(cmd, 32))
        r.eq(lo32(e.args[2]) if e.args[2].size() == 64 else e.args[2], lo32(r.A[1].val), "flags passed to fcntl")
        if r.failed(e): r.raised(e)
        else: r.noraise(); r.match(r.ret, eUnit())
    G.add(D + f"fcntl_{nm}.c", f"_ml_P_IO_fcntl_{nm}", REC(I32, SYSW), post)
@G.fn(D + "fcntl_gfl.c", "_ml_P_IO_fcntl_gfl", I32)
def _(r):
    e = r.sys("fcntl", lo32(r.A), BV(F_GETFL, 32))
    if r.failed(e): r.raised(e)
    else:
        r.noraise(); fl = zx(e.ret, 64)
        r.match(r.ret, eRec(eW64(fl & ~3), eW64(fl & 3)))
@G.fn(D + "fcntl_l.c", "_ml_P_IO_fcntl_l", REC(I32, I32, REC(tInt(-32768, 32767), tInt(-32768, 32767), W64, W64, I32)))
def _(r):
    e = r.sys("fcntl", lo32(r.A[0]), lo32(r.A[1]))
    L = r.A[2]; lo16 = lambda t: simp(z3.Extract(15, 0, t))
    for f, v in (("l_type", lo16(L[0])), ("l_whence", lo16(L[1])), ("l_start", L[2].val), ("l_len", L[3].val)): r.eq(r.infield(e, 2, "flock", f), v, f"lock field {f} passed to fcntl")
    if r.failed(e): r.raised(e)
    else:
        r.noraise(); o = lambda f: r.outfield(e, 2, "flock", f); s = lambda t: sx(t, 64)
        r.match(r.ret, eRec(eInt(s(o("l_type"))), eInt(s(o("l_whence"))), eW64(o("l_start")), eW64(o("l_len")), eInt(s(o("l_pid")))))
@G.fn(D + "pipe.c", "_ml_P_IO_pipe", UNIT)
def _(r):
    e = r.sys("pipe")
    if r.failed(e): r.raised(e)
    else:
        r.noraise(); o, b = r.st.resolve(e.args[0]); b = num(b)
        r.match(r.ret, eRec(eInt(sx(r.st.loadr(e.post[o.label], b, 4), 64)), eInt(sx(r.st.loadr(e.post[o.label], b + 4, 4), 64))))

def ret_int(r, e): return eInt(sx(e.ret, 64))
def inrange(seq, cnt, off=None):
    def pre(eng, st, A):
        s, n = A[seq], A[cnt]
        o = A[off] if off is not None else BV(0)
        st.assume(z3.And(o >= 0, n >= 0, o <= s.len, n <= s.len - o))
    return pre
def rw(file, fn, call, arg, off, pre):
    def post(r):
        A = r.A
        e = r.sys(call, lo32(A[0]), simp(A[1].ptr + A[off]) if off else A[1].ptr)
        r.eq(rlim(type("q", (), {"args": e.args})), A[2], f"byte count of {call}")
        if r.failed(e): r.raised(e)
        else: r.noraise(); r.match(r.ret, ret_int(r, e))
    G.add(D + file, fn, arg, post, pre=pre)
rw("readbuf.c", "_ml_P_IO_readbuf", "read", REC(I32, BARR, CNT, INT), 3, inrange(1, 2, 3))
rw("writebuf.c", "_ml_P_IO_writebuf", "write", REC(I32, BARR, CNT, INT), 3, inrange(1, 2, 3))
rw("write.c", "_ml_P_IO_write", "write", REC(I32, BYTES, CNT), None, inrange(1, 2))

def newstring(r, e, n):
    """the string of the n > 0 bytes that call e left in its buffer: zero terminated and padded to words"""
    def data(r, d, off, what):
        r.eq(BV(0) if isinstance(off, int) and off == 0 else bvof(off), BV(0), f"{what}: start of the buffer")
        o, b = r.st.resolve(e.args[1])
        if o.label != d.label: r.fail(f"{what}: the buffer that was filled")
        w = simp(z3.LShR(n + 8, 3))
        r.eq(r.st.loadr(d, -8, 8), simp((w << 7) | DESC(0, "raw")), f"{what}: descriptor covers the bytes and a terminating zero")
        r.samebytes(d, 0, e.post[d.label], 0, n, f"{what}: the bytes read")
        r.zeros(d, n, simp(w * 8), f"{what}: zero padding")
    return eSeq(DESC_string, n, data)
def isempty(r, v, what):
    o, off = r.obj(v, what)
    if o.label != "g:_ML_string0": r.fail(f"{what} is the empty string")
    r.eq(bvof(off), BV(8), f"{what} is the empty string")
@G.fn(D + "read.c", "_ml_P_IO_read", REC(I32, CNT))
def _(r):
    A = r.A
    if r.case(A[1] == 0):
        if r.effects(): r.fail("a read of zero bytes makes no call")
        r.noraise(); r.match(r.ret, isempty); return
    e = r.sys("read", lo32(A[0]))
    r.eq(rlim(type("q", (), {"args": e.args})), A[1], "byte count of read")
    if r.failed(e): r.raised(e)
    elif r.case(e.ret == 0): r.noraise(); r.match(r.ret, isempty)
    else: r.noraise(); r.match(r.ret, newstring(r, e, sx(e.ret, 64)))
from ctables import *
osval(G, D + "osval.c", "_ml_P_IO_osval", ["fcntl.h", "unistd.h", "stdio.h"],
      {**{n: n for n in "F_GETLK F_RDLCK F_SETLK F_SETLKW F_UNLCK F_WRLCK SEEK_CUR SEEK_END SEEK_SET".split()}, "append": "O_APPEND", "cloexec": "FD_CLOEXEC", "dsync": "O_DSYNC", "nonblock": "O_NONBLOCK", "rsync": "O_RSYNC", "sync": "O_SYNC"})
nvspec(G)
G.bind("posix-io")
