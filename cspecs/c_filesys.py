"""POSIX file-system primitives: every ML-level operation is the corresponding system call on the given
arguments, results and failures are reported faithfully."""
from mlspec import *
G = Group("filesys")
D = "c-libs/posix-filesys/"
lo32 = lambda t: simp(z3.Extract(31, 0, t))
STATBUF = 144
G.stubs.update({
    "chdir": sysc(), "chmod": sysc(), "chown": sysc(), "closedir": sysc(), "fchmod": sysc(), "fchown": sysc(), "ftruncate": sysc(), "link": sysc(), "mkdir": sysc(), "mkfifo": sysc(),
    "open": sysc(**FD), "rename": sysc(), "rmdir": sysc(), "symlink": sysc(), "unlink": sysc(), "utimes": sysc(), "access": sysc(), "umask": sysc(retlo=None, errno=False),
    "opendir": sysc(retlo=None), "rewinddir": sysc(), "stat": sysc([(1, STATBUF)]), "lstat": sysc([(1, STATBUF)]), "fstat": sysc([(1, STATBUF)]),
    "pathconf": sysc(), "fpathconf": sysc(),
})
P = lambda s: s.ptr
G.wrapper(D + "chdir.c", "_ml_P_FileSys_chdir", STR, "chdir", lambda A: [A.ptr])
G.wrapper(D + "chmod.c", "_ml_P_FileSys_chmod", REC(STR, SYSW), "chmod", lambda A: [A[0].ptr, lo32(A[1].val)])
G.wrapper(D + "chown.c", "_ml_P_FileSys_chown", REC(STR, SYSW, SYSW), "chown", lambda A: [A[0].ptr, lo32(A[1].val), lo32(A[2].val)])
G.wrapper(D + "closedir.c", "_ml_P_FileSys_closedir", ANY, "closedir", lambda A: [A])
G.wrapper(D + "fchmod.c", "_ml_P_FileSys_fchmod", REC(I32, SYSW), "fchmod", lambda A: [lo32(A[0]), lo32(A[1].val)])
G.wrapper(D + "fchown.c", "_ml_P_FileSys_fchown", REC(I32, SYSW, SYSW), "fchown", lambda A: [lo32(A[0]), lo32(A[1].val), lo32(A[2].val)])
G.wrapper(D + "ftruncate.c", "_ml_P_FileSys_ftruncate", REC(I32, W64), "ftruncate", lambda A: [lo32(A[0]), A[1].val])
G.wrapper(D + "link.c", "_ml_P_FileSys_link", REC(STR, STR), "link", lambda A: [A[0].ptr, A[1].ptr])
G.wrapper(D + "mkdir.c", "_ml_P_FileSys_mkdir", REC(STR, SYSW), "mkdir", lambda A: [A[0].ptr, lo32(A[1].val)])
G.wrapper(D + "mkfifo.c", "_ml_P_FileSys_mkfifo", REC(STR, SYSW), "mkfifo", lambda A: [A[0].ptr, lo32(A[1].val)])
G.wrapper(D + "openf.c", "_ml_P_FileSys_openf", REC(STR, SYSW, SYSW), "open", lambda A: [A[0].ptr, lo32(A[1].val), lo32(A[2].val)], lambda r, e: eInt(sx(e.ret, 64)),
          pre=None)
G.wrapper(D + "rename.c", "_ml_P_FileSys_rename", REC(STR, STR), "rename", lambda A: [A[0].ptr, A[1].ptr])
G.wrapper(D + "rmdir.c", "_ml_P_FileSys_rmdir", STR, "rmdir", lambda A: [A.ptr])
G.wrapper(D + "symlink.c", "_ml_P_FileSys_symlink", REC(STR, STR), "symlink", lambda A: [A[0].ptr, A[1].ptr])
G.wrapper(D + "unlink.c", "_ml_P_FileSys_unlink", STR, "unlink", lambda A: [A.ptr])

@G.fn(D + "access.c", "_ml_P_FileSys_access", REC(STR, SYSW))
def _(r):
    e = r.sys("access", r.A[0].ptr, lo32(r.A[1].val)); r.noraise(); r.match(r.ret, eBool(e.ret == 0))
@G.fn(D + "umask.c", "_ml_P_FileSys_umask", SYSW)
def _(r):
    e = r.sys("umask", lo32(r.A.val)); r.noraise(); r.match(r.ret, eW64(zx(e.ret, 64)))
@G.fn(D + "opendir.c", "_ml_P_FileSys_opendir", STR)
def _(r):
    e = r.sys("opendir", r.A.ptr)
    if r.case(e.ret == 0): r.raised(e)
    else: r.noraise(); r.match(r.ret, eVal(e.ret))
@G.fn(D + "rewinddir.c", "_ml_P_FileSys_rewinddir", ANY)
def _(r):
    r.sys("rewinddir", r.A); r.noraise(); r.match(r.ret, eUnit())

def statrep(r, e, i):
    f = lambda n: r.outfield(e, i, "stat", n)
    ns = lambda n: f(n + ".tv_sec") * 1000000000 + f(n + ".tv_nsec")
    mode = f("st_mode")
    z = lambda t: zx(t, 64)
    r.match(r.ret, eRec(eInt(z(mode & 0xF000)), eW64(z(mode & 0o6777)), eW64(z(f("st_ino"))), eW64(z(f("st_dev"))), eW64(z(f("st_nlink"))), eW64(z(f("st_uid"))), eW64(z(f("st_gid"))),
                        eW64(f("st_size")), eW64(ns("st_atim")), eW64(ns("st_mtim")), eW64(ns("st_ctim"))))
def statspec(call, arg, a0):
    def post(r):
        e = r.sys(call, a0(r.A))
        if r.failed(e): r.raised(e)
        else: r.noraise(); statrep(r, e, 1)
    G.add(D + "stat.c", f"_ml_P_FileSys_{call}", arg, post)
statspec("stat", STR, P); statspec("lstat", STR, P); statspec("fstat", I32, lo32)

@G.fn(D + "utime.c", "_ml_P_FileSys_utime", REC(STR, W64, W64))
def _(r):
    e = r.sys("utimes", r.A[0].ptr)
    a, m = r.A[1].val, r.A[2].val
    if r.case(a == M64): r.eq(e.args[1], BV(0), "no times given: use the current time")
    else:
        o, b = r.st.resolve(e.args[1]); b = num(b)
        w = lambda k: r.st.loadr(e.regs[o.label], b + 8 * k, 8)
        us = lambda t: z3.UDiv(t, BV(1000))
        for k, (nm, t) in enumerate((("access", a), ("modification", m))):
            r.eq(w(2 * k), z3.UDiv(us(t), BV(1000000)), f"seconds of the {nm} time"); r.eq(w(2 * k + 1), z3.URem(us(t), BV(1000000)), f"microseconds of the {nm} time")
    if r.failed(e): r.raised(e)
    else: r.noraise(); r.match(r.ret, eUnit())
from ctables import *
def nullable_getcwd(x):
    """fills the buffer and returns it, or returns NULL and sets errno"""
    st = x.st; ok = z3.Bool(f"getcwd_ok!{st.nf}")
    if not st.entails(ok) and not st.entails(z3.Not(ok)): raise NeedFork(ok)
    v = st.entails(ok); st.nf += 1
    rg, off = st.resolve(x.args[0])
    st._bounds_n(rg, off, x.args[1], f"{x.fr.f.name} -> getcwd: buffer")
    e = x.event(x.args[0] if v else BV(0))
    if v: st._frame_n(rg, off, x.args[1]); st.havoc(rg.label); e.out[0] = rg.label
    havoc_errno(st); e.post = {k: q.copy() for k, q in st.regions.items()}
    return x.args[0] if v else BV(0)
ERANGE = 34
def s_readdir(x):
    return cptr(280)(x)
def s_readlink(x):
    st = x.st
    e0 = len(st.events)
    r = sysc([(1, lambda x: x.args[2])])(x)
    st.assume(r <= x.args[2])
    return r
G.stubs.update({"getcwd": nullable_getcwd, "readdir": s_readdir, "readlink": s_readlink})
def errno_after(r, e): return r.st.loadr(e.post["errno"], 0, 4)
@G.fn(D + "getcwd.c", "_ml_P_FileSys_getcwd", UNIT, bound=2, loops={"_ml_P_FileSys_getcwd": Loop(lambda L: cwdinv(L), mods=["errno", "malloc*"], setup=lambda L: cwdset(L))})
def _(r):
    if [e for e in r.effects() if e.name not in ("getcwd", "RaiseSysError")]: r.fail("the only system call is getcwd")
    es = [e for e in last(r.st) if e.name == "getcwd"]
    nomem = any(num(x) == 0 for x in r.st.ghost.get("mallocs", ()))
    if not es:
        if not nomem: r.fail("calls getcwd")
        r.raised(None, True); return
    e = es[-1]
    for q in es[:-1]: r.prove(z3.And(q.ret == 0, errno_after(r, q) == ERANGE), "tries again only when the buffer was too small")
    if r.case(e.ret != 0): r.noraise(); r.match(r.ret, eCStr(e.ret)); return
    if r.case(errno_after(r, e) == ERANGE):
        if not nomem: r.fail("a buffer that was too small is grown")
        r.raised(None, True)
    else: r.raised(e)
def cwdset(L):
    """the buffer of this round: some block of buflen bytes"""
    st = L.st; n = L.var("buflen"); st.nf += 1
    b = st.region(f"malloc{st.nf}", simp(sx(n, 64)), kind="malloc")
    L.fr.allocs[L._alloca("buf")] = b
def cwdinv(L):
    st = L.st; n = L.var("buflen"); out = [("positive size", n > 0)]
    if L.phase == "assume": return [z3.And(n > 0, n < 1 << 29)]
    rg, off = st.resolve(L.var("buf"))
    out.append(("the buffer has buflen bytes", z3.And(bvof(off) == 0, z3.BoolVal(rg.kind == "malloc"), bvof(rg.size) == sx(n, 64))))
    if L.phase == "kept":
        es = [e for e in last(st) if e.name == "getcwd"]
        if len(es) != 1: return [("one call per round", False)]
        e = es[0]; out += [("tries again only when the buffer was too small", z3.And(e.ret == 0, st.loadr(e.post["errno"], 0, 4) == ERANGE))]
    return out
def dname(st, regs, e):
    b = lambda i: st.loadr(regs, 19 + i, 1)
    return z3.And(b(0) == 46, z3.Or(b(1) == 0, z3.And(b(1) == 46, b(2) == 0)))
def rdinv(L):
    if L.phase != "kept": return []
    es = [e for e in last(L.st) if e.name == "readdir"]
    if len(es) != 1 or not hasattr(es[0], "obj"): return [("one call per round", False)]
    return [("only . and .. are skipped", dname(L.st, L.st.regions[es[0].obj], es[0]))]
@G.fn(D + "readdir.c", "_ml_P_FileSys_readdir", ANY, bound=3, loops={"_ml_P_FileSys_readdir": Loop(rdinv, mods=["errno"])})
def _(r):
    if [e for e in r.effects() if e.name not in ("readdir", "RaiseSysError")]: r.fail("the only system call is readdir")
    es = [e for e in last(r.st) if e.name == "readdir"]
    if not es: r.fail("calls readdir")
    for e in es: r.eq(e.args[0], r.A, "reads the given directory"); r.eq(r.st.loadr(e.regs["errno"], 0, 4), BV(0, 32), "errno is cleared before the call")
    for e in es[:-1]:
        if not hasattr(e, "obj"): r.fail("stops at the end")
        r.prove(dname(r.st, r.st.regions[e.obj], e), "only . and .. are skipped")
    e = es[-1]
    if r.case(e.ret == 0):
        if r.case(errno_after(r, e) == 0):
            r.noraise(); o, off = r.obj(r.ret, "result")
            if o.label != "g:_ML_string0": r.fail("the end is reported by the empty string")
        else: r.raised(e)
        return
    r.prove(z3.Not(dname(r.st, r.st.regions[e.obj], e)), ". and .. are skipped"); r.noraise()
    r.match(r.ret, eCStr(simp(e.ret + 19)))
@G.fn(D + "readlink.c", "_ml_P_FileSys_readlink", STR)
def _(r):
    st = r.st; es = r.calls("readlink"); ls = r.calls("lstat")
    if [e for e in r.effects() if e.name not in ("readlink", "lstat", "RaiseSysError")]: r.fail("the only system calls are readlink and lstat")
    if len(es) not in (1, 2) or len(ls) > 1: r.fail("calls readlink, and once more when the buffer was too small")
    for e in es + ls: r.eq(e.args[0], r.A.ptr, f"{e.name} of the given path")
    e = es[-1]; cap = e.args[2]
    if len(es) == 2: r.prove(es[0].ret == es[0].args[2], "a second attempt only when the buffer was filled")
    if r.failed(e): r.raised(e); return
    if r.case(e.ret < cap):
        r.noraise(); r.match(r.ret, eCStr(e.args[1]))
        c = [q for q in r.calls("ML_CString")][-1]; o, b = st.resolve(e.args[1])
        n = sx(e.ret, 64)
        r.eq(st.loadr(c.regs[o.label], simp(bvof(b) + n), 1), BV(0, 8), "the text is terminated after its last byte")
        i = st.fresh("i"); s = st.fork_done(); s.assume(z3.And(i >= 0, i < n))
        if s.sat(): r.eng.prove(s, s.loadr(c.regs[o.label], simp(bvof(b) + i), 1) == s.loadr(e.post[o.label], simp(bvof(b) + i), 1), r.name("the text is the one read"))
        return
    if len(es) == 2: r.raised(None, True); return
    if not ls: r.fail("a buffer that was too small is grown")
    if r.failed(ls[0]): r.raised(ls[0]); return
    if not any(num(x) == 0 for x in st.ghost.get("mallocs", ())): r.fail("a buffer that was too small is grown")
    r.raised(None, True)
def s_lstat(x):
    r = sysc([(1, STATBUF)])(x); st = x.st
    rg, off = st.resolve(x.args[1])
    z = st.load(simp(x.args[1] + 48), 8); st.assume(z3.And(z >= 0, z < 1 << 30))
    return r
next(s for s in G.specs if s.fn == "_ml_P_FileSys_readlink").stubs["lstat"] = s_lstat
osval(G, D + "osval.c", "_ml_P_FileSys_osval", ["fcntl.h", "unistd.h", "sys/stat.h"],
      {"A_EXEC": "X_OK", "A_FILE": "F_OK", "A_READ": "R_OK", "A_WRITE": "W_OK", **{n: n for n in "O_APPEND O_CREAT O_DSYNC O_EXCL O_NOCTTY O_NONBLOCK O_RDONLY O_RDWR O_RSYNC O_SYNC O_TRUNC O_WRONLY".split()},
       **{n: "S_" + n.upper() for n in "irgrp iroth irusr irwxg irwxo irwxu isgid isuid iwgrp iwoth iwusr ixgrp ixoth ixusr".split()}})
def pcval(r, e):
    if e is None: r.noraise(); r.match(r.ret, eNone()); return
    return eSome(eW64(e.ret))
PC = "LINK_MAX MAX_CANON MAX_INPUT NAME_MAX PATH_MAX PIPE_BUF CHOWN_RESTRICTED NO_TRUNC VDISABLE".split()
conf(G, D + "pathconf.c", "_ml_P_FileSys_pathconf", REC(STR, STR), "arg_1_data", "_PC_", PC, "pathconf", 1, lambda A: [(0, A[0].ptr)], pcval)
conf(G, D + "pathconf.c", "_ml_P_FileSys_fpathconf", REC(I32, STR), "arg_1_data", "_PC_", PC, "fpathconf", 1, lambda A: [(0, lo32(A[0]))], pcval)
G.bind("posix-filesys")
