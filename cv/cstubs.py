"""Assumed contracts of external functions (libc, kernel) and of runtime functions verified elsewhere."""
import z3
from cexec import *

def errno_region(st):
    if "errno" not in st.regions:
        st.region("errno", 8, kind="errno")
    return st.regions["errno"]
def s_errno(x): return errno_region(x.st).base
def havoc_errno(st):
    errno_region(st); st.havoc("errno")
def errno_now(regs_or_st):
    pass

def pointee(st, p):
    """region a pointer argument points into, or None"""
    if not z3.is_bv(p) or p.size() != 64: return None
    try: r, off = st.resolve(p)
    except (Shape, NeedFork): return None
    return None if r.label == "heap" else (r, off)

def hv(st, rg, off, sz):
    """havoc the words that overlap off..off+sz"""
    o, s = num(off), num(sz)
    if o is not None and s is not None:
        if o >= 1 << 63: o -= 1 << 64
        st.havoc(rg.label, o & ~7, (o + s + 7) & ~7)
    else:
        m = BV((1 << 64) - 8)
        st.havoc(rg.label, simp(bvof(off) & m), simp((bvof(off) + bvof(sz) + 7) & m))
def sysc(outs=(), retlo=-1, errno=True, rethi=None):
    """outs: list of (arg index, size | None | callable(x) -> size term): memory written by the callee"""
    def h(x):
        st = x.st
        r = None
        if not x.isvoid():
            r = x.fresh("r_" + x.name)
            if retlo is not None: st.assume(r >= retlo)
            if rethi is not None: st.assume(r <= rethi)
        e = x.event(r)
        for o in outs:
            i, sz = o
            p = x.args[i]
            if num(p) == 0: continue
            # a null pointer means "no output"
            pt = pointee(st, p)
            if pt is None:
                if st.entails(p == 0): continue
                raise Shape(f"{x.name}: output argument {i} of unknown provenance")
            rg, off = pt
            if callable(sz): sz = sz(x)
            if sz is not None:
                st._bounds_n(rg, off, sz, f"{x.fr.f.name} -> {x.name}: output buffer")
                st._frame_n(rg, off, sz)
                hv(st, rg, off, sz)
            else:
                st._frame_n(rg, off, None); st.havoc(rg.label)
            e.out[i] = rg.label
        if errno: havoc_errno(st)
        e.post = {k: v.copy() for k, v in st.regions.items()}
        return r
    return h

FD = dict(rethi=(1 << 30) - 1)   # descriptors, pids: the kernel's limits are below 2^30
def default(x):
    """an unknown external: may return anything, may set errno, may write the stack objects passed to it"""
    st = x.st
    r = None if x.isvoid() else x.fresh("r_" + x.name)
    e = x.event(r)
    for i, a in enumerate(x.args):
        if a is None or not z3.is_bv(a) or a.size() != 64: continue
        pt = pointee(st, a)
        if pt is None: continue
        rg, off = pt
        if rg.kind in ("stack", "global") and rg.writable is True and rg.const is None: st.havoc(rg.label); e.out[i] = rg.label
    havoc_errno(st)
    e.post = {k: v.copy() for k, v in st.regions.items()}
    return r

def quiet(ret=None, w=None):
    """no effect, not part of the trace"""
    def h(x):
        if x.isvoid(): return None
        if ret is None: return x.fresh("r_" + x.name)
        return ret
    return h

STRLEN = z3.Function("cstrlen", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
VER = {}
def memver(st, rg):
    """a term naming the current contents of a region, for uninterpreted summaries"""
    key = (rg.label, rg.arr.get_id(), tuple((e[0], str(e[1]), e[2].get_id() if e[0] == "st" else e[3].get_id()) for e in rg.log))
    if key not in VER: VER[key] = (len(VER) + 1, [e[-1] for e in rg.log], rg.arr)
    return BV(VER[key][0])
def s_strlen(x):
    st = x.st
    p = x.args[0]
    pt = pointee(st, p)
    if pt is None: 
        r = STRLEN(BV(0), p)
    else:
        rg, off = pt
        if rg.const is not None and num(off) is not None:
            n = num(off); i = 0
            while num(st.loadr(rg, n + i, 1)) != 0: i += 1
            return BV(i)
        g = st.ghost.get(("strlen", rg.label))
        if g is not None and num(off) == 0 and not rg.log: r = g
        else: r = STRLEN(memver(st, rg), off)
        if rg.size is not None: st.assume(z3.ULT(r, bvof(rg.size)))
    st.assume(z3.ULT(r, BV((1 << 31) - 64)))
    if pt is not None: st.ghost["strlens"] = tuple(st.ghost.get("strlens", ())) + ((rg.label, off, r),)
    return r
def s_memset(x):
    st = x.st; p, c, n = x.args[0], x.args[1], x.args[2]
    k = num(n); cv = num(c)
    if k is None or cv is None: raise Shape("memset of unknown size")
    rg, off = st.resolve(p)
    o = num(off)
    if o is None: raise Shape("memset at unknown offset")
    i = 0
    while i < k:
        if k - i >= 8 and (o + i) % 8 == 0: st.store(simp(p + i), BV(int.from_bytes(bytes([cv & 255]) * 8, "little")), 8); i += 8
        else: st.store(simp(p + i), BV(cv & 255, 8), 1); i += 1
    return p
def s_memcpy(x):
    st = x.st; d, s, n = x.args[:3]
    if num(n) is None:
        # symbolic length: whole effect is recorded, the destination range is havocked and related by bytes
        e = x.event(d)
        pd = st.resolve(d); ps = st.resolve(s)
        st._bounds_n(ps[0], ps[1], n, f"{x.fr.f.name} -> {x.name}: source")
        st._bounds_n(pd[0], pd[1], n, f"{x.fr.f.name} -> {x.name}: destination")
        st._frame_n(pd[0], pd[1], n)
        st.ghost[("copied", pd[0].label)] = (pd[1], ps[0].label, ps[1], n, ps[0].copy())
        st.havoc(pd[0].label)
        return d
    k = num(n); i = 0
    ws = []
    while i < k:
        c = 8 if k - i >= 8 else 4 if k - i >= 4 else 2 if k - i >= 2 else 1
        ws.append((i, c, st.load(simp(s + i), c))); i += c
    for i, c, v in ws: st.store(simp(d + i), v, c)
    return d
def s_malloc(x):
    st = x.st
    n = x.args[0] if x.name != "calloc" else simp(x.args[0] * x.args[1])
    ok = z3.Bool(f"malloc_ok!{st.nf}")
    if not st.entails(ok):
        if st.entails(z3.Not(ok)):
            st.nf += 1
            st.ghost["mallocs"] = tuple(st.ghost.get("mallocs", ())) + (BV(0),)
            return BV(0)
        raise NeedFork(ok)
    st.nf += 1
    lab = f"malloc{st.nf}"
    b = st.region(lab, n if num(n) is None else num(n), kind="malloc")
    st.ghost["mallocs"] = tuple(st.ghost.get("mallocs", ())) + (b,)
    return b
def abs_(x): 
    a = x.args[0]; return z3.If(a < 0, -a, a)

def s_vastart(x):
    """the variable arguments as the calling convention lays them out: the integer registers left by the named parameters, then the stack"""
    st = x.st; fr = x.fr; p = x.args[0]; np = len(fr.f.params); va = list(fr.va); k = max(0, 6 - np)
    st.nf += 1; a = st.region(f"va_reg{st.nf}", 48, kind="stack", writable=False); b = st.region(f"va_mem{st.nf}", 8 * max(0, len(va) - k), kind="stack", writable=False)
    for i, v in enumerate(va):
        v = zx(v, 64)
        if i < k: st.storer(st.regions[f"va_reg{st.nf}"], 8 * (np + i), v, 8)
        else: st.storer(st.regions[f"va_mem{st.nf}"], 8 * (i - k), v, 8)
    st.store(p, BV(8 * min(np, 6), 32), 4); st.store(simp(p + 4), BV(48, 32), 4); st.store(simp(p + 8), b, 8); st.store(simp(p + 16), a, 8)
BASE = {
    "llvm.va_start": s_vastart, "llvm.va_end": quiet(),
    "*default*": default, "__errno_location": s_errno, "strlen": s_strlen,
    "memset": s_memset, "llvm.memset": s_memset, "memcpy": s_memcpy, "llvm.memcpy": s_memcpy, "memmove": s_memcpy, "llvm.memmove": s_memcpy,
    "llvm.dbg": quiet(), "llvm.lifetime": quiet(), "llvm.stacksave": quiet(), "llvm.stackrestore": quiet(),
    "malloc": s_malloc, "free": quiet(), "llvm.abs": abs_, "abs": abs_,
}
