"""Contracts for ML-callable C functions: argument types, expected results, the runner."""
import os, sys, time, traceback, multiprocessing as mp, itertools
import z3
import ir, cexec, cstubs, cbuild
from cexec import *
from cstubs import *

M64 = (1 << 64) - 1
# ---------------------------------------------------------------- ML data
DTAG = dict(record=0, vec_hdr=1, arr_hdr=2, arr_data=3, raw=4, raw64=5, special=6)
def DESC(n, t): return (n << 7) | (DTAG[t] << 2) | 2
DESC_string = DESC(1, "vec_hdr"); DESC_word8arr = DESC(1, "arr_hdr"); DESC_word64 = DESC(1, "raw"); DESC_reald = DESC(1, "raw64"); DESC_polyvec = DESC(0, "vec_hdr"); DESC_real64arr = DESC(6, "arr_hdr")
def tag(v): return simp(v + v + 1)      # INT_CtoML
def untag(v): return simp(v >> 1)

class Str:
    def __init__(self, hdr, ptr, n, lab): self.hdr, self.ptr, self.len, self.lab = hdr, ptr, n, lab
class Box:
    def __init__(self, hdr, val): self.hdr, self.val = hdr, val
class Rec:
    def __init__(self, hdr, fs): self.hdr, self.fs = hdr, fs
    def __getitem__(self, i): return self.fs[i]
class Opt:
    def __init__(self, hdr, v): self.hdr, self.v = hdr, v

class T: pass
class tInt(T):
    """tagged integer; lo/hi: range of the untagged value"""
    def __init__(self, lo=-(1 << 62), hi=(1 << 62) - 1): self.lo, self.hi = lo, hi
    def make(self, st, nm):
        v = z3.BitVec(nm, 64)
        st.assume(z3.Extract(0, 0, v) == 1)
        u = simp(v >> 1)
        if self.lo > -(1 << 62): st.assume(u >= self.lo)
        if self.hi < (1 << 62) - 1: st.assume(u <= self.hi)
        return v, u
class tBool(T):
    def make(self, st, nm):
        v = z3.BitVec(nm, 64); st.assume(z3.Or(v == 1, v == 3)); return v, simp(v == 3)
class tUnit(T):
    def make(self, st, nm): return BV(1), None
class tAny(T):
    def make(self, st, nm):
        v = z3.BitVec(nm, 64); return v, v
class tWord64(T):
    """boxed 64-bit word / int"""
    def make(self, st, nm):
        b = st.region(nm, 8, kind="ml", writable=False, lo=-8)
        c = z3.BitVec(nm + "_val", 64)
        st.regions[nm].fix = {0: c, -8: BV(DESC_word64)}
        return b, Box(b, c)
class tReal(tWord64):
    pass
class tSeq(T):
    def __init__(self, desc, writable=False, elt=1, nul=True): self.desc, self.writable, self.elt, self.nul = desc, writable, elt, nul
    def make(self, st, nm):
        n = z3.BitVec(nm + "_len", 64)
        st.assume(z3.And(n >= 0, n < (1 << 40)))
        # strings carry a terminating zero byte; the data object is padded to whole words
        sz = (n * self.elt + (1 if self.nul else 0) + 7) & BV(M64 & ~7)
        d = st.region(nm + "_data", sz, kind="ml", writable=self.writable, lo=-8)
        h = st.region(nm, 16, kind="ml", writable=False, lo=-8)
        st.regions[nm].fix = {0: d, 8: tag(n), -8: BV(self.desc)}
        return h, Str(h, d, n, nm + "_data")
class tRec(T):
    def __init__(self, *fs): self.fs = fs
    def make(self, st, nm):
        vs = [f.make(st, f"{nm}_{i}") for i, f in enumerate(self.fs)]
        b = st.region(nm, 8 * len(self.fs), kind="ml", writable=False, lo=-8)
        st.regions[nm].fix = {8 * i: v[0] for i, v in enumerate(vs)}
        st.regions[nm].fix[-8] = BV(DESC(len(self.fs), "record"))
        return b, Rec(b, [v[1] for v in vs])
class List:
    """an ML list of n elements; cell i lies at ptr + 64 i, its element's object (if boxed) at ptr + 64 i + 24"""
    def __init__(self, ptr, n, lab, elt): self.ptr, self.n, self.lab, self.elt = ptr, n, lab, elt
    def at(self, i): return z3.If(bvof(i) == self.n, BV(1), self.ptr + bvof(i) * 64)
    def sel(self, i, w): return z3.Select(z3.Const("mem_" + self.lab, AS), bvof(i) * 64 + w)
class tList(T):
    """elt: "str" (strings: word 32 of cell i is the data pointer, 40 the length), "int", "pair" (pairs of ints, words 32 and 40)"""
    def __init__(self, elt, hi=1 << 30, ok=None): self.elt, self.hi, self.ok = elt, hi, ok
    def make(self, st, nm):
        n = z3.BitVec(nm + "_n", 64); st.assume(z3.And(n >= 0, n < self.hi))
        b = st.region(nm, simp(n * 64), kind="ml", writable=False)
        r = st.regions[nm]; elt, ok = self.elt, self.ok
        def gen(s, off):
            lo = simp(z3.Extract(5, 0, off)); i = z3.LShR(off, 6)
            if not z3.is_bv_value(lo):
                for k in (0, 8, 24, 32, 40, 48, 56, 16):
                    if s.entails(lo == k): lo = BV(k, 6); break
                else: return None
            k = lo.as_long(); raw = z3.Select(r.arr, off)
            if k == 8: return simp(z3.If(off + 56 == n * 64, BV(1), b + off + 56))
            if k == 0 and elt != "int": return simp(b + off + 32)
            if k == 24: return BV(DESC_string if elt == "str" else DESC(2, "record"))
            if (elt == "int" and k == 0) or (elt == "pair" and k in (32, 40)) or (elt == "str" and k == 40):
                s.assume(z3.Extract(0, 0, raw) == 1)
                if ok: s.assume(ok(k, raw >> 1))
            return raw
        r.gen = gen
        return simp(z3.If(n == 0, BV(1), b)), List(b, n, nm, elt)
class tNone(T):
    def make(self, st, nm): return BV(1), Opt(BV(1), None)
class tSome(T):
    def __init__(self, t): self.t = t
    def make(self, st, nm):
        h, v = self.t.make(st, nm + "_v")
        b = st.region(nm, 8, kind="ml", writable=False, lo=-8)
        st.regions[nm].fix = {0: h, -8: BV(DESC(1, "record"))}
        return b, Opt(b, v)
class tRef(T):
    def __init__(self, t): self.t = t
    def make(self, st, nm):
        h, v = self.t.make(st, nm + "_v")
        b = st.region(nm, 8, kind="ml", writable=True, lo=-8)
        st.regions[nm].fix = {0: h, -8: BV(DESC(1, "arr_data"))}
        return b, Rec(b, [v])
class tOpt:
    """expanded by cases()"""
    def __init__(self, t): self.t = t
INT, UNIT, ANY, BOOL = tInt(), tUnit(), tAny(), tBool()
I32 = tInt(-(1 << 31), (1 << 31) - 1)
STR = tSeq(DESC_string); BYTES = tSeq(DESC_string, writable=False); BARR = tSeq(DESC_word8arr, writable=True, nul=False); VEC = BYTES
W64 = SYSW = tWord64()
def REC(*a): return tRec(*a)
def OPT(t): return tOpt(t)
def REF(t): return tRef(t)
def cases(t):
    """expand options into alternatives"""
    if isinstance(t, tOpt): return [tNone()] + [tSome(x) for x in cases(t.t)]
    if isinstance(t, tRec): return [tRec(*c) for c in itertools.product(*[cases(f) for f in t.fs])]
    if isinstance(t, tRef): return [tRef(x) for x in cases(t.t)]
    return [t]

# expected results
class E: pass
class eInt(E):
    def __init__(self, v): self.v = v
class eW64(E):
    def __init__(self, v): self.v = v
class eRec(E):
    def __init__(self, *fs): self.fs = fs
class eVal(E):
    def __init__(self, v): self.v = v
class eUnit(E): pass
class eBool(E):
    def __init__(self, c): self.c = c
class eNone(E): pass
class eSome(E):
    def __init__(self, t): self.t = t
class eCStr(E):
    """the ML string made from C string p (as it was at that call)"""
    def __init__(self, p): self.p = p
class eLit(E):
    """the ML string made from a constant C string with these bytes"""
    def __init__(self, s): self.s = s.encode() if isinstance(s, str) else s
class eReal(eW64): pass
class eSeq(E):
    """sequence object: descriptor, length, and check(r, region, offset) on its data"""
    def __init__(self, desc, n, data=None): self.desc, self.n, self.data = desc, n, data
class eList(E):
    """the list of n elements (a term), elt(r, i) describing element i"""
    def __init__(self, n, elt): self.n, self.elt = n, elt
class eNil(E): pass
class eAny(E): pass

# ---------------------------------------------------------------- runtime contracts used by c-libs
def newalloc(st):
    """the allocation pointer after a contract that may have moved it"""
    st.nf += 1
    lab = f"alloc{st.nf}"
    b = st.region(lab, None, kind="alloc")
    msp = st.regions["msp"]
    st.storer(msp, st.eng.off["allocPtr"], b, 8)
    st.ghost[("ap", len(st.events) - 1)] = b
Engine.newalloc = lambda self, st: newalloc(st)
def stale(st, keep=()):
    s = set(st.ghost.get("stale", ()))
    for l, r in st.regions.items():
        if r.kind in ("ml", "alloc", "mlnew") and l not in keep: s.add(l)
    st.ghost["stale"] = frozenset(s)
def c_CString(x):
    st = x.st
    x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
    e = x.event(None)
    st.nf += 1
    r = st.region(f"cstr{st.nf}", 16, kind="mlnew", writable=False, lo=-8)
    e.ret = r
    return r
def c_AllocSeq(desc, extra):
    def h(x):
        st = x.st; n = x.args[1]
        x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
        x.require(z3.And(n != 0, z3.ULT(n, BV(1 << 40))), "positive length")
        small = z3.ULE(n, BV(4095 if extra else 4096))
        if not st.entails(small): stale(st)     # a large object may trigger a collection
        e = x.event(None)
        st.nf += 1
        k = st.nf
        d = st.region(f"new{k}_data", simp((n + (1 if extra else 0) + 7) & BV(M64 & ~7)), kind="mlnew", lo=-8)
        h_ = st.region(f"new{k}", 16, kind="mlnew", lo=-8)
        st.regions[f"new{k}"].fix = {0: d, 8: tag(n), -8: BV(desc)}
        newalloc(st)
        e.ret = h_
        return h_
    return h
def c_AllocRaw(raw64):
    def h(x):
        st = x.st; n = x.args[1]
        x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
        x.require(z3.And(n != 0, z3.ULT(n, BV(1 << 40))), "positive length")
        if not st.entails(z3.ULE(n, BV(512))): stale(st)
        e = x.event(None)
        st.nf += 1
        lab = f"new{st.nf}_data"
        d = st.region(f"new{st.nf}_data", simp(n * 8), kind="mlnew", lo=-8)
        st.regions[f"new{st.nf}_data"].fix = {-8: simp((n << 7) | DESC(0, "raw64" if raw64 else "raw"))}
        newalloc(st)
        st.ghost[("after", f"{lab}")] = st.loadr(st.regions["msp"], st.eng.off["allocPtr"], 8); st.ghost[("words", lab)] = n
        e.ret = d
        return d
    return h
def c_Shrink(x):
    """shrink the most recently allocated raw object"""
    st = x.st; v, n = x.args[1], x.args[2]
    x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
    rg, off = st.resolve(v)
    if ("words", rg.label) not in st.ghost or num(off) != 0: raise Shape("ML_ShrinkRaw of an object not allocated here")
    old = st.ghost[("words", rg.label)]
    x.require(z3.And(n != 0, z3.ULE(n, old)), "shrinks to a positive size not above the old one")
    cur = st.loadr(st.regions["msp"], st.eng.off["allocPtr"], 8)
    x.require(z3.Or(n == old, cur == st.ghost[("after", rg.label)]), "nothing was allocated after the object that is shrunk")
    e = x.event(None)
    st.storer(rg, -8, simp((n << 7) | DESC(0, "raw")), 8)
    st.ghost[("words", rg.label)] = n
    newalloc(st)
    st.ghost[("after", rg.label)] = st.loadr(st.regions["msp"], st.eng.off["allocPtr"], 8)
def c_CData(x):
    """a raw 64-bit-aligned object holding a copy of n bytes; () when n is 0"""
    st = x.st; src, n = x.args[1], x.args[2]
    x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
    k = num(n)
    if k is None:
        if st.entails(n == 0): k = 0
        elif st.sat(n == 0): raise NeedFork(n == 0)
    if k == 0: return BV(1)
    rs, so = st.resolve(src)
    st._bounds_n(rs, so, n, f"{x.fr.f.name} -> ML_CData: source")
    e = x.event(None)
    if not st.entails(z3.ULE(n, BV(4096))): stale(st)
    st.nf += 1
    lab = f"new{st.nf}_data"
    w = (k + 7) // 8 if k is not None else simp(z3.LShR(n + 7, 3))
    d = st.region(lab, 8 * w if k is not None else simp(w * 8), kind="mlnew", lo=-8)
    rg = st.regions[lab]
    rg.fix = {-8: BV(DESC(w, "raw64")) if k is not None else simp((w << 7) | DESC(0, "raw64"))}
    if k is not None:
        i = 0
        while i < k:
            c = 8 if k - i >= 8 else 4 if k - i >= 4 else 2 if k - i >= 2 else 1
            st.storer(rg, i, st.load(simp(src + i), c), c); i += c
    e.ret = d
    newalloc(st)
    return d
def c_Raise(x):
    st = x.st
    x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
    st.nf += 1
    r = st.region(f"exn{st.nf}", 24, kind="mlnew", writable=False, lo=-8)
    e = x.event(r)
    e.post = e.regs
    return r
def c_NeedGC(x):
    st = x.st
    x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
    r = x.fresh("r_NeedGC"); st.assume(z3.Or(r == 0, r == 1))
    x.event(r)
    return r
def c_GC(roots):
    """a collection: every ML pointer held in C variables is stale afterwards, except the roots that were passed"""
    def h(x):
        st = x.st
        x.require(x.args[0] == st.regions["msp"].base, "passes the ML state")
        todo = []
        for i, a in enumerate(x.args[2:] if roots else []):
            if num(a) == 0: break
            old = st.load(a, 8)
            if st.entails(z3.Extract(0, 0, old) == 1): continue
            if st.sat(z3.Extract(0, 0, old) == 1): raise NeedFork(z3.Extract(0, 0, old) == 1)
            todo.append((i + 2, a, old))
        else:
            if roots: x.require(False, "the list of roots ends with a null pointer")
        e = x.event(None)
        before = st.ghost.get("stale", frozenset())
        new = []
        for i, a, old in todo:
            st.nf += 1; lab = f"gc{st.nf}"
            b = st.region(lab, None, kind="mlnew", writable=False, lo=-8)
            st.ghost[("copyof", lab)] = (old, before); new.append((i, a, b, lab))
        stale(st, [q[3] for q in new])
        for i, a, b, lab in new:
            st.store(a, b, 8); e.out[i] = st.resolve(a)[0].label
        newalloc(st)
        e.post = {k: v.copy() for k, v in st.regions.items()}
        return None
    return h
def c_opaque(nm=None, collects=False):
    """an ML object built by a contract function, identified by the call; collects: building it may cause a collection"""
    def h(x):
        st = x.st
        if collects: stale(st)
        st.nf += 1
        r = st.region(f"obj{st.nf}", None, kind="mlnew", writable=False, lo=-8)
        e = x.event(r)
        newalloc(st)
        return r
    return h
RT = {
    "ML_CString": c_CString, "ML_AllocString": c_AllocSeq(DESC_string, 1), "ML_AllocBytearray": c_AllocSeq(DESC_word8arr, 0),
    "ML_AllocRaw": c_AllocRaw(False), "ML_AllocRaw64": c_AllocRaw(True), "ML_CData": c_CData, "ML_ShrinkRaw": c_Shrink,
    "RaiseSysError": c_Raise, "NeedGC": c_NeedGC, "InvokeGC": c_GC(False), "InvokeGCWithRoots": c_GC(True), "ML_CStringList": c_opaque(collects=True), "ML_SysConst": c_opaque(), "ML_SysConstList": c_opaque(collects=True),
}
PURE = {"NeedGC", "InvokeGC", "InvokeGCWithRoots", "ML_CString", "ML_AllocString", "ML_AllocBytearray", "ML_AllocRaw", "ML_AllocRaw64", "ML_CData", "ML_ShrinkRaw", "memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "loop", "strcpy", "strncpy"}

# ---------------------------------------------------------------- results
class R:
    """view of one completed path, for postconditions"""
    def __init__(self, eng, st, A, raw, spec): self.eng, self.st, self.A, self.raw, self.spec = eng, st, A, raw, spec; self.ret = st.ret
    def name(self, l): return f"{self.spec.fn}: {l}"
    def prove(self, c, label): 
        if not self.eng.prove(self.st, c, self.name(label)): raise Dead()
    def fail(self, label): self.eng.fail(self.st, self.name(label)); raise Dead()
    def case(self, c):
        if isinstance(c, bool): return c
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        t, f = self.st.sat(c), self.st.sat(z3.Not(c))
        if t and not f: return True
        if f and not t: return False
        if not t: raise Dead()
        raise NeedFork(c)
    def effects(self): return [e for e in self.st.events if e.name not in PURE and not e.name.startswith("llvm.")]
    def calls(self, name): return [e for e in self.st.events if e.name == name]
    def one(self, name, label=None):
        es = self.calls(name)
        if len(es) != 1: self.fail(label or f"calls {name} exactly once")
        self.eng.ok(self.name(f"calls {name} exactly once"))
        return es[0]
    def eq(self, a, b, label):
        if isinstance(b, int): b = BV(b, a.size())
        if isinstance(a, int): a = BV(a, b.size())
        if a.size() != b.size(): self.fail(label)
        self.prove(a == b, label)
    def sys(self, name, *args, others=(), alt=None):
        """exactly one system call, this one, with these arguments"""
        ef = [e for e in self.effects() if e.name not in others and e.name != "RaiseSysError"]
        names = [name] if isinstance(name, str) else list(name)
        if len(ef) != 1 or ef[0].name not in names: self.fail(f"the only system call is {name}")
        e = ef[0]
        for i, a in enumerate(args):
            if a is None: continue
            self.eq(e.args[i], a, f"argument {i} of {e.name}")
        return e
    def failed(self, e): return self.case(e.ret == -1)
    def raised(self, e=None, msg=None):
        """the function raised SysErr, for the errno left by call e"""
        rs = self.calls("RaiseSysError")
        if len(rs) != 1: self.fail("an error is reported by raising SysErr exactly once")
        r = rs[0]
        self.eq(self.ret, r.ret, "returns the raised exception")
        if msg is None: self.eq(r.args[1], BV(0), "the system error message and number are reported")
        elif msg is True: self.prove(r.args[1] != 0, "an error message is reported")
        if e is not None and msg is None:
            er0 = self.st.loadr(e.post["errno"], 0, 4); er1 = self.st.loadr(r.regs["errno"], 0, 4)
            self.prove(er0 == er1, f"errno of the failed {e.name} is the one reported")
    def noraise(self):
        if self.calls("RaiseSysError"): self.fail("no exception on success")
        self.eng.ok(self.name("no exception on success"))
    def match(self, v, t, what="result"):
        st = self.st
        c = copied(st, v)
        if c is not None and not callable(t):
            # a root that a collection moved: its old value, read as it was before
            old = st.ghost["stale"]; st.ghost["stale"] = c[1]
            try: return self.match(c[0], t, what)
            finally: st.ghost["stale"] = old
        if isinstance(t, eList): return self.matchlist(v, t, what)
        if isinstance(t, eInt):
            x = t.v if not isinstance(t.v, int) else BV(t.v)
            self.prove(v == x * 2 + 1, f"{what} is the tagged integer")
        elif isinstance(t, eUnit): self.prove(v == 1, f"{what} is ()")
        elif isinstance(t, eNil): self.prove(v == 1, f"{what} is nil")
        elif isinstance(t, eNone): self.prove(v == 1, f"{what} is NONE")
        elif isinstance(t, eBool): self.prove(v == z3.If(t.c, BV(3), BV(1)), f"{what} is the truth value")
        elif isinstance(t, eAny): pass
        elif isinstance(t, eVal):
            self.prove(v == t.v, f"{what}")
        elif isinstance(t, eSome): self.match(v, eRec(t.t), what)
        elif isinstance(t, eW64):
            o, off = self.obj(v, what)
            self.eq(st.loadr(o, self.sub8(off), 8), DESC_reald if isinstance(t, eReal) else DESC_word64, f"{what}: descriptor of a boxed word")
            self.eq(st.loadr(o, off, 8), t.v, f"{what}: value")
        elif isinstance(t, eSeq):
            o, off = self.obj(v, what)
            self.eq(st.loadr(o, self.sub8(off), 8), t.desc, f"{what}: descriptor of the sequence")
            self.match(st.loadr(o, self.add(off, 8), 8), eInt(t.n), f"{what}: length")
            if t.data is not None:
                d, doff = self.obj(st.loadr(o, off, 8), f"{what}: data")
                t.data(self, d, doff, f"{what}: data")
        elif isinstance(t, eRec):
            o, off = self.obj(v, what)
            self.eq(st.loadr(o, self.sub8(off), 8), DESC(len(t.fs), "record"), f"{what}: descriptor of a {len(t.fs)}-tuple")
            for i, f in enumerate(t.fs):
                self.match(st.loadr(o, off + 8 * i if isinstance(off, int) else simp(off + 8 * i), 8), f, f"{what}.{i}")
            self.fresh_obj(o, what)
        elif isinstance(t, eCStr):
            for e in self.calls("ML_CString"):
                if st.entails(v == e.ret):
                    self.eq(e.args[1], t.p, f"{what}: the string is made from the right C string"); return
            self.fail(f"{what} is an ML string made from the C string")
        elif isinstance(t, eLit):
            for e in self.calls("ML_CString"):
                if st.entails(v == e.ret):
                    b = conststr(st, e.args[1])
                    if b != t.s: self.fail(f"{what} is the string {t.s.decode()}")
                    self.eng.ok(self.name(f"{what} is the string {t.s.decode()}")); return
            self.fail(f"{what} is an ML string")
        elif callable(t): t(self, v, what)
        else: raise Shape(f"expectation {t}")
        if not isinstance(t, (eInt, eUnit, eNil, eNone, eBool, eAny)) and not callable(t): self.notstale(v, what)
    def matchlist(self, v, t, what):
        st = self.st; g = st.ghost.get("built")
        if g is not None and st.entails(v == g[0]):
            self.eq(g[1], t.n, f"{what}: all the elements are in the list"); return
        for k in range(40):
            if self.case(t.n == k): break
        else: raise Shape("list of unknown length")
        tt = eNil()
        for i in range(k - 1, -1, -1): tt = eRec(t.elt(self, BV(i)), tt)
        self.match(v, tt, what)
    def add(self, off, k): return off + k if isinstance(off, int) else simp(off + k)
    def sub8(self, off): return off - 8 if isinstance(off, int) else simp(off - 8)
    def notstale(self, v, what):
        s = self.st.ghost.get("stale")
        if not s: return
        try: o, off = self.st.resolve(v)
        except Shape: return
        if o.label in s: self.fail(f"{what} is not a pointer left stale by a collection")
    def obj(self, v, what):
        st = self.st
        try: o, off = st.resolve(v)
        except Shape: self.fail(f"{what} is an ML object")
        n = num(off)
        if n is not None: off = n if n < 1 << 63 else n - (1 << 64)
        if o.label in st.ghost.get("stale", ()): self.fail(f"{what} is not a pointer left stale by a collection")
        return o, off
    def fresh_obj(self, o, what):
        """an object in the allocation area lies below the final allocation pointer"""
        pass
    def field(self, name, regs=None):
        """a word of the ML state"""
        o = self.eng.off[name]
        return self.st.loadr((regs or self.st.regions)["msp"], o, 8)
    def mem(self, e, label, off, size, post=True):
        """contents of memory just after (post) or at call e"""
        return self.st.loadr((e.post if post else e.regs)[label], off, size)
    def samebytes(self, d, doff, src, soff, n, label):
        """the n bytes of d equal those of src"""
        i = self.st.fresh("i")
        g = z3.ULT(i, bvof(n))
        if not self.st.sat(g): return
        s = self.st.fork_done()
        s.assume(g)
        a = s.loadr(d, simp(bvof(doff) + i), 1); b = s.loadr(src, simp(bvof(soff) + i), 1)
        self.eng.prove(s, a == b, self.name(label))
    def zeros(self, d, lo, hi, label):
        """bytes lo..hi-1 of d are zero"""
        i = self.st.fresh("i")
        s = self.st.fork_done()
        try: s.assume(z3.And(z3.UGE(i, bvof(lo)), z3.ULT(i, bvof(hi))))
        except Dead: return
        if not s.sat(): return
        self.eng.prove(s, s.loadr(d, i, 1) == 0, self.name(label))
    def outfield(self, e, i, struct, fld, mod=None):
        """field of the structure that call e wrote through its argument i"""
        off, size = (mod or self.eng.mods[0]).field(struct, fld)
        a = e.args[i]
        o, base = self.st.resolve(a)
        b = num(base)
        return self.st.loadr(e.post[o.label], b + off, size)
    def objfield(self, e, struct, fld, mod=None):
        """field of the structure that call e returned"""
        off, size = mod.field(struct, fld) if mod else self.fieldof(struct, fld)
        return self.st.loadr(self.st.regions[e.obj], off, size)
    def fieldof(self, struct, fld):
        err = None
        for m in self.eng.mods:
            try: return m.field(struct, fld)
            except Exception as e: err = e
        raise err
    def infield(self, e, i, struct, fld):
        off, size = self.fieldof(struct, fld)
        o, base = self.st.resolve(e.args[i])
        return self.st.loadr(e.regs[o.label], num(base) + off, size)

def conststr(st, p):
    """the bytes of a constant C string, or None"""
    try: r, off = st.resolve(p)
    except Shape: return None
    if r.const is None or num(off) is None: return None
    n = num(off); out = []
    while True:
        b = num(st.loadr(r, n + len(out), 1))
        if b is None: return None
        if b == 0: return bytes(out)
        out.append(b)
def cptr(size=None, errno=True, nul=True, setup=None, rgsize=None):
    """an external function that returns a pointer to a C object, or NULL"""
    def h(x):
        st = x.st
        if nul:
            ok = z3.Bool(f"{x.name}_ok!{st.nf}")
            if not st.entails(ok):
                if st.entails(z3.Not(ok)):
                    e = x.event(BV(0)); st.nf += 1
                    if errno: havoc_errno(st)
                    e.post = {k: v.copy() for k, v in st.regions.items()}
                    return BV(0)
                raise NeedFork(ok)
        st.nf += 1
        b = st.region(f"{x.name}{st.nf}", size, kind="cobj", writable=False)
        e = x.event(b); e.obj = f"{x.name}{st.nf}"
        if setup: setup(x, st.regions[e.obj], e)
        if errno: havoc_errno(st)
        e.post = {k: v.copy() for k, v in st.regions.items()}
        return b
    return h
# ---------------------------------------------------------------- specs
SPECS = {}
class Spec:
    def __init__(self, group, file, fn, arg, post, link=(), stubs=None, contracts=None, loops=None, pre=None, globals_=None, unroll=80, note=None, msp=True, args=None, limit=120, bounded=None, bound=5, consts=(), allocs=(), va=None):
        self.group, self.file, self.fn, self.arg, self.post, self.link = group, file, fn, arg, post, list(link)
        self.stubs, self.contracts, self.loops, self.pre, self.unroll, self.note, self.args, self.limit = stubs or {}, contracts or {}, loops or {}, pre, unroll, note, args, limit
        self.msp = msp; self.bounded = bounded; self.bound = bound; self.consts = set(consts); self.allocs = allocs; self.va = va
class Group:
    """collects the contracts of one property"""
    def __init__(self, name, stubs=None): self.name = name; self.specs = []; self.stubs = stubs or {}; self.lemmas = []
    def fn(self, file, fn, arg=None, **k):
        def d(post):
            s = Spec(self, file, fn, arg, post, **k); self.specs.append(s); return post
        return d
    def wrapper(self, file, fn, arg, call, args, ret=None, **k):
        """a system-call wrapper: calls `call` once with args(A); raises SysErr on -1; else returns ret(R, e)"""
        def post(r):
            e = r.sys(call, *args(r.A))
            if r.failed(e): r.raised(e)
            else:
                r.noraise()
                r.match(r.ret, ret(r, e) if ret else eUnit())
        self.specs.append(Spec(self, file, fn, arg, post, **k))

    def bind(self, d, lib=None):
        """the library's table binds each ML name to its C function"""
        s = Spec(self, f"c-libs/{d}/{lib or d + '-lib.c'}", "CFunTable", None, None); s.bind = d; self.specs.append(s)
    def check(self, file, fn, f):
        """an obligation on constant data: f(module) yields (label, holds, detail); raises Shape when the data cannot be read"""
        s = Spec(self, file, fn, None, None); s.bind = None; s.check = f; self.specs.append(s)
    def add(self, file, fn, arg, post, **k): self.specs.append(Spec(self, file, fn, arg, post, **k))

def last(st):
    """events since the last loop cut"""
    k = max([i for i, e in enumerate(st.events) if e.name == "loop"], default=-1)
    return st.events[k + 1:]
def retry(check, mods=("auto",)):
    """loop contract: check(L, events of this iteration) holds whenever the loop goes round again"""
    def inv(L):
        ev = last(L.st)
        if not getattr(L, "start", None) or not ev: return []
        return check(L, ev)
    return Loop(inv, mods=list(mods))

def copied(st, v):
    try: r, off = st.resolve(v)
    except (Shape, NeedFork): return None
    return st.ghost.get(("copyof", r.label)) if num(off) == 0 else None
def buildloop(var, left, total, elt, extra=None, more=(), presetup=None):
    """contract of a loop that builds a list from its end: left(L) elements (a 64-bit term) are still to come; each round puts
    element left-1 in front of the list so far.  After the loop the variable stands for the list of the elements from left on."""
    def inv(L):
        st = L.st; k = left(L); n = total(L)
        p = getp(L)
        ex = aslist(extra(L)) if extra else []
        if L.phase == "entry": return ex + [("starts with the empty list", p == 1), ("starts with all elements", k == n)]
        if L.phase == "assume": return ex + [z3.And(k >= 0, k <= n)]
        old, ok = st.ghost[("bl", var)]
        r = R(L.eng, st, L.eng.A, None, L.eng.spec); r.L = L
        def tl(r, v, what):
            c = copied(st, v)
            r.prove((c[0] if c else v) == old, f"{what}: the list built before")
            if c is None: r.notstale(v, what)
        r.match(p, eRec(elt(r, k), tl), f"element of the list")
        return ex + [("one element per round", k == ok - 1), ("the list so far stays in its variable", True)]
    def getp(L):
        try: return L.var(var)
        except Shape: return L.st.load(L.obj(var), 8)
    def setup(L):
        if presetup: presetup(L)
        st = L.st; st.nf += 1
        lab = f"list{st.nf}"; k = left(L); n = total(L)
        b = st.region(lab, None, kind="mlnew", writable=False, lo=-8)
        v = simp(z3.If(k == n, BV(1), b))
        try: L.fr.allocs[L._alloca(var)] = v
        except Shape: st.store(L.obj(var), v, 8)
        st.ghost[("bl", var)] = (v, k)
        st.ghost["built"] = (v, simp(n - k))
    def mods(L):
        try: L._alloca(var); return ["alloc*"] + list(more)
        except Shape: return ["alloc*", L.st.ghost[("obj", var)]] + list(more)
    return Loop(inv, mods=mods, setup=setup)
def offsets(mods):
    o = {}
    for nm, f in (("allocPtr", "ml_allocPtr"), ("limitPtr", "ml_limitPtr"), ("storePtr", "ml_storePtr"), ("heap", "ml_heap"), ("exncont", "ml_exnCont"), ("arg", "ml_arg"), ("cont", "ml_cont"), ("closure", "ml_closure"),
                  ("linkReg", "ml_linkReg"), ("pc", "ml_pc"), ("varReg", "ml_varReg"), ("faultExn", "ml_faultExn")):
        for mod in mods:
            try: o[nm] = mod.field("ml_state_t", f)[0]; break
            except Exception: pass
    return o
_mods = {}
def module(rel):
    if rel not in _mods: _mods[rel] = ir.Module(cbuild.ir_text(rel))
    return _mods[rel]

def setup(eng, sp, argt):
    st = State(eng)
    eng.off = offsets(eng.mods)
    A = raw = None
    errno_region(st)
    if sp.msp:
        msp = st.region("msp", None, kind="msp")
        al = st.region("alloc", None, kind="alloc")
        lim = z3.BitVec("limitPtr0", 64)
        st.regions["msp"].fix = {eng.off["allocPtr"]: al} if "allocPtr" in eng.off else {}
        st.ghost["limit0"] = lim
    if argt is not None: raw, A = argt.make(st, "arg")
    return st, raw, A

def getmodel(eng, st, neg):
    s = z3.Solver(); s.set("timeout", 20000)
    for c in eng.axioms + st.pc + ([neg] if neg is not None else []): s.add(c)
    return s.model() if s.check() == z3.sat else None
def run_bind(sp):
    """compares the constant table of the compiled library with the recorded binding of ML names to C functions"""
    import json
    t0 = time.time(); obs = []; conf = []
    want = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cspecs/bindings.json")))[sp.bind]
    res = lambda st, de="": {"function": f"{sp.file}:CFunTable", "status": st, "detail": de, "obligations": obs, "time": time.time() - t0, "paths": 1, "bounded": None, "confirmed": conf, "unconfirmed": [], "mode": "proof"}
    try:
        mod = module(sp.file); got = {}
        g = mod.globals.get("CFunTable")
        if g is None or g.init is None or g.init[0] != "agg": return res("shape", "no table CFunTable")
        for t, v in g.init[2]:
            if v[0] != "agg": continue
            fs = [q[1] for q in v[2]]
            if fs[0][0] != "g" or fs[1][0] != "g": continue
            nm = bytes(mod.globals[fs[0][1]].init[2]).rstrip(b"\0").decode("latin-1")
            got.setdefault(nm, fs[1][1])
    except (cbuild.BuildError, ir.Unsupported, SyntaxError, KeyError, IndexError) as e: return res("shape", str(e))
    other = {v: k for k, v in want.items()}
    for n, f in sorted(want.items()):
        if n not in got:
            if any(x == f for x in got.values()): obs.append((f"{sp.bind}: {n} is bound to {f}", "failed", None, 0.0, f"sat; {n} is not in the table")); conf.append({"function": "CFunTable", "input": {"name": n}, "native_result": "not bound"})
            else: return res("shape", f"{n} is not in the table")
        elif got[n] == f: obs.append((f"{sp.bind}: {n} is bound to {f}", "proved", "table", 0.0, None))
        elif got[n] in other: obs.append((f"{sp.bind}: {n} is bound to {f}", "failed", None, 0.0, f"sat; {n} is bound to {got[n]}, the function of {other[got[n]]}")); conf.append({"function": "CFunTable", "input": {"name": n}, "native_result": got[n], "check": "table entry of the compiled library"})
        else: return res("shape", f"{n} is bound to an unknown function {got[n]}")
    return res("failed" if conf else "proved")
def run_spec(sp, scale=1, case=None):
    if getattr(sp, "bind", None): return run_bind(sp)
    if getattr(sp, "check", None): return run_check(sp)
    return run_spec1(sp, scale, case)
def run_check(sp):
    t0 = time.time(); obs = []; conf = []
    res = lambda st, de="": {"function": f"{sp.file}:{sp.fn}", "status": st, "detail": de, "obligations": obs, "time": time.time() - t0, "paths": 1, "bounded": None, "confirmed": conf, "unconfirmed": [], "mode": "proof"}
    try:
        for lab, ok, de in sp.check(module(sp.file)):
            obs.append((lab, "proved" if ok else "failed", "table" if ok else None, 0.0, None if ok else f"sat; {de}"))
            if not ok: conf.append({"function": sp.fn, "input": {"entry": lab}, "native_result": de, "check": "constant data of the compiled file"})
    except (Shape, cbuild.BuildError, ir.Unsupported, SyntaxError, KeyError, IndexError, TypeError, AttributeError) as e: return res("shape", f"{type(e).__name__}: {e}")
    return res("failed" if conf else "proved" if obs else "vacuous")
def ncases(sp): return 1 if sp.arg is None or getattr(sp, "bind", None) else len(cases(sp.arg))
def merge(rs):
    """results of the cases of one function"""
    if len(rs) == 1: return rs[0]
    rank = ["proved", "bounded", "vacuous", "unknown", "shape", "failed"]
    r = dict(max(rs, key=lambda q: rank.index(q["status"])))
    r["obligations"] = sum((q["obligations"] for q in rs), []); r["time"] = sum(q["time"] for q in rs); r["paths"] = sum(q["paths"] for q in rs)
    for k in ("confirmed", "unconfirmed"): r[k] = sum((q.get(k) or [] for q in rs), [])
    return r
def run_spec1(sp, scale=1, case=None):
    """verify one function; where its loop annotations no longer fit, fall back to a bounded run of the same
    contract: a failure there is a failure of the code, success leaves the function undecided ('bounded')"""
    if sp.bounded:
        r = _run_spec(sp, scale, bounded=True, case=case); r["mode"] = "bounded"; return r
    r = _run_spec(sp, scale, case=case)
    r["mode"] = "proof"
    if r["status"] in ("failed", "shape", "unknown", "vacuous") and sp.loops and sp.bound and not r["confirmed"]:
        q = _run_spec(sp, scale, bounded=True, case=case)
        q["mode"] = "bounded"; q["proof_attempt"] = [r["status"], r["detail"], [o[0] for o in r["obligations"] if o[1] == "failed"]]
        if q["status"] == "proved" and any(o[1] == "failed" and (o[4] or "").startswith("sat") for o in r["obligations"]):
            r["detail"] = f"the loop contract fails; the same contract holds for up to {sp.bound} rounds"; r["mode"] = "proof"
            return r
        if q["status"] == "proved": q["status"], q["detail"] = "bounded", f"loops followed for at most {sp.bound} rounds; the loop contract was not re-established: {r['detail'] or [o[0] for o in r['obligations'] if o[1] == 'failed'][:2]}"
        return q
    return r
def _run_spec(sp, scale=1, bounded=False, case=None):
    t0 = time.time()
    obs = []; status = "proved"; detail = ""
    completed = 0; confirmed = []; why = []
    rep = not os.environ.get("CV_NOREPLAY")
    try:
        mods = [module(f) for f in [sp.file] + sp.link]
        todo = cases(sp.arg) if sp.arg is not None else [None]
        if case is not None: todo = [todo[case]]
        for argt in todo:
            stubs = dict(BASE); stubs.update(RT); stubs.update(sp.group.stubs); stubs.update(sp.stubs)
            eng = Engine(mods, dict(sp.contracts), stubs, {} if bounded else sp.loops, unroll=sp.bound if bounded else sp.unroll, limit=sp.limit * scale, timeout=20 * scale)
            eng.bounded = bounded; eng.constglobals = sp.consts; eng.spec = sp
            if os.environ.get("CV_V"): print("==", sp.fn, flush=True)
            try:
                st, raw, A = setup(eng, sp, argt)
                m, f = eng.find(sp.fn)
                if f is None: raise Shape(f"function {sp.fn} not found in {sp.file}")
                if sp.args: args = sp.args(eng, st, A)
                else: args = [st.regions["msp"].base, raw] if sp.msp else [raw]
                args = args[:len(f.params)]
                if len(args) < len(f.params): raise Shape(f"{sp.fn}: parameters changed")
                eng.A = A
                if sp.pre: sp.pre(eng, st, A)
                if not st.sat(): raise Shape("precondition unsatisfiable")
                eng.push(st, m, f, args, None, sp.va(eng, st) if sp.va else ())
                eng.run(st, lambda s: sp.post(R(eng, s, A, raw, sp)))
                completed += getattr(eng, "completed", 0)
            finally:
                obs += eng.obs
                if eng.failures and not confirmed and rep:
                    for fst, neg, lab in eng.failures[:4]:
                        try:
                            m = getmodel(eng, fst, neg)
                            if m is None: continue
                            import creplay
                            confirmed.append(dict(creplay.replay(eng, fst, m, sp, args, lab), obligation=lab)); break
                        except Exception as e:
                            why.append(f"{lab}: {type(e).__name__}: {e}")
                            if os.environ.get("CV_T"): traceback.print_exc()
        if completed == 0 and not any(o[1] == "failed" for o in obs): status, detail = "vacuous", "no path completes"
    except (Shape, ir.Unsupported, SyntaxError) as e: status, detail = "shape", str(e)
    except cbuild.BuildError as e: status, detail = "shape", "does not compile: " + str(e)
    except RecursionError: status, detail = "shape", "recursion limit"
    except Exception as e:
        status, detail = "shape", f"{type(e).__name__}: {e}"
        if os.environ.get("CV_T"): traceback.print_exc()
    if any(o[1] == "failed" for o in obs): status = "failed"
    elif status == "proved" and any(o[1] == "skipped" for o in obs): status, detail = "unknown", "time limit"
    return {"function": f"{sp.file}:{sp.fn}", "status": status, "detail": detail, "obligations": obs, "time": time.time() - t0, "paths": completed, "bounded": sp.bounded, "confirmed": confirmed, "unconfirmed": why}
