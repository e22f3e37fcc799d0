"""CV: contract verifier for the C runtime.  The .c files of /repo are compiled by clang to LLVM IR
on every run; each function under contract is executed symbolically for all inputs that satisfy its
precondition, loops are cut by invariants (or unrolled when their bound is a constant), callees under
contract are replaced by their contract, other callees in the same link set are inlined, and the
remaining externals have the assumed contracts of cstubs.py.  Machine integers are bit-vectors of
their real width; memory is word-addressed per separated region."""
import time, os, subprocess, tempfile, itertools
import z3
import ir
from ir import *

class Shape(Exception): pass
class NullDeref(Shape): pass
class NeedFork(Exception):
    def __init__(self, cond): self.cond = cond
class Dead(Exception): pass

def BV(n, w=64): return z3.BitVecVal(n, w)
def simp(t): return z3.simplify(t)
def num(t):
    """int when the term is a numeral"""
    if isinstance(t, int): return t
    if z3.is_bv_value(t): return t.as_long()
    return None
def isbool(t): return z3.is_bool(t)
def bvof(t, w=64):
    return BV(t, w) if isinstance(t, int) else t
def zx(t, w):
    n = t.size()
    return t if n == w else (z3.ZeroExt(w - n, t) if n < w else z3.Extract(w - 1, 0, t))
def sx(t, w):
    n = t.size()
    return t if n == w else (z3.SignExt(w - n, t) if n < w else z3.Extract(w - 1, 0, t))

FP = {}
def fpop(name, *args, w=64):
    k = (name, tuple(a.size() for a in args), w)
    if k not in FP: FP[k] = z3.Function(f"fp_{name}_{'_'.join(str(x) for x in k[1])}_{w}", *[z3.BitVecSort(a.size()) for a in args], z3.BitVecSort(w))
    return FP[k](*args)

AS = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64))
class Region:
    """a separated block of memory; offsets are from its base.  log: newest last"""
    __slots__ = ("label", "base", "size", "arr", "log", "writable", "const", "kind", "fix", "lo", "gen")
    def __init__(self, label, base, size, arr=None, writable=True, kind="obj", lo=0):
        self.label, self.base, self.size, self.writable, self.kind = label, base, size, writable, kind
        self.arr = arr if arr is not None else z3.Const("mem_" + label, AS)
        self.log = []; self.const = None; self.fix = {}; self.lo = lo; self.gen = None
    def copy(self):
        r = Region.__new__(Region)
        r.label, r.base, r.size, r.writable, r.kind, r.arr, r.const, r.lo = self.label, self.base, self.size, self.writable, self.kind, self.arr, self.const, self.lo
        r.log = list(self.log); r.fix = self.fix; r.gen = self.gen
        return r

class Event:
    def __init__(self, name, args, ret, regs): self.name, self.args, self.ret, self.regs = name, args, ret, regs; self.post = None; self.out = {}
    def __repr__(self): return f"{self.name}({', '.join(str(a)[:60] for a in self.args)})"

class Frame:
    __slots__ = ("f", "mod", "regs", "allocs", "blk", "idx", "prev", "retto", "visits", "inloop", "id", "va", "entry")
    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.mod, g.blk, g.idx, g.prev, g.retto, g.id, g.va = self.f, self.mod, self.blk, self.idx, self.prev, self.retto, self.id, self.va
        g.regs = dict(self.regs); g.allocs = dict(self.allocs); g.visits = dict(self.visits); g.inloop = dict(self.inloop); g.entry = self.entry
        return g

class State:
    def __init__(self, eng):
        self.eng = eng; self.frames = []; self.pc = []; self.regions = {}; self.labels = {}; self.events = []
        self.solver = None; self.nf = 0; self.known = {}; self.ret = None; self.ghost = {}; self.done = False; self.retpending = None; self.frame_limits = []
        self.ecache = {}
    def fork(self):
        s = State.__new__(State)
        s.eng = self.eng; s.frames = [f.copy() for f in self.frames]; s.pc = list(self.pc)
        s.regions = {k: v.copy() for k, v in self.regions.items()}; s.labels = dict(self.labels); s.events = list(self.events)
        s.solver = None; s.nf = self.nf; s.known = dict(self.known); s.ret = self.ret; s.ghost = dict(self.ghost); s.done = False; s.retpending = self.retpending
        s.frame_limits = list(self.frame_limits); s.ecache = dict(self.ecache)
        return s
    def fork_done(self):
        s = self.fork(); s.done = self.done; return s
    # ---- logic
    def fresh(self, nm, w=64):
        self.nf += 1
        return z3.BitVec(f"{nm}!{self.nf}", w)
    def sv(self):
        if self.solver is None:
            self.solver = z3.Solver(); self.solver.set("timeout", 1500)
            for c in self.pc:
                if not hasq(c): self.solver.add(c)
        return self.solver
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Dead()
            return
        c = simp(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Dead()
        self.pc.append(c)
        if self.solver is not None and not hasq(c): self.solver.add(c)
    def sat(self, c=None):
        s = self.sv()
        s.push()
        if c is not None: s.add(c)
        r = s.check(); s.pop()
        return r != z3.unsat
    def entails(self, c):
        if isinstance(c, bool): return c
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = (c.get_id(), len(self.pc))
        r = self.ecache.get(k)
        if r is not None and r[0].eq(c): return r[1]
        v = not self.sat(z3.Not(c))
        self.ecache[k] = (c, v)
        return v
    # ---- memory
    def region(self, label, size=None, base=None, writable=True, kind="obj", align=8, arr=None, lo=0):
        """declare a separated region"""
        if base is None:
            base = z3.BitVec("p_" + label, 64)
        self.labels[base.get_id()] = (base, label)
        r = Region(label, base, size, arr, writable, kind, lo)
        self.regions[label] = r
        k = self.eng.labelno(label)
        if align >= 8: self.assume(z3.Extract(2, 0, base) == 0)
        self.assume(z3.Extract(63, 40, base) == k)
        self.assume(z3.Extract(39, 36, base) == 1)
        return base
    def alias(self, term, label, off=0):
        """term is a pointer to region label (+off): record the equality used for resolution"""
        self.known[term.get_id()] = (term, self.regions[label].base + bvof(off))
        self.assume(term == self.regions[label].base + bvof(off))
    def resolve(self, addr):
        """address -> (region, offset)"""
        a = simp(addr)
        for _ in range(8):
            lab = self._find(a)
            if lab is None: break
            if isinstance(lab[0], str) and lab[0] == "ite":
                c = lab[1]
                if self.entails(c): a = simp(z3.substitute(a, (lab[2], lab[2].arg(1)))); continue
                if self.entails(z3.Not(c)): a = simp(z3.substitute(a, (lab[2], lab[2].arg(2)))); continue
                raise NeedFork(c)
            if isinstance(lab[0], str) and lab[0] == "sub": a = simp(z3.substitute(a, (lab[1], lab[2]))); continue
            base, label = lab
            return self.regions[label], simp(a - base)
        for hb, label in self.ghost.get("ptrhints", ()):      # an address that the path condition places in a region
            if self.eng.discharge(self, a == hb)[0] == "unsat":
                self.known[a.get_id()] = (a, hb); return self.regions[label], BV(0)
        if "heap" in self.regions:
            if z3.is_bv_value(a): raise Shape(f"access to absolute address {a}")
            return self.regions["heap"], a
        if num(a) is not None and num(a) < 4096: raise NullDeref(f"access to address {num(a)}")
        raise Shape(f"pointer of unknown provenance: {str(a)[:200]}")
    def _find(self, a):
        todo = [a]; fallback = None
        while todo:
            t = todo.pop()
            r = self.labels.get(t.get_id())
            if r is not None and r[0].eq(t): return r
            k = self.known.get(t.get_id())
            if k is not None and k[0].eq(t): return ("sub", t, k[1])
            if z3.is_app(t):
                op = t.decl().kind()
                if op == z3.Z3_OP_BADD: todo += list(t.children())
                elif op == z3.Z3_OP_ITE: fallback = ("ite", t.arg(0), t)
                elif op == z3.Z3_OP_CONCAT and num(t.arg(t.num_args() - 1)) and self.known:
                    l = t.arg(t.num_args() - 1); z = simp(z3.Concat(*t.children()[:-1], BV(0, l.size()))); k = self.known.get(z.get_id())
                    if k is not None and k[0].eq(z): return ("sub", t, k[1] + z3.ZeroExt(64 - l.size(), l))
                elif op == z3.Z3_OP_CONCAT and t.num_args() == 2 and num(t.arg(1)) == 0 and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() == z3.Z3_OP_ITE:
                    i = t.arg(0); return ("sub", t, z3.If(i.arg(0), z3.Concat(i.arg(1), t.arg(1)), z3.Concat(i.arg(2), t.arg(1))))
                elif op == z3.Z3_OP_CONCAT and t.num_args() == 2 and num(t.arg(1)) == 0 and t.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
                    k, x = t.arg(1).size(), t.arg(0).arg(0)      # a pointer whose mark bits are cleared
                    if x.size() == 64 and t.arg(0).size() == 64 - k and t.arg(0).params() == [63, k] and self.entails(z3.Extract(k - 1, 0, x) == 0): return ("sub", t, x)
        return fallback
    def _same(self, a, b):
        """True/False/None: are two offsets equal"""
        if isinstance(a, int) and isinstance(b, int): return a == b
        c = simp(bvof(a) == bvof(b))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.entails(z3.Not(c)): return False
        if self.entails(c): return True
        return None
    def loadw(self, r, off):
        """8-byte word at word-aligned offset"""
        n = num(off) if not isinstance(off, int) else off
        if n is not None: off = n
        out = None; wraps = []
        for e in reversed(r.log):
            if e[0] == "st":
                s = self._same(e[1], off)
                if s is True: out = e[2]; break
                if s is False: continue
                wraps.append((bvof(e[1]) == bvof(off), e[2]))
            else:
                _, lo, hi, arr = e
                if lo is None: out = z3.Select(arr, bvof(off)); break
                inside = z3.And(z3.UGE(bvof(off), bvof(lo)), z3.ULT(bvof(off), bvof(hi)))
                ii = simp(inside)
                if z3.is_true(ii) or (not z3.is_false(ii) and self.entails(ii)): out = z3.Select(arr, bvof(off)); break
                if z3.is_false(ii) or self.entails(z3.Not(ii)): continue
                wraps.append((ii, z3.Select(arr, bvof(off))))
        if out is None:
            if r.const is not None and isinstance(off, int):
                out = self.eng.constword(self, r, off)
            elif isinstance(off, int) and off in r.fix: out = r.fix[off]
            else:
                out = r.gen(self, bvof(off)) if r.gen is not None else None
                if r.const is not None: out = self.constsel(r, bvof(off))
                if out is None: out = z3.Select(r.arr, bvof(off))
        for c, v in reversed(wraps): out = z3.If(c, v, out)
        return simp(out)
    def constsel(self, r, off):
        """word of a constant table at a symbolic offset"""
        n = r.size if isinstance(r.size, int) else None
        if n is None or n > 1 << 16: return None
        step, st0 = 8, 0
        for m in (64, 32, 24, 16):
            c = [k for k in range(0, m, 8) if self.entails(z3.URem(off, BV(m)) == k)] if m & (m - 1) == 0 else []
            if c: step, st0 = m, c[0]; break
        out = None
        for o in range(st0, n, step):
            w = self.eng.constword(self, r, o)
            if w is None: return None
            out = w if out is None else z3.If(off == o, w, out)
        return out
    def _k(self, off, size):
        if isinstance(off, int): return off & 7
        e = simp(z3.Extract(2, 0, off))
        if z3.is_bv_value(e): return e.as_long()
        for k in range(0, 8, size if size < 8 else 8):
            if self.entails(e == k): return k
        return None
    def _bounds(self, r, off, size, what):
        if r.size is None: return
        n = num(off) if not isinstance(off, int) else off
        if n is not None and isinstance(r.size, int):
            if 0 <= n and n + size <= r.size: return
            if n >= 1 << 63: n -= 1 << 64
            if n >= r.lo and n + size <= r.size: return
            self.eng.fail(self, f"{what} outside {r.label} (offset {n}, size {size} of {r.size})")
            raise Dead()
        if n is not None and r.lo < 0:
            if n >= 1 << 63: n -= 1 << 64
            if r.lo <= n and n + size <= 0: return
        self.eng.prove(self, z3.And(z3.ULE(bvof(off), bvof(r.size) - size), z3.UGE(bvof(r.size), size)), f"{what} of {size} bytes within {r.label}")
    def notstale(self, r, what):
        if r.label in self.ghost.get("stale", ()):
            self.eng.fail(self, f"{what} of {r.label} after a possible collection"); raise Dead()
    def place(self, addr, what):
        """resolve for an access: a constant near zero is a null pointer or an unboxed ML value, not an object"""
        try: return self.resolve(addr)
        except NullDeref: self.eng.fail(self, f"{what} through a null pointer or an unboxed value"); raise Dead()
    def load(self, addr, size):
        r, off = self.place(addr, "read")
        self.notstale(r, "read")
        n = num(off)
        if n is not None: off = n if n < 1 << 63 or r.base is None else n - (1 << 64)
        self._bounds(r, off, size, "read")
        return self.loadr(r, off, size)
    def loadr(self, r, off, size):
        k = self._k(off, size)
        if k is None:
            if size > 1: self.eng.prove(self, z3.URem(bvof(off), BV(size)) == 0, f"aligned access of {size} bytes in {r.label}")
            w = self.loadw(r, simp(off & BV(~7 & (1 << 64) - 1)))
            return simp(z3.Extract(size * 8 - 1, 0, z3.LShR(w, (off & 7) * 8)))
        wo = off - k if isinstance(off, int) else simp(off - k)
        w = self.loadw(r, wo)
        if k + size <= 8: return simp(z3.Extract((k + size) * 8 - 1, k * 8, w)) if size < 8 else w
        w2 = self.loadw(r, wo + 8 if isinstance(wo, int) else simp(wo + 8))
        return simp(z3.Extract(k * 8 + size * 8 - 1, k * 8, z3.Concat(w2, w)))
    def store(self, addr, val, size):
        r, off = self.place(addr, "write")
        self.notstale(r, "write")
        n = num(off)
        if n is not None: off = n if n < 1 << 63 else n - (1 << 64)
        self._bounds(r, off, size, "write")
        self._frame(r, off, size)
        self.storer(r, off, val, size)
    def _frame(self, r, off, size):
        if not r.writable:
            self.eng.fail(self, f"frame: writes to {r.label}"); raise Dead()
        if callable(r.writable):
            self.eng.prove(self, r.writable(bvof(off), size), f"frame: write to {r.label} is within the allowed part")
        if r.kind == "stack": pass
        for lim in self.frame_limits:
            ok = []
            for m in lim:
                if isinstance(m, str):
                    if m == r.label: ok.append(True)
                elif m[0] == r.label: ok.append(z3.And(z3.UGE(bvof(off), bvof(m[1])), z3.ULE(bvof(off) + size, bvof(m[2]))))
            if any(x is True for x in ok) or r.ephemeral_ok(lim) : continue
            if r.label == "msp" and "alloc*" in lim and off == self.eng.off.get("allocPtr"): continue
            if not ok: self.eng.fail(self, f"loop frame: writes to {r.label}"); raise Dead()
            self.eng.prove(self, z3.Or(*ok), f"loop frame: write to {r.label} within the declared range")
    def _bounds_n(self, r, off, n, what):
        """an access of n bytes (a term) lies inside the region"""
        if r.size is None: return
        off, n, sz = bvof(off), bvof(n), bvof(r.size)
        self.eng.prove(self, z3.Or(n == 0, z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off))), f"{what} within {r.label}")
    def _frame_n(self, r, off, n):
        if r.writable is False:
            self.eng.fail(self, f"frame: writes to {r.label}"); raise Dead()
        if callable(r.writable): self.eng.prove(self, r.writable(bvof(off), n), f"frame: write to {r.label} is within the allowed part")
        for lim in self.frame_limits:
            if r.label in [m for m in lim if isinstance(m, str)] or r.ephemeral_ok(lim): continue
            self.eng.fail(self, f"loop frame: writes to {r.label}"); raise Dead()
    def storer(self, r, off, val, size):
        k = self._k(off, size)
        if k is None:
            if size > 1: self.eng.prove(self, z3.URem(bvof(off), BV(size)) == 0, f"aligned access of {size} bytes in {r.label}")
            wo = simp(off & BV(~7 & (1 << 64) - 1))
            w = self.loadw(r, wo)
            sh = (off & 7) * 8
            m = BV((1 << (8 * size)) - 1)
            self.setw(r, wo, (w & ~(m << sh)) | (z3.ZeroExt(64 - size * 8, val) << sh))
            return
        wo = off - k if isinstance(off, int) else simp(off - k)
        if size == 8 and k == 0: self.setw(r, wo, val); return
        if k + size <= 8:
            w = self.loadw(r, wo)
            parts = []
            if (k + size) < 8: parts.append(z3.Extract(63, (k + size) * 8, w))
            parts.append(val)
            if k > 0: parts.append(z3.Extract(k * 8 - 1, 0, w))
            self.setw(r, wo, z3.Concat(*parts) if len(parts) > 1 else parts[0]); return
        w2o = wo + 8 if isinstance(wo, int) else simp(wo + 8)
        w, w2 = self.loadw(r, wo), self.loadw(r, w2o)
        full = z3.Concat(w2, w)
        t = k * 8 + size * 8
        parts = ([z3.Extract(127, t, full)] if t < 128 else []) + [val] + ([z3.Extract(k * 8 - 1, 0, full)] if k else [])
        full = z3.Concat(*parts)
        self.setw(r, wo, z3.Extract(63, 0, full)); self.setw(r, w2o, z3.Extract(127, 64, full))
    def setw(self, r, off, v):
        v = simp(v)
        n = num(off) if not isinstance(off, int) else off
        if n is not None:
            off = n
            r.log = [e for e in r.log if not (e[0] == "st" and isinstance(e[1], int) and e[1] == off)] if all(e[0] == "st" and isinstance(e[1], int) for e in r.log) else r.log
        r.log.append(("st", off, v))
    def havoc(self, label, lo=None, hi=None):
        r = self.regions[label]
        self.nf += 1
        arr = z3.Const(f"mem_{label}!{self.nf}", AS)
        if lo is None: r.log = [("hv", None, None, arr)]
        else: r.log.append(("hv", lo, hi, arr))
        return arr
    def mem_array(self, label):
        """z3 array equal to the region's current contents (word addressed by offset)"""
        r = self.regions[label]
        a = r.arr
        for e in r.log:
            if e[0] == "st": a = z3.Store(a, bvof(e[1]), e[2])
            elif e[1] is None: a = e[3]
            else:
                self.nf += 1
                b = z3.Const(f"memj_{label}!{self.nf}", AS)
                x = z3.BitVec("x_", 64)
                self.pc.append(z3.ForAll([x], z3.Select(b, x) == z3.If(z3.And(z3.UGE(x, bvof(e[1])), z3.ULT(x, bvof(e[2]))), z3.Select(e[3], x), z3.Select(a, x)), patterns=[z3.Select(b, x)]))
                a = b
        return a
def _eph(self, lim): return self.kind == "stack" and self.label.startswith("new:") or self.kind in ("alloc", "mlnew") and "alloc*" in lim or self.kind == "malloc" and "malloc*" in lim
Region.ephemeral_ok = _eph

_hq = {}
def hasq(t):
    k = t.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(t): return r[1]
    v = True if z3.is_quantifier(t) else any(hasq(c) for c in t.children()) if z3.is_app(t) else False
    _hq[k] = (t, v)
    return v

class Engine:
    def __init__(self, mods, contracts=None, stubs=None, loops=None, unroll=80, timeout=20, inline=None, limit=240):
        """mods: list of Module (first is the one under verification, others are linked)"""
        self.mods = mods; self.contracts = contracts or {}; self.stubs = stubs or {}; self.loops = loops or {}
        self.unroll = unroll; self.obs = []; self.nlab = 0; self.labs = {}; self.timeout = timeout; self.nfail = 0
        self.constglobals = set(); self.failures = []; self.bounded = False; self.cut = False
        self.spec = None; self.deadline = time.time() + limit; self.fid = 0; self.prelude = []
        self.axioms = []; self.paths = 0; self.gids = {}
    def labelno(self, l):
        if l not in self.labs:
            hi = l.startswith(("g:", "f:"))
            self.nhi = getattr(self, "nhi", 200) + hi
            self.labs[l] = self.nhi if hi else len(self.labs) + 1
        return self.labs[l]
    def find(self, name):
        for m in self.mods:
            if name in m.funcs: return m, m.funcs[name]
        return None, None
    # ---- obligations
    def ok(self, label): self.obs.append((label, "proved", "simplify", 0.0, None))
    def fail(self, st, label, info=None):
        if not st.sat(): raise Dead()
        self.nfail += 1
        st.ghost["failed"] = True
        self.obs.append((label, "failed", None, 0.0, (info or "") + "\npath:\n" + self.pathtext(st)))
        self.failures.append((st.fork_done(), None, label))
        if os.environ.get("CV_V"): print("   [failed]", label, flush=True)
    def pathtext(self, st):
        return "\n".join("  " + str(c).replace("\n", " ")[:200] for c in st.pc[-25:]) + "\nevents: " + "; ".join(repr(e) for e in st.events[-12:])[:1500]
    def prove(self, st, goal, label, assume=True):
        if isinstance(goal, bool):
            if goal: self.ok(label); return True
            self.fail(st, label); raise Dead()
        g = simp(goal)
        if z3.is_true(g): self.ok(label); return True
        if time.time() > self.deadline: self.obs.append((label, "skipped", None, 0.0, "time")); return True
        if self.nfail >= 4: self.obs.append((label, "skipped", None, 0.0, "earlier failures")); return True
        t0 = time.time()
        parts = split(goal)
        backend = "z3"
        for gg in parts:
            r, be, model = self.discharge(st, gg)
            if be: backend = be
            if r != "unsat":
                self.nfail += 1
                self.obs.append((label, "failed" , None, round(time.time() - t0, 3), f"{r}; goal: {str(simp(gg))[:500]}\n{model}\npath:\n" + self.pathtext(st)))
                if os.environ.get("CV_V"): print(f"   [failed {r} {time.time()-t0:.2f}] {label}\n", self.obs[-1][4][:int(os.environ.get('CV_N', '1500'))], flush=True)
                st.ghost["failed"] = True
                if r == "sat": self.failures.append((st.fork_done(), z3.Not(gg), label))
                if assume: st.assume(gg)
                return False
        self.obs.append((label, "proved", backend, round(time.time() - t0, 3), None))
        if os.environ.get("CV_V"): print(f"   [proved {backend} {time.time()-t0:.2f}] {label}", flush=True)
        if assume: st.assume(goal)
        return True
    def discharge(self, st, g):
        forms = self.axioms + st.pc + [z3.Not(g)]
        q = any(hasq(f) for f in forms)
        T = self.timeout
        model = ""
        plan = [("z3", 2), ("cvc5", 3), ("z3", min(6, T)), ("cvc5", min(12, T)), ("z3", T)] if not q else [("qf", 3), ("e", 5), ("cvc5", 10), ("z3", T), ("cvc5", T * 2)]
        last = "unknown"
        for eng, lim in plan:
            if eng == "cvc5":
                r = cvc5(forms, lim)
            else:
                s = z3.Solver(); s.set("timeout", int(lim * 1000))
                if eng == "e": s.set("auto_config", False); s.set("mbqi", False)
                for f in forms:
                    if eng == "qf" and hasq(f): continue
                    s.add(f)
                r = str(s.check())
                if r == "sat":
                    try: model = modeltext(s.model())
                    except z3.Z3Exception: pass
                    if eng == "qf": r = "unknown"
            if r == "unsat": return "unsat", "cvc5" if eng == "cvc5" else "z3", ""
            if r == "sat" and not (q and eng in ("e",)): return "sat", None, model
            last = r if r in ("sat", "unsat") else last
        return last, None, model
    # ---- globals
    def gaddr(self, st, name, mod):
        if self.find(name)[1] is not None or any(name in m.decls for m in self.mods):
            lab = "f:" + name
            if lab not in st.regions: st.region(lab, 0, writable=False, kind="fun", align=8)
            return st.regions[lab].base
        g = mod.globals.get(name)
        dm = mod
        if g is not None and g.init is None:
            for m in self.mods:
                if name in m.globals and m.globals[name].init is not None: g = m.globals[name]; dm = m; break
        local = name.startswith(".str") or name.startswith("__") or (g is not None and g.static and self.mods.index(mod) > 0)
        lab = "g:" + (f"{self.mods.index(mod)}:" if local or (g is not None and "." in name) else "") + name
        if lab not in st.regions:
            if g is None: raise Shape(f"global {name}")
            st.region(lab, dm.size(g.ty) or None, kind="global", writable=not g.const, align=8)
            if (g.const or name in self.constglobals) and g.init is not None: st.regions[lab].const = (dm, g)
        return st.regions[lab].base
    def constword(self, st, r, off):
        dm, g = r.const
        key = (g.name, dm)
        if not hasattr(dm, "_img"): dm._img = {}
        if g.name not in dm._img:
            img = [None] * ((dm.size(g.ty) + 7) // 8 * 8)
            self._image(dm, g.ty, g.init, 0, img); dm._img[g.name] = img
        img = dm._img[g.name]
        bs = []
        i = 0
        if 0 <= off < len(img) and isinstance(img[off], tuple):
            return self.val(st, None, dm, img[off][0], img[off][1])
        for i in range(8):
            b = img[off + i] if 0 <= off + i < len(img) else 0
            if isinstance(b, tuple): raise Shape("pointer inside constant word")
            bs.append(b or 0)
        return BV(int.from_bytes(bytes(bs), "little"))
    def _image(self, m, ty, v, off, img):
        rt = m.resolve(ty)
        if v[0] == "zero" or v[0] == "undef":
            for i in range(m.size(ty)): img[off + i] = 0
        elif v[0] == "c":
            n = m.size(ty); x = v[2] & ((1 << (8 * n)) - 1)
            for i in range(n): img[off + i] = (x >> (8 * i)) & 255
        elif v[0] == "str":
            for i, b in enumerate(v[2]): img[off + i] = b
        elif v[0] == "agg":
            if rt.k in ("arr", "vec"):
                es = m.size(rt.e)
                for i, (t, x) in enumerate(v[2]): self._image(m, t, x, off + i * es, img)
            else:
                offs, _ = m.layout(rt)
                for o, (t, x) in zip(offs, v[2]): self._image(m, t, x, off + o, img)
        else: img[off] = (ty, v)
    # ---- values
    def val(self, st, fr, mod, ty, v):
        k = v[0]
        if k == "l":
            if v[1] in fr.regs: return fr.regs[v[1]]
            raise Shape(f"undefined value {v[1]}")
        if k == "c":
            t = mod.resolve(ty)
            if t.k == "i": return BV(v[2], t.n)
            if t.k == "float": return BV(v[2], 32)
            return BV(v[2], 64)
        if k == "g": return self.gaddr(st, v[1], mod)
        if k in ("zero", "undef"):
            t = mod.resolve(ty)
            if t.k == "struct": return [self.val(st, fr, mod, f, v[:1] + (f,)) for f in t.fs]
            if t.k == "arr": return [self.val(st, fr, mod, t.e, v[:1] + (t.e,)) for _ in range(t.n)]
            w = self.width(mod, t)
            return BV(0, w) if k == "zero" else st.fresh("undef", w)
        if k == "gep": return self.gep(st, fr, mod, v[1], v[2])
        if k == "cast":
            x = self.val(st, fr, mod, v[2], v[3]); return self.cast(v[1], x, self.width(mod, mod.resolve(v[4])))
        if k == "bin":
            return simp(self.arith(st, v[1], self.val(st, fr, mod, v[2], v[3]), self.val(st, fr, mod, v[2], v[4])))
        if k == "agg": return [self.val(st, fr, mod, t, x) for t, x in v[2]]
        raise Shape(f"value kind {k}")
    def width(self, mod, t):
        t = mod.resolve(t)
        if t.k == "i": return t.n
        if t.k in ("ptr", "double"): return 64
        if t.k == "float": return 32
        if t.k == "x86_fp80": return 80
        raise Shape(f"width of {t.k}")
    def gep(self, st, fr, mod, sty, ops):
        base = self.val(st, fr, mod, ops[0][0], ops[0][1])
        t = sty; off = BV(0)
        for i, (ot, ov) in enumerate(ops[1:]):
            iv = self.val(st, fr, mod, ot, ov)
            if i == 0: off = off + sx(iv, 64) * mod.size(t); continue
            t = mod.resolve(t)
            if t.k in ("arr", "vec"): t = t.e; off = off + sx(iv, 64) * mod.size(t)
            elif t.k == "struct":
                n = num(iv); off = off + mod.layout(t)[0][n]; t = t.fs[n]
            else: raise Shape("gep")
        return simp(base + off)
    def cast(self, op, x, w):
        if op == "trunc": return simp(z3.Extract(w - 1, 0, x)) if w < x.size() else x
        if op == "zext": return simp(zx(x, w))
        if op == "sext": return simp(sx(x, w))
        if op in ("ptrtoint", "inttoptr"): return simp(zx(x, w))
        if op == "bitcast": return x
        return fpop(op, x, w=w)
    def arith(self, st, op, a, b):
        if op == "add": return a + b
        if op == "sub": return a - b
        if op == "mul": return a * b
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op == "shl": return a << b
        if op == "lshr": return z3.LShR(a, b)
        if op == "ashr": return a >> b
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.prove(st, b != 0, "division by zero")
            return {"udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
        return fpop(op, a, b, w=a.size())
    CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
           "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}
    # ---- typed memory access
    def ld(self, st, mod, ty, addr):
        t = mod.resolve(ty)
        if t.k == "struct":
            offs, _ = mod.layout(t)
            return [self.ld(st, mod, f, simp(addr + o)) for f, o in zip(t.fs, offs)]
        if t.k == "arr": return [self.ld(st, mod, t.e, simp(addr + i * mod.size(t.e))) for i in range(t.n)]
        n = mod.size(t)
        if t.k == "x86_fp80": raise Shape("long double")
        v = st.load(addr, n)
        if t.k == "i" and t.n < 8 * n: v = simp(z3.Extract(t.n - 1, 0, v))
        return v
    def sto(self, st, mod, ty, addr, v):
        t = mod.resolve(ty)
        if t.k == "struct":
            offs, _ = mod.layout(t)
            for f, o, x in zip(t.fs, offs, v): self.sto(st, mod, f, simp(addr + o), x)
            return
        if t.k == "arr":
            for i, x in enumerate(v): self.sto(st, mod, t.e, simp(addr + i * mod.size(t.e)), x)
            return
        n = mod.size(t)
        if t.k == "x86_fp80": raise Shape("long double")
        if t.k == "i" and t.n < 8 * n: v = simp(zx(v, 8 * n))
        st.store(addr, v, n)
    # ---- function entry
    def promotable(self, f):
        if hasattr(f, "_prom"): return f._prom
        al = {}
        for b in f.blocks.values():
            for i in b:
                if i.op == "alloca" and i.a[1] is None and i.a[0].k in ("i", "ptr", "double", "float"): al[i.res] = i.a[0]
        def use(v, ok=False, ty=None):
            if v is None: return
            if isinstance(v, tuple):
                if v and v[0] == "l":
                    if v[1] in al and not ok: al.pop(v[1], None)
                    elif v[1] in al and ok and ty is not None and repr(ty) != repr(al[v[1]]) : al.pop(v[1], None)
                else:
                    for x in v: use(x)
            elif isinstance(v, list):
                for x in v: use(x)
        for b in f.blocks.values():
            for i in b:
                if i.op == "load": use(i.a[1], True, i.a[0])
                elif i.op == "store": use(i.a[1]); use(i.a[2], True, i.a[0])
                elif i.op == "alloca": pass
                else: use(i.a) if isinstance(i.a, (tuple, list)) else None
        f._prom = set(al)
        return f._prom
    def loops_of(self, f):
        if hasattr(f, "_loops"): return f._loops
        succ = {}
        for n, b in f.blocks.items():
            t = b[-1] if b else None
            s = []
            if t is not None:
                if t.op == "jmp": s = [t.a]
                elif t.op == "br": s = [t.a[1], t.a[2]]
                elif t.op == "switch": s = [t.a[2]] + [x for _, x in t.a[3]]
            succ[n] = s
        ent = f.order[0]
        # dominators
        dom = {n: set(f.order) for n in f.order}; dom[ent] = {ent}
        pred = {n: [] for n in f.order}
        for n, ss in succ.items():
            for s in ss: pred[s].append(n)
        ch = True
        while ch:
            ch = False
            for n in f.order[1:]:
                ps = [dom[p] for p in pred[n]]
                d = (set.intersection(*ps) if ps else set()) | {n}
                if d != dom[n]: dom[n] = d; ch = True
        loops = {}
        for n in f.order:
            for s in succ[n]:
                if s in dom[n]:
                    body = loops.setdefault(s, {s})
                    todo = [n]
                    while todo:
                        x = todo.pop()
                        if x not in body: body.add(x); todo += pred[x]
        order = [n for n in f.order if n in loops]
        f._loops = {h: (order.index(h), loops[h]) for h in order}
        return f._loops
    def push(self, st, mod, f, args, retto, va=()):
        fr = Frame()
        fr.f, fr.mod, fr.retto = f, mod, retto
        fr.regs = {}; fr.allocs = {}; fr.visits = {}; fr.inloop = {}; fr.blk = f.order[0]; fr.idx = 0; fr.prev = None
        self.fid += 1; fr.id = self.fid; fr.va = list(va)
        fr.entry = list(args)
        for (t, nm, byval), a in zip(f.params, args): fr.regs[nm] = a
        st.frames.append(fr)
    # ---- running
    def run(self, st0, post):
        work = [st0]
        while work:
            st = work.pop()
            self.paths += 1
            if time.time() > self.deadline: raise Shape("time limit")
            if self.paths > 6000: raise Shape("path limit")
            if self.nfail >= 4: break
            try:
                self.go(st, work)
                if st.done:
                    if not st.sat(): continue
                    self.completed = getattr(self, "completed", 0) + 1
                    todo = [st]
                    while todo:
                        s1 = todo.pop()
                        try: post(s1)
                        except NeedFork as nf:
                            try: self.fork2(s1, nf.cond, todo); todo.append(s1)
                            except Dead: pass
                        except Dead: pass
            except Dead: pass
    def go(self, st, work):
        while not st.done:
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            ins = blk[fr.idx]
            try:
                self.step(st, fr, ins, work)
            except NeedFork as nf:
                self.fork2(st, nf.cond, work)
    def fork2(self, st, c, work):
        t, f = st.sat(c), st.sat(z3.Not(c))
        if t and f:
            o = st.fork(); 
            try:
                o.assume(z3.Not(c)); work.append(o)
            except Dead: pass
            st.assume(c)
        elif t: st.assume(c)
        elif f: st.assume(z3.Not(c))
        else: raise Dead()
    def cond(self, st, c, work):
        """decide an i1 term, forking; returns bool"""
        c = simp(c == 1)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        t = st.sat(c); f = st.sat(z3.Not(c))
        if t and not f: st.assume(c); return True
        if f and not t: st.assume(z3.Not(c)); return False
        if not t and not f: raise Dead()
        raise NeedFork(c)
    def goto(self, st, fr, b):
        """jump; a fork that an invariant asks for happens before the jump"""
        if b in self.loops_of(fr.f):
            bak = st.fork()
            try: return self.goto1(st, fr, b)
            except NeedFork:
                st.__dict__.update(bak.__dict__); raise
        return self.goto1(st, fr, b)
    def goto1(self, st, fr, b):
        f = fr.f
        if b not in f.blocks: b = "%entry" if b == f.entry_alias else b
        src = fr.blk
        fr.prev = src; fr.blk = b; fr.idx = 0
        loops = self.loops_of(f)
        # leave loops
        for h in list(fr.inloop):
            if b not in loops[h][1]:
                info = fr.inloop.pop(h)
                if info[2]: st.frame_limits = [x for x in st.frame_limits if x is not info[3]]
        if b in loops:
            k, body = loops[b]
            inv = self.loops.get((f.name, k), self.loops.get(f.name) if not isinstance(self.loops.get(f.name), dict) and len(loops) == 1 else None) or self.loops.get("*")
            if callable(inv) and not isinstance(inv, Loop): inv = inv(self, f, k)
            if inv is None:
                n = fr.visits.get(b, 0) + 1
                if src not in body: n = 1
                fr.visits[b] = n
                if n > self.unroll and self.bounded: self.cut = True; raise Dead()
                if n > self.unroll: raise Shape(f"{f.name}: loop {k} has no invariant and is not bounded by a small constant")
                return
            L = LoopView(self, st, fr)
            if b in fr.inloop:
                L.entry = fr.inloop[b][1]; L.start = fr.inloop[b][4]; L.phase = "kept"
                for j, c in enumerate(aslist(inv.inv(L))):
                    lab, c = c if isinstance(c, tuple) else (f"{j}", c)
                    self.prove(st, c, f"{f.name}: loop {k} invariant kept: {lab}")
                if inv.dec is not None:
                    m0 = fr.inloop[b][0]; m1 = inv.dec(L)
                    self.prove(st, z3.And(m1 < m0 if not inv.udec else z3.ULT(m1, m0), m0 >= 0 if not inv.udec else True), f"{f.name}: loop {k} terminates")
                raise Dead()
            L.entry = L.snap(); L.start = L.entry; L.phase = "entry"
            for j, c in enumerate(aslist(inv.inv(L))):
                lab, c = c if isinstance(c, tuple) else (f"{j}", c)
                self.prove(st, c, f"{f.name}: loop {k} invariant on entry: {lab}")
            entry = L.entry
            # havoc
            stored = set()
            for bb in body:
                for i in f.blocks[bb]:
                    if i.op == "store" and i.a[2][0] == "l": stored.add(i.a[2][1])
            for a in stored:
                if a in fr.allocs and isinstance(fr.allocs[a], z3.ExprRef):
                    fr.allocs[a] = st.fresh("h_" + (fr.mod.varname(f, a) or "v"), fr.allocs[a].size())
                elif a in self.promotable(f) and a not in fr.allocs: pass
            mods = aslist(inv.mods(L) if callable(inv.mods) else inv.mods)
            if "auto" in mods:
                mods = [m for m in mods if m != "auto"] + [l for l, r in st.regions.items() if r.kind in ("stack", "errno", "malloc") and l not in mods]
            for m in mods:
                if isinstance(m, str):
                    if m in st.regions: st.havoc(m)
                else: st.havoc(m[0], m[1], m[2])
            # stack objects written in the loop body by direct stores or passed to calls
            st.events.append(Event("loop", [], None, None))
            L = LoopView(self, st, fr); L.entry = entry; L.start = None; L.phase = "assume"
            if "alloc*" in mods: self.newalloc(st)
            if inv.setup: inv.setup(L)
            for c in aslist(inv.inv(L)):
                st.assume(c[1] if isinstance(c, tuple) else c)
            L.start = L.snap()
            if not st.sat(): raise Dead()
            lim = list(mods)
            st.frame_limits = st.frame_limits + [lim]
            fr.inloop[b] = (inv.dec(L) if inv.dec else None, entry, True, lim, L.start)
    def step(self, st, fr, ins, work):
        mod, f, a = fr.mod, fr.f, ins.a
        V = lambda ty, v: self.val(st, fr, mod, ty, v)
        op = ins.op
        if op == "alloca":
            if ins.res in self.promotable(f):
                w = self.width(mod, a[0]); fr.allocs[ins.res] = st.fresh("u_" + (mod.varname(f, ins.res) or "t"), w)
                fr.regs[ins.res] = ("alloca", ins.res)
            else:
                n = mod.size(a[0])
                if a[1] is not None:
                    c = num(V(I(32), a[1]));
                    if c is None: raise Shape("variable-length array")
                    n *= c
                nm = mod.varname(f, ins.res) or ins.res
                lab = f"new:{f.name}.{nm}" if any(i for fx in st.frames for i in fx.inloop) else f"s:{f.name}.{nm}"
                if lab in st.regions: lab += f"#{fr.id}"
                st.region(lab, n, kind="stack")
                fr.regs[ins.res] = st.regions[lab].base
                st.ghost[("obj", fr.id, nm)] = lab
                st.ghost[("obj", nm)] = lab
        elif op == "load":
            p = a[1]
            if p[0] == "l" and isinstance(fr.regs.get(p[1]), tuple): fr.regs[ins.res] = fr.allocs[p[1]]
            else: fr.regs[ins.res] = self.ld(st, mod, a[0], V(PTR, p))
        elif op == "store":
            p = a[2]; v = V(a[0], a[1])
            if p[0] == "l" and isinstance(fr.regs.get(p[1]), tuple): fr.allocs[p[1]] = v
            else: self.sto(st, mod, a[0], V(PTR, p), v)
        elif op == "gep": fr.regs[ins.res] = self.gep(st, fr, mod, a[0], a[1])
        elif op == "bin":
            x, y = V(a[1], a[2]), V(a[1], a[3]); fr.regs[ins.res] = simp(self.arith(st, a[0], x, y))
        elif op == "fneg": fr.regs[ins.res] = fpop("fneg", V(a[0], a[1]), w=self.width(mod, a[0]))
        elif op == "icmp":
            x, y = V(a[1], a[2]), V(a[1], a[3]); fr.regs[ins.res] = simp(z3.If(self.CMP[a[0]](x, y), BV(1, 1), BV(0, 1)))
        elif op == "fcmp":
            x, y = V(a[1], a[2]), V(a[1], a[3]); fr.regs[ins.res] = fpop("cmp_" + a[0], x, y, w=1)
        elif op == "cast":
            x = V(a[1], a[2])
            if isinstance(x, tuple): raise Shape("address of a register taken")
            fr.regs[ins.res] = self.cast(a[0], x, self.width(mod, a[3])) if not isinstance(x, list) else x
        elif op == "select":
            c = V(I(1), a[0])
            x, y = V(a[1], a[2]), V(a[1], a[3])
            if a[1].k == "ptr": fr.regs[ins.res] = x if self.cond(st, c, work) else y
            else: fr.regs[ins.res] = simp(z3.If(c == 1, x, y))
        elif op == "phi":
            for v, b in a[1]:
                if b == fr.prev or (b == f.entry_alias and fr.prev == "%entry"): fr.regs[ins.res] = V(a[0], v); break
            else: raise Shape("phi")
        elif op == "extract":
            v = V(a[0], a[1])
            for i in a[2]: v = v[i]
            fr.regs[ins.res] = v
        elif op == "insert":
            v = V(a[0], a[1]); x = V(a[2], a[3])
            def put(v, idx):
                v = list(v); v[idx[0]] = x if len(idx) == 1 else put(v[idx[0]], idx[1:]); return v
            fr.regs[ins.res] = put(v, a[4])
        elif op == "jmp": self.goto(st, fr, a); return
        elif op == "br":
            r = self.cond(st, V(I(1), a[0]), work)
            self.goto(st, fr, a[1] if r else a[2]); return
        elif op == "switch":
            v = V(a[0], a[1])
            n = num(v)
            if n is not None:
                for c, b in a[3]:
                    if c & ((1 << v.size()) - 1) == n: self.goto(st, fr, b); return
                self.goto(st, fr, a[2]); return
            for c, b in a[3]:
                cc = simp(v == c)
                if z3.is_false(cc): continue
                if z3.is_true(cc): self.goto(st, fr, b); return
                t = st.sat(cc)
                if not t: continue
                if not st.sat(z3.Not(cc)): self.goto(st, fr, b); return
                raise NeedFork(cc)
            self.goto(st, fr, a[2]); return
        elif op == "ret":
            v = None if a[1] is None else V(a[0], a[1])
            st.frames.pop()
            # forget the stack objects of this frame
            for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == "obj" and len(k) == 3 and k[1] == fr.id]: pass
            for h in list(fr.inloop):
                info = fr.inloop[h]
                st.frame_limits = [x for x in st.frame_limits if x is not info[3]]
            if not st.frames:
                st.ret = v; st.done = True; st.lastframe = fr; return
            up = st.frames[-1]
            if fr.retto: up.regs[fr.retto] = v
            up.idx += 1
            return
        elif op == "unreachable":
            raise Dead()
        elif op == "call":
            if self.call(st, fr, ins): return
        elif op == "asm": raise Shape("inline assembly")
        else: raise Shape(f"instruction {op} {str(a)[:80]}")
        fr.idx += 1
    def call(self, st, fr, ins):
        rt, cal, args = ins.a
        mod = fr.mod
        if cal[0] == "g": name = cal[1]
        else:
            p = self.val(st, fr, mod, PTR, cal)
            try: r, off = st.resolve(p)
            except Shape: r = None
            if r is not None and r.kind == "fun" and num(off) == 0: name = r.label[2:]
            else:
                hk = self.stubs.get("*indirect*")
                if hk is None: raise Shape("indirect call")
                vals = [self.val(st, fr, mod, t, v) for t, v, _ in args]
                r = hk(X(self, st, fr, "*indirect*", [p] + vals, rt))
                if ins.res: fr.regs[ins.res] = r if r is not None else st.fresh("ind", self.width(mod, rt))
                return False
        vals = []
        for t, v, byval in args:
            if t.k == "metadata": vals.append(None); continue
            x = self.val(st, fr, mod, t, v)
            if isinstance(x, tuple): raise Shape(f"address of a promoted variable passed to {name}")
            vals.append(x)
        x = X(self, st, fr, name, vals, rt)
        x.argtys = [t for t, _, _ in args]
        x.va_ins = ins
        h = self.contracts.get(name)
        if h is None:
            m2, f2 = self.find(name)
            if f2 is not None and f2.blocks and name not in self.stubs:
                if sum(1 for q in st.frames if q.f is f2) > 3: raise Shape(f"recursion through {name} without a contract")
                np = len(f2.params)
                va = vals[np:]
                # byval: copy
                a2 = []
                for (pt, pn, bvl), v in zip(f2.params, vals): a2.append(v)
                self.push(st, m2, f2, a2, ins.res, va)
                return True
            h = self.stubs.get(name)
            if h is None and name.startswith("llvm."):
                h = self.stubs.get(".".join(name.split(".")[:2])) or self.stubs.get(".".join(name.split(".")[:3]))
            if h is None: h = self.stubs.get("*default*")
        if h is None: raise Shape(f"call of {name}: no contract")
        r = h(x)
        if ins.res:
            if r is None: r = st.fresh("r_" + name, self.width(mod, rt))
            if isinstance(r, int): r = BV(r, self.width(mod, rt))
            fr.regs[ins.res] = r
        return False

class X:
    """context of a call replaced by a contract"""
    def __init__(self, eng, st, fr, name, args, rt): self.eng, self.st, self.fr, self.name, self.args, self.rt = eng, st, fr, name, args, rt
    def fresh(self, nm="r", w=None):
        if w is None: w = self.eng.width(self.fr.mod, self.rt)
        return self.st.fresh(nm, w)
    def event(self, ret=None, name=None):
        e = Event(name or self.name, list(self.args), ret, {k: v.copy() for k, v in self.st.regions.items()})
        self.st.events.append(e)
        return e
    def require(self, c, label):
        n = len(self.eng.failures)
        self.eng.prove(self.st, c, f"{self.fr.f.name} -> {self.name}: {label}")
        for s, g, l in self.eng.failures[n:]:
            s.events.append(Event(self.name, list(self.args), None, {k: v.copy() for k, v in s.regions.items()})); s.ghost["failevent"] = True
    def isvoid(self): return self.rt.k == "void"

class LoopView:
    def __init__(self, eng, st, fr): self.eng, self.st, self.fr = eng, st, fr
    def _alloca(self, name):
        c = [k for k in self.fr.allocs if self.fr.mod.varname(self.fr.f, k) == name]
        if not c: raise Shape(f"{self.fr.f.name}: no local variable {name}")
        return c[-1] if len(c) > 1 else c[0]
    def inbody(self, k, name):
        """alloca of the variable of that name which loop k uses"""
        for h, (n, body) in self.eng.loops_of(self.fr.f).items():
            if n != k: continue
            c = []
            for b in body:
                for i in self.fr.f.blocks[b]:
                    p = i.a[1] if i.op == "load" else i.a[2] if i.op == "store" else None
                    if p is not None and p[0] == "l" and self.fr.mod.varname(self.fr.f, p[1]) == name and p[1] not in c: c.append(p[1])
            if len(c) == 1: return c[0]
        raise Shape(f"{self.fr.f.name}: loop {k} does not use one variable {name}")
    def var(self, name): return self.fr.allocs[self._alloca(name)]
    def get(self, name, size=8):
        """value of a variable, wherever it lives"""
        return self.var(name) if self.has(name) else self.st.loadr(self.st.regions[self.st.ghost[("obj", name)]], 0, size)
    def set(self, name, v):
        if self.has(name): self.fr.allocs[self._alloca(name)] = simp(v)
        else: self.st.storer(self.st.regions[self.st.ghost[("obj", name)]], 0, simp(v), v.size() // 8)
    def labs(self, *names):
        """labels of the variables that live in memory"""
        return [self.st.ghost[("obj", n)] for n in names if not self.has(n)]
    def has(self, name): return any(self.fr.mod.varname(self.fr.f, k) == name for k in self.fr.allocs)
    def snap(self):
        return {"vars": {self.fr.mod.varname(self.fr.f, k): v for k, v in self.fr.allocs.items()}, "regs": {k: v.copy() for k, v in self.st.regions.items()}}
    def old(self, name):
        """value of a variable when the loop was entered"""
        return self.entry["vars"][name]
    def load(self, addr, size=8): return self.st.load(addr, size)
    def obj(self, name): return self.st.regions[self.st.ghost[("obj", name)]].base
    def read(self, label, off, size=8): return self.st.loadr(self.st.regions[label], off if isinstance(off, int) else simp(off), size)
    def oldread(self, label, off, size=8): return self.st.loadr(self.entry["regs"][label], off if isinstance(off, int) else simp(off), size)

class Loop:
    def __init__(self, inv, mods=(), dec=None, setup=None, udec=False): self.inv, self.mods, self.dec, self.setup, self.udec = inv, mods, dec, setup, udec

def aslist(x):
    if x is None: return []
    if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)) and not (isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], str)):
        return list(x)
    return [x]
def split(g):
    if isinstance(g, bool): return [z3.BoolVal(g)]
    if z3.is_and(g):
        out = []
        for c in g.children(): out += split(c)
        return out
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), g.var_name(i).replace("!", "_")) for i in range(g.num_vars())]
        return split(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_implies(g):
        bs = split(g.arg(1))
        if len(bs) > 1: return [z3.Implies(g.arg(0), b) for b in bs]
    return [g]
def modeltext(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and z3.is_bv_sort(d.range()): out.append(f"  {d.name()} = {hex(m[d].as_long()) if z3.is_bv_value(m[d]) else m[d]}")
    return "model:\n" + "\n".join(sorted(out)[:60])
def cvc5(forms, lim):
    s = z3.Solver()
    for f in forms: s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh: fh.write(txt); nm = fh.name
    try:
        p = subprocess.run(["cvc5", f"--tlimit={int(lim*1000)}", nm], capture_output=True, text=True, timeout=lim + 10)
        o = p.stdout.strip().splitlines()
        return o[0] if o else "unknown"
    except subprocess.TimeoutExpired: return "unknown"
    finally: os.unlink(nm)
