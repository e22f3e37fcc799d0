"""SMLV: a deductive verifier for Standard ML.

The program text is the .sml files of /repo, parsed on every run (parser.py).
Each function under contract is executed symbolically, once per path, over
symbolic arguments that satisfy its precondition; every call of a function
under contract is replaced by that function's contract (never its body), every
other call is inlined.  Postconditions, exact exception conditions, callee
preconditions, termination measures, and the in-bounds condition of every
primitive unsafe access become proof obligations for z3 (then cvc5).
"""
import sys, os, time, subprocess, tempfile, itertools, traceback
import z3
from parser import parse_file, ParseError
sys.setrecursionlimit(1000000)

# ---------------------------------------------------------------- exceptions
class SMLRaise(Exception):
    def __init__(self, exn): self.exn = exn
class Infeasible(Exception): pass
class PathDone(Exception): pass
class Shape(Exception):
    """the code has a shape the contracts do not cover (tool limit, not a violation)"""

# ---------------------------------------------------------------- values
class Num:
    __slots__ = ("k", "t")
    def __init__(self, k, t): self.k, self.t = k, t
    def __repr__(self): return f"{self.k}:{self.t}"
class Sym:
    __slots__ = ("t", "ty")
    def __init__(self, t, ty): self.t, self.ty = t, ty
    def __repr__(self): return f"Sym({self.t})"
class Con:
    __slots__ = ("name", "arg", "dt")
    def __init__(self, name, arg=None, dt=None): self.name, self.arg, self.dt = name, arg, dt
    def __repr__(self): return f"{self.name}({self.arg})" if self.arg is not None else self.name
class Rec:
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
    def __repr__(self): return "{" + ",".join(f"{k}={v}" for k, v in self.f.items()) + "}"
class Abs:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Abs({self.t})"
class Seq:            # string, vector, array, ref: a heap object
    __slots__ = ("id", "kind")
    def __init__(self, id, kind): self.id, self.kind = id, kind
    def __repr__(self): return f"{self.kind}#{self.id}"
class Real:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
class ConFn:
    __slots__ = ("name", "dt")
    def __init__(self, name, dt): self.name, self.dt = name, dt
class ExnCon:
    __slots__ = ("name", "has_arg")
    def __init__(self, name, has_arg=False): self.name, self.has_arg = name, has_arg
    def __repr__(self): return f"exn:{self.name}"
class Exn:
    __slots__ = ("con", "arg")
    def __init__(self, con, arg=None): self.con, self.arg = con, arg
    def __repr__(self): return f"Exn({self.con.name})"
class Clo:
    __slots__ = ("path", "clauses", "env", "arity", "args", "isfn", "line")
    def __init__(self, path, clauses, env, arity, args=(), isfn=False):
        self.path, self.clauses, self.env, self.arity, self.args, self.isfn = path, clauses, env, arity, args, isfn
    def __repr__(self): return f"Clo({self.path})"
class Prim:
    __slots__ = ("name", "fn")
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f"Prim({self.name})"
class Over:            # overloaded identifier
    __slots__ = ("name",)
class Struct:
    __slots__ = ("env", "path")
    def __init__(self, env, path): self.env, self.path = env, path
class Functor:
    __slots__ = ("name", "params", "body", "env", "path")
    def __init__(self, name, params, body, env, path):
        self.name, self.params, self.body, self.env, self.path = name, params, body, env, path
UNIT = Rec({})
def tup(*vs): return Rec({str(i+1): v for i, v in enumerate(vs)})
def untup(v, n=None):
    if not isinstance(v, Rec): raise Shape(f"tuple expected, got {v!r}")
    return [v.f[str(i+1)] for i in range(len(v.f))]
NIL = Con("nil", None, "list")
def cons(h, t): return Con("::", tup(h, t), "list")
def mklist(vs):
    r = NIL
    for v in reversed(vs): r = cons(v, r)
    return r

# ---------------------------------------------------------------- kinds of numbers
KINDS = {"int": (True, 63), "int31": (True, 31), "int32": (True, 32), "int64": (True, 64), "intinf": (True, None),
         "word": (False, 63), "word8": (False, 8), "word31": (False, 31), "word32": (False, 32), "word64": (False, 64), "char": (False, 8)}
def krange(k):
    s, n = KINDS[k]
    if n is None: return None, None
    return (-(1 << (n-1)), (1 << (n-1)) - 1) if s else (0, (1 << n) - 1)
def isc(t): return isinstance(t, int)
def inrange(t, k):
    lo, hi = krange(k)
    if lo is None: return True
    if isc(t): return lo <= t <= hi
    return z3.And(lo <= t, t <= hi)

def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c
def zi(t):
    return z3.IntVal(t) if isinstance(t, int) else t
def bnot(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)
def band(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c: return False
        else: out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def bor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c: return True
        else: out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def implies(a, b):
    return bor(bnot(a), b)

# ---------------------------------------------------------------- types
class Ty:
    def wf(self, t): return True
class TNum(Ty):
    def __init__(self, k): self.k = k
    def sort(self): return z3.IntSort()
    def pack(self, cx, v):
        if isinstance(v, Num): return zi(v.t)
        raise Shape(f"number expected, got {v!r}")
    def unpack(self, t): return Num(self.k, t)
    def wf(self, t): return inrange(t, self.k)
    def name(self): return self.k
class TBool(Ty):
    def sort(self): return z3.BoolSort()
    def pack(self, cx, v):
        if isinstance(v, (bool, z3.BoolRef)): return zb(v)
        raise Shape(f"bool expected, got {v!r}")
    def unpack(self, t): return t
    def name(self): return "bool"
class TAbs(Ty):
    _sorts = {}
    def __init__(self, n, sort=None):
        self.n = n
        if n not in TAbs._sorts: TAbs._sorts[n] = sort if sort is not None else z3.DeclareSort(n)
    def sort(self): return TAbs._sorts[self.n]
    def pack(self, cx, v):
        if isinstance(v, Abs): return v.t
        raise Shape(f"abstract value expected, got {v!r}")
    def unpack(self, t): return Abs(t)
    def name(self): return self.n
class TRec(Ty):
    _c = {}
    def __init__(self, fields):
        self.fields = list(fields.items())
    def name(self): return "R_" + "_".join(f"{k}{t.name()}" for k, t in self.fields)
    def sort(self):
        n = self.name()
        if n not in TRec._c:
            d = z3.Datatype(n)
            d.declare("mk_" + n, *[(f"{n}_{k}", t.sort()) for k, t in self.fields])
            TRec._c[n] = d.create()
        return TRec._c[n]
    def pack(self, cx, v):
        if not isinstance(v, Rec): raise Shape(f"record expected, got {v!r}")
        if not self.fields: return self.sort().constructor(0)()
        return self.sort().constructor(0)(*[t.pack(cx, v.f[k]) for k, t in self.fields])
    def mk(self, *terms): return self.sort().constructor(0)(*terms)
    def get(self, t, k):
        i = [x for x, _ in self.fields].index(str(k))
        if z3.is_app(t) and t.decl().eq(self.sort().constructor(0)): return t.arg(i)
        return self.sort().accessor(0, i)(t)
    def unpack(self, t):
        return Rec({k: ty.unpack(self.get(t, k)) for k, ty in self.fields})
    def wf(self, t):
        return band(*[ty.wf(self.get(t, k)) for k, ty in self.fields])
def TTup(*ts): return TRec({str(i+1): t for i, t in enumerate(ts)})
TUnit = TRec({})
class TData(Ty):
    """first-order datatype; cons : list of (name, argTy or None)"""
    def __init__(self, nm, cons=None):
        self.nm = nm; self.cons = cons; self._sort = None
    def name(self): return self.nm
    def fieldtys(self, i):
        a = self.cons[i][1]
        if a is None: return []
        if isinstance(a, TRec): return [t for _, t in a.fields]
        return [a]
    def closure(self, acc):
        if self in acc: return
        acc.append(self)
        for i in range(len(self.cons)):
            for t in self.fieldtys(i):
                t._clos(acc)
    def _clos(self, acc): self.closure(acc)
    def sort(self):
        if self._sort is None:
            grp = []
            self.closure(grp)
            grp = [g for g in grp if g._sort is None]
            ds = {g: z3.Datatype(g.nm) for g in grp}
            for g in grp:
                for i, (c, _) in enumerate(g.cons):
                    ds[g].declare(g.cname(i), *[(f"{g.cname(i)}_{j}", ds[t] if t in ds else t.sort()) for j, t in enumerate(g.fieldtys(i))])
            ss = z3.CreateDatatypes(*[ds[g] for g in grp])
            for g, s in zip(grp, ss): g._sort = s
        return self._sort
    def cname(self, i):
        c = self.cons[i][0]
        c = {"::": "cons"}.get(c, c)
        return f"{self.nm}_{c}"
    def idx(self, c):
        for i, (n, _) in enumerate(self.cons):
            if n == c: return i
        raise Shape(f"constructor {c} not in datatype {self.nm}")
    def mk(self, c, *terms):
        d = self.sort().constructor(self.idx(c))
        return d(*terms) if terms else d()
    def is_(self, c, t): return self.sort().recognizer(self.idx(c))(t)
    def acc(self, c, j, t): return self.sort().accessor(self.idx(c), j)(t)
    def pack(self, cx, v):
        if isinstance(v, Sym):
            if v.ty.nm != self.nm: raise Shape(f"type {self.nm} expected, got {v.ty.nm}")
            return v.t
        if isinstance(v, Con):
            # iterative on last field to cope with long lists
            i = self.idx(v.name); a = self.cons[i][1]
            if a is None: return self.sort().constructor(i)()
            if isinstance(a, TRec):
                ts = [t.pack(cx, v.arg.f[k]) for k, t in a.fields]
            else:
                ts = [a.pack(cx, v.arg)]
            return self.sort().constructor(i)(*ts)
        raise Shape(f"{self.nm} value expected, got {v!r}")
    def unpack(self, t):
        # known constructor?
        if z3.is_app(t):
            for i, (c, a) in enumerate(self.cons):
                if t.decl().eq(self.sort().constructor(i)):
                    return self._con(i, list(t.children()))
        return Sym(t, self)
    def _con(self, i, ts):
        c, a = self.cons[i]
        if a is None: return Con(c, None, self.nm)
        if isinstance(a, TRec):
            return Con(c, Rec({k: ty.unpack(x) for (k, ty), x in zip(a.fields, ts)}), self.nm)
        return Con(c, a.unpack(ts[0]), self.nm)
for _c in (TNum, TBool, TAbs): _c._clos = lambda self, acc: None
TRec._clos = lambda self, acc: [t._clos(acc) for _, t in self.fields]

_tl = {}
def TList(e):
    n = f"L_{e.name()}"
    if n not in _tl:
        d = TData(n); _tl[n] = d
        d.cons = [("nil", None), ("::", TTup(e, d))]
        d.elem = e
    return _tl[n]
_to = {}
def TOption(e):
    n = f"O_{e.name()}"
    if n not in _to:
        d = TData(n, [("NONE", None), ("SOME", e)])
        d.elem = e; _to[n] = d
    return _to[n]
TOrder = TData("order", [("LESS", None), ("EQUAL", None), ("GREATER", None)])
TInt, TWord, TChar, TW8 = TNum("int"), TNum("word"), TNum("char"), TNum("word8")
TInf = TNum("intinf")
TB = TBool()

class TSeq(Ty):
    """string / vector / array: (length, z3 array)"""
    _c = {}
    def __init__(self, kind, elem): self.kind, self.elem = kind, elem
    def name(self): return f"{self.kind}_{self.elem.name()}"
    def sort(self):     # the packed form, used when a sequence is an element of a datatype or an argument of a spec function
        n = "S_" + self.elem.name()
        if n not in TSeq._c:
            d = z3.Datatype(n)
            d.declare("mk" + n, (n + "_len", z3.IntSort()), (n + "_arr", z3.ArraySort(z3.IntSort(), self.elem.sort())))
            TSeq._c[n] = d.create()
        return TSeq._c[n]
    def _clos(self, acc): self.elem._clos(acc)
    def pack(self, cx, v):
        if not isinstance(v, Seq): raise Shape(f"{self.kind} expected, got {v!r}")
        c = cx.heap[v.id]
        c.symbolic(cx, self.elem)
        return self.sort().constructor(0)(zi(c.len), c.arr)
    def unpack(self, t):
        return SeqTerm(self, t)
    def wf(self, t):
        l = self.sort().accessor(0, 0)(t)
        return z3.And(l >= 0, l <= (1 << 62) - 1)
class SeqTerm:      # a sequence stored in a packed term; becomes a heap object when touched
    __slots__ = ("ty", "t")
    def __init__(self, ty, t): self.ty, self.t = ty, t
TString = TSeq("string", TChar)
def TVec(e): return TSeq("vector", e)
def TArr(e): return TSeq("array", e)
class TRefT(Ty):
    def __init__(self, e): self.elem = e
    def name(self): return "ref_" + self.elem.name()

class TFun(Ty):
    """pure total function parameter; args are curried, each a first-order Ty"""
    def __init__(self, args, ret, fname=None): self.args, self.ret, self.fname = args, ret, fname
    def name(self): return "fun"
class TAny(Ty):
    """value passed through without inspection by the spec"""
    def name(self): return "any"
    def pack(self, cx, v): return v
    def unpack(self, v): return v

# ---------------------------------------------------------------- heap cells
class Cell:
    __slots__ = ("len", "elems", "arr", "ety", "kind", "mut")
    def __init__(self, kind, len, elems=None, arr=None, ety=None, mut=None):
        self.kind, self.len, self.elems, self.arr, self.ety = kind, len, elems, arr, ety
        self.mut = kind in ("array", "ref") if mut is None else mut
    def copy(self):
        return Cell(self.kind, self.len, None if self.elems is None else list(self.elems), self.arr, self.ety, self.mut)
    def symbolic(self, cx, ety=None):
        if self.arr is None:
            if self.ety is None: self.ety = ety
            if self.ety is None: raise Shape("element type of a sequence is not known")
            a = None
            if self.elems is None: raise Shape("sequence without contents")
            a = z3.K(z3.IntSort(), self._default(cx))
            for i, e in enumerate(self.elems):
                if e is not None:
                    a = z3.Store(a, i, self.ety.pack(cx, e))
            self.arr = a; self.elems = None
        elif self.ety is None: self.ety = ety
    def _default(self, cx):
        s = self.ety.sort()
        if s == z3.IntSort(): return z3.IntVal(0)
        return z3.Const(f"dflt_{s}", s)

# ---------------------------------------------------------------- views handed to specifications
class SeqView:
    def __init__(self, len, arr): self.len, self.arr = zi(len), arr
    def __getitem__(self, i): return z3.Select(self.arr, i)
    def pack(self, ty): return ty.sort().constructor(0)(self.len, self.arr)
class HeapView:
    """array or ref argument: contents before and after"""
    def __init__(self, cx, v, ety):
        self.v = v; self.ety = ety; self.pre = snap(cx, v, ety); self.post = self.pre
    @property
    def len(self): return self.pre.len
class EnvHeapView(HeapView):
    """captured array or ref: contents at entry and now"""
    def __init__(self, cx, v, ety, heap0):
        self.cx, self.v, self.ety, self.heap0 = cx, v, ety, heap0
    @property
    def pre(self):
        c = self.heap0.get(self.v.id)
        if c is None: raise Shape("object did not exist at entry")
        if c.kind == "ref": return view(self.cx, c.elems[0], self.ety)
        if c.arr is None:
            c = c.copy(); c.symbolic(self.cx, self.ety)
        return SeqView(c.len, c.arr)
    @property
    def post(self): return snap(self.cx, self.v, self.ety)
    @post.setter
    def post(self, x): pass
class RecView(dict):
    def __getattr__(self, k): return self[k]
    def __getitem__(self, k): return dict.__getitem__(self, str(k))

def snap(cx, v, ety=None):
    c = cx.heap[v.id]
    if c.kind == "ref":
        x = c.elems[0]
        return view(cx, x, ety)
    c.symbolic(cx, ety)
    return SeqView(c.len, c.arr)

def view(cx, v, ty=None):
    """first-order view of a value, for specifications"""
    if isinstance(ty, TRec):
        if not isinstance(v, Rec): raise Shape(f"record expected, got {v!r}")
        if set(v.f) != {k for k, _ in ty.fields}: raise Shape(f"record fields {sorted(v.f)} are not those of the contract")
        if all(k == str(i+1) for i, (k, _) in enumerate(ty.fields)):
            return [view(cx, v.f[k], t) for k, t in ty.fields]
        return RecView({k: view(cx, v.f[k], t) for k, t in ty.fields})
    if isinstance(ty, TAny): return v
    if isinstance(ty, TFun): return FunView(cx, v, ty)
    v = cx.norm(v)
    if isinstance(ty, TSeq) or (ty is None and isinstance(v, Seq) and v.kind in ("string", "vector", "array")):
        if not isinstance(v, Seq): raise Shape(f"sequence expected, got {v!r}")
        if v.kind == "array" or (ty is not None and ty.kind == "array") or (ty is None and cx.heap[v.id].mut):
            return HeapView(cx, v, ty.elem if ty else (TChar if v.kind == "string" else None))
        return snap(cx, v, ty.elem if ty else (TChar if v.kind == "string" else None))
    if isinstance(ty, TRefT) or (ty is None and isinstance(v, Seq) and v.kind == "ref"):
        return HeapView(cx, v, ty.elem if ty else None)
    if ty is None:
        if isinstance(v, Num): return zi(v.t)
        if isinstance(v, (bool, z3.BoolRef)): return zb(v)
        if isinstance(v, (Sym, Abs)): return v.t
        if isinstance(v, Rec): return [view(cx, x) for x in v.f.values()]
        return v
    return ty.pack(cx, v)

class FunView:
    """function argument seen by a spec: apply(args...) gives z3 term"""
    def __init__(self, cx, v, ty): self.cx, self.v, self.ty = cx, v, ty
    @property
    def decl(self):
        if isinstance(self.v, Prim) and getattr(self.v, "fn", None) is not None and hasattr(self.v.fn, "decl"):
            return self.v.fn.decl
        raise Shape("function argument of a contract is not an abstract function")
    def __call__(self, *ts): return self.decl(*ts)

# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(self, name, args, ret, requires=None, ensures=None, raises=None, returns=None, modifies=None,
                 decreases=None, uses=None, inline_callees=(), may_raise=(), extra_exn=None, timeout=None, hints=None, note=None, ax_only=None,
                 heap_frame=True, measure_lt=None, setup=None, group=None, asserts=None):
        self.name, self.args, self.ret = name, args, ret
        self.requires, self.ensures, self.raises, self.returns = requires, ensures, raises or {}, returns
        self.modifies, self.decreases, self.uses = modifies, decreases, uses
        self.timeout, self.hints, self.note = timeout, hints, note
        self.asserts = asserts or {}; self.setup = setup; self.group = group or name

class Arith:
    """a proof step: goal follows from hyps by arithmetic alone; hyps hold here"""
    def __init__(self, label, hyps, goal): self.label, self.hyps, self.goal = label, hyps, goal
class EnvOnly:
    def __init__(self, env, path): self.env, self.path = env, path
class S:
    """spec context"""
    def __init__(self, cx, clo):
        self.cx, self.clo = cx, clo
        self.heap0 = {i: c.copy() for i, c in cx.heap.items() if c.mut}
    def has(self, name): return lookup_opt(self.clo.env, name) is not None
    def env(self, name, ty=None):
        v = lookup_opt(self.clo.env, name)
        if v is None: raise Shape(f"{self.clo.path}: captured variable {name} not found")
        r = view(self.cx, v, ty)
        if isinstance(r, HeapView): return EnvHeapView(self.cx, r.v, r.ety, self.heap0)
        return r
    def val(self, name):
        v = lookup_opt(self.clo.env, name)
        if v is None: raise Shape(f"{self.clo.path}: captured variable {name} not found")
        return v
    def fresh(self, nm, sort): return self.cx.fresh(nm, sort)

def as_list(r):
    if r is None: return []
    if isinstance(r, (list, tuple)):
        out = []
        for x in r:
            if isinstance(x, (list, tuple)) and not (len(x) == 2 and isinstance(x[0], str)): out += as_list(x)
            else: out.append(x)
        return out
    return [r]

# ---------------------------------------------------------------- environments
class Env:
    __slots__ = ("d", "up")
    def __init__(self, up=None, d=None): self.d = d if d is not None else {}; self.up = up
    def get(self, k):
        e = self
        while e is not None:
            if k in e.d: return e.d[k]
            e = e.up
        return None
def lookup_opt(env, name):
    parts = name.split(".") if isinstance(name, str) and "." in name and not name.startswith(".") else [name] if isinstance(name, str) else name
    if len(parts) == 1: return env.get(parts[0])
    v = env.get(("S", parts[0]))
    for p in parts[1:-1]:
        if v is None: return None
        v = v.env.get(("S", p))
    if v is None: return None
    return v.env.get(parts[-1])

# ---------------------------------------------------------------- symbolic execution context (one path)
class Ctx:
    def __init__(self, prog, prefix=(), job=None):
        self.prog, self.prefix, self.job = prog, list(prefix), job
        self.decs = []; self.pending = []
        self.pc = []; self.heap = {}; self.nid = 0; self.nf = 0
        self.solver = z3.Solver(); self.solver.set("timeout", 400)
        self.refined = {}; self.excl = {}; self.stack = []
        self.loading = job is None
        self.gh = {}
        self.trace = []
        self.names = {}
        self.measure = None; self.group = None; self.cur = None
    # fresh names are deterministic per path
    def fresh(self, nm, sort):
        self.nf += 1
        return z3.Const(f"{nm}!{self.nf}", sort)
    def newid(self):
        self.nid += 1
        return self.nid
    def alloc(self, cell, kind):
        i = self.newid(); self.heap[i] = cell
        return Seq(i, kind)
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        if z3.is_true(c): return
        self.pc.append(c)
        if not has_quant(c): self.solver.add(c)
    def replaying(self): return len(self.decs) < len(self.prefix)
    def record(self, compute):
        i = len(self.decs)
        if i < len(self.prefix): r = self.prefix[i]
        else: r = compute()
        self.decs.append(r)
        return r
    def _sat(self, c):
        self.solver.push(); self.solver.add(c)
        r = self.solver.check(); self.solver.pop()
        return r != z3.unsat
    def entails(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.record(lambda: not self._sat(z3.Not(c)))
    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.loading: raise Shape("symbolic branch while loading")
        i = len(self.decs)
        if i < len(self.prefix):
            r = self.prefix[i]; self.decs.append(r)
        else:
            ft = self._sat(c); ff = self._sat(z3.Not(c))
            if not ft and not ff: raise Infeasible()
            r = ft
            if ft and ff: self.pending.append(self.decs + [False])
            self.decs.append(r)
        self.assume(c if r else z3.Not(c))
        return r
    def choose(self, n):
        i = len(self.decs)
        if i < len(self.prefix): r = self.prefix[i]
        else:
            r = 0
            for k in range(1, n): self.pending.append(self.decs + [k])
        self.decs.append(r)
        return r
    def prove(self, goal, label):
        if isinstance(goal, bool):
            if goal:
                if not self.replaying(): self.job.trivial(label)
                return
            goal = z3.BoolVal(False)
        if self.replaying():
            self.assume(goal); return
        self.job.oblige(self, goal, label)
        if z3.is_false(goal): raise PathDone()
        self.assume(goal)
    def prove_from(self, hyps, goal, label):
        """arithmetic step: each hypothesis from the context, then the goal from the hypotheses alone"""
        for i, h in enumerate(hyps): self.prove(h, f"{label} (hypothesis {i+1})")
        if not self.replaying(): self.job.oblige_pure(hyps, goal, label)
        self.assume(goal)
    # -- values
    def norm(self, v):
        if isinstance(v, SeqTerm):
            key = ("seqterm", v.t.get_id(), v.ty.kind)
            if key not in self.gh:
                s = v.ty.sort()
                t = v.t
                if z3.is_app(t) and t.decl().eq(s.constructor(0)): ln, ar = t.arg(0), t.arg(1)
                else: ln, ar = s.accessor(0, 0)(t), s.accessor(0, 1)(t)
                self.assume(z3.And(ln >= 0, ln <= (1 << 62) - 1))
                if z3.is_int_value(ln): ln = ln.as_long()
                self.gh[key] = (self.alloc(Cell(v.ty.kind, ln, None, ar, v.ty.elem), v.ty.kind), v.t)
            return self.gh[key][0]
        if isinstance(v, Sym):
            r = self.refined.get(v.t.get_id())
            if r is not None: return r[1]
        return v
    def mksym(self, ty, nm):
        """fresh symbolic value of a type"""
        if isinstance(ty, TFun):
            return self.mkfun(ty, ty.fname or nm)
        if isinstance(ty, TSeq):
            ln = self.fresh(nm + "_len", z3.IntSort())
            ar = self.fresh(nm + "_arr", z3.ArraySort(z3.IntSort(), ty.elem.sort()))
            self.assume(z3.And(ln >= 0, ln <= (1 << 62) - 1))
            return self.alloc(Cell(ty.kind, ln, None, ar, ty.elem), ty.kind)
        if isinstance(ty, TRefT):
            return self.alloc(Cell("ref", 1, [self.mksym(ty.elem, nm)], None, ty.elem), "ref")
        if isinstance(ty, TRec):
            return Rec({k: self.mksym(t, f"{nm}_{k}") for k, t in ty.fields})
        if isinstance(ty, TAny):
            return Opaque()
        t = self.fresh(nm, ty.sort())
        self.assume(ty.wf(t))
        return ty.unpack(t)
    def mkfun(self, ty, nm):
        sorts = []
        def flat(t):
            if isinstance(t, TRec) and not isinstance(t, TData):
                for _, x in t.fields: flat(x)
            else: sorts.append(t.sort())
        for a in ty.args: flat(a)
        d = z3.Function(nm, *sorts, ty.ret.sort())
        def collect(cx, a, v):
            if isinstance(a, TRec): 
                if not isinstance(v, Rec): raise Shape("record argument expected")
                return [x for k, t in a.fields for x in collect(cx, t, v.f[k])]
            return [a.pack(cx, cx.norm(v))]
        def mk(got):
            def f(cx, v):
                g = got + collect(cx, ty.args[len_[0] if False else depth(got)], v)
                return fin(cx, g) if depth(g) == len(ty.args) else mk(g)
            f.decl = d
            return Prim(nm, f)
        counts = []
        def width(t): return sum(width(x) for _, x in t.fields) if isinstance(t, TRec) else 1
        tot = 0
        for a in ty.args: tot += width(a); counts.append(tot)
        def depth(g):
            n = len(g); k = 0
            for c in counts:
                if n >= c and c > 0: k += 1
            return k
        len_ = [0]
        def fin(cx, g):
            r = d(*g)
            cx.assume(ty.ret.wf(r))
            return ty.ret.unpack(r)
        return mk([])

class Opaque:
    pass

_hq = {}
def has_quant(t):
    i = t.get_id()
    r = _hq.get(i)
    if r is not None and r[0].eq(t): return r[1]
    if z3.is_quantifier(t): v = True
    elif z3.is_app(t): v = any(has_quant(c) for c in t.children())
    else: v = False
    _hq[i] = (t, v)
    return v

class Infra(Exception): pass
