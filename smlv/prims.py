"""Primitive operations (the trusted base of the SML semantics used here):
InLine.* as implemented by the 64-bit compiler, the pervasive overloaded
operators, refs, arrays, vectors, strings."""
import z3
from core import *
import core

def raise_(cx, nm, arg=None): raise SMLRaise(Exn(cx.prog.exn[nm], arg))

def join(a, b):
    ka, kb = a.k, b.k
    for k in (ka, kb):
        if k not in (None, "?w"): return k
    if "?w" in (ka, kb): return "word"
    return "int"
def numk(v, dflt=None):
    if not isinstance(v, Num): raise Shape(f"number expected, got {v!r}")
    if v.k is None: return dflt or "int"
    if v.k == "?w": return dflt or "word"
    return v.k

# ---- integer term helpers
def tadd(a, b): return a + b
def fdiv(a, b):      # floor division for b > 0 or constants
    if isc(a) and isc(b): return a // b
    return zi(a) / zi(b)
def fmod(a, b):
    if isc(a) and isc(b): return a % b
    return zi(a) % zi(b)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    return z3.If(c, zi(a), zi(b))

def wrap(cx, t, k):
    """t reduced into the range of kind k (two's complement / modular)"""
    lo, hi = krange(k)
    if lo is None: return t
    m = hi - lo + 1
    if isc(t): return (t - lo) % m + lo
    if cx.entails(inrange(t, k)): return t
    if lo == 0: return t % m
    return (t - lo) % m + lo

def ovf(cx, t, k):
    lo, hi = krange(k)
    if lo is None: return t
    if isc(t):
        if not lo <= t <= hi: raise_(cx, "Overflow")
        return t
    c = inrange(t, k)
    if not cx.entails(c):
        if not cx.branch(c): raise_(cx, "Overflow")
    return t

def is_signed(k): return KINDS[k][0]
def mul(cx, a, b):
    if isc(a) or isc(b): return a * b
    return a * b

def divmod_(cx, op, a, b, k):
    """div mod quot rem on terms; raises Div"""
    if isc(b):
        if b == 0: raise_(cx, "Div")
    else:
        if cx.branch(b == 0): raise_(cx, "Div")
    if isc(a) and isc(b):
        q, r = a // b, a % b
        if op in ("quot", "rem"):
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1); r = a - q * b
        return q if op in ("div", "quot") else r
    pos = (isc(b) and b > 0) or not is_signed(k) or cx.entails(zi(b) > 0)
    if pos:
        if op in ("quot", "rem") and is_signed(k) and not cx.entails(zi(a) >= 0):
            q = ite(zi(a) >= 0, zi(a) / zi(b), -((-zi(a)) / zi(b)))
            return q if op == "quot" else zi(a) - q * b
        return fdiv(a, b) if op in ("div", "quot") else fmod(a, b)
    za, zb_ = zi(a), zi(b)
    qp = za / zb_                      # z3: b<0 -> ceiling-ish (Euclidean)
    absq = ite(za >= 0, za, -za) / ite(zb_ >= 0, zb_, -zb_)
    qt = ite(((za >= 0) == (zb_ >= 0)), absq, -absq)
    if op == "quot": return qt
    if op == "rem": return za - qt * zb_
    rt = za - qt * zb_
    qf = ite(z3.And(rt != 0, (rt < 0) != (zb_ < 0)), qt - 1, qt)
    return qf if op == "div" else za - qf * zb_

def runs(m):
    """maximal runs of ones in m: [(lo, len)]"""
    out = []; i = 0
    while m >> i:
        if m >> i & 1:
            j = i
            while m >> j & 1: j += 1
            out.append((i, j - i)); i = j
        else: i += 1
    return out
def and_mask(cx, t, m, bits):
    """t & m for a constant m >= 0 and t >= 0"""
    if isc(t): return t & m
    full = (1 << bits) - 1
    r = 0
    for lo, n in runs(m & full):
        x = t
        if lo: x = x / (1 << lo)
        if lo + n < bits or True:
            if not cx.entails(zi(x) < (1 << n)): x = x % (1 << n)
        r = r + x * (1 << lo) if lo else r + x
    return r
BW = {}
def bitfun(op, n):
    key = (op, n)
    if key not in BW: BW[key] = z3.Function(f"{op}{n}", z3.IntSort(), z3.IntSort(), z3.IntSort())
    return BW[key]
def tz(t):
    """number of known trailing zero bits of an Int term (syntactic)"""
    if isc(t): return 200 if t == 0 else (t & -t).bit_length() - 1
    if z3.is_int_value(t): return tz(t.as_long())
    if z3.is_mul(t):
        return sum(tz(c) for c in t.children())
    if z3.is_add(t): return min(tz(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)):
        return min(tz(t.arg(0)), tz(t.arg(1)))
    if z3.is_app_of(t, z3.Z3_OP_ITE): return min(tz(t.arg(1)), tz(t.arg(2)))
    return 0
def bitop(cx, op, a, b, k):
    s, n = KINDS[k]
    if isc(a) and isc(b):
        r = {"andb": a & b, "orb": a | b, "xorb": a ^ b}[op]
        return wrap(cx, r, k)
    if s:
        m = 1 << n
        # only non-negative operands
        if cx.entails(band(zi(a) >= 0, zi(b) >= 0)): pass
        elif op == "andb" and isc(b) and b >= 0:
            return and_mask(cx, (a % m), b, n)
        else: return wrap(cx, bitfun(op, n)(zi(a), zi(b)), k)
    if op == "andb":
        if isc(a): a, b = b, a
        if isc(b): return and_mask(cx, a, b, n)
        f = bitfun(op, n); r = f(zi(a), zi(b))
        cx.assume(z3.And(r >= 0, r <= zi(a), r <= zi(b)))
        return r
    if op == "orb":
        # disjoint?
        for x, y in ((a, b), (b, a)):
            z = tz(x)
            if z > 0 and cx.entails(zi(y) < (1 << min(z, n))): return x + y
        if isc(a): a, b = b, a
        if isc(b):
            # a | m = a + m - (a & m)
            return a + b - and_mask(cx, a, b, n)
        f = bitfun(op, n); r = f(zi(a), zi(b))
        cx.assume(z3.And(r >= zi(a), r >= zi(b), r <= zi(a) + zi(b), r < (1 << n)))
        for x, y in ((a, b), (b, a)):
            z = min(tz(x), n)
            if z > 0: cx.assume(z3.Implies(zi(y) < (1 << z), r == zi(x) + zi(y)))
        return r
    if op == "xorb":
        if isc(a): a, b = b, a
        if isc(b):
            return a + b - 2 * and_mask(cx, a, b, n)
        f = bitfun(op, n); r = f(zi(a), zi(b))
        cx.assume(z3.And(r >= 0, r <= zi(a) + zi(b), r < (1 << n)))
        return r

def pow2(cx, s, n):
    """2^s for a shift amount term: a chain over feasible amounts is too big, so split when small"""
    raise Shape("shift by a symbolic amount")

def shift(cx, op, a, s, k, raw=False):
    sg, n = KINDS[k]
    if not isc(s):
        # split on the amount when its range is small
        for c in range(0, n + 1):
            if cx.branch(zi(s) == c):
                s = c; break
        else:
            s = n
            cx.assume(True)
    if op == "lshift":
        if s >= n: return 0
        r = a * (1 << s)
        return wrap(cx, r, k)
    if op == "rshiftl":
        if sg: 
            raise Shape("logical shift of a signed value")
        if s >= n: return 0
        return fdiv(a, 1 << s)
    if op == "rshift":
        if sg:
            return fdiv(a, 1 << min(s, n - 1))
        # arithmetic shift of a word
        half = 1 << (n - 1)
        sv = ite(zi(a) >= half, zi(a) - (1 << n), zi(a)) if not isc(a) else (a - (1 << n) if a >= half else a)
        return wrap(cx, fdiv(sv, 1 << min(s, n - 1)), k)
    raise Shape(op)

def arith(cx, op, a, b, k):
    sg, n = KINDS[k]
    if op in ("div", "mod", "quot", "rem"):
        r = divmod_(cx, op, a, b, k)
        if sg and op in ("div", "quot"): return ovf(cx, r, k)
        return r
    r = a + b if op == "add" else a - b if op == "sub" else mul(cx, a, b)
    return ovf(cx, r, k) if sg else wrap(cx, r, k)

CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
       "eql": lambda a, b: a == b, "neq": lambda a, b: a != b}
def cmp(op, a, b):
    return CMP[op](a, b) if (isc(a) and isc(b)) else CMP[op](zi(a), zi(b))

# ---- polymorphic equality
def poly_eq(cx, a, b):
    a, b = cx.norm(a), cx.norm(b)
    if isinstance(a, Num) and isinstance(b, Num): return cmp("eql", a.t, b.t)
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        return zb(a) == zb(b)
    if isinstance(a, Abs) and isinstance(b, Abs): return a.t == b.t
    if isinstance(a, Rec) and isinstance(b, Rec):
        return band(*[poly_eq(cx, a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Con) and isinstance(b, Con):
        if a.name != b.name: return False
        if a.arg is None: return True
        return poly_eq(cx, a.arg, b.arg)
    if isinstance(a, Sym) and isinstance(b, Sym): return a.t == b.t
    if isinstance(a, Sym) and isinstance(b, Con): return a.t == a.ty.pack(cx, b)
    if isinstance(a, Con) and isinstance(b, Sym): return b.t == b.ty.pack(cx, a)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.kind in ("ref", "array"): return a.id == b.id
        ca, cb = cx.heap[a.id], cx.heap[b.id]
        if a.id == b.id: return True
        if isc(ca.len) and isc(cb.len) and ca.len != cb.len: return False
        n = ca.len if isc(ca.len) else cb.len if isc(cb.len) else None
        le = cmp("eql", ca.len, cb.len)
        from interp import seq_get
        if n is not None and n <= 64:
            if isinstance(le, bool) and not le: return False
            if not isinstance(le, bool) and not cx.branch(le): return False
            return band(*[poly_eq(cx, seq_get(cx, a, i), seq_get(cx, b, i)) for i in range(n)])
        ety = ca.ety or cb.ety or (TChar if a.kind == "string" else None)
        ca.symbolic(cx, ety); cb.symbolic(cx, ety)
        i = z3.Int("i!eq")
        return z3.And(zb(le), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(ca.len)), z3.Select(ca.arr, i) == z3.Select(cb.arr, i))))
    raise Shape(f"equality of {a!r} and {b!r}")

# ---------------------------------------------------------------- sequence primitives
def seq_len(cx, v):
    v = cx.norm(v)
    if not isinstance(v, Seq): raise Shape(f"sequence expected, got {v!r}")
    return cx.heap[v.id].len
def inb(i, n):
    if isc(i) and isc(n): return 0 <= i < n
    return band(0 <= zi(i), zi(i) < zi(n))
def unsafe_sub(cx, v, i, what="sub"):
    import interp
    v = cx.norm(v)
    n = seq_len(cx, v)
    cx.prove(inb(i.t, n), f"{cx.job.name if cx.job else 'load'}: unsafe {what} is in bounds") if not cx.loading else None
    return interp.seq_get(cx, v, i.t)
def unsafe_update(cx, v, i, x):
    import interp
    v = cx.norm(v)
    n = seq_len(cx, v)
    if not cx.loading: cx.prove(inb(i.t, n), f"{cx.job.name}: unsafe update is in bounds")
    interp.seq_set(cx, v, i.t, x)
    return UNIT
def chk_sub(cx, v, i):
    import interp
    v = cx.norm(v)
    c = inb(i.t, seq_len(cx, v))
    if not cx.branch(c): raise_(cx, "Subscript")
    return interp.seq_get(cx, v, i.t)
def chk_update(cx, v, i, x):
    import interp
    v = cx.norm(v)
    if not cx.branch(inb(i.t, seq_len(cx, v))): raise_(cx, "Subscript")
    interp.seq_set(cx, v, i.t, x)
    return UNIT
MAXLEN = (1 << 57) - 1        # Core.max_length on 64-bit targets
def create(cx, n, kind, ety, init=None):
    t = n.t
    if isc(t) and t <= 4096:
        return cx.alloc(Cell(kind, t, [init] * t, None, ety, True), kind)
    if ety is None: ety = __import__("interp").guess_ty(init)
    if ety is None: raise Shape("array of unknown element type")
    if init is not None:
        a = z3.K(z3.IntSort(), ety.pack(cx, init))
    else: a = cx.fresh("new", z3.ArraySort(z3.IntSort(), ety.sort()))
    return cx.alloc(Cell(kind, t, None, a, ety, True), kind)

# ---------------------------------------------------------------- InLine, by name
def f2(fn): return lambda cx, v: fn(cx, *untup(v))
NUMK = ["int", "int32", "int64", "word", "word8", "word32", "word64", "char"]

def inline_prim(nm):
    for k in sorted(NUMK, key=len, reverse=True):
        if nm.startswith(k + "_"):
            op = nm[len(k)+1:]
            if op in CMP: return f2(lambda cx, a, b: cmp(op, a.t, b.t))
            ku = {"word8": "word", "word32": "word", "int32": "int"}.get(k, k)   # unmasked arithmetic on tagged words
            if op in ("add", "sub", "mul"): return f2(lambda cx, a, b: Num(k, arith(cx, op, a.t, b.t, ku)))
            if op in ("div", "mod", "quot", "rem"): return f2(lambda cx, a, b: Num(k, arith(cx, op, a.t, b.t, ku if k == "int32" else k)))
            if op in ("andb", "orb", "xorb"): return f2(lambda cx, a, b: Num(k, bitop(cx, op, a.t, b.t, ku)))
            if op == "neg": return lambda cx, a: Num(k, ovf(cx, -a.t, ku) if is_signed(k) else wrap(cx, -a.t, ku))
            if op == "notb": return lambda cx, a: Num(k, (-1 - a.t) if is_signed(k) else (krange(k)[1] - a.t))
            if op == "abs": return lambda cx, a: Num(k, abs_(cx, a.t, k))
            if op == "min": return f2(lambda cx, a, b: Num(k, ite(cmp("lt", a.t, b.t), a.t, b.t)))
            if op == "max": return f2(lambda cx, a, b: Num(k, ite(cmp("gt", a.t, b.t), a.t, b.t)))
            if op in ("lshift", "rshift", "rshiftl", "raw_lshift", "raw_rshift", "raw_rshiftl"):
                raw = op.startswith("raw_"); o = op.replace("raw_", "")
                def sh(cx, a, s):
                    n = KINDS[k][1]
                    if raw and not cx.loading: cx.prove(cmp("lt", s.t, n), f"{cx.job.name}: unchecked shift amount is below the word size")
                    return Num(k, shift(cx, o, a.t, s.t, ku if o == "lshift" else k))
                return f2(sh)
            if op == "unsafe_add": return f2(lambda cx, a, b: Num(k, wrap(cx, a.t + b.t, k)))
            if op == "unsafe_sub": return f2(lambda cx, a, b: Num(k, wrap(cx, a.t - b.t, k)))
            if op == "ltu" : return f2(lambda cx, a, b: cmp("lt", unsg(cx, a.t, k), unsg(cx, b.t, k)))
            if op == "geu" : return f2(lambda cx, a, b: cmp("ge", unsg(cx, a.t, k), unsg(cx, b.t, k)))
            if op == "leu" : return f2(lambda cx, a, b: cmp("le", unsg(cx, a.t, k), unsg(cx, b.t, k)))
            if op == "gtu" : return f2(lambda cx, a, b: cmp("gt", unsg(cx, a.t, k), unsg(cx, b.t, k)))
    return None
def unsg(cx, t, k):
    n = KINDS[k][1]
    if isc(t): return t % (1 << n)
    if cx.entails(t >= 0): return t
    return z3.If(t >= 0, t, t + (1 << n))
def abs_(cx, t, k):
    if isc(t): return ovf(cx, abs(t), k)
    return ovf(cx, z3.If(t >= 0, t, -t), k)

def conv(nm):
    """conversions  [unsigned_|signed_|copy_|trunc_]K1_to_K2"""
    if "_to_" not in nm: return None
    a, b = nm.split("_to_")
    mode = ""
    for p in ("unsigned_", "signed_", "copy_", "trunc_"):
        if a.startswith(p): mode = p[:-1]; a = a[len(p):]
    if a not in KINDS or b not in KINDS: return None
    def f(cx, v):
        if not isinstance(v, Num): raise Shape(f"{nm}: number expected, got {v!r}")
        t = v.t
        sa, na = KINDS[a]; sb, nb = KINDS[b]
        if mode == "signed" and not sa:
            half = 1 << (na - 1)
            t = (t - (1 << na) if t >= half else t) if isc(t) else (t if cx.entails(t < half) else z3.If(t >= half, t - (1 << na), t))
            return Num(b, wrap(cx, t, b) if not sb else ovf(cx, t, b))
        if mode == "trunc" or not sb: return Num(b, wrap(cx, t, b))
        if mode == "copy": return Num(b, wrap(cx, t, b))
        return Num(b, ovf(cx, t, b))       # checked
    return f

class DynEnv(dict):
    def __init__(self, gen, base): dict.__init__(self, base); self.gen = gen
    def __contains__(self, k): return self.get(k) is not None
    def get(self, k, d=None):
        if dict.__contains__(self, k): return dict.get(self, k)
        if isinstance(k, str):
            v = self.gen(k)
            if v is not None:
                self[k] = v; return v
        return d
    def __getitem__(self, k):
        v = self.get(k)
        if v is None: raise KeyError(k)
        return v

def P(name, fn): return Prim(name, fn)

def install(prog):
    top = prog.top.d
    exn = {n: ExnCon(n) for n in ("Bind", "Match", "Subscript", "Size", "Overflow", "Chr", "Div", "Domain", "Option", "Span", "Empty")}
    exn["Fail"] = ExnCon("Fail", True)
    exn["SysErr"] = ExnCon("SysErr", True)
    prog.exn = exn
    for k, v in exn.items(): top[k] = v
    top["true"] = True; top["false"] = False
    for nm in ("LESS", "EQUAL", "GREATER"): top[nm] = Con(nm, None, "order")
    top[("D", "order")] = ["LESS", "EQUAL", "GREATER"]
    top["nil"] = NIL; top["::"] = ConFn("::", "list"); top[("D", "list")] = ["nil", "::"]
    top["NONE"] = Con("NONE", None, "option"); top["SOME"] = ConFn("SOME", "option"); top[("D", "option")] = ["NONE", "SOME"]
    top[("D", "bool")] = ["true", "false"]
    top["#base"] = True

    # --- overloaded operators
    def over2(op):
        def f(cx, v):
            a, b = untup(v)
            a, b = cx.norm(a), cx.norm(b)
            if isinstance(a, Real) or isinstance(b, Real): raise Shape("real arithmetic")
            if not (isinstance(a, Num) and isinstance(b, Num)): raise Shape(f"arithmetic {op} on {a!r}, {b!r}")
            if a.k in (None, "?w") and b.k in (None, "?w") and isc(a.t) and isc(b.t):
                k = a.k or b.k
                return Num(k, arith(cx, op, a.t, b.t, "word" if k == "?w" else "int"))
            k = join(a, b)
            return Num(k, arith(cx, op, a.t, b.t, k))
        return f
    for sy, op in (("+", "add"), ("-", "sub"), ("*", "mul"), ("div", "div"), ("mod", "mod"), ("quot", "quot"), ("rem", "rem")):
        top[sy] = P(sy, over2(op))
    def overc(op):
        def f(cx, v):
            a, b = [cx.norm(x) for x in untup(v)]
            if isinstance(a, Num) and isinstance(b, Num): return cmp(op, a.t, b.t)
            if isinstance(a, Seq) and a.kind == "string":
                h = prog.strcmp_hook
                if h: return h(cx, op, a, b)
            raise Shape(f"comparison {op} on {a!r}, {b!r}")
        return f
    prog.strcmp_hook = None
    for sy, op in (("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")): top[sy] = P(sy, overc(op))
    def neg(cx, a):
        k = numk(a)
        if a.k in (None,) and isc(a.t): return Num(None, -a.t)
        return Num(k, ovf(cx, -a.t, k) if is_signed(k) else wrap(cx, -a.t, k))
    top["~"] = P("~", neg)
    top["abs"] = P("abs", lambda cx, a: Num(numk(a), abs_(cx, a.t, numk(a))))
    eq = P("=", f2(poly_eq)); neq = P("<>", f2(lambda cx, a, b: bnot(poly_eq(cx, a, b))))
    top["="] = eq; top["<>"] = neq
    top["not"] = P("not", lambda cx, a: bnot(a))
    def mkref(cx, v): return cx.alloc(Cell("ref", 1, [v], None, None, True), "ref")
    def deref(cx, v):
        v = cx.norm(v)
        if not isinstance(v, Seq): raise Shape("! of a non-ref")
        x = cx.heap[v.id].elems[0]
        if type(x).__name__ == "Poison": raise Shape(x.why)
        return x
    def assign(cx, v, x):
        cx.heap[v.id].elems = [x]; return UNIT
    top["ref"] = P("ref", mkref); top["!"] = P("!", deref); top[":="] = P(":=", f2(assign))
    def compose(cx, f, g):
        from interp import apply
        return P("o", lambda cx, x: apply(cx, f, apply(cx, g, x)))
    top["o"] = P("o", f2(compose))
    top["before"] = P("before", f2(lambda cx, a, b: a))
    top["ignore"] = P("ignore", lambda cx, a: UNIT)
    top["ord"] = P("ord", lambda cx, c: Num("int", c.t))
    def chr_(cx, i):
        if not cx.branch(inb(i.t, 256)): raise_(cx, "Chr")
        return Num("char", i.t)
    top["chr"] = P("chr", chr_)
    top["size"] = P("size", lambda cx, s: Num("int", seq_len(cx, s)))

    # --- InLine
    base = {
        "!": top["!"], ":=": top[":="], "makeref": top["ref"], "=": eq, "<>": neq, "cast": P("cast", lambda cx, v: v),
        "inl_identity": P("id", lambda cx, v: v), "inl_not": top["not"], "inl_compose": top["o"], "inl_before": top["before"],
        "inl_ignore": top["ignore"], "inl_ord": top["ord"], "inl_chr": top["chr"],
        "seq_length": P("seq_length", lambda cx, s: Num("int", seq_len(cx, s))),
        "seq_data": P("seq_data", lambda cx, s: s),
        "ptr_eql": P("ptr_eql", lambda cx, v: (_ for _ in ()).throw(Shape("pointer equality"))),
        "host_big_endian": P("host_big_endian", lambda cx, v: False),
        "host_word_size": P("host_word_size", lambda cx, v: Num("int", 64)),
        "newArray0": P("newArray0", lambda cx, v: cx.alloc(Cell("array", 0, [], None, None, True), "array")),
        "mkarray": P("mkarray", f2(lambda cx, n, x: create(cx, n, "array", None, x))),
    }
    for p in ("arr", "vec", "word8_arr", "word8_vec", "char_arr", "char_vec", "real64_arr"):
        base[p + "_unsafe_sub"] = P(p + "_unsafe_sub", f2(unsafe_sub))
        base[p + "_sub"] = P(p + "_sub", f2(chk_sub))
        base[p + "_unsafe_update"] = P(p + "_unsafe_update", f2(unsafe_update))
        base[p + "_update"] = P(p + "_update", f2(chk_update))
    def gen(nm):
        f = inline_prim(nm) or conv(nm)
        if f is not None: return P(nm, f)
        return P(nm, lambda cx, v: (_ for _ in ()).throw(Shape(f"primitive InLine.{nm} is not modelled")))
    e = Env(); e.d = DynEnv(gen, base)
    top[("S", "InLine")] = Struct(e, "InLine")
    # --- runtime assembly and core exceptions
    def mkvec(cx, n, l):
        vs = []
        v = l
        from interp import con_of
        while True:
            v = cx.norm(v)
            if isinstance(v, Con):
                if v.name == "nil": break
                h, v = untup(v.arg); vs.append(h)
            else: raise Shape("vector of a symbolic list")
        return cx.alloc(Cell("vector", len(vs), vs), "vector")
    A = prog.bind_struct("A", {
        "create_s": P("create_s", lambda cx, n: create_chk(cx, n, "string", TChar)),
        "create_b": P("create_b", lambda cx, n: create_chk(cx, n, "array", TChar)),
        "create_v": P("create_v", f2(mkvec)),
        "array": P("array", f2(lambda cx, n, x: create(cx, n, "array", None, x))),
    })
    del top[("S", "A")]
    vec0 = prog.loadcx.alloc(Cell("vector", 0, []), "vector")
    prog.bind_struct("Assembly", {("S", "A"): A, "Overflow": exn["Overflow"], "Div": exn["Div"], "SysErr": exn["SysErr"], "vector0": vec0,
                                  "NONE": top["NONE"], "SOME": top["SOME"], ("D", "option"): ["NONE", "SOME"]})
    core_ = {k: exn[k] for k in ("Bind", "Match", "Subscript", "Size", "Chr", "Domain", "Overflow", "Div")}
    core_["max_length"] = Num("int", MAXLEN)
    core_[("S", "Assembly")] = top[("S", "Assembly")]
    prog.bind_struct("Core", core_)
    prog.bind_struct("PrimTypes", {"true": True, "false": False, ("D", "bool"): ["true", "false"], "nil": NIL, "::": top["::"],
                                   ("D", "list"): ["nil", "::"], ("D", "ref"): [] })
    prog.bind_struct("Order", {n: top[n] for n in ("LESS", "EQUAL", "GREATER")} | {("D", "order"): ["LESS", "EQUAL", "GREATER"]})

def create_chk(cx, n, kind, ety):
    """the runtime's create_s / create_b: length must be positive and at most max_length"""
    if not cx.loading:
        cx.prove(band(cmp("ge", n.t, 1), cmp("le", n.t, MAXLEN)), f"{cx.job.name}: object created with a legal length")
    return create(cx, n, kind, ety)
