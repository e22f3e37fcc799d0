"""Building ML objects from C: every object gets a descriptor of its kind and length, lies wholly inside the space that was free, and the allocation pointers move past it."""
from mlspec import *
from ctables import *
G = Group("objects")
O = "gc/ml-objects.c"
lo32 = lambda t: simp(z3.Extract(31, 0, t))
s64 = lambda t: sx(t, 64)
SMALL = 512
ARENAS = ["record", "pair", "string", "array"]
AF = ["nextw", "tospBase", "tospSizeB", "tospTop", "sweep_nextw", "reqSizeB"]
class Heap:
    """the heap descriptor with the arenas of generation 1; free bytes of arena k: T[k]"""
def fo(eng, s, f):
    for m in eng.mods:
        try: return m.field(s, f)
        except Exception: pass
    raise Shape(f"field {f} of struct {s}")
def newto(eng, st, k, least=None, e=None):
    """fresh to-space for arena k (at entry, or left by the collection of event e)"""
    st.nf += 1
    T = z3.BitVec(f"free_{ARENAS[k]}" + (f"!{st.nf}" if e else ""), 64); st.assume(z3.And(T >= 0, T < 1 << 42, z3.Extract(2, 0, T) == 0))
    if least is not None: st.assume(z3.UGE(T, least))
    lab = f"tosp_{ARENAS[k]}{st.nf}"
    b = st.region(lab, T, kind="tosp")
    rg = st.regions[f"arena_{ARENAS[k]}"]; o = {f: fo(eng, "arena", f)[0] for f in AF}
    sz = z3.BitVec(f"tospSizeB_{ARENAS[k]}" + (f"!{st.nf}" if e else ""), 64); st.assume(z3.And(z3.UGE(sz, T), z3.ULT(sz, BV(1 << 43))))
    if least is not None: st.assume(z3.Implies(z3.UGT(least, 0), z3.UGT(sz, 0)))
    ws = {o["nextw"]: b, o["tospTop"]: simp(b + T), o["sweep_nextw"]: b, o["tospSizeB"]: sz}
    if e is None: rg.fix = {**rg.fix, **ws, o["reqSizeB"]: BV(0)}
    else:
        for a, v in ws.items(): st.storer(rg, a, v, 8)
        e.wr = getattr(e, "wr", []) + [(rg.label, a, v) for a, v in ws.items()]
    st.ghost["to"] = {**st.ghost.get("to", {}), k: (lab, T)}
def heapmodel(eng, st, A=None):
    hs = st.region("heapd", None, kind="heapd"); g = st.region("gen1", None, kind="heapd", writable=False)
    al = z3.BitVec("allocSzB", 64); st.assume(z3.And(z3.UGE(al, 128 * 1024), z3.ULT(al, BV(1 << 36)), z3.Extract(2, 0, al) == 0))
    st.regions["heapd"].fix = {fo(eng, "heap", "gen")[0]: g, fo(eng, "heap", "allocSzB")[0]: al}
    st.ghost["allocSzB"] = al
    ga = fo(eng, "generation", "arena")[0]; fx = {}
    for k, nm in enumerate(ARENAS):
        b = st.region("arena_" + nm, None, kind="heapd"); fx[ga + 8 * k] = b
        newto(eng, st, k)
    st.regions["gen1"].fix = fx
    m = st.regions["msp"]; m.fix = {**m.fix, eng.off["heap"]: hs}
    st.ghost["arena0"] = {l: r.copy() for l, r in st.regions.items()}
def s_gcarena(roots):
    base = c_GC(roots)
    def h(x):
        st = x.st; eng = x.eng
        rq = fo(eng, "arena", "reqSizeB")[0]
        req = [st.loadr(st.regions["arena_" + a], rq, 8) for a in ARENAS]
        r = base(x); e = st.events[-1]
        lev = x.args[1]
        for k in range(4):
            # a major collection makes room for the request and one allocation area; a minor one takes at most an allocation area
            al = st.ghost["allocSzB"]; full = simp(req[k] + al); T = st.ghost["to"][k][1]
            rest = z3.If(z3.UGE(T, al), T - al, BV(0))
            least = simp(z3.If(lev >= 1, full, z3.If(z3.ULT(rest, full), rest, full)))
            newto(eng, st, k, None if z3.is_true(simp(req[k] == 0)) else least, e)
        st.ghost["gclevel"] = lev
        return r
    return h
GC = {"InvokeGC": s_gcarena(False), "InvokeGCWithRoots": s_gcarena(True)}
def arena(r, k, f): return r.st.loadr(r.st.regions["arena_" + ARENAS[k]], fo(r.eng, "arena", f)[0], 8)
def placed(r, v, n, desc, k, what="the object"):
    """v is a new object of n words"""
    st = r.st; n = bvof(n)
    o, off = r.obj(v, what)
    r.eq(st.loadr(o, r.sub8(off), 8), desc, f"{what}: descriptor")
    ap = r.field("allocPtr")
    if o.kind == "alloc":
        r.prove(z3.ULE(n, BV(SMALL)), f"{what}: only small objects are allocated in the allocation area")
        r.eq(simp(bvof(off)), 8, f"{what}: starts at the allocation pointer")
        r.eq(ap, simp(v + n * 8), f"{what}: the allocation pointer moves past it")
        for j in range(4): r.eq(arena(r, j, "nextw"), st.regions[st.ghost["to"][j][0]].base, f"{what}: the {ARENAS[j]} arena is not changed")
        return o, off
    lab, T = st.ghost["to"][k]
    if o.label != lab: r.fail(f"{what}: lies in the {ARENAS[k]} arena of the first generation")
    b = st.regions[lab].base
    if k == 2: r.prove(z3.UGT(n, BV(SMALL)), f"{what}: small objects are allocated in the allocation area (shrinking relies on it)")
    r.eq(simp(bvof(off)), 8, f"{what}: starts at the next free word")
    r.eq(arena(r, k, "nextw"), simp(v + n * 8), f"{what}: the arena's pointer moves past it")
    r.prove(z3.ULE(8 + n * 8, T), f"{what}: lies inside the arena")
    r.prove(z3.UGE(T - 8 - n * 8, st.ghost["allocSzB"]), f"{what}: the arena keeps room for the next collection of the allocation area")
    r.eq(arena(r, k, "tospTop"), simp(b + T), f"{what}: the arena's end stays")
    r.eq(arena(r, k, "reqSizeB"), 0, f"{what}: no request is left behind")
    if k in (0, 3): r.eq(arena(r, k, "sweep_nextw"), arena(r, k, "nextw"), f"{what}: need not be swept")
    for j in range(4):
        if j != k: r.eq(arena(r, j, "nextw"), st.regions[st.ghost["to"][j][0]].base, f"{what}: the {ARENAS[j]} arena is not changed"); r.eq(arena(r, j, "reqSizeB"), 0, f"{what}: nothing is requested of the {ARENAS[j]} arena")
    c = fo(r.eng, "heap", "numAlloc1")[0]
    r.eq(st.loadr(st.regions["heapd"], c, 8), simp(st.loadr(st.ghost["arena0"]["heapd"], c, 8) + 8 + n * 8), f"{what}: is counted")
    return o, off
def nargs(*ex, lim=1 << 36):
    def args(eng, st, A):
        n = z3.BitVec("n", 64); st.assume(z3.And(n >= 1, n < lim)); st.ghost["n"] = n
        return [st.regions["msp"].base, n] + [e(eng, st) if callable(e) else e for e in ex]
    return args
def mk(n, t): return simp((bvof(n) << 7) | DESC(0, t))
@G.fn(O, "ML_AllocRaw", None, args=nargs(), pre=heapmodel, stubs=GC)
def _(r): n = r.st.ghost["n"]; placed(r, r.ret, n, mk(n, "raw"), 2)
@G.fn(O, "ML_AllocRaw64", None, args=nargs(), pre=heapmodel, stubs=GC)
def _(r): n = r.st.ghost["n"]; placed(r, r.ret, n, mk(n, "raw64"), 2)

def after(r, d):
    """the header built last lies below the allocation pointer"""
    o, off = r.obj(r.ret, "result"); ap, ao = r.st.resolve(r.field("allocPtr"))
    if o.label != ap.label: r.fail("the header is in the allocation area")
    r.prove(z3.ULE(bvof(off) + 16, bvof(ao)), "the header lies below the allocation pointer")
def newobj(r, d, off, what):
    if not d.label.startswith("new") or num(bvof(off)) != 0: r.fail(f"{what}: a new object")
def seq(desc, words, zero=True, kind="raw"):
    """a sequence header over a fresh data object of the given number of words, whose last word is zero (so that strings end in a zero byte and compare by words)"""
    def post(r):
        st = r.st; n = st.ghost["n"]; w = simp(words(n))
        if r.effects(): r.fail("no other call")
        def data(r, d, off, what):
            newobj(r, d, off, what)
            r.eq(st.loadr(d, -8, 8), mk(w, kind), f"{what}: descriptor")
            if zero: r.eq(st.loadr(d, simp(w * 8 - 8), 8), 0, f"{what}: the last word is zero")
        r.match(r.ret, eSeq(desc, n, data)); after(r, None)
    return post
W8 = lambda n: z3.LShR(n + 7, 3)
NOT = lambda *ns: {k: None for k in ns}
G.add(O, "ML_AllocString", None, seq(DESC_string, lambda n: W8(n + 1)), args=nargs(lim=1 << 39))
G.add(O, "ML_AllocBytearray", None, seq(DESC_word8arr, W8), args=nargs(lim=1 << 39))
G.add(O, "ML_AllocRealdarray", None, seq(DESC_real64arr, lambda n: n, False, "raw64"), args=nargs())
@G.fn(O, "ML_AllocCData", None, args=nargs(lim=1 << 39))
def _(r):
    n = r.st.ghost["n"]; w = simp(W8(n)); o, off = r.obj(r.ret, "result")
    newobj(r, o, off, "result")
    if r.effects(): r.fail("no other call")
    r.eq(r.st.loadr(o, -8, 8), mk(w, "raw64"), "descriptor")
def srcargs(eng, st, A):
    n = z3.BitVec("n", 64); st.assume(z3.And(n >= 0, n < 1 << 39)); st.ghost["n"] = n
    return [st.regions["msp"].base, st.region("src", n, kind="cobj", writable=False), n]
@G.fn(O, "ML_CData", None, args=srcargs)
def _(r):
    st = r.st; n = st.ghost["n"]; w = simp(W8(n))
    if r.effects(): r.fail("no other call")
    if r.case(n == 0): r.match(r.ret, eUnit()); return
    o, off = r.obj(r.ret, "result"); newobj(r, o, off, "result")
    cp = [e for e in st.events if "memcpy" in e.name or "memmove" in e.name]
    if len(cp) != 1: raise Shape("the data are copied some other way")
    r.eq(st.loadr(cp[0].regs[o.label], -8, 8), mk(w, "raw64"), "descriptor")
    r.eq(cp[0].args[0], r.ret, "the copy goes into the object"); r.eq(cp[0].args[1], st.regions["src"].base, "the copy is of the data"); r.eq(cp[0].args[2], n, "all the bytes are copied")
def s_strcpy(x):
    st = x.st; d, s = x.args[:2]
    n = s_strlen(X(x.eng, st, x.fr, "strlen", [s], x.rt))
    rd, od = st.resolve(d); st._bounds_n(rd, od, n + 1, f"{x.fr.f.name} -> strcpy: destination"); st._frame_n(rd, od, n + 1)
    e = x.event(d); e.n = simp(n + 1); st.havoc(rd.label)
    return d
def cstrargs(nul):
    def args(eng, st, A): return [st.regions["msp"].base, st.region("src", None, kind="cobj", writable=False) if nul else BV(0)]
    return args
def cstring(nonnull):
    def post(r):
        st = r.st
        if [e for e in r.effects() if "cpy" not in e.name and e.name != "memmove"]: r.fail("no other call")
        ln = BV(0) if not nonnull else s_strlen(X(r.eng, st, None, "strlen", [st.regions["src"].base], I(64)))
        if not nonnull or r.case(ln == 0):
            g, off = r.obj(r.ret, "result")
            if g.label != "g:_ML_string0" or num(bvof(off)) != 8: r.fail("the empty string")
            r.eng.ok(r.name("the empty string")); return
        w = simp(W8(ln + 1))
        cp = [e for e in st.events if "cpy" in e.name or "memmove" in e.name]
        if len(cp) != 1: raise Shape("the string is copied some other way")
        c = cp[0]; n = getattr(c, "n", None); n = c.args[2] if n is None else n
        def data(r, d, off, what):
            newobj(r, d, off, what)
            r.eq(st.loadr(c.regs[d.label], -8, 8), mk(w, "raw"), f"{what}: descriptor")
            r.eq(c.args[0], d.base, f"{what}: the copy goes into the object"); r.eq(c.args[1], st.regions["src"].base, f"{what}: the copy is of the string")
            r.prove(z3.Or(n == ln, n == ln + 1), f"{what}: all its bytes are copied")
            r.eq(st.loadr(c.regs[d.label], simp(w * 8 - 8), 8), 0, f"{what}: the last word was cleared, so that the string ends in zero bytes")
            if d.log[1:]: raise Shape("writes after the copy")
        r.match(r.ret, eSeq(DESC_string, s64(lo32(ln)), data)); after(r, None)
    return post
for nn in (True, False):
    G.add(O, "ML_CString", None, cstring(nn), args=cstrargs(nn), stubs={"strcpy": s_strcpy, **NOT("ML_CString")})
# --- code objects
def s_boalloc(x):
    st = x.st; st.nf += 1
    b = st.region("bodesc", None, kind="cobj"); x.event(b)
    return b
def codepre(eng, st, A=None):
    heapmodel(eng, st)
    g2 = st.region("gen2", None, kind="heapd"); st.regions["gen1"].writable = True
    ng = z3.BitVec("numGens", 32); st.assume(z3.And(ng >= 1, ng <= 14))
    h = st.regions["heapd"]; o = fo(eng, "heap", "gen")[0]
    no = fo(eng, "heap", "numGens")[0]; g1 = st.regions["gen1"].base
    if no % 8: raise Shape("layout of struct heap")
    h.fix = {**h.fix, o + 8: g2, no: z3.Concat(z3.BitVec("cacheGen", 32), ng)}
    h.gen = lambda s, off: simp(z3.If(off == o, g1, g2)) if s.entails(z3.And(z3.UGE(off, o), z3.ULE(off, o + 8))) else None
    st.ghost["numGens"] = ng; st.ghost["heap0"] = {l: r.copy() for l, r in st.regions.items()}
@G.fn(O, "ML_AllocCode", None, args=nargs(lim=1 << 31), pre=codepre, stubs={"BO_Alloc": s_boalloc})
def _(r):
    st = r.st; e = r.sys("BO_Alloc", st.regions["heapd"].base, None, st.ghost["n"])
    ng = st.ghost["numGens"]; g = e.args[1]
    r.prove(z3.And(g >= 1, g <= ng, g <= 2), "an existing generation")
    gl = "gen1" if r.case(g == 1) else "gen2"
    d = st.regions["bodesc"]; bo = fo(r.eng, "generation", "bigObjs")[0]; f = lambda n: fo(r.eng, "bigobj_desc", n)[0]
    r.eq(st.loadr(st.regions[gl], bo, 8), e.ret, "the object is first in the generation's list of code objects")
    r.eq(st.loadr(d, f("next"), 8), st.loadr(st.ghost["heap0"][gl], bo, 8), "the rest of the list follows")
    r.eq(st.loadr(d, f("objc"), 1), 0, "the object is a code object")
    r.eq(r.ret, st.loadr(d, f("obj"), 8), "the object")
@G.fn("c-libs/smlnj-runtime/alloc-code.c", "_ml_RunT_alloc_code", tInt(2, (1 << 31) - 1), stubs={"ML_AllocCode": c_opaque()}, allocs=("ML_AllocCode",))
def _(r):
    e = r.one("ML_AllocCode"); r.eq(e.args[1], r.A, "the size"); 
    r.match(r.ret, eSeq(DESC_word8arr, r.A)); o, off = r.obj(r.ret, "result"); r.eq(r.st.loadr(o, off, 8), e.ret, "the code object")
# --- arrays and vectors
INIT = z3.BitVec("init", 64)
def mem(L, lab): return L.st.regions[lab]
def fillrange(L):
    """where the array being filled lies: (label, first offset)"""
    o, off = L.st.resolve(L.get("res")); return o.label, off
def alldone(st, lab, off, n, want):
    j = z3.BitVec("j_", 64); return j
def fillsetup(L):
    """the pointer to the next element, by the number of elements filled"""
    i = L.get("i", 8); L.set("p", L.get("res") + (s64(i) if i.size() < 64 else i) * 8)
def fillinv(L):
    st = L.st; lab, off = fillrange(L); i = L.get("i", 8); i = s64(i) if i.size() < 64 else i; n = st.ghost["n"]; v = L.get("initVal")
    out = [("elements filled", z3.And(i >= 0, i <= n)), ("where the next one goes", L.get("p") == L.get("res") + i * 8)]
    if L.phase == "entry": return out
    if L.phase == "assume":
        hv = [e for e in st.regions[lab].log if e[0] == "hv"][-1][3]; st.ghost["filled"] = hv
        j = z3.BitVec("j_", 64); o = bvof(off)
        return out + [z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, o), z3.ULT(j, o + i * 8), z3.URem(j - o, BV(8)) == 0), z3.Select(hv, j) == v), patterns=[z3.Select(hv, j)])]
    # kept: every element below i, among them the one just written
    k = st.fresh("k"); s = st.fork()
    s.assume(z3.And(k >= 0, k < i)); w = s.loadr(s.regions[lab], simp(bvof(off) + k * 8), 8)
    L.eng.prove(s, w == v, f"{L.fr.f.name}: loop invariant kept: the elements so far hold the initial value")
    return out
def fillmods(L):
    lab, off = fillrange(L); return [(lab, bvof(off), simp(bvof(off) + L.st.ghost["n"] * 8))]
FILL = {"ML_AllocArrayData": Loop(fillinv, mods=fillmods, setup=fillsetup)}
def initargs(boxed, lim=1 << 36):
    def init(eng, st):
        if not boxed: st.assume(z3.Extract(0, 0, INIT) == 1); st.ghost["init"] = INIT; return INIT
        b = st.region("init_obj", None, kind="ml", writable=False, lo=-8); st.ghost["init"] = b; return b
    return nargs(init, lim=lim)
def moved(st, v):
    """where the collections of this path moved a root"""
    for k in st.ghost:
        if isinstance(k, tuple) and k[0] == "copyof" and st.entails(st.ghost[k][0] == v): v = st.regions[k[1]].base
    return v
def arrpost(r):
    st = r.st; n = st.ghost["n"]; boxed = "init_obj" in st.regions
    o, off = placed(r, r.ret, n, mk(n, "arr_data"), 3, "the array")
    for e in r.calls("InvokeGC"): r.fail("the initial value is kept by a collection")
    if o.kind != "alloc" and boxed and not r.calls("InvokeGCWithRoots"): r.fail("an array in the first generation does not point into the allocation area")
    k = st.fresh("k"); s = st.fork_done(); s.assume(z3.And(k >= 0, k < n)); w = s.loadr(s.regions[o.label], simp(bvof(off) + k * 8), 8)
    r.eng.prove(s, w == moved(st, st.ghost["init"]), r.name("every element holds the initial value (where collections moved it)"))
for bx in (False, True):
    G.add(O, "ML_AllocArrayData", None, arrpost, args=initargs(bx), pre=heapmodel, stubs=GC, loops=FILL, bound=4)
def arrargs(eng, st, A): return initargs(False)(eng, st, A)
def s_arrdata(x):
    """contract of ML_AllocArrayData, as verified above"""
    st = x.st; n = x.args[1]; x.require(x.args[0] == st.regions["msp"].base, "passes the ML state"); x.require(z3.And(n >= 1, n < 1 << 36), "positive length")
    stale(st); e = x.event(None); st.nf += 1; lab = f"new{st.nf}_data"
    e.ret = st.region(lab, simp(n * 8), kind="mlnew", lo=-8); st.regions[lab].fix = {-8: mk(n, "arr_data")}
    newalloc(st); return e.ret
DESC_polyarr = DESC(0, "arr_hdr")
@G.fn(O, "ML_AllocArray", None, args=arrargs, stubs={"ML_AllocArrayData": s_arrdata}, allocs=("ML_AllocArrayData",))
def _(r):
    e = r.one("ML_AllocArrayData"); n = r.st.ghost["n"]
    r.eq(e.args[1], n, "the length"); r.eq(e.args[2], INIT, "the initial value")
    def data(r, d, off, what): r.eq(simp(d.base + bvof(off)), e.ret, f"{what}: the new array")
    r.match(r.ret, eSeq(DESC_polyarr, n, data)); after(r, None)
def vecargs(eng, st, A):
    v, l = tList("int", hi=1 << 30).make(st, "lst"); st.assume(l.n >= 1); st.ghost["n"] = l.n; st.ghost["lst"] = l
    return [st.regions["msp"].base, l.n, v]
def lelt(st, i): return z3.Select(z3.Const("mem_lst", AS), bvof(i) * 64)
def s_gcvec(x):
    """the list of values (integers here: a collection does not change them) that a collection copied"""
    st = x.st; l = st.ghost["lst"]; before = set(st.regions)
    GC["InvokeGCWithRoots"](x)
    for k in set(st.regions) - before:
        c = st.ghost.get(("copyof", k))
        if c is None or not st.entails(c[0] == l.ptr): continue
        rg = st.regions[k]; rg.size = simp(l.n * 64); b = rg.base
        def gen(s, off, b=b):
            lo = simp(z3.Extract(5, 0, off))
            for q in (0, 8):
                if z3.is_true(simp(lo == q)) or s.entails(lo == q): return lelt(s, z3.LShR(off, 6)) if q == 0 else simp(z3.If(off + 56 == l.n * 64, BV(1), b + off + 56))
            return None
        rg.gen = gen; st.ghost["lstnow"] = k
def lat(st, i):
    l = st.ghost["lst"]; b = st.regions[st.ghost.get("lstnow", "lst")].base
    return z3.If(bvof(i) == l.n, BV(1), b + bvof(i) * 64)
def vecidx(L): return L.st.ghost["veck"]
def vecinv(L):
    st = L.st; lab, off = fillrange(L); n = st.ghost["n"]
    if L.phase == "entry": return [("starts with the first element", z3.And(L.get("p") == L.get("res"), L.get("initVal") == lat(st, 0)))]
    k = st.ghost["veck"]
    if L.phase == "assume":
        hv = [e for e in st.regions[lab].log if e[0] == "hv"][-1][3]; j = z3.BitVec("j_", 64); o = bvof(off)
        return [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Select(hv, o + j * 8) == lelt(st, j)), patterns=[z3.Select(hv, o + j * 8)])]
    q = st.fresh("q"); s = st.fork(); s.assume(z3.And(q >= 0, q <= k)); w = s.loadr(s.regions[lab], simp(bvof(off) + q * 8), 8)
    L.eng.prove(s, w == lelt(s, q), f"{L.fr.f.name}: loop invariant kept: the elements so far are those of the list")
    return [("the next place", L.get("p") == L.get("res") + (k + 1) * 8), ("the next element", L.get("initVal") == lat(st, k + 1))]
def vecsetup(L):
    st = L.st; st.nf += 1; k = z3.BitVec(f"veck!{st.nf}", 64); st.assume(z3.And(k >= 0, k <= st.ghost["n"])); st.ghost["veck"] = k
    L.set("p", L.get("res") + k * 8)
    L.set("initVal", lat(st, k))
@G.fn(O, "ML_AllocVector", None, args=vecargs, pre=heapmodel, stubs=dict(GC, InvokeGCWithRoots=s_gcvec), loops={"ML_AllocVector": Loop(vecinv, mods=fillmods, setup=vecsetup)}, bound=4)
def _(r):
    st = r.st; n = st.ghost["n"]
    for e in r.calls("InvokeGC"): r.fail("the elements are kept by a collection")
    box = {}
    def data(r, d, off, what):
        box["d"] = (d, off); r.eq(st.loadr(d, r.sub8(off), 8), mk(n, "record"), f"{what}: descriptor of a vector's data")
        q = st.fresh("q"); s = st.fork_done(); s.assume(z3.And(q >= 0, q < n)); w = s.loadr(s.regions[d.label], simp(bvof(off) + q * 8), 8)
        r.eng.prove(s, w == lelt(s, q), r.name("the elements are those of the list, in order"))
        if d.kind == "alloc":
            r.prove(z3.ULE(n, BV(SMALL)), "only small vectors are allocated in the allocation area")
            o, ho = r.obj(r.ret, "result")
            if o.label != d.label: r.fail("header after the data")
            r.prove(z3.UGE(bvof(ho), bvof(off) + n * 8 + 8), "the header does not overlap the data")
        else: placed2(r, simp(d.base + bvof(off)), n, mk(n, "record"))
    r.match(r.ret, eSeq(DESC_polyvec, n, data)); after(r, None)
    if box["d"][0].kind != "alloc" and not r.calls("InvokeGCWithRoots"): r.fail("a vector in the first generation does not point into the allocation area")
def placed2(r, v, n, desc): placed(r, v, n, desc, 0, "the vector")
# --- shrinking
def shrargs(small):
    def args(eng, st, A):
        old = z3.BitVec("old", 64); new = z3.BitVec("n", 64); st.assume(z3.And(old >= 1, old < 1 << 36, new >= 1, new <= old)); st.ghost["old"], st.ghost["n"] = old, new
        st.assume(z3.ULE(old, BV(SMALL)) if small else z3.UGT(old, BV(SMALL)))
        b = st.region("raw", simp(old * 8), kind="ml", lo=-8); st.regions["raw"].fix = {-8: mk(old, "raw")}
        st.ghost["small"] = small
        return [st.regions["msp"].base, b, new]
    return args
def shrpre(eng, st, A=None):
    heapmodel(eng, st); end = simp(st.regions["raw"].base + st.ghost["old"] * 8)
    if st.ghost["small"]: m = st.regions["msp"]; m.fix = {**m.fix, eng.off["allocPtr"]: end}
    else: a = st.regions["arena_string"]; a.fix = {**a.fix, fo(eng, "arena", "nextw")[0]: end}
def shrpost(r):
    st = r.st; n = st.ghost["n"]; raw = st.regions["raw"]; end = simp(raw.base + n * 8); sm = st.ghost["small"]
    r.eq(st.loadr(raw, -8, 8), mk(n, "raw"), "descriptor of the shrunk object")
    r.eq(r.field("allocPtr") if sm else arena(r, 2, "nextw"), end, "the space after it is given back")
    if sm: r.eq(arena(r, 2, "nextw"), st.regions[st.ghost["to"][2][0]].base, "the arena is not changed")
    else: r.eq(r.field("allocPtr"), st.regions["alloc"].base, "the allocation pointer is not changed")
for sm in (True, False): G.add(O, "ML_ShrinkRaw", None, shrpost, args=shrargs(sm), pre=shrpre, stubs=NOT("ML_ShrinkRaw"))
# --- records
def bibop(eng, st, A=None):
    """the page table: an L1 table of pointers to L2 tables; entry of address a: aid(st, a)"""
    l2 = st.region("bibop_l2", None, kind="heapd", writable=False); st.regions["bibop_l2"].writable = False
    l1 = st.region("bibop_l1", 8 << 16, kind="heapd", writable=False)
    st.regions["bibop_l1"].gen = lambda s, off: simp(l2 + (off << 13))
    rg, off = st.resolve(eng.gaddr(st, "BIBOP", eng.mods[0])); rg.fix = {**rg.fix, 0: l1}
def aid(st, a):
    off = ((a >> 32) << 16) + ((z3.LShR(a, 18) & BV(0x3fff)) << 1)
    w = st.loadw(st.regions["bibop_l2"], simp(off & BV(M64 & ~7))); return simp(z3.Extract(15, 0, z3.LShR(w, (off & 7) * 8)))

RO = "gc/record-ops.c"
objc = lambda st, a: simp(z3.LShR(aid(st, a), 8) & BV(15, 16))
def recargs(eng, st, A):
    vs = []
    for nm in ("r1", "r2"):
        d = z3.BitVec(nm + "_desc", 64); st.assume(z3.Extract(1, 0, d) == 2)
        b = st.region(nm, None, kind="ml", writable=False, lo=-8); st.regions[nm].fix = {-8: d}
        st.assume(z3.Implies(z3.Extract(6, 2, d) == 0, z3.And(z3.ULE(z3.LShR(d, 7), BV(1000)))))   # records that fit the space a C call may use
        vs.append(b)
    return [st.regions["msp"].base] + vs
def reclen(r, nm):
    """number of fields of the object, 0 when it is not a record"""
    st = r.st; b = st.regions[nm].base; c = objc(st, b); d = st.loadr(st.regions[nm], -8, 8)
    if r.case(c == 2): return BV(2)
    if not r.case(z3.Or(c == 0, c == 1)): return BV(0)
    return simp(z3.LShR(d, 7)) if r.case(z3.Extract(6, 2, d) == 0) else BV(0)
def cpinv(k):
    """the fields copied so far, from r1 (k = 0) or r2"""
    nm = ("r1", "r2")[k]
    def inv(L):
        st = L.st; i, j = s64(L.get("i", 4)), s64(L.get("j", 4)); l1, l2 = s64(L.get("l1", 4)), s64(L.get("l2", 4)); n = (l1, l2)[k]; o = BV(8) if k == 0 else 8 + l1 * 8
        out = [("fields copied", z3.And(i >= 0, i <= n)), ("where the next one goes", j == i + (1 if k == 0 else 1 + l1)), ("their source", L.get("p") == st.regions[nm].base)]
        if L.phase == "entry": return out
        if L.phase == "assume":
            hv = [e for e in st.regions["alloc"].log if e[0] == "hv"][-1][3]; q = z3.BitVec("q_", 64)
            return out + [z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), z3.Select(hv, o + q * 8) == z3.Select(st.regions[nm].arr, q * 8)), patterns=[z3.Select(hv, o + q * 8)])]
        q = st.fresh("q"); s = st.fork(); s.assume(z3.And(q >= 0, q < i)); w = s.loadr(s.regions["alloc"], simp(o + q * 8), 8)
        L.eng.prove(s, w == s.loadr(s.regions[nm], simp(q * 8), 8), f"{L.fr.f.name}: loop invariant kept: the fields so far are copied")
        return out
    def mods(L):
        l1, l2 = s64(L.get("l1", 4)), s64(L.get("l2", 4)); return [("alloc", BV(8), simp(8 + l1 * 8)) if k == 0 else ("alloc", simp(8 + l1 * 8), simp(8 + l1 * 8 + l2 * 8))]
    def setup(L):
        L.set("p", L.st.regions[nm].base)
    return Loop(inv, mods=mods, setup=setup)
def concat(r):
    st = r.st; n1, n2 = reclen(r, "r1"), reclen(r, "r2")
    if r.effects() or r.calls("NeedGC"): raise Shape("other calls")
    if r.case(z3.Or(n1 == 0, n2 == 0)):
        r.match(r.ret, eUnit()); r.eq(r.field("allocPtr"), st.regions["alloc"].base, "nothing is allocated"); return
    o, off = r.obj(r.ret, "result"); n = simp(n1 + n2)
    r.eq(st.loadr(o, r.sub8(off), 8), mk(n, "record"), "descriptor of the record")
    r.eq(r.field("allocPtr"), simp(r.ret + n * 8), "the allocation pointer moves past it"); r.eq(simp(bvof(off)), 8, "it starts at the allocation pointer")
    for nm, m, at in (("r1", n1, BV(0)), ("r2", n2, n1)):
        q = st.fresh("q"); s = st.fork_done(); s.assume(z3.And(q >= 0, q < m)); w = s.loadr(s.regions[o.label], simp(8 + at * 8 + q * 8), 8)
        r.eng.prove(s, w == s.loadr(s.regions[nm], simp(q * 8), 8), r.name(f"the fields of {nm}, in order"))
G.add(RO, "RecordConcat", None, concat, args=recargs, pre=bibop, loops={("RecordConcat", 0): cpinv(0), ("RecordConcat", 1): cpinv(1)}, bound=4)
@G.fn("c-libs/smlnj-runtime/record1.c", "_ml_RunT_record1", ANY)
def _(r): r.match(r.ret, eRec(eVal(r.A))); r.effects() and r.fail("no other call")
def s_concat(x):
    b = z3.Bool(f"isrec!{x.st.nf}")
    if not x.st.entails(b) and not x.st.entails(z3.Not(b)): raise NeedFork(b)
    e = x.event(BV(1))
    if x.st.entails(b): x.st.nf += 1; e.ret = x.st.region(f"obj{x.st.nf}", None, kind="mlnew", writable=False, lo=-8); newalloc(x.st)
    else: x.st.nf += 1
    return e.ret
@G.fn("c-libs/smlnj-runtime/record-concat.c", "_ml_RunT_recordconcat", REC(ANY, ANY), stubs={"RecordConcat": s_concat})
def _(r):
    a, b = r.A; es = r.calls("RecordConcat")
    if r.case(a == 1): r.eq(r.ret, b, "joined with the empty record"); return
    if r.case(b == 1): r.eq(r.ret, a, "joined with the empty record"); return
    e = r.one("RecordConcat"); r.eq(e.args[1], a, "the first record"); r.eq(e.args[2], b, "the second record")
    if r.case(e.ret == 1): r.raised(None, msg=True)
    else: r.noraise(); r.eq(r.ret, e.ret, "the joined record")
# --- starting a collection
CG = "gc/call-gc.c"
def gcpre(eng, st, A=None):
    hs = st.region("heapd", None, kind="heapd"); g = st.region("gen1", None, kind="heapd", writable=False)
    base = st.region("nursery", None, kind="mlnew"); al = z3.BitVec("allocSzB", 64); st.assume(z3.And(z3.UGE(al, 128 * 1024), z3.ULT(al, BV(1 << 36))))
    st.regions["heapd"].fix = {fo(eng, "heap", "gen")[0]: g, fo(eng, "heap", "allocSzB")[0]: al, fo(eng, "heap", "allocBase")[0]: base}
    ga = fo(eng, "generation", "arena")[0]; fx = {}
    for k, nm in enumerate(ARENAS): fx[ga + 8 * k] = st.region("arena_" + nm, None, kind="heapd", writable=False)
    st.regions["gen1"].fix = fx
    ap = z3.BitVec("allocPtr0", 64); m = st.regions["msp"]
    m.fix = {eng.off["heap"]: hs, eng.off["allocPtr"]: ap}
    rg, _ = st.resolve(eng.gaddr(st, "NumCRoots", eng.mods[0]))
    n = z3.BitVec("NumCRoots", 32); st.assume(z3.And(n >= 0, n <= 8)); st.ghost["ncr"] = n
    rg.fix = {0: z3.Concat(z3.BitVec("x_", 32), n)}; rg.writable = False
    rg, _ = st.resolve(eng.gaddr(st, "CRoots", eng.mods[0])); rg.writable = False; rg.size = 64
    rg.fix = {8 * i: st.region(f"croot{i}", 8, kind="cobj") for i in range(8)}
    st.ghost["alloc"] = al
    for i in range(16): st.region(f"xroot{i}", 8, kind="cobj")
def s_collect(x):
    st = x.st; e = x.event(None)
    for a in ARENAS: st.havoc("arena_" + a)     # the collection fills the arenas and may replace their to-space
    e.post = {k: v.copy() for k, v in st.regions.items()}
def rootset(r, e):
    """the addresses in the root table passed to a collection, up to the null pointer"""
    st = r.st; o, off = st.resolve(e.args[1]); out = []; b = num(off)
    if b is None: raise Shape("root table")
    for i in range(64):
        if b + 8 * i + 8 > o.size: r.fail("the table of roots ends with a null pointer")
        v = st.loadr(e.regs[o.label], b + 8 * i, 8)
        if num(v) == 0: return out
        if st.entails(v == 0): return out
        out.append(v)
    r.fail("the table of roots ends with a null pointer")
MSPROOTS = ["ml_arg", "ml_cont", "ml_closure", "ml_exnCont", "ml_varReg"]
def gcpost(nx, link0):
    def post(r):
        st = r.st; msp = st.regions["msp"].base; ev = [e for e in r.effects() if e.name in ("MinorGC", "MajorGC")]
        if not ev or ev[0].name != "MinorGC" or len(ev) > 2 or [e.name for e in ev[1:]] not in ([], ["MajorGC"]): r.fail("one minor collection, then at most one major collection")
        k = next((i for i in range(9) if st.entails(st.ghost["ncr"] == i)), None)
        if k is None: raise Shape("number of roots")
        f = lambda n, i=0: simp(msp + fo(r.eng, "ml_state_t", n)[0] + 8 * i)
        want = [(n, f(n)) for n in MSPROOTS] + [(f"ml_calleeSave[{i}]", f("ml_calleeSave", i)) for i in range(3)] + [(f"root {i} of the C code", st.regions[f"croot{i}"].base) for i in range(k)] + [(f"extra root {i}", st.regions[f"xroot{i}"].base) for i in range(nx)]
        for e in ev:
            r.eq(e.args[0], msp, f"{e.name}: the ML state"); got = rootset(r, e)
            w = want + ([("ml_linkReg", f("ml_linkReg"))] if link0 or e.name == "MajorGC" else []) + ([("ml_pc", f("ml_pc"))] if e.name == "MajorGC" and nx >= 0 and not link0 else [])
            for nm, a in w:
                if not any(z3.is_true(simp(a == g)) for g in got): r.fail(f"{e.name}: {nm} is a root")
                r.eng.ok(r.name(f"{e.name}: {nm} is a root"))
            ok = [a for _, a in want] + [f("ml_linkReg"), f("ml_pc")]
            for g in got:
                if not any(z3.is_true(simp(a == g)) for a in ok): r.fail(f"{e.name}: only registers and declared roots are roots")
        lev = r.eng.level; m0 = ev[0]
        full = z3.Or(*[z3.And(A_(r, m0, a, "tospSizeB") != 0, z3.ULT(A_(r, m0, a, "tospTop") - A_(r, m0, a, "nextw"), st.ghost["alloc"])) for a in ARENAS])
        need = z3.Or(lev > 0, z3.And(lev == 0, full))
        if len(ev) == 2:
            r.prove(need, "a major collection only when asked for or when an arena has no room for the next minor one")
            r.prove(ev[1].args[2] == z3.If(lev > 0, lev, BV(1, 32)), "the major collection is of the generations asked for, at least one")
        else: r.prove(z3.Not(need), "a major collection when asked for or when an arena has no room for the next minor one")
        b = st.regions["nursery"].base
        r.eq(r.field("allocPtr"), b, "allocation starts again at the base of the allocation area")
        r.eq(r.field("limitPtr"), simp(b + st.ghost["alloc"] - 1152 * 8), "the limit keeps the buffer that one basic block may use")
        g = [e for e in r.effects() if e.name == "GCSignal"]
        if len(g) != 1: r.fail("the collection is signalled once")
        r.eq(g[0].args[1], ev[1].args[2] if len(ev) == 2 else lev, "the level that is signalled")
    return post
def A_(r, e, a, f): return r.st.loadr(e.post["arena_" + a], fo(r.eng, "arena", f)[0], 8)
def gcargs(eng, st, A):
    eng.level = z3.BitVec("level", 32); st.assume(z3.And(eng.level >= 0, eng.level <= 14)); return [st.regions["msp"].base, eng.level]
GCS = {"MinorGC": s_collect, "MajorGC": s_collect, "InvokeGC": None, "InvokeGCWithRoots": None, "NeedGC": None}
def statsoff(eng, st, A=None): gcpre(eng, st)
G.add(CG, "InvokeGC", None, gcpost(0, True), args=gcargs, pre=gcpre, stubs=GCS)
for nx in (0, 1, 2, 5, 16):
    G.add(CG, "InvokeGCWithRoots", None, gcpost(nx, False), args=gcargs, pre=gcpre, stubs=GCS, va=lambda eng, st, nx=nx: [st.regions[f"xroot{i}"].base for i in range(nx)] + [BV(0)])
def ngargs(eng, st, A):
    eng.nb = z3.BitVec("nbytes", 64); st.assume(z3.ULT(eng.nb, BV(1 << 40))); return [st.regions["msp"].base, eng.nb]
@G.fn(CG, "NeedGC", None, args=ngargs, pre=gcpre, stubs=GCS)
def _(r):
    st = r.st; ap = z3.BitVec("allocPtr0", 64); lim = st.regions["nursery"].base + st.ghost["alloc"] - 1152 * 8
    st.assume(z3.And(z3.UGE(ap, st.regions["nursery"].base), z3.ULE(ap, st.regions["nursery"].base + st.ghost["alloc"])))
    r.prove(z3.Implies(r.ret == 0, z3.ULT(ap + r.eng.nb, lim)), "FALSE only when the bytes fit below the limit")
    r.prove(z3.Implies(z3.ULT(ap + r.eng.nb, lim), r.ret == 0), "TRUE only when they do not")
# --- lists of strings
SS, SB = (z3.Function(n, z3.BitVecSort(64), z3.BitVecSort(64)) for n in ("small_sum", "big_sum"))
STEP = 1 << 33
def slen(st, j): return STRLEN(memver(st, st.regions["cstrs"]), simp(j * STEP))
def cost(ln):
    w = W8(ln + 1); c = (w + 1) * 8
    return z3.If(z3.And(ln != 0, z3.ULE(w, BV(SMALL))), c, BV(0)), z3.If(z3.And(ln != 0, z3.UGT(w, BV(SMALL))), c, BV(0))
def sums(st, j):
    """the definition of the sums at j, and the bounds that follow by induction (each term is at most 4104, or 2^31)"""
    ln = slen(st, j); a, b = cost(ln); n = st.ghost["n"]
    st.assume(z3.ULT(ln, BV((1 << 31) - 64)))
    st.assume(z3.And(SS(BV(0)) == 0, SB(BV(0)) == 0, SS(j + 1) == SS(j) + a, SB(j + 1) == SB(j) + b))
    for k in (j, n): st.assume(z3.Implies(z3.And(k >= 0, k <= n), z3.And(z3.ULE(SS(k), k * 4104), z3.ULE(SB(k), k << 31))))
def cslpre(eng, st, A=None):
    heapmodel(eng, st)
    n = z3.BitVec("n", 64); st.assume(z3.And(n >= 0, n < 1 << 25)); st.ghost["n"] = n
    b = st.region("cstrs", None, kind="cobj", writable=False); r = st.regions["strs"]; r.size = simp(n * 8 + 8)
    r.gen = lambda s, off: simp(z3.If(off == n * 8, BV(0), b + off * (STEP // 8)))
    sums(st, BV(0)); sums(st, n)
    # the list itself fits the allocation area (a limit of the runtime: a collection only gives an empty area)
    st.assume(z3.ULT(n * 48 + SS(n), st.ghost["allocSzB"] - 9216))
    st.ghost["room"] = BV(0); st.ghost["bigroom"] = st.ghost["to"][2][1]
def cslargs(eng, st, A): return [st.regions["msp"].base, st.region("strs", None, kind="cobj", writable=False)]
def s_needroom(x):
    r = c_NeedGC(x); x.st.ghost["room"] = simp(z3.If(r == 0, x.args[1], x.st.ghost["room"])); return r
def s_gcroom(x):
    st = x.st
    rq = st.loadr(st.regions["arena_string"], fo(x.eng, "arena", "reqSizeB")[0], 8)
    if st.sat(rq != 0) and st.sat(rq == 0): raise NeedFork(rq == 0)
    GC["InvokeGC"](x); x.st.ghost["room"] = simp(x.st.ghost["allocSzB"] - 9216); x.st.ghost["bigroom"] = x.st.ghost["to"][2][1]
def s_cstrroom(x):
    st = x.st; ln = s_strlen(X(x.eng, st, x.fr, "strlen", [x.args[1]], I(64))); a, b = cost(ln)
    x.require(z3.Or(b == 0, z3.UGT(st.ghost["bigroom"], b + st.ghost["allocSzB"])), "no collection moves the list that is being built")
    x.require(z3.UGE(st.ghost["room"], a + 24), "the string fits the space that was reserved")
    st.ghost["room"] = simp(st.ghost["room"] - a - 24); st.ghost["bigroom"] = simp(st.ghost["bigroom"] - b)
    return c_CString(x)
def lv(L, nm): v = L.get(nm, 4); return s64(v) if v.size() < 64 else v
def csl0(L):
    i = lv(L, "i"); n = L.st.ghost["n"]; return [("the strings counted", z3.And(i >= 0, i <= n))]
def csl1(L):
    st = L.st; j = g64(L, "j") if L.phase != "entry" else lv(L, "j"); n = st.ghost["n"]
    if L.phase in ("assume", "kept"): sums(st, simp(j - 1) if L.phase == "kept" else j)
    out = [("strings measured", z3.And(j >= 0, j <= n, lv(L, "i") == n)), ("space for the small strings", L.get("nbytes") == n * 48 + SS(j))]
    if L.has("bigSzB"): out.append(("space for the large strings", L.get("bigSzB") == SB(j)))
    return out
def ghostvar(L, nm):
    """a 64-bit name for the value of a narrow counter: at the head of the loop the counter is its low part"""
    st = L.st; st.nf += 1; k = z3.BitVec(f"{nm}64!{st.nf}", 64); st.assume(z3.And(k >= 0, k < 1 << 30)); st.ghost[("g64", nm)] = k
    w = L.get(nm, 4).size(); L.set(nm, simp(z3.Extract(w - 1, 0, k)))
def g64(L, nm):
    st = L.st; v = lv(L, nm); k = st.ghost.get(("g64", nm))
    if k is None: return v
    for c in (k, k - 1, k + 1):
        if st.entails(v == c): return simp(c)
    return v
def csl2left(L): return g64(L, "i") if L.phase != "entry" else lv(L, "i")
def csl2x(L):
    st = L.st; k = csl2left(L); al = st.ghost["allocSzB"]
    if L.phase == "assume":
        st.nf += 1; st.ghost["room"] = z3.BitVec(f"room!{st.nf}", 64); st.ghost["bigroom"] = z3.BitVec(f"bigroom!{st.nf}", 64); sums(st, simp(k - 1)); st.assume(z3.ULT(st.ghost["bigroom"], BV(1 << 62)))
    room = st.ghost["room"]
    if L.phase == "kept":
        o, off = st.resolve(st.loadr(st.regions["msp"], L.eng.off["allocPtr"], 8)); room = simp(room - bvof(off)); sums(st, k)
    return [("space for the rest of the list", z3.And(z3.UGE(room, k * 48 + SS(k)), z3.ULE(room, BV(1 << 62)))), ("space for the large strings of the rest", z3.Or(SB(k) == 0, z3.UGT(st.ghost["bigroom"], SB(k) + al)))]
def cslelt(r, k):
    def t(r, v, what):
        for e in r.calls("ML_CString"):
            if r.st.entails(v == e.ret): r.eq(e.args[1], simp(r.st.regions["cstrs"].base + k * STEP), f"{what}: made from the string at its place"); return
        r.fail(f"{what} is an ML string made from the C string")
    return t
CSL = {("ML_CStringList", 0): Loop(csl0), ("ML_CStringList", 1): Loop(csl1, setup=lambda L: ghostvar(L, "j")), ("ML_CStringList", 2): buildloop("p", csl2left, lambda L: L.st.ghost["n"], cslelt, extra=csl2x, presetup=lambda L: ghostvar(L, "i"))}
@G.fn(O, "ML_CStringList", None, args=cslargs, pre=cslpre, loops=CSL, bound=3, stubs={"ML_CString": s_cstrroom, "NeedGC": s_needroom, "InvokeGC": s_gcroom, **NOT("ML_CStringList")})
def _(r):
    r.match(r.ret, eList(r.st.ghost["n"], cslelt))
    r.eq(arena(r, 2, "reqSizeB"), 0, "no request is left behind")
