"""The major collector: what it moves, where to, and how big objects are kept, promoted and freed."""
from mlspec import *
from ctables import *
import c_objects as CO, c_gc as CG
from c_objects import fo, aid, bibop, ARENAS, mk, s64, lo32, objc
from c_gc import DFWD, tagof, lenof, RECTAG, VEC, ARR, ADATA, RAW, RAW64, SPECIAL, FWD, QANY, JANY, XANY, KANY, F64, objmodel, copyinv, W, DIE, forwarded, samewords, boxed, gnum, dead, HDRF, app1
G = Group("major")
import os
MJ = "gc/major-gc.c"
# --- the heap: generation g (from 0) at offset g << 9 of "gens"; its arena of kind k at offset g << 8 of "arena_k"; to-spaces of kind k in "to_k"
GSH, ASH = 9, 8
NXT, OLDT = [[z3.Function(f"{n}_{a}", z3.BitVecSort(64), z3.BitVecSort(64)) for a in ARENAS] for n in ("promote_to", "old_top")]
NX = NXT; NXT = [(lambda x, f=f: simp(f(x) << 8)) for f in NX]
AF = lambda eng, f: fo(eng, "arena", f)[0]
_SP = {}
def splitoff(off, sh):
    """(x, d) with off = x + d, x a multiple of 2^sh and d a numeral below it; or None"""
    off = simp(off); k = (off.get_id(), sh)
    if k in _SP: return _SP[k][1]
    n = num(off); m = (1 << sh) - 1
    if n is not None: r = BV(n & ~m & M64), n & m
    else:
        c = 0
        if z3.is_app(off) and off.decl().kind() == z3.Z3_OP_BADD: c = sum(num(a) or 0 for a in off.children()) & M64
        lo = num(simp(z3.Extract(sh - 1, 0, off)))
        if lo is not None: d = lo; x = simp(z3.Concat(z3.Extract(63, sh, off), z3.BitVecVal(0, sh)))
        else: d = c & m; x = simp(off - d)
        s = z3.Solver(); s.set("timeout", 5000); s.add(x & m != 0)
        r = (x, d) if s.check() == z3.unsat else None
    _SP[k] = (off, r); return r
def gensmodel(eng, st, writable=("nextw",), kinds=range(4)):
    hb = st.region("heapd", None, kind="heapd", writable=False); gb = st.region("gens", None, kind="heapd", writable=False)
    go, ga = fo(eng, "heap", "gen")[0], fo(eng, "generation", "arena")[0]
    st.regions["heapd"].gen = lambda s, off: simp(gb + ((off - go) << (GSH - 3))) if num(off) is None else None
    st.regions["heapd"].fix = {go: gb}
    ab = [st.region("arena_" + a, None, kind="heapd", writable=(lambda off, size: z3.Or(*[(off & 255) == AF(eng, f) for f in writable]))) for a in ARENAS]
    for a in ARENAS:
        for up in ("", "+"): T = z3.BitVec(f"free_{a}{up}", 64); st.assume(z3.And(T >= 0, T < 1 << 44, z3.Extract(2, 0, T) == 0)); st.region(f"to_{a}{up}", T, kind="gcnew")
    def gen(s, off):
        x = splitoff(off, GSH)
        if x is None: return None
        g, n = simp(z3.LShR(x[0], 1)), x[1]
        if ga <= n < ga + 32: return simp(ab[(n - ga) // 8] + g)
        if n == fo(eng, "generation", "heap")[0]: return hb
    st.regions["gens"].gen = gen; st.regions["gens"].fix = {}
    for k in range(4):
        def agen(s, off, k=k):
            x = splitoff(off, ASH)
            if x is None: return None
            x, d = x; up = mentions(x, NX[k])
            if d == AF(eng, "nextw"): return s.regions[f"to_{ARENAS[k]}" + "+" * up].base
            if d == AF(eng, "nextGen") and not up: s.assume(z3.ULT(NXT[k](x), BV(16 << ASH))); return simp(ab[k] + NXT[k](x))
            if d == AF(eng, "oldTop"): return OLDT[k](x)
        st.regions["arena_" + ARENAS[k]].gen = agen
    return hb
def mentions(t, f):
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().eq(f): return True
        todo += t.children()
    return False
def idmodel(eng, st, classes):
    g, c = z3.BitVec("gen_of_obj", 64), z3.BitVec("class_of_obj", 64); st.assume(z3.And(g >= 1, g <= 14)); st.assume(z3.Or(*[c == x for x in classes]))
    st.ghost.update(g=g, c=c); return simp(z3.Extract(15, 0, (g << 12) | (c << 8)))
OBJC = {"record": 1, "pair": 2, "string": 3, "array": 4, "bigobj": 8}
CLS = {0: 1, 1: 2, 2: 3, 3: 4}
def fwdargs(k, tags, pair=False):
    def args(eng, st, A):
        b = objmodel(st, tags); st.assume(z3.And(lenof(st.ghost["desc"]) < BV(1 << 40)))
        if pair:
            d = z3.BitVec("first", 64); st.regions.pop("obj"); b = st.region("obj", BV(16), kind="gcold", writable=lambda off, size: off == 0)
            st.ghost.update(words=BV(2), obj0=st.regions["obj"].copy())
        hb = gensmodel(eng, st); i = idmodel(eng, st, [CLS[k]]); bibop(eng, st)
        st.ghost["k"] = k; g = simp((st.ghost["g"] - 1) << ASH); st.ghost["a"] = g
        for up in ("", "+"): st.assume(z3.UGE(st.regions[f"to_{ARENAS[k]}{up}"].size, st.ghost["words"] * 8 + 8))
        old = z3.ULT(b, OLDT[k](g)); st.ghost["old"] = old; st.assume(z3.ULT(NXT[k](g), BV(16 << ASH))); st.assume(z3.Implies(old, NXT[k](g) != g))
        mx = z3.BitVec("maxAid", 16); m = z3.BitVec("maxGen", 64); st.assume(z3.And(m >= st.ghost["g"], m <= 14)); st.ghost["maxgen"] = m
        st.ghost["arenas0"] = {j: st.regions["arena_" + a].copy() for j, a in enumerate(ARENAS)}
        return [hb, simp(z3.Extract(15, 0, (m << 12) | 0xfff)), b, i]
    return args
def aload(r, k, x, f): return r.st.loadr(r.st.regions["arena_" + ARENAS[k]], simp(x + AF(r.eng, f)), 8)
def plain(st, rg, off):
    """a word as memory holds it (no facts about it are added)"""
    c = rg.copy(); c.gen = None; return st.loadr(c, off, 8)
def unmoved(r, ks=()):
    """the arenas' pointers: only the destination's moves"""
    st = r.st; x = z3.BitVec("any_arena", 64) & ~BV(255)
    for k in range(4):
        s = st.fork_done(); s.assume(z3.ULT(x, BV(16 << ASH)))
        if k in ks: s.assume(x != s.ghost["dst"])
        o = simp(x + AF(r.eng, "nextw")); r.eng.prove(s, plain(s, s.regions["arena_" + ARENAS[k]], o) == plain(s, s.ghost["arenas0"][k], o), r.name(f"no other {ARENAS[k]} arena is changed"))
def copypost(r):
    st = r.st; k = st.ghost["k"]; n = st.ghost["words"]; up = ""; dst = st.ghost["a"]
    if r.case(st.ghost["old"]): dst = NXT[k](dst); up = "+"
    st.ghost["dst"] = dst
    if k == 1:
        w = st.loadr(st.ghost["obj0"], 0, 8)
        if r.case(z3.Extract(1, 0, w) == 2): r.eq(r.ret, w ^ 2, "a pair that was copied before: its copy"); unmoved(r); return
        h = 0
    else:
        d = st.ghost["desc"]
        if r.case(tagof(d) == FWD): r.eq(r.ret, st.loadr(st.ghost["obj0"], 0, 8), "an object that was copied before: its copy"); unmoved(r); return
        h = 8
    to = st.regions["to_" + ARENAS[k] + up]; at = BV(0); new = simp(to.base + at + h)
    r.eq(r.ret, new, "the copy is in the object's generation, or in the next one when the object is old")
    o = st.regions["obj"]
    if k == 1: r.eq(st.loadr(o, 0, 8), new | 2, "the old pair points to the copy")
    else: r.eq(st.loadr(o, -8, 8), DFWD, "the old object is marked as forwarded"); r.eq(st.loadr(o, 0, 8), new, "it points to the copy"); r.eq(st.loadr(to, at, 8), d, "descriptor of the copy")
    r.eq(aload(r, k, dst, "nextw"), simp(new + n * 8), "the arena's pointer moves past the copy")
    samewords(r, to.label, simp(at + h), n); unmoved(r, (k,))
for k, tags in ((0, (RECTAG,)), (0, (VEC, ARR, FWD)), (2, (RAW,)), (2, (RAW64, FWD)), (3, (ADATA, FWD))):
    G.add(MJ, "MajorGC_ForwardObj", None, copypost, args=fwdargs(k, tags), stubs=DIE, loops={("MajorGC_ForwardObj", 0): copyinv("MajorGC_ForwardObj", W)}, msp=False, bound=0)
G.add(MJ, "MajorGC_ForwardObj", None, copypost, args=fwdargs(1, (RECTAG,), pair=True), stubs=DIE, msp=False, bound=0)
# --- special objects: suspensions and weak pointers
fromspace = lambda a, m: z3.ULE(a, m)
def spclargs(eng, st, A):
    a = fwdargs(3, (SPECIAL,))(eng, st, A)
    t = st.region("target", None, kind="gcold", lo=-8, writable=False); isp = z3.Bool("weak_to_object"); u = z3.BitVec("unboxed", 64); st.assume(z3.Extract(0, 0, u) == 1)
    o = st.regions["obj"]; d = st.ghost["desc"]; st.assume(z3.ULE(lenof(d), BV(3))); o.fix = {**o.fix, 0: simp(z3.If(isp, t, u))}; st.ghost["obj0"] = o.copy()
    c = objc(st, t); st.assume(z3.And(z3.UGE(c, 1), z3.ULE(c, 4))); st.ghost["maxAid"] = a[1]
    h = st.regions["heapd"]; wl = z3.BitVec("weakList0", 64); st.assume(z3.Extract(2, 0, wl) == 0); h.fix = {**h.fix, fo(eng, "heap", "weakList")[0]: wl}; wo = fo(eng, "heap", "weakList")[0]
    h.writable = lambda off, size: off == wo
    return a
def spclpost(r):
    st = r.st; d = st.ghost["desc"]; up = ""; dst = st.ghost["a"]; wl0 = z3.BitVec("weakList0", 64)
    if r.case(st.ghost["old"]): dst = NXT[3](dst); up = "+"
    st.ghost["dst"] = dst; to = st.regions["to_array" + up]; b = to.base; t = st.regions["target"]; v = st.loadr(st.ghost["obj0"], 0, 8)
    o = st.regions["obj"]; r.eq(r.ret, simp(b + 8), "the copy is in the object's generation, or in the next one when the object is old")
    r.eq(st.loadr(o, -8, 8), DFWD, "the old object is marked as forwarded"); r.eq(st.loadr(o, 0, 8), simp(b + 8), "it points to the copy")
    r.eq(aload(r, 3, dst, "nextw"), simp(b + 16), "the arena's pointer moves past the copy"); unmoved(r, (3,))
    w0, w1 = st.loadr(to, 0, 8), st.loadr(to, 8, 8); wl = CG.weaklist(r)
    dying = False
    if r.case(z3.And(lenof(d) == 2, z3.Bool("weak_to_object"))) and r.case(fromspace(aid(st, t.base), st.ghost["maxAid"])):
        dying = not (r.case(z3.Extract(1, 0, st.loadr(t, 0, 8)) == 2) if r.case(objc(st, t.base) == 2) else r.case(st.loadr(t, -8, 8) == DFWD))
    if dying:
        r.eq(w0, wl0 | 1, "a weak pointer whose object has not been copied: linked into the list of weak pointers"); r.eq(wl, b, "it is first in the list"); r.eq(w1, v | 1, "its object, marked so that it is not followed")
    else:
        r.eq(w0, d, "descriptor of the copy"); r.eq(w1, v, "contents of the copy"); r.eq(wl, wl0, "the list of weak pointers is not changed")
G.add(MJ, "MajorGC_ForwardObj", None, spclpost, args=spclargs, stubs=DIE, loops={("MajorGC_ForwardObj", 0): copyinv("MajorGC_ForwardObj", W)}, msp=False, bound=0)
# --- big objects: the descriptor of an address
BO = "gc/big-objects.c"
haid = lambda st, k: aid(st, simp(k << 18))
BIG = z3.BitVec("big_addr", 64)
def DF(eng, f): return fo(eng, "bigobj_desc", f)[0]
def bomodel(eng, st, desc_writable=False):
    """an address in a big object: its region starts at the last header page at or below it; the region's map gives the descriptor of the page"""
    bibop(eng, st); rb = st.region("boregion", None, kind="heapd", writable=False); db = st.region("bodesc", None, kind="heapd", writable=desc_writable)
    h = HDRF(BIG); fp = z3.BitVec("firstPage", 64); mo = fo(eng, "bigobj_region", "objMap")[0]
    st.regions["boregion"].fix = {fo(eng, "bigobj_region", "firstPage")[0]: fp}; st.regions["boregion"].gen = lambda s, off: simp(db + ((off - mo) << 3))
    st.ghost["ptrhints"] = [(rb, "boregion")]; pg = simp(z3.LShR(BIG - fp, 10)); st.ghost["bo"] = simp(pg << 6)
    st.assume(z3.And(z3.ULT(BIG, BV(1 << 47)), rb == h << 18, z3.ULE(h, z3.LShR(BIG, 18)), (haid(st, h) & 0xff) == 1, z3.ULT(pg, BV(1 << 30)), objc(st, BIG) == 8))
    st.ghost["bodesc0"] = st.regions["bodesc"].copy()
    return db
def hdrloop(ivar, isz, avar):
    def inv(L):
        st = L.st; h = HDRF(BIG); i = L.get(ivar, isz); i = z3.SignExt(32, i) if i.size() == 32 else i
        out = [("the header is not passed", z3.And(i >= h, i <= z3.LShR(BIG, 18))), ("the page's identifier", L.get(avar, 2) == haid(st, i))]
        if L.phase == "assume": out += [z3.Implies(i > h, z3.And((haid(st, i) & 0xff) != 1, objc(st, simp(i << 18)) == 8))]
        return out
    return Loop(inv, dec=lambda L: (lambda i: simp((z3.SignExt(32, i) if i.size() == 32 else i) - HDRF(BIG)))(L.get(ivar, isz)))
def descsame(r, but=None):
    """no descriptor changes (but for the state of the one at offset but)"""
    st = r.st; x = z3.BitVec("any_desc", 64); s = st.fork_done(); s.assume(z3.ULT(x, BV(1 << 36)))
    if but is not None: s.assume(x != but)
    r.eng.prove(s, s.loadr(s.regions["bodesc"], x, 1) == s.loadr(s.ghost["bodesc0"], x, 1), r.name("nothing else of any descriptor changes"))
def bostate(st, rg, x, f, eng): return st.loadr(rg, simp(x + DF(eng, f)), 1)
def boresult(r, x):
    """the state of the descriptor at x after its object was found to be live"""
    st = r.st; g, s0, s1 = z3.ZeroExt(56, bostate(st, st.ghost["bodesc0"], x, "gen", r.eng)), bostate(st, st.ghost["bodesc0"], x, "state", r.eng), bostate(st, st.regions["bodesc"], x, "state", r.eng)
    mx = st.ghost["maxgen"]
    r.prove(s1 == z3.If(z3.And(z3.ULE(g, mx), s0 == 1), z3.BitVecVal(2, 8), z3.If(z3.And(z3.ULE(g, mx), s0 == 3), z3.BitVecVal(4, 8), s0)), "a live young object of a collected generation is kept, a live old one is promoted; no other changes")
    descsame(r, simp(x + DF(r.eng, "state")))
def fbargs(eng, st, A):
    db = bomodel(eng, st, True); hb = st.region("heapd", None, kind="heapd", writable=False); m = z3.BitVec("maxGen", 32); st.assume(z3.And(m >= 1, m <= 14)); st.ghost["maxgen"] = z3.ZeroExt(32, m)
    x = st.ghost["bo"]; s0 = bostate(st, st.regions["bodesc"], x, "state", eng); st.assume(z3.ULE(s0, 4))
    return [hb, m, BIG, aid(st, BIG)]
HL = {("MajorGC_ForwardBigObj", 0): hdrloop("i", 8, "id")}
@G.fn(MJ, "MajorGC_ForwardBigObj", None, args=fbargs, stubs=DIE, loops=HL, msp=False, bound=0)
def _(r): r.eq(r.ret, r.st.regions["bodesc"].base + r.st.ghost["bo"], "the descriptor of the object"); boresult(r, r.st.ghost["bo"])
def fboargs(eng, st, A): a = fbargs(eng, st, A); return [a[0], simp(z3.Extract(15, 0, (st.ghost["maxgen"] << 12) | 0xfff)), BIG, aid(st, BIG)]
@G.fn(MJ, "MajorGC_ForwardObj", None, args=fboargs, stubs=DIE, loops=HL, msp=False, bound=0)
def _(r): r.eq(r.ret, BIG, "a big object is not moved"); boresult(r, r.st.ghost["bo"])
@G.fn(BO, "BO_GetDesc", None, args=lambda eng, st, A: (bomodel(eng, st), [BIG])[1], stubs=DIE, loops={("BO_GetDesc", 0): hdrloop("i", 4, "aid")}, msp=False, bound=0)
def _(r): r.eq(r.ret, r.st.regions["bodesc"].base + r.st.ghost["bo"], "the descriptor of the object that holds the address"); descsame(r)
def tagargs(eng, st, A):
    db = bomodel(eng, st); cb = st.region("code", None, kind="gcold", writable=False); n = z3.BitVec("code_size", 64); st.assume(z3.And(n >= 1, n < 1 << 40)); x = st.ghost["bo"]
    st.assume(z3.And(st.loadr(st.regions["bodesc"], simp(x + DF(eng, "sizeB")), 8) == n)); st.ghost["n"] = n
    o, s = DF(eng, "obj"), DF(eng, "sizeB")
    def gen(s_, off):
        d = splitoff(off, 6)
        return None if d is None else cb if d[1] == o else n if d[1] == s else None
    st.regions["bodesc"].gen = gen; st.assume(z3.ULE(z3.ZeroExt(56, st.loadr(st.regions["code"], simp(n - 1), 1)) * 8, n))
    return [BIG]
def tagres(r): st = r.st; n = st.ghost["n"]; k = z3.ZeroExt(56, st.loadr(st.regions["code"], simp(n - 1), 1)); r.eq(r.ret, st.regions["code"].base + n - k * 8, "the tag starts as many words before the end of the code object as its last byte says")
@G.fn(BO, "BO_AddrToCodeObjTag", None, args=tagargs, stubs=DIE, loops={("BO_AddrToCodeObjTag", 0): hdrloop("indx", 4, "aid")}, msp=False, bound=0)
def _(r): tagres(r)
@G.fn(BO, "BO_GetCodeObjTag", None, args=lambda eng, st, A: (tagargs(eng, st, A), [simp(st.regions["bodesc"].base + st.ghost["bo"])])[1], stubs=DIE, msp=False, bound=0)
def _(r): tagres(r)
def notbig(eng, st, A): bibop(eng, st); st.assume(z3.And(z3.ULT(BIG, BV(1 << 47)), objc(st, BIG) != 8)); return [BIG]
@G.fn(BO, "BO_AddrToCodeObjTag", None, args=notbig, stubs=DIE, msp=False, bound=0)
def _(r): r.eq(r.ret, 0, "an address outside the big objects has no tag")
# --- sweeping the array arena of a generation
FWDF, BOGEN = CG.FWDF, CG.BOGEN
mapoff = lambda st: st.ghost["mapoff"]
def isfrom(st, w): return z3.And(boxed(w), z3.ULE(aid(st, w), st.ghost["maxAid"]))
def isbig(st, w): return objc(st, w) == 8
def after(st, o): return z3.If(z3.And(isfrom(st, o), z3.Not(isbig(st, o))), FWDF(o), o)
def tgen(st, o):
    """generation of the object that o refers to, as the collector takes it"""
    return z3.If(isbig(st, o), BOGEN(o), gnum(aid(st, FWDF(o))))
def ptrfacts(st, o):
    """a pointer into a collected generation: its copy's generation is between 1 and 14; a big object has one as well"""
    st.assume(z3.Implies(boxed(o), z3.ULT(o, BV(1 << 47)))); f = FWDF(o); st.assume(z3.Implies(boxed(o), z3.And(z3.ULT(f, BV(1 << 47)), boxed(f))))
    st.assume(z3.Implies(isfrom(st, o), z3.And(gnum(aid(st, f)) >= 1, gnum(aid(st, f)) <= 14, BOGEN(o) >= 1, BOGEN(o) <= 14)))
def cardmodel(eng, st, base, n=None):
    cb = st.region("cards", None, kind="heapd"); mo = fo(eng, "card_map_t", "map")[0]; st.ghost["mapoff"] = mo
    st.regions["cards"].fix = {fo(eng, "card_map_t", "baseAddr")[0]: base}; st.regions["cards"].writable = lambda off, size: z3.And(z3.UGE(off, mo), z3.ULT(off, BV(1 << 33)))
    st.ghost["cards0"] = st.regions["cards"].copy(); return cb
def cardat(st, q, rg=None): return z3.ZeroExt(56, st.loadr(rg or st.regions["cards"], simp(mapoff(st) + z3.LShR(q, 8)), 1))
def saargs(eng, st, A):
    hb = st.region("heapd", None, kind="heapd", writable=False); bibop(eng, st); m = z3.BitVec("maxGen", 32); st.assume(z3.And(m >= 1, m <= 14)); st.ghost["maxAid"] = simp(z3.Extract(15, 0, (m << 12) | 0xfff))
    sb = st.region("sp", None, kind="gcnew"); st.assume(z3.Extract(7, 0, sb) == 0); nw, sw = z3.BitVec("nextw", 64), z3.BitVec("sweep", 64)
    for x in (nw, sw, QANY): st.assume(z3.And(z3.Extract(2, 0, x) == 0, x >= 0, x < 1 << 34))
    st.assume(sw <= nw); st.regions["sp"].size = nw; st.ghost.update(nw=nw, sw0=sw); tg = z3.BitVec("thisGen", 16); st.assume(z3.And(z3.UGE(tg, 1), z3.ULE(tg, 14))); st.ghost["tg"] = z3.ZeroExt(48, tg)
    ab = st.region("ar", None, kind="heapd", writable=lambda off, size: off == AF(eng, "sweep_nextw"))
    st.regions["ar"].fix = {AF(eng, "id"): simp(z3.ZeroExt(48, (tg << 12) | (4 << 8))), AF(eng, "nextw"): simp(sb + nw), AF(eng, "sweep_nextw"): simp(sb + sw)}
    cb = cardmodel(eng, st, sb); st.ghost["sp0"] = st.regions["sp"].copy(); ptrfacts(st, z3.Select(st.ghost["sp0"].arr, QANY))
    return [hb, m, ab, cb]
def grow(eng, st):
    v = st.fresh("nextw"); st.assume(z3.And(v >= st.ghost["nw"], v < 1 << 34, z3.Extract(2, 0, v) == 0)); st.setw(st.regions["ar"], AF(eng, "nextw"), simp(st.regions["sp"].base + v)); st.regions["sp"].size = v; st.ghost["nw"] = v
def fwdc(x):
    st = x.st; h, m, w, i = x.args; x.require(h == st.regions["heapd"].base, "this heap"); x.require(m == st.ghost["maxAid"], "the collected generations"); x.require(i == aid(st, w), "the object's own identifier"); x.require(isfrom(st, w), "an object of a collected generation")
    ptrfacts(st, w); grow(x.eng, st); return z3.If(isbig(st, w), w, FWDF(w))
def fbigc(x):
    st = x.st; h, m, w, i = x.args; x.require(h == st.regions["heapd"].base, "this heap"); x.require(z3.ZeroExt(32, m) == gnum(st.ghost["maxAid"]), "the collected generations"); x.require(i == aid(st, w), "the object's own identifier"); x.require(z3.And(isfrom(st, w), isbig(st, w)), "a big object")
    ptrfacts(st, w); st.nf += 1; lab = f"bd{st.nf}"; b = st.region(lab, 64, kind="heapd", writable=False); g = DF(x.eng, "gen"); st.regions[lab].fix = {g & ~7: simp(BOGEN(w) << ((g & 7) * 8))}
    st.assume(z3.And(BOGEN(w) >= 1, BOGEN(w) <= 14)); return b
def spdone(st, q, limit):
    w, o = st.loadr(st.regions["sp"], q, 8), z3.Select(st.ghost["sp0"].arr, q); return w == z3.If(z3.And(q >= st.ghost["sw0"], q < limit), after(st, o), o)
def marked(st, q, limit):
    o = z3.Select(st.ghost["sp0"].arr, q); return z3.Implies(z3.And(q >= st.ghost["sw0"], q < limit, isfrom(st, o), z3.ULT(tgen(st, o), st.ghost["tg"])), z3.ULE(cardat(st, q), tgen(st, o)))
def cleaner(st): return z3.ULE(cardat(st, KANY), cardat(st, KANY, st.ghost["cards0"]))
def saouter(L):
    st = L.st; p = simp(L.get("p") - st.regions["sp"].base)
    return [("position", z3.And(z3.Extract(2, 0, p) == 0, p >= st.ghost["sw0"], p <= st.ghost["nw"])), ("the words so far are swept", spdone(st, QANY, p)), ("their cards are marked", marked(st, QANY, p)), ("no card is made cleaner", cleaner(st))]
def spcur(L, p):
    st = L.st; o = z3.Select(st.ghost["sp0"].arr, p); st.assume(z3.Extract(2, 0, p) == 0); st.assume(spdone(st, p, p)); st.setw(st.regions["sp"], p, o); ptrfacts(st, o)
def saosetup(L): p = L.st.fresh("p"); L.set("p", L.st.regions["sp"].base + p); grow(L.eng, L.st); L.st.assume(z3.Extract(2, 0, p) == 0)
def sainner(L):
    st = L.st; b = st.regions["sp"].base; p, cs, stop = [simp(L.get(v) - b) for v in ("p", "cardStart", "stop")]; mk_ = z3.SignExt(32, L.get("cardMark", 4)); o = z3.Select(st.ghost["sp0"].arr, QANY)
    return [("position", z3.And(z3.Extract(2, 0, p) == 0, cs <= p, p <= stop, stop <= st.ghost["nw"], cs >= st.ghost["sw0"])), ("the card", z3.LShR(stop - 1, 8) == z3.LShR(cs, 8)), ("progress", z3.And(cs < stop, z3.Extract(2, 0, cs) == 0, z3.Extract(2, 0, stop) == 0)),
            ("the words so far are swept", spdone(st, QANY, p)), ("the cards of the earlier words are marked", marked(st, QANY, cs)), ("the mark of this card", z3.And(mk_ >= 0, mk_ <= cardat(st, cs), z3.Implies(z3.And(QANY >= cs, QANY < p, isfrom(st, o)), mk_ <= tgen(st, o)))), ("no card is made cleaner", cleaner(st))]
def saisetup(L):
    st = L.st; b = st.regions["sp"].base; p = st.fresh("p"); L.set("p", b + p); grow(L.eng, st); spcur(L, p)
@G.fn(MJ, "MajorGC_SweepToSpArrays", None, args=saargs, stubs=DIE, contracts={"MajorGC_ForwardObj": fwdc, "MajorGC_ForwardBigObj": fbigc}, loops={("MajorGC_SweepToSpArrays", 0): Loop(saouter, mods=lambda L: ["sp", ("cards", mapoff(L.st), 1 << 33)], setup=saosetup), ("MajorGC_SweepToSpArrays", 1): Loop(sainner, mods=["sp"], setup=saisetup)}, msp=False, bound=0, limit=300)
def _(r):
    st = r.st; nw = st.ghost["nw"]
    r.eq(st.loadr(st.regions["ar"], AF(r.eng, "sweep_nextw"), 8), simp(st.regions["sp"].base + nw), "all of the arena is swept")
    r.prove(spdone(st, QANY, nw), "every word that referred to an object that moved refers to the copy, the others are unchanged"); r.prove(marked(st, QANY, nw), "the card of a word that refers to a younger generation is marked"); r.prove(cleaner(st), "no card is made cleaner")
    r.prove((lo32(r.ret) != 0) == (st.ghost["sw0"] < nw), "result: whether anything was swept")
# --- sweeping the to-spaces of all generations
SW0, LIMF, GENOF, SZF = [[z3.Function(f"{n}_{a}", z3.BitVecSort(64), z3.BitVecSort(64)) for a in ARENAS] for n in ("sweep", "limit", "arena_of_word", "size")]
GENX = GENOF; GENOF = [(lambda q, f=f: simp(f(q) << ASH)) for f in GENX]
SWK, WK = (0, 1, 3), (0, 1)
GANY = z3.BitVec("any_gen", 64)
XG = simp(GANY << ASH)
def NW(st, k, x):
    """offset of the arena's next free word now (the collector copies objects into the arenas as it goes)"""
    fs = st.ghost["nwf"]; vs = [z3.Function(f"next_{ARENAS[k]}!{n}", z3.BitVecSort(64), z3.BitVecSort(64))(x) for n in fs]
    for a, b in zip([SW0[k](x)] + vs, vs + [LIMF[k](x)]): st.assume(a <= b)
    for v in [SW0[k](x)] + vs: st.assume(z3.And(z3.Extract(2, 0, v) == 0, v >= 0))
    st.assume(LIMF[k](x) < 1 << 34); st.assume(z3.Implies(SZF[k](x) == 0, LIMF[k](x) == SW0[k](x)))
    return vs[-1]
def swf(st, k):
    n = st.ghost.get("swf", 0); return SW0[k] if n == 0 else z3.Function(f"sweep_{ARENAS[k]}!{n}", z3.BitVecSort(64), z3.BitVecSort(64))
def spaces(eng, st):
    hb = st.region("heapd", None, kind="heapd", writable=False); gb = st.region("gens", None, kind="heapd", writable=False); cb = st.region("cmaps", None, kind="heapd", writable=False)
    go, ga, do = fo(eng, "heap", "gen")[0], fo(eng, "generation", "arena")[0], fo(eng, "generation", "dirty")[0]
    st.regions["heapd"].gen = lambda s, off: simp(gb + ((off - go) << (GSH - 3))) if num(off) is None else None
    st.regions["heapd"].fix = {go: gb}; st.ghost["nwf"] = [0]
    ab = [st.region("arena_" + a, None, kind="heapd", writable=(lambda off, size: z3.BoolVal(False)) if k == 2 else (lambda off, size: (off & 255) == AF(eng, "sweep_nextw"))) for k, a in enumerate(ARENAS)]
    sb = [st.region("sp_" + a, None, kind="gcnew", writable=k in WK) for k, a in enumerate(ARENAS)]
    def gen(s, off):
        x = splitoff(off, GSH)
        if x is None: return None
        g, n = simp(z3.LShR(x[0], 1)), x[1]
        if ga <= n < ga + 32: return simp(ab[(n - ga) // 8] + g)
        if n == do: return simp(cb + g)
    st.regions["gens"].gen = gen
    for k in range(4):
        def agen(s, off, k=k):
            x = splitoff(off, ASH)
            if x is None: return None
            x, d = x
            if d == AF(eng, "nextw"): return simp(sb[k] + NW(s, k, x))
            if d == AF(eng, "sweep_nextw"):
                n, v = NW(s, k, x), swf(s, k)(x); s.assume(z3.And(z3.Extract(2, 0, v) == 0, v >= SW0[k](x), v <= n)); return simp(sb[k] + v)
            if d == AF(eng, "tospSizeB"): return SZF[k](x)
        st.regions["arena_" + ARENAS[k]].gen = agen
    st.ghost["sp0"] = {k: st.regions["sp_" + a].copy() for k, a in enumerate(ARENAS)}
    return hb
def stsargs(eng, st, A):
    hb = spaces(eng, st); bibop(eng, st); m, s = z3.BitVec("maxCollected", 32), z3.BitVec("maxSwept", 32); st.assume(z3.And(m >= 1, m <= 14, z3.Or(s == m, s == m + 1), s <= 14)); st.ghost.update(maxAid=simp(z3.Extract(15, 0, (m << 12) | 0xfff)), m=m, s=s)
    st.assume(z3.And(GANY >= 0, GANY < z3.ZeroExt(32, s))); st.assume(z3.And(z3.Extract(2, 0, QANY) == 0, QANY >= 0, QANY < 1 << 34))
    for k in WK: st.assume(z3.ULT(GENX[k](QANY), 16)); NW(st, k, GENOF[k](QANY)); ptrfacts(st, z3.Select(st.ghost["sp0"][k].arr, QANY))
    return [hb, m, s]
def more(eng, st): st.nf += 1; st.ghost["nwf"] = st.ghost["nwf"] + [st.nf]; [NW(st, k, x) for k in SWK for x in [XG] + [GENOF[j](QANY) for j in WK if j == k]]
def mfwd(x):
    st = x.st; h, m, w, i = x.args; x.require(h == st.regions["heapd"].base, "this heap"); x.require(m == st.ghost["maxAid"], "the collected generations"); x.require(i == aid(st, w), "the object's own identifier"); x.require(isfrom(st, w), "an object of a collected generation")
    ptrfacts(st, w); more(x.eng, st); return z3.If(isbig(st, w), w, FWDF(w))
def msw(st, eng, k, x): return simp(st.loadr(st.regions["arena_" + ARENAS[k]], simp(x + AF(eng, "sweep_nextw")), 8) - st.regions["sp_" + ARENAS[k]].base)
def marr(x):
    st, eng = x.st, x.eng; h, m, ap, cm = x.args; x.require(h == st.regions["heapd"].base, "this heap"); x.require(m == st.ghost["m"], "the collected generations")
    rg, off = st.resolve(ap); x.require(z3.BoolVal(rg.label == "arena_array"), "an array arena"); off = bvof(off); x.require(cm == st.regions["cmaps"].base + off, "the card map of the arena's generation")
    s0, n0 = msw(st, eng, 3, off), NW(st, 3, off); todo = s0 != n0; xs = [off, XG] + [GENOF[j](QANY) for j in WK]
    old = {(k, j): NW(st, k, x) for k in range(4) for j, x in enumerate(xs)}; more(eng, st)
    for (k, j), v in old.items(): st.assume(z3.Implies(z3.Not(todo), NW(st, k, xs[j]) == v))
    st.setw(rg, simp(off + AF(eng, "sweep_nextw")), simp(st.regions["sp_array"].base + z3.If(todo, NW(st, 3, off), s0))); return z3.If(todo, BV(1, 32), BV(0, 32))
def mdone(st, eng, k, q, cur=None):
    """word q of a to-space of kind k: swept when it lies below its arena's sweep pointer; cur: (arena, position) of the arena that is being swept"""
    x = GENOF[k](q); l = msw(st, eng, k, x)
    if cur is not None: l = z3.If(x == cur[0], cur[1], l)
    w, o = st.loadr(st.regions["sp_" + ARENAS[k]], q, 8), z3.Select(st.ghost["sp0"][k].arr, q); return w == z3.If(z3.And(q >= SW0[k](x), q < l), after(st, o), o)
def allswept(st, eng, g): return z3.And(*[msw(st, eng, k, g) == NW(st, k, g) for k in SWK])
def msweep(n):
    def inner(L):
        ls = L.eng.loops_of(L.fr.f); body = {k: b for h, (k, b) in ls.items()}; head = {k: h for h, (k, b) in ls.items()}
        return [k for k in body if k != n and head[k] in body[n]]
    def which(L, find=False):
        if find: L.st.ghost["which", n] = ARENAS.index(L.st.resolve(L.fr.allocs[L.inbody(n, "__p")])[0].label[3:])
        return L.st.ghost["which", n]
    def xi(L): return simp(z3.ZeroExt(32, L.get("i", 4)) << ASH)
    def inv(L):
        st, eng = L.st, L.eng; sub = inner(L); depth = 0 if len(sub) == 5 else 1 if len(sub) == 4 else 2 if len(sub) == 1 else 3; out = []; cur = {}; s32 = st.ghost["s"]
        sw = L.get("swept", 4) if depth else None
        if depth >= 1:
            i = L.get("i", 4); out += [("generation", z3.And(i >= 0, i <= s32 if depth == 1 else i < s32))]
        if depth == 1: out += [("when nothing was swept in this round, everything up to here was swept before", z3.Implies(z3.And(sw == 0, GANY < z3.SignExt(32, i)), allswept(st, eng, XG)))]
        if depth >= 2:
            k = which(L, L.phase == "entry"); b = st.regions["sp_" + ARENAS[k]].base; x = xi(L); p = simp(L.fr.allocs[L.inbody(n, "__p")] - b); cur[k] = (x, p); top = NW(st, k, x)
            out += [("something was swept", sw != 0), ("the sweep pointer is aligned", z3.Extract(2, 0, p) == 0), ("nothing is swept twice", p >= msw(st, eng, k, x))]
            if depth == 3: q = simp(L.fr.allocs[L.inbody(n, "__q")] - b); out += [("the sweep stays below the limit", z3.And(p >= SW0[k](x), p <= q)), ("the limit is not beyond the arena's objects", q <= top), ("limit aligned", z3.Extract(2, 0, q) == 0)]
            else: out += [("the sweep stays below the limit", z3.And(p >= SW0[k](x), p <= top))]
        for k in WK: out += [(f"the {ARENAS[k]} arenas are swept up to their pointers", mdone(st, eng, k, QANY, cur.get(k)))]
        for k in SWK:
            for x in [XG] + ([GENOF[k](QANY)] if k in WK else []): out += [(f"the {ARENAS[k]} arenas' sweep pointers", z3.And(z3.Extract(2, 0, msw(st, eng, k, x)) == 0, msw(st, eng, k, x) >= SW0[k](x), msw(st, eng, k, x) <= NW(st, k, x)))]
        return out
    def setup(L):
        st, eng = L.st, L.eng; more(eng, st); sub = inner(L)
        if len(sub) >= 4:
            st.ghost["swf"] = st.nf      # the sweep pointers: arbitrary, but within their arenas (the invariant of an arbitrary arena)
            for k in SWK: st.regions["arena_" + ARENAS[k]].log = []
        if len(sub) == 4: i = st.fresh("i", 32); L.set("i", i); st.assume(z3.And(i >= 0, i <= st.ghost["s"])); ptrsw(L, xi(L))
        if len(sub) <= 1:
            k = which(L); b = st.regions["sp_" + ARENAS[k]].base; x = xi(L); p = st.fresh("p"); L.fr.allocs[L.inbody(n, "__p")] = simp(b + p); st.assume(z3.Extract(2, 0, p) == 0)
            if not sub: L.fr.allocs[L.inbody(n, "__q")] = simp(b + st.fresh("q"))
            NW(st, k, x); st.assume(z3.Implies(z3.And(p >= SW0[k](x), p < LIMF[k](x)), GENOF[k](p) == x))
            o = z3.Select(st.ghost["sp0"][k].arr, p); st.assume(z3.Implies(z3.And(p >= SW0[k](x), p < LIMF[k](x)), mdone(st, eng, k, p, (x, p)))); ptrfacts(st, o)
    def mods(L):
        sub = inner(L)
        if len(sub) >= 4: return ["sp_" + ARENAS[k] for k in WK] + ["arena_" + ARENAS[k] for k in SWK]
        return ["sp_" + ARENAS[which(L)]]
    return Loop(inv, mods=mods, setup=setup)
def ptrsw(L, x):
    """the sweep pointers of the generation at hand (instance of the invariant)"""
    st, eng = L.st, L.eng
    for k in SWK: m = msw(st, eng, k, x); st.assume(z3.And(z3.Extract(2, 0, m) == 0, m >= SW0[k](x), m <= NW(st, k, x)))
@G.fn(MJ, "MajorGC_SweepToSpace", None, args=stsargs, stubs=DIE, contracts={"MajorGC_ForwardObj": mfwd, "MajorGC_SweepToSpArrays": marr}, loops={("MajorGC_SweepToSpace", n): msweep(n) for n in range(6)}, msp=False, bound=0, limit=560)
def _(r):
    st, eng = r.st, r.eng
    r.prove(allswept(st, eng, XG), "all arenas of every swept generation are swept")
    for k in WK: s = st.fork_done(); s.assume(GENOF[k](QANY) == XG); s.assume(z3.And(QANY >= SW0[k](XG), QANY < NW(s, k, XG))); o = z3.Select(s.ghost["sp0"][k].arr, QANY); r.eng.prove(s, s.loadr(s.regions["sp_" + ARENAS[k]], QANY, 8) == after(s, o), r.name(f"every word of the {ARENAS[k]} arenas that referred to an object that moved refers to the copy, the others are unchanged"))
# --- roots and dirty cards
# array arena of generation g: words at offsets of the region "cells"; card map at offset g << 35 of "cards"
CSH = 35
CBASE, CTOP, NCARD = F64("array_base"), F64("array_top"), F64("number_of_cards")
AGEN = F64("generation_of_cell")
RCELL = CG.RCELL
def sract(g): return SZF[3](simp(g << ASH)) != 0
def hascards(g): return z3.Function("has_card_map", z3.BitVecSort(64), z3.BoolSort())(g)
def genfacts(st, g):
    b, t, n = CBASE(g), CTOP(g), NCARD(g)
    st.assume(z3.And(b & 255 == 0, t & 7 == 0, b >= 0, b <= t, t < 1 << 34, n >= 0, n < 1 << 26, t <= b + (n << 8)))
def cellfacts(st, q):
    """a cell of the array arena of generation AGEN(q) that is in use"""
    g = AGEN(q); genfacts(st, g); st.assume(z3.And(z3.Extract(2, 0, q) == 0, q >= 0, q < 1 << 34, g >= 0, g < 14)); o = z3.Select(st.ghost["cells0"].arr, q); ptrfacts(st, o)
    # what the heap invariants say of the old generations: a reference to a younger generation is recorded in the card
    m = gnum(st.ghost["maxAid"]); st.assume(z3.Implies(isfrom(st, o), tgen(st, o) <= m + 1) if not BIGFIX else z3.Implies(z3.And(isfrom(st, o), z3.Not(isbig(st, o))), tgen(st, o) <= m + 1))
    tg = z3.If(isbig(st, o), BOGEN(o), gnum(aid(st, o))); st.assume(z3.Implies(z3.And(boxed(o), isold(st, q), tg >= 1, tg <= g), z3.ULE(ccard(st, q, st.ghost["cards0"]), tg))); st.assume(z3.Implies(isbig(st, o), z3.And(BOGEN(o) >= gnum(aid(st, o)), BOGEN(o) <= 14)))
    st.assume(z3.Implies(boxed(o), z3.Or(aid(st, o) == 0xffff, gnum(aid(st, o)) >= 1)))
BIGFIX = False      # cells of arrays hold ML values: code objects are referred to from closures, which are records
def isold(st, q):
    g = AGEN(q); return z3.And(g >= z3.ZeroExt(32, st.ghost["m"]), g < z3.ZeroExt(32, st.ghost["ng"]), q >= CBASE(g), q < CTOP(g), sract(g), hascards(g))
def coff(st, g, c): return simp((g << CSH) + mapoff(st) + c)
def ccard(st, q, rg=None): g = AGEN(q); return z3.ZeroExt(56, st.loadr(rg or st.regions["cards"], coff(st, g, z3.LShR(q - CBASE(g), 8)), 1))
def dirty0(st, q): return z3.ULE(ccard(st, q, st.ghost["cards0"]), gnum(st.ghost["maxAid"]))
def finalgen(st, o): return z3.If(isfrom(st, o), tgen(st, o), z3.If(isbig(st, o), BOGEN(o), gnum(aid(st, o))))
def srargs(eng, st, A):
    hb = spaces(eng, st); bibop(eng, st); m, ng = z3.BitVec("maxCollected", 32), z3.BitVec("numGens", 32); st.assume(z3.And(m >= 1, m <= ng, ng <= 14)); st.ghost.update(maxAid=simp(z3.Extract(15, 0, (m << 12) | 0xfff)), m=m, ng=ng)
    h = st.regions["heapd"]; no = fo(eng, "heap", "numGens")[0]; h.fix = {**h.fix, no & ~7: simp(z3.ZeroExt(32, ng) << ((no & 7) * 8))} if no & 7 else {**h.fix, no: z3.ZeroExt(32, ng)}
    cb = st.region("cards", None, kind="heapd"); kb = st.region("cells", None, kind="gcold"); st.assume(z3.Extract(7, 0, kb) == 0); st.ghost["cells0"] = st.regions["cells"].copy()
    mo = fo(eng, "card_map_t", "map")[0]; st.ghost["mapoff"] = mo; bo, nc = fo(eng, "card_map_t", "baseAddr")[0], fo(eng, "card_map_t", "numCards")[0]; do = fo(eng, "generation", "dirty")[0]
    def cgen(s, off):
        x = splitoff(off, CSH)
        if x is None: return None
        g, d = simp(z3.LShR(x[0], CSH)), x[1]
        if d == bo: genfacts(s, g); return simp(kb + CBASE(g))
        if d == nc: genfacts(s, g); return NCARD(g)
    st.regions["cards"].gen = cgen; st.regions["cards"].writable = lambda off, size: z3.UGE(off & BV((1 << CSH) - 1), mo)
    st.ghost["cards0"] = st.regions["cards"].copy()
    og = st.regions["gens"].gen
    def ggen(s, off):
        x = splitoff(off, GSH)
        if x is not None and x[1] == do: g = simp(z3.LShR(x[0], GSH)); return z3.If(hascards(g), cb + (g << CSH), BV(0))
        return og(s, off)
    st.regions["gens"].gen = ggen
    oa = st.regions["arena_array"].gen
    def agen(s, off):
        x = splitoff(off, ASH)
        if x is not None and x[1] == AF(eng, "sweep_nextw"): g = simp(z3.LShR(x[0], ASH)); genfacts(s, g); return simp(kb + CTOP(g))
        return oa(s, off)
    st.regions["arena_array"].gen = agen; st.regions["arena_array"].writable = False
    n = z3.BitVec("nroots", 64); st.assume(z3.And(n >= 0, n < 1 << 20)); st.ghost["nroots"] = n
    rb = st.region("roots", simp(n * 8 + 8), kind="gcold", writable=False); st.regions["roots"].gen = CG.rootword; st.region("rootcells", None, kind="gcold"); st.ghost["roots0"] = st.regions["rootcells"].copy()
    st.assume(z3.And(JANY >= 0, JANY < n)); CG.rootword(st, simp(JANY * 8)); CG.rootword(st, BV(0)); st.assume(z3.And(z3.Extract(2, 0, XANY) == 0, z3.ULT(XANY, BV(1 << 34)))); ptrfacts(st, rorg(st, XANY)); ptrfacts(st, rorg(st, RCELL(JANY)))
    cellfacts(st, QANY); mb = st.region("mlstate", None, kind="heapd", writable=False)
    for q in (XANY, RCELL(JANY)): rootfacts(st, q)
    return [mb, hb, rb, m]
def rorg(st, x): return z3.Select(st.ghost["roots0"].arr, x)
def rootfacts(st, x):
    """the copy of an object is not in from-space (its page belongs to a to-space, which the collector does not meet in the roots twice)"""
    o = rorg(st, x); ptrfacts(st, o)
def rcell(st, x): return st.loadr(st.regions["rootcells"], x, 8)
def rdone(st, x): o = rorg(st, x); return rcell(st, x) == after(st, o)
def rany(st, x): w, o = rcell(st, x), rorg(st, x); return z3.Or(w == o, w == after(st, o))
RINV = F64("root_number")
def rinst(st, j): st.assume(RINV(RCELL(j)) == j); st.assume(z3.And(z3.Extract(2, 0, RCELL(j)) == 0, z3.ULT(RCELL(j), BV(1 << 34)))); ptrfacts(st, rorg(st, RCELL(j)))
def rootloop():
    def inv(L):
        st = L.st; n = st.ghost["nroots"]; i = BV(0) if L.phase == "entry" else st.ghost["i"] if L.phase == "assume" else simp(st.ghost["i"] + 1); x = RCELL(JANY); rinst(st, JANY)
        out = [("position", z3.And(i >= 0, i <= n)), ("next root", L.get("roots") == st.regions["roots"].base + i * 8), ("the roots so far are done, the others are as they were", z3.If(JANY < i, rdone(st, x), rcell(st, x) == rorg(st, x))), ("every word holds what it held, or its copy", rany(st, XANY))]
        if L.phase == "assume": out += [z3.Implies(i < n, rcell(st, RCELL(i)) == rorg(st, RCELL(i)))]
        return out
    def setup(L): st = L.st; i = st.fresh("i"); st.ghost["i"] = i; st.assume(z3.And(i >= 0, i <= st.ghost["nroots"])); L.set("roots", st.regions["roots"].base + i * 8); CG.rootword(st, simp(i * 8)); rinst(st, i); more(L.eng, st)
    return Loop(inv, mods=["rootcells"], setup=setup)
cidx = lambda q: z3.LShR(q - CBASE(AGEN(q)), 8)
def celldone(st, q, i, c, p):
    """cells of the generations below i, of the cards below c of generation i, and below p in card c"""
    g = AGEN(q); pr = z3.Or(g < i, z3.And(g == i, z3.Or(cidx(q) < c, z3.And(cidx(q) == c, q < p)))) if p is not None else z3.Or(g < i, z3.And(g == i, cidx(q) < c)); o = z3.Select(st.ghost["cells0"].arr, q)
    return st.loadr(st.regions["cells"], q, 8) == z3.If(z3.And(isold(st, q), dirty0(st, q), pr), after(st, o), o)
def carddone(st, q, i, c):
    g = AGEN(q); pr = z3.Or(g < i, z3.And(g == i, cidx(q) < c)); o = z3.Select(st.ghost["cells0"].arr, q); fg = finalgen(st, o)
    return z3.Implies(isold(st, q), z3.If(z3.And(dirty0(st, q), pr), z3.Implies(z3.And(boxed(o), aid(st, o) != 0xffff, fg <= g), z3.ULE(ccard(st, q), fg)), ccard(st, q) == ccard(st, q, st.ghost["cards0"])))
def srloop(depth):
    def at(L):
        i = z3.SignExt(32, L.get("i", 4)); c = z3.SignExt(32, L.get("card", 4)) if depth >= 1 else BV(0); return i, c
    def inv(L):
        st = L.st; i, c = at(L); m = z3.ZeroExt(32, st.ghost["m"]); ng = z3.ZeroExt(32, st.ghost["ng"]); p = None
        out = [("generation", z3.And(i >= m, i <= ng if depth == 0 else i < ng))]; genfacts(st, i)
        if depth >= 1: out += [("card", z3.And(c >= 0, c <= NCARD(i) if depth == 1 else c < NCARD(i))), ("this generation has cards", z3.And(hascards(i), sract(i)))]
        if depth == 2:
            b = st.regions["cells"].base; p, q_ = [simp(L.get(v) - b) for v in ("p", "q")]; mk_ = z3.SignExt(32, L.get("mark", 4)); lo = simp(CBASE(i) + (c << 8)); o = z3.Select(st.ghost["cells0"].arr, QANY)
            out += [("position", z3.And(z3.Extract(2, 0, p) == 0, z3.Extract(2, 0, q_) == 0, p >= lo, z3.Or(p <= q_, p == lo))), ("limit", q_ == z3.If(lo + 256 > CTOP(i), CTOP(i), lo + 256)),
                    ("the mark", z3.And(mk_ >= 1, mk_ <= i + 1, z3.Or(mk_ == i + 1, mk_ <= m + 1), z3.Implies(z3.And(AGEN(QANY) == i, cidx(QANY) == c, QANY < p, isold(st, QANY), isfrom(st, o)), mk_ <= tgen(st, o)))),
                    ("the card is dirty", z3.ULE(z3.ZeroExt(56, st.loadr(st.regions["cards"], coff(st, i, c), 1)), m))]
        out += [("the cells so far are done, the others are as they were", celldone(st, QANY, i, c, p)), ("the cards so far are done, the others are as they were", carddone(st, QANY, i, c))]
        return out
    def setup(L):
        st = L.st; more(L.eng, st)
        if depth == 0: i = st.fresh("i", 32); L.set("i", i); st.assume(z3.And(i >= 0, i <= 14)); genfacts(st, simp(z3.ZeroExt(32, i)))
        if depth == 1: c = st.fresh("card", 32); L.set("card", c); st.assume(z3.And(c >= 0, c < 1 << 30))
        if depth <= 1: st.nf += 1; st.regions["cards"].arr = z3.Const(f"mem_cards!{st.nf}", st.regions["cards"].arr.sort()); st.regions["cards"].log = []
        if depth == 2:
            b = st.regions["cells"].base; p = st.fresh("p"); L.set("p", b + p); i, c = at(L); st.assume(z3.Implies(z3.And(p >= CBASE(i), p < CTOP(i)), AGEN(p) == i)); cellfacts2(st, p); st.assume(celldone(st, p, i, c, p))
    return Loop(inv, mods=["cells", "cards"] if depth <= 1 else ["cells"], setup=setup)
def cellfacts2(st, p): st.assume(z3.Extract(2, 0, p) == 0); o = z3.Select(st.ghost["cells0"].arr, p); cellfacts(st, p)
@G.fn(MJ, "MajorGC_ScanRoots", None, args=srargs, stubs=DIE, contracts={"MajorGC_ForwardObj": mfwd, "MajorGC_ForwardBigObj": fbigc}, loops={("MajorGC_ScanRoots", 0): rootloop(), **{("MajorGC_ScanRoots", 1 + d): srloop(d) for d in range(3)}}, msp=False, bound=0, limit=400)
def _(r):
    st = r.st; o = z3.Select(st.ghost["cells0"].arr, QANY); g = AGEN(QANY); w = st.loadr(st.regions["cells"], QANY, 8)
    r.prove(z3.Implies(st.ghost["nroots"] > 0, rdone(st, RCELL(JANY))), "every root refers to the copy of its object"); r.prove(rany(st, XANY), "nothing else changes")
    r.prove(w == z3.If(z3.And(isold(st, QANY), dirty0(st, QANY)), after(st, o), o), "every cell of a dirty card of an older generation refers to the copy of its object; no other cell changes")
    r.prove(z3.Implies(z3.And(isold(st, QANY), boxed(o), aid(st, o) != 0xffff, finalgen(st, o) <= g), z3.ULE(ccard(st, QANY), finalgen(st, o))), "a cell that refers to a younger generation has its card marked")
# --- allocating and freeing big objects: descriptors at offsets x of "bodesc" (multiples of 64); the free list's head is the one at 0
INFREE = z3.Function("in_free_list", z3.BitVecSort(64), z3.BoolSort())
NXI, PVI = F64("next_free"), F64("prev_free")
F30 = lambda n: (lambda f: lambda x: simp(z3.ZeroExt(34, f(x))))(z3.Function(n, z3.BitVecSort(64), z3.BitVecSort(30)))
FPG, NPG = F30("first_page_of"), F30("pages_of")
SLK = z3.Function("bytes_of_last_page", z3.BitVecSort(64), z3.BitVecSort(10))
SZB = lambda x: simp(z3.Concat(z3.BitVecVal(0, 24), z3.Extract(29, 0, NPG(x)), SLK(x)) - 1023)      # 1 to 1024 bytes of its last page
def sizeof(x): return z3.If(INFREE(x), NPG(x) << 10, SZB(x))
dnext = lambda x: simp(NXI(simp(z3.LShR(x, 6))) << 6)
dprev = lambda x: simp(PVI(simp(z3.LShR(x, 6))) << 6)
PG = F64("descriptor_of_page"); PANY = z3.BitVec("any_page", 64); DANY = z3.BitVec("any_descriptor", 64)
pgdesc = lambda p: simp(PG(p) << 6)
def dfield(st, rg, x, f, eng, n=8):
    c = rg.copy()
    if f not in ("obj", "sizeB"): c.gen = None
    return st.loadr(c, simp(x + DF(eng, f)), n)
def freefacts(st, eng, x):
    """a member of the free list (or its head): its neighbours are as well; a free descriptor covers whole pages of its region"""
    for y in (dnext(x), dprev(x)): st.assume(z3.ULT(y, BV(1 << 36))); st.assume(z3.Implies(z3.Or(x == 0, INFREE(x)), z3.Or(y == 0, INFREE(y)))); st.assume(z3.Implies(INFREE(y), y != 0))
    st.assume(z3.Implies(z3.Or(x == 0, INFREE(x)), z3.And(dprev(dnext(x)) == x, dnext(dprev(x)) == x))); st.assume(z3.Implies(INFREE(x), z3.And(x != 0, dnext(x) != x, dprev(x) != x)))
    st.assume(z3.Implies(INFREE(x), z3.And(dfield(st, st.ghost["bodesc0"], x, "state", eng, 1) == 0, NPG(x) >= 1, FPG(x) + NPG(x) <= st.ghost["np"])))
    st.assume(NPG(x) >= 1)
def bolmodel(eng, st, region=True):
    bibop(eng, st); st.regions["bibop_l2"].writable = True
    rb = st.region("boregion", None, kind="heapd", writable=True); db = st.region("bodesc", None, kind="heapd", writable=True); hb = st.region("heapd", None, kind="heapd", writable=False)
    mb = st.region("memobj", None, kind="heapd", writable=False); msz = z3.BitVec("region_size", 64); st.assume(z3.And(msz & 0x3ffff == 0, z3.UGT(msz, 0), z3.ULT(msz, BV(1 << 41)))); st.ghost["msz"] = msz; st.regions["memobj"].fix = {fo(eng, "mem_obj_hdr", "sizeB")[0]: msz}
    st.assume(z3.And(z3.Extract(17, 0, rb) == 0, z3.ULT(rb, BV(1 << 46))))
    RF = lambda f: fo(eng, "bigobj_region", f)[0]; mo = RF("objMap"); st.ghost["mo"] = mo
    fp, np_, nf, mg = z3.BitVec("firstPage", 64), z3.BitVec("nPages", 32), z3.BitVec("nFree", 32), z3.BitVec("minGen", 32); st.assume(z3.And(fp & 1023 == 0, z3.ULT(fp, BV(1 << 46)), np_ >= 1, np_ < 1 << 30, nf >= 0, nf <= np_, mg >= 1, mg <= 14))
    w1 = {RF("nPages"): np_, RF("nFree"): nf, RF("minGen"): mg}; words = {}
    for o, v in w1.items(): words[o & ~7] = words.get(o & ~7, BV(0)) | (z3.ZeroExt(32, v) << ((o & 7) * 8))
    st.regions["boregion"].fix = {RF("firstPage"): fp, RF("memObj"): mb, **{o: simp(v) for o, v in words.items()}}
    def rgen(s, off): return None if num(off) is not None and num(off) < mo else simp(db + pgdesc(simp(z3.LShR(off - mo, 3))))
    st.regions["boregion"].gen = rgen
    st.ghost.update(fp=fp, np=z3.ZeroExt(32, np_), nf0=nf, mg0=mg)
    N_, P_, R_ = DF(eng, "next"), DF(eng, "prev"), DF(eng, "region")
    def dgen(s, off):
        x = splitoff(off, 6)
        if x is None: return None
        if x[1] == N_: return simp(db + dnext(x[0]))
        if x[1] == P_: return simp(db + dprev(x[0]))
        if num(x[0]) == 0: return None
        if x[1] == R_: return rb
        if x[1] == DF(eng, "obj"): return simp(fp + (FPG(x[0]) << 10))
        if x[1] == DF(eng, "sizeB"): return sizeof(x[0])
    st.regions["bodesc"].gen = dgen; st.regions["heapd"].fix = {fo(eng, "heap", "freeBigObjs")[0]: db}
    st.ghost.update(bodesc0=st.regions["bodesc"].copy(), boregion0=st.regions["boregion"].copy(), l20=st.regions["bibop_l2"].copy()); freefacts(st, eng, BV(0))
    st.assume(z3.And(DANY & 63 == 0, z3.ULT(DANY, BV(1 << 36)), z3.ULT(PANY, st.ghost["np"])))
    return hb, rb, db
def s_newdesc(x):
    st = x.st; x.require(z3.UGE(x.args[0], fo(x.eng, "bigobj_desc", "next")[0] + 8), "room for a descriptor"); st.nf += 1; lab = "newdesc" if "newdesc" not in st.regions else f"newdesc{st.nf}"; b = st.region(lab, x.args[0], kind="heapd"); return b
def s_markregion(x): x.require(x.args[0] == x.st.regions["bibop_l1"].base, "the page table"); x.event()
def rgfield(r, f, rg=None): return r.st.loadr(rg or r.st.regions["boregion"], fo(r.eng, "bigobj_region", f)[0], 4)
def page(r, p, rg=None): c = (rg or r.st.regions["boregion"]).copy(); return r.st.loadr(c, simp(r.st.ghost["mo"] + (p << 3)), 8)
def boaargs(eng, st, A):
    hb, rb, db = bolmodel(eng, st); g, n = z3.BitVec("gen", 32), z3.BitVec("size", 64); st.assume(z3.And(g >= 1, g <= 14, z3.UGE(n, 1), z3.ULT(n, BV(1 << 38)))); st.ghost.update(g=g, n=n, tot=simp((n + 1023) & ~BV(1023)))
    return [hb, g, n]
def boaloop(L):
    st = L.st; x = simp(L.get("dp") - st.regions["bodesc"].base); st.ghost["dp"] = x
    return [("a member of the free list, or its head", z3.Or(x == 0, INFREE(x)))]
def boasetup(L): st = L.st; i = st.fresh("i"); st.assume(z3.ULT(i, BV(1 << 30))); x = simp(i << 6); L.set("dp", st.regions["bodesc"].base + x); freefacts(st, L.eng, x); freefacts(st, L.eng, dnext(x)); st.ghost["dp"] = x
def s_allocregion(x):
    """a new region with one free descriptor, which is in no list"""
    st = x.st; i = st.fresh("newreg"); st.assume(z3.ULT(i, BV(1 << 30))); y = simp(i << 6); st.assume(z3.And(y != 0, z3.Not(INFREE(y)))); x.require(x.args[1] == st.ghost["tot"], "for the pages of the object"); d0 = st.regions["bodesc"]
    s = dfield(st, d0, y, "sizeB", x.eng); o = dfield(st, d0, y, "obj", x.eng)
    st.assume(z3.And(NPG(y) == st.ghost["np"], sizeof(y) == NPG(y) << 10, z3.UGE(s, x.args[1]), st.ghost["nf0"] == z3.Extract(31, 0, st.ghost["np"]), st.ghost["mg0"] == 14, FPG(y) == 0, dfield(st, d0, y, "state", x.eng, 1) == 0))
    st.ghost["dp"] = y; st.ghost["newregion"] = True; x.event(); return simp(st.regions["bodesc"].base + y)
def alloc_fill(L):
    st = L.st; i = z3.SignExt(32, L.get("i", 4)); a = z3.SignExt(32, L.get("firstPage", 4)); n = z3.LShR(st.ghost["tot"], 10); rg = st.regions["boregion"]
    w = st.loadr(rg, simp(st.ghost["mo"] + (PANY << 3)), 8)
    return [("position", z3.And(i >= 0, i <= n)), ("the first page of the free block", a == FPG(st.ghost["dp"])), ("the pages so far are set, the others are as they were", w == z3.If(z3.And(PANY >= a, PANY < a + i), L.get("newDesc"), st.loadr(st.ghost["boregion0"], simp(st.ghost["mo"] + (PANY << 3)), 8)))]
FILLM = lambda L: [("boregion", L.st.ghost["mo"], 1 << 34)]
def boapost(r):
    st = r.st; eng = r.eng; db, rb = st.regions["bodesc"].base, st.regions["boregion"].base; x = st.ghost["dp"]; d0 = st.ghost["bodesc0"]; D = st.regions["bodesc"]; tot, n, g = st.ghost["tot"], st.ghost["n"], st.ghost["g"]; new = st.ghost.get("newregion")
    o0, s0 = dfield(st, d0, x, "obj", eng), dfield(st, d0, x, "sizeB", eng)
    whole = r.case(s0 == tot)
    if whole: r.eq(r.ret, db + x, "a free block of the object's size is used as it is"); nd, no = D, x
    else:
        if "newdesc" not in st.regions: r.fail("a block that is larger is split"); return
        nd, no = st.regions["newdesc"], 0; r.eq(r.ret, nd.base, "a larger free block is split")
    f = lambda nm, k=8: st.loadr(nd, simp(bvof(no) + DF(eng, nm)), k)
    r.eq(f("obj"), o0, "the object is at the start of the free block"); r.eq(f("sizeB"), n, "its size"); r.eq(f("state", 1), 1, "it is young"); r.eq(f("gen", 1), z3.Extract(7, 0, g), "its generation"); r.eq(f("region"), rb, "its region")
    r.eq(rgfield(r, "nFree"), st.ghost["nf0"] - z3.Extract(31, 0, z3.LShR(tot, 10)), "the region's free pages"); r.eq(rgfield(r, "nPages"), z3.Extract(31, 0, st.ghost["np"]), "the region's pages")
    lower = r.case(st.ghost["mg0"] > g); ev = r.calls("MarkRegion"); r.eq(rgfield(r, "minGen"), z3.If(lower, g, st.ghost["mg0"]) if not isinstance(lower, bool) else (g if lower else st.ghost["mg0"]), "the region's youngest generation")
    a2 = simp(z3.Extract(15, 0, (g << 12) | 0x800))
    if lower:
        if len(ev) != 1: r.fail("the region's pages are marked once"); return
        r.eq(ev[0].args[1], rb, "the pages of the region are marked"); r.eq(ev[0].args[2], st.ghost["msz"], "all of them"); r.eq(ev[0].args[3], a2, "with the new generation"); r.eq(aid(st, rb), a2 | 1, "its first page as the header")
    else:
        am = simp(z3.Extract(15, 0, (st.ghost["mg0"] << 12) | 0x800))
        for e in ev: r.eq(e.args[1], rb, "the pages of the region are marked"); r.eq(e.args[2], st.ghost["msz"], "all of them"); r.eq(e.args[3], am, "with its generation"); r.eq(aid(st, rb), am | 1, "its first page as the header")
    s = st.fork_done(); first = FPG(x); w0 = s.loadr(s.ghost["boregion0"], simp(s.ghost["mo"] + (PANY << 3)), 8); s.assume(z3.Implies(z3.And(PANY >= first, PANY < first + z3.LShR(s0, 10)), w0 == db + x))
    r.eng.prove(s, s.loadr(s.regions["boregion"], simp(s.ghost["mo"] + (PANY << 3)), 8) == z3.If(z3.And(PANY >= first, PANY < first + z3.LShR(tot, 10)), r.ret, w0), r.name("the object's pages map to its descriptor, the others as before"))
    if not whole:
        r.eq(dfield(st, D, x, "obj", eng), o0 + tot, "the rest of the block stays free"); r.eq(dfield(st, D, x, "sizeB", eng), s0 - tot, "size of the rest"); r.eq(dfield(st, D, x, "state", eng, 1), 0, "the rest is free")
    # the free list
    s = st.fork_done(); y = DANY; nx, pv = dfield(s, D, y, "next", eng), dfield(s, D, y, "prev", eng); on, op = db + dnext(y), db + dprev(y); freefacts(s, eng, y); freefacts(s, eng, x); freefacts(s, eng, dnext(x)); freefacts(s, eng, dprev(x)); freefacts(s, eng, dnext(BV(0))); s.assume(z3.And(z3.Or(y == 0, INFREE(y)), y != x)); 
    for nm, o in (("next", on), ("prev", op)): s.assume(dfield(s, s.ghost["bodesc0"], y, nm, eng) == o)
    if whole and not new: en, ep = z3.If(y == dprev(x), db + dnext(x), on), z3.If(y == dnext(x), db + dprev(x), op)
    elif not whole and new: en, ep = z3.If(y == 0, db + x, on), z3.If(y == dnext(BV(0)), db + x, op)
    else: en, ep = on, op
    if not whole and not new:
        for nm, o in (("next", dnext(x)), ("prev", dprev(x))): s.assume(dfield(s, s.ghost["bodesc0"], x, nm, eng) == db + o); r.eng.prove(s, dfield(s, D, x, nm, eng) == db + o, r.name("the rest keeps its place in the free list"))
    if not whole and new: r.eng.prove(s, z3.And(dfield(s, D, x, "next", eng) == db + dnext(BV(0)), dfield(s, D, x, "prev", eng) == db), r.name("the rest of a new region enters the free list"))
    r.eng.prove(s, z3.And(nx == en, pv == ep), r.name("the free list has the same members otherwise"))
    # nothing else of any descriptor
    s = st.fork_done(); s.assume(z3.And(y != x)); 
    for nm, k in (("obj", 8), ("sizeB", 8), ("state", 1), ("gen", 1), ("objc", 1)): r.eng.prove(s, dfield(s, D, y, nm, eng, k) == dfield(s, s.ghost["bodesc0"], y, nm, eng, k), r.name("no other descriptor changes"))
G.add(BO, "BO_Alloc", None, boapost, args=boaargs, stubs={**DIE, "malloc": s_newdesc}, contracts={"BO_AllocRegion": s_allocregion, "MarkRegion": s_markregion}, loops={("BO_Alloc", 0): Loop(boaloop, setup=boasetup), ("BO_Alloc", 1): Loop(alloc_fill, mods=FILLM), ("BO_Alloc", 2): Loop(alloc_fill, mods=FILLM)}, msp=False, bound=0)
def pagefacts(st, eng, p):
    """the map of a region: the descriptor of a page covers it"""
    y = pgdesc(p); d0 = st.ghost["bodesc0"]; st.assume(z3.And(z3.ULT(PG(p), BV(1 << 30)), y != 0)); freefacts(st, eng, y); n = NPG(y)
    st.assume(z3.Implies(z3.And(p >= 0, p < st.ghost["np"]), z3.And(INFREE(y) == (dfield(st, d0, y, "state", eng, 1) == 0), FPG(y) <= p, p < FPG(y) + n, FPG(y) >= 0)))
def covers(st, eng, x, p):
    """every page of a descriptor's object maps to it"""
    n = NPG(x); st.assume(z3.Implies(z3.And(p >= FPG(x), p < FPG(x) + n), pgdesc(p) == x))
def bofargs(eng, st, A):
    hb, rb, db = bolmodel(eng, st); i = z3.BitVec("desc", 64); st.assume(z3.ULT(i, BV(1 << 30))); x = simp(i << 6); d0 = st.ghost["bodesc0"]; f = FPG(x); n = NPG(x); l = simp(f + n); freefacts(st, eng, x)
    st.assume(z3.And(x != 0, z3.Not(INFREE(x)), dfield(st, d0, x, "state", eng, 1) != 0, l <= st.ghost["np"]))
    p1, p2 = simp(f - 1), l
    for p in (p1, p2, PANY): pagefacts(st, eng, p)
    d1, d2 = pgdesc(p1), pgdesc(p2); c1, c2 = z3.And(f > 0, INFREE(d1)), z3.And(l < st.ghost["np"], INFREE(d2))
    for p in (p1, p2, f, simp(l - 1), PANY):
        for y in (x, d1, d2): covers(st, eng, y, p)
    for y in (d1, d2): freefacts(st, eng, dnext(y)); freefacts(st, eng, dprev(y)); freefacts(st, eng, dnext(dnext(y))); freefacts(st, eng, dprev(dprev(y)))
    for y in (dnext(BV(0)), dprev(BV(0)), dnext(dnext(BV(0))), dnext(dnext(dnext(BV(0))))): freefacts(st, eng, y)
    st.ghost.update(x=x, f=f, l=l, d1=d1, d2=d2, c1=c1, c2=c2); k = st.ghost["joins"]; st.assume(z3.And(c1 if k & 1 else z3.Not(c1), c2 if k & 2 else z3.Not(c2)))
    for c, what in [(f == FPG(d1) + NPG(d1), "the block below ends where the object starts")] * (k & 1) + [(FPG(d2) == l, "the block above starts where the object ends")] * (k >> 1) + [(z3.And(d1 != d2, d1 != x, d2 != x), "the three are different")] * (k == 3): eng.prove(st, c, "lemma: " + what); st.assume(c)
    return [hb, simp(db + x)]
def bofill(k):
    def inv(L):
        st = L.st; i = z3.SignExt(32, L.get("i", 4)); g = st.ghost; w = st.loadr(st.regions["boregion"], simp(g["mo"] + (PANY << 3)), 8)
        lo, hi = (FPG(g["d1"]), g["f"]) if k == 0 else (g["l"], simp(g["l"] + NPG(g["d2"])))
        if L.phase == "entry": g["fill0"] = w
        return [("position", z3.And(i >= lo, i <= hi)), ("the pages so far are set, the others are as they were", w == z3.If(z3.And(PANY >= lo, PANY < i), st.regions["bodesc"].base + g["x"], g["fill0"]))]
    def setup(L): st = L.st; g = st.ghost; st.setw(st.regions["boregion"], simp(g["mo"] + (g["l"] << 3)), simp(st.regions["bodesc"].base + g["d2"]))      # the page above is as it was (instance of the invariant)
    return Loop(inv, mods=FILLM, setup=setup if k == 0 else None)
def bofpost(r):
    st = r.st; eng = r.eng; g = st.ghost; db = st.regions["bodesc"].base; D, d0 = st.regions["bodesc"], g["bodesc0"]; x, d1, d2 = g["x"], g["d1"], g["d2"]; c1, c2 = r.case(g["c1"]), r.case(g["c2"])
    lo = FPG(d1) if c1 else g["f"]; hi = simp(g["l"] + NPG(d2)) if c2 else g["l"]
    r.eq(dfield(st, D, x, "obj", eng), g["fp"] + (lo << 10), "the free block starts with the free block below it, if any"); r.eq(dfield(st, D, x, "sizeB", eng), (hi - lo) << 10, "it ends with the free block above it, if any"); r.eq(dfield(st, D, x, "state", eng, 1), 0, "it is free")
    r.eq(st.loadr(D, simp(x + DF(eng, "region")), 8), st.regions["boregion"].base, "its region"); r.eq(rgfield(r, "nFree"), g["nf0"] + z3.Extract(31, 0, g["l"] - g["f"]), "the region's free pages"); r.eq(rgfield(r, "nPages"), z3.Extract(31, 0, g["np"]), "the region's pages"); r.eq(rgfield(r, "minGen"), g["mg0"], "the region's generation")
    w0 = st.loadr(g["boregion0"], simp(g["mo"] + (PANY << 3)), 8); r.eq(st.loadr(st.regions["boregion"], simp(g["mo"] + (PANY << 3)), 8), z3.If(z3.And(PANY >= lo, PANY < hi), db + x, w0), "the pages of the free block map to its descriptor, the others as before")
    gone = [y for c, y in ((c1, d1), (c2, d2)) if c]; fr = r.calls("free")
    if len(fr) != len(gone): r.fail("the descriptors of the blocks that were joined are freed, and no others"); return
    r.prove(z3.And(*[z3.Or(*[e.args[0] == db + y for e in fr]) for y in gone]) if gone else z3.BoolVal(True), "the descriptors of the blocks that were joined are freed, and no others")
    s = st.fork_done(); y = DANY; s.assume(z3.And(z3.Or(y == 0, INFREE(y)), *[y != z for z in gone])); freefacts(s, eng, y)
    for z in (dnext(y), dprev(y)): freefacts(s, eng, z)
    for z in (dnext(dnext(y)), dprev(dprev(y))): freefacts(s, eng, z)
    def skip(z, f):
        for _ in gone: z = z3.If(z3.Or(*[z == q for q in gone]), f(z), z)
        return z
    for nm, f in (("next", dnext), ("prev", dprev)):
        for z in (y, d1, d2, BV(0)): s.assume(dfield(s, d0, z, nm, eng) == db + f(z))
    en, ep = skip(dnext(y), dnext), skip(dprev(y), dprev)
    r.eng.prove(s, dfield(s, D, y, "next", eng) == db + z3.If(y == 0, x, en), r.name("the free list: the block is first, the joined blocks are out, the others follow in order"))
    r.eng.prove(s, dfield(s, D, y, "prev", eng) == db + z3.If(ep == 0, x, ep), r.name("the free list backwards"))
    r.eng.prove(s, z3.And(dfield(s, D, x, "next", eng) == db + skip(dnext(BV(0)), dnext), dfield(s, D, x, "prev", eng) == db), r.name("the block's place in the free list"))
    s = st.fork_done(); s.assume(z3.And(y != x))
    for nm, k in (("obj", 8), ("sizeB", 8), ("state", 1), ("gen", 1), ("objc", 1)): r.eng.prove(s, z3.Or(*[y == z for z in gone], dfield(s, D, y, nm, eng, k) == dfield(s, d0, y, nm, eng, k)), r.name("no other descriptor changes"))
for k in range(4):
    G.add(BO, "BO_Free", None, bofpost, args=(lambda eng, st, A, k=k: (st.ghost.update(joins=k), bofargs(eng, st, A))[1]), stubs={**DIE, "free": lambda x: x.event()}, loops={("BO_Free", j): bofill(j) for j in range(2)}, msp=False, bound=0, limit=300 if k < 3 else 500)
