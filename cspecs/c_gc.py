"""The minor collector: every object of the allocation area that is reachable is copied, once, whole, to the right arena; every root, every updated cell and every copied word that pointed to it points to the copy."""
from mlspec import *
from ctables import *
import c_objects as CO
from c_objects import fo, newto, aid, bibop, ARENAS, mk, s64, lo32, objc
G = Group("gc")
MG = "gc/minor-gc.c"
DFWD = 2 | (0x1f << 2)
tagof = lambda d: z3.Extract(6, 2, d)
lenof = lambda d: z3.LShR(d, 7)
RECTAG, VEC, ARR, ADATA, RAW, RAW64, SPECIAL, FWD = 0, 1, 2, 3, 4, 5, 6, 0x1f
def gen1model(eng, st):
    """the first generation: each arena has room for what may be copied (an allocation area)"""
    hs = st.region("heapd", None, kind="heapd"); g = st.region("gen1", None, kind="heapd", writable=False)
    al = z3.BitVec("allocSzB", 64); st.assume(z3.And(z3.UGE(al, 128 * 1024), z3.ULT(al, BV(1 << 34)), z3.Extract(2, 0, al) == 0)); st.ghost["allocSzB"] = al
    st.regions["heapd"].fix = {fo(eng, "heap", "gen")[0]: g, fo(eng, "heap", "allocSzB")[0]: al}
    ga = fo(eng, "generation", "arena")[0]; fx = {fo(eng, "generation", "heap")[0]: hs}
    for k, nm in enumerate(ARENAS):
        fx[ga + 8 * k] = st.region("arena_" + nm, None, kind="heapd"); newto(eng, st, k)
    st.regions["gen1"].fix = fx
    st.ghost["at0"] = {l: r.copy() for l, r in st.regions.items()}
def objmodel(st, tags):
    """an object v of the allocation area: descriptor d, fields; its size is that of its kind"""
    d = z3.BitVec("desc", 64); v0 = z3.BitVec("first", 64)
    st.assume(z3.Extract(1, 0, d) == 2); st.assume(z3.Or(*[tagof(d) == t for t in tags]))
    n = lenof(d); st.assume(z3.Implies(z3.Or(*[tagof(d) == t for t in (RECTAG, ADATA, RAW, RAW64)]), z3.And(n >= 1, n < 1 << 31)))
    words = simp(z3.If(z3.Or(tagof(d) == VEC, tagof(d) == ARR), BV(2), z3.If(z3.Or(tagof(d) == SPECIAL, tagof(d) == FWD), BV(1), n)))
    b = st.region("obj", simp(words * 8), kind="gcold", lo=-8, writable=lambda off, size: z3.Or(off == 0, off == -8))
    st.regions["obj"].fix = {-8: d}
    st.ghost.update(desc=d, words=words, obj0=st.regions["obj"].copy())
    return b
def room(st, words, *ks):
    """the arenas have room for the object"""
    for k in ks: st.assume(z3.UGE(st.ghost["to"][k][1], words * 8 + 8))
def fwdargs(tags):
    def args(eng, st, A):
        gen1model(eng, st); b = objmodel(st, tags); room(st, st.ghost["words"], 0, 1, 2, 3)
        return [st.regions["gen1"].base, b]
    return args
QANY = z3.BitVec("word", 64)      # an arbitrary word of the object: what is proved of it is proved of all
def copyinv(fn, words, obj="obj"):
    """COPYLOOP: m groups of four words are still to be copied"""
    def cnt(L): m = L.get("__m", 8); ln = L.get("__len", 8); return s64(ln) - s64(m) * 4
    def pos(L): o, off = L.st.resolve(L.get("new_obj")); return o.label, bvof(off)
    def inv(L):
        st = L.st; m = L.get("__m", 8); ln = L.get("__len", 8); c = cnt(L); lab, o = pos(L); n = words(L)
        out = [("groups left", z3.And(m >= 0, s64(m) <= z3.LShR(s64(ln), 2))), ("the length", s64(ln) == n), ("source", L.get("__src") == L.get(obj) + c * 8), ("destination", L.get("__dst") == L.get("new_obj") + c * 8)]
        q = QANY; lab_, w = lab, st.loadr(st.regions[lab], simp(o + q * 8), 8)
        return out + [("the words so far are copied", z3.Implies(z3.And(q >= 0, q < c), w == z3.Select(st.regions["obj"].arr, q * 8)))]
    def setup(L):
        st = L.st; c = simp(cnt(L)); L.set("__src", L.get(obj) + c * 8); L.set("__dst", L.get("new_obj") + c * 8)
    def mods(L): lab, o = pos(L); return [(lab, o, simp(o + words(L) * 8))]
    return Loop(inv, mods=mods, setup=setup)
W = lambda L: L.st.ghost["words"]
def arena(r, k, f): return CO.arena(r, k, f)
def others(r, ks):
    for j in range(4):
        if j not in ks: r.eq(arena(r, j, "nextw"), r.st.regions[r.st.ghost["to"][j][0]].base, f"the {ARENAS[j]} arena is not changed")
def forwarded(r, new):
    st = r.st; o = st.regions["obj"]
    r.eq(st.loadr(o, -8, 8), DFWD, "the old object is marked as forwarded"); r.eq(st.loadr(o, 0, 8), new, "it points to the copy"); r.eq(r.ret, new, "result: the copy")
def samewords(r, lab, off, n):
    st = r.st; q = QANY; s = st.fork_done(); s.assume(z3.And(q >= 0, q < n)); w = s.loadr(s.regions[lab], simp(bvof(off) + q * 8), 8)
    r.eng.prove(s, w == s.loadr(s.ghost["obj0"], simp(q * 8), 8), r.name("every word of the object is copied"))
def copypost(r):
    st = r.st; d = st.ghost["desc"]; n = st.ghost["words"]
    if r.case(tagof(d) == FWD):
        r.eq(r.ret, st.loadr(st.ghost["obj0"], 0, 8), "an object that was copied before: its copy"); others(r, ()); return
    k = 0 if r.case(z3.Or(tagof(d) == VEC, tagof(d) == ARR)) else 3 if r.case(tagof(d) == ADATA) else 2 if r.case(z3.Or(tagof(d) == RAW, tagof(d) == RAW64)) else 1 if r.case(n == 2) else 0
    lab = st.ghost["to"][k][0]; b = st.regions[lab].base; h = 0 if k == 1 else 8
    forwarded(r, simp(b + h))
    if k != 1: r.eq(st.loadr(st.regions[lab], 0, 8), d, "descriptor of the copy")
    r.eq(arena(r, k, "nextw"), simp(b + h + n * 8), f"the {ARENAS[k]} arena's pointer moves past the copy")
    r.prove(z3.ULE(h + n * 8, st.ghost["to"][k][1]), "the copy lies inside the arena")
    samewords(r, lab, h, n); others(r, (k,))
    for f in ("tospTop", "sweep_nextw"): r.eq(arena(r, k, f), st.loadr(st.ghost["at0"]["arena_" + ARENAS[k]], fo(r.eng, "arena", f)[0], 8), f"the arena's {f} stays")
DIE = {"Die": lambda x: dead(x)}
def dead(x):
    """the collector stops the program: never on a heap that is as it should be"""
    x.require(z3.BoolVal(False), "the program is not stopped"); raise Dead()
for tags in ((RECTAG,), (VEC, ARR), (ADATA,), (RAW, RAW64), (FWD,)):
    G.add(MG, "MinorGC_ForwardObj", None, copypost, args=fwdargs(tags), stubs=DIE, loops={("MinorGC_ForwardObj", 0): copyinv("MinorGC_ForwardObj", W)}, bound=3, msp=False)
# --- special objects: suspensions and weak pointers
def spclargs(eng, st, A):
    a = fwdargs((SPECIAL,))(eng, st, A); bibop(eng, st)
    t = st.region("target", None, kind="gcold", lo=-8, writable=False); isp = z3.Bool("weak_to_object"); u = z3.BitVec("unboxed", 64); st.assume(z3.Extract(0, 0, u) == 1)
    td = z3.BitVec("target_desc", 64); st.regions["target"].fix = {-8: td}
    o = st.regions["obj"]; d = st.ghost["desc"]; st.assume(z3.ULE(lenof(d), BV(2)))
    o.fix = {**o.fix, 0: simp(z3.If(isp, t, u))}; st.ghost["obj0"] = o.copy()
    h = st.regions["heapd"]; wl = z3.BitVec("weakList0", 64); st.assume(z3.Extract(2, 0, wl) == 0); h.fix = {**h.fix, fo(eng, "heap", "weakList")[0]: wl}
    return a
def weaklist(r): return r.st.loadr(r.st.regions["heapd"], fo(r.eng, "heap", "weakList")[0], 8)
def spcl(r, lab, at0, from_space):
    """the copy of a special object at offset at0 of lab; from_space(r): the object the weak pointer refers to may die in this collection"""
    st = r.st; d = st.ghost["desc"]; b = st.regions[lab].base; v = st.loadr(st.ghost["obj0"], 0, 8); wl = z3.BitVec("weakList0", 64)
    w0, w1 = st.loadr(st.regions[lab], at0, 8), st.loadr(st.regions[lab], at0 + 8, 8)
    forwarded(r, simp(b + at0 + 8))
    if r.case(z3.And(lenof(d) == 2, z3.Bool("weak_to_object"))) and from_space(r):
        r.eq(w0, wl | 1, "a weak pointer whose object has not been copied: linked into the list of weak pointers"); r.eq(weaklist(r), simp(b + at0), "it is first in the list")
        r.eq(w1, v | 1, "its object, marked so that it is not followed")
    else:
        r.eq(w0, d, "descriptor of the copy"); r.prove(z3.Or(w1 == v, z3.And(z3.Bool("weak_to_object"), copied(r, w1))), "contents of the copy"); r.eq(weaklist(r), wl, "the list of weak pointers is not changed")
def copied(r, w1):
    """w1 is the copy of the weak pointer's object, which was copied before"""
    t = r.st.regions["target"]; return z3.And(aid(r.st, t.base) == 0, r.st.loadr(t, -8, 8) == DFWD, w1 == r.st.loadr(t, 0, 8))
def spclpost(r):
    st = r.st; k = 3; lab = st.ghost["to"][k][0]; t = st.regions["target"]
    def fs(r): return r.case(aid(r.st, t.base) == 0) and not r.case(r.st.loadr(t, -8, 8) == DFWD)
    spcl(r, lab, 0, fs)
    r.eq(arena(r, k, "nextw"), simp(st.regions[lab].base + 16), "the array arena's pointer moves past the copy"); others(r, (3,))
G.add(MG, "MinorGC_ForwardObj", None, spclpost, args=spclargs, stubs=DIE, loops={("MinorGC_ForwardObj", 0): copyinv("MinorGC_ForwardObj", W)}, msp=False)
# --- weak pointers after the collection
GU = "gc/gc-util.c"
JANY = z3.BitVec("node", 64)      # an arbitrary element of a list
F64 = lambda nm: z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(64))
POS, INV, TGT = F64("node_at"), F64("node_of"), F64("target_of")
def nodefacts(st, j):
    """list nodes are two words, at different places"""
    p = POS(j); st.assume(z3.And(z3.Extract(2, 0, p) == 0, z3.ULT(p, BV(1 << 34)), INV(p) == 2 * j, INV(p + 8) == 2 * j + 1, z3.ULT(j, BV(1 << 40)) == z3.ULT(j, BV(1 << 40))))
    t = TGT(j); st.assume(z3.And(z3.Extract(2, 0, t) == 0, z3.ULT(t, BV(1 << 34))))
    if "targets" in st.regions: st.assume(z3.ULE(objc(st, simp(st.regions["targets"].base + t)), 4))      # weak pointers to code objects do not exist
def weakargs(eng, st, A):
    bibop(eng, st); hb = st.region("heapd", None, kind="heapd"); nb = st.region("nodes", None, kind="gcnew"); st.region("targets", None, kind="gcold", lo=-8, writable=False)
    n = z3.BitVec("nodes_n", 64); st.assume(z3.And(n >= 0, n < 1 << 40)); st.ghost["n"] = n
    for j in (BV(0), JANY): nodefacts(st, j)
    st.assume(z3.And(JANY >= 0, JANY < n))
    st.regions["heapd"].fix = {fo(eng, "heap", "weakList")[0]: simp(z3.If(n == 0, BV(0), nb + POS(BV(0))))}
    st.regions["nodes"].gen = nodeword
    return [hb]
def app1(t, f): return z3.is_app(t) and t.decl().eq(f) and t.arg(0)
def nodeword(st, off):
    """node j as the collection left it: link to the next node and its object, both marked"""
    n, b, t = st.ghost["n"], st.regions["nodes"].base, st.regions["targets"].base
    for x, k in ((off, 0), (simp(off - 8), 1)):
        if app1(x, POS) is False: continue
        j = x.arg(0); nodefacts(st, j); nodefacts(st, simp(j + 1))
        return z3.If(j + 1 == n, BV(0), b + POS(simp(j + 1))) | 1 if k == 0 else (t + TGT(j)) | 1
def weakdone(st, j, w0, w1):
    """what becomes of node j: its object was copied (then it refers to the copy) or is gone"""
    t = st.regions["targets"]; a = simp(t.base + TGT(j)); c = objc(st, a)
    d = st.loadr(t, simp(TGT(j) - 8), 8); f = st.loadr(t, TGT(j), 8)
    live = z3.If(c == 2, z3.Extract(1, 0, f) == 2, d == DFWD); new = z3.If(c == 2, f ^ 2, f)
    return z3.Implies(z3.ULE(c, 4), z3.If(live, z3.And(w0 == mk(2, "special"), w1 == new), z3.And(w0 == mk(3, "special"), w1 == 1)))
def weakinv(L):
    st = L.st; n = st.ghost["n"]; b = st.regions["nodes"].base
    if L.phase == "entry": i = BV(0)
    elif L.phase == "assume": i = st.ghost["i"]
    else: i = simp(st.ghost["i"] + 1)
    rg = st.regions["nodes"]
    def node(j): return st.loadr(rg, POS(j), 8), st.loadr(rg, simp(POS(j) + 8), 8)
    def inst(j):
        w0, w1 = node(j); o0, o1 = st.loadr(st.ghost["nodes0"], POS(j), 8), st.loadr(st.ghost["nodes0"], simp(POS(j) + 8), 8)
        return z3.If(j < i, weakdone(st, j, w0, w1), z3.And(w0 == o0, w1 == o1))
    out = [("position in the list", z3.And(i >= 0, i <= n)), ("next node", L.get("p") == z3.If(i == n, BV(0), b + POS(i)))]
    if L.phase == "assume":
        out += [z3.Implies(i < n, inst(i))]
    return out + [("every node so far is updated, the others are not", inst(JANY))]
def weaksetup(L):
    st = L.st; i = st.fresh("i"); st.ghost["i"] = i; st.assume(z3.And(i >= 0, i <= st.ghost["n"])); b = st.regions["nodes"].base
    nodefacts(st, i)
    for k in (0, 8): st.setw(st.regions["nodes"], simp(POS(i) + k), st.loadr(st.ghost["nodes0"], simp(POS(i) + k), 8))      # node i is as it was (instance of the invariant)
    L.set("p", z3.If(i == st.ghost["n"], BV(0), b + POS(i)))
def weakpre(eng, st, A): st.ghost["nodes0"] = st.regions["nodes"].copy()
def weakpost(r):
    st = r.st; rg = st.regions["nodes"]; j = JANY
    r.prove(weakdone(st, j, st.loadr(rg, POS(j), 8), st.loadr(rg, simp(POS(j) + 8), 8)), "every weak pointer refers to the copy of its object, or to nothing when it was not copied")
    r.eq(weaklist(r), 0, "the list of weak pointers is empty")
G.add(GU, "ScanWeakPtrs", None, weakpost, args=weakargs, pre=weakpre, stubs=DIE, loops={"ScanWeakPtrs": Loop(weakinv, mods=["nodes"], setup=weaksetup, dec=lambda L: simp(L.st.ghost["n"] - L.st.ghost["i"] - (1 if L.phase == "kept" else 0)))}, msp=False, bound=0)
# --- the store list: cells of older generations that were assigned since the last collection
CPOS, CINV, CADR, FWDF, HDRF, BOGEN = F64("cell_at"), F64("cell_of"), F64("updated_cell"), F64("copy_of"), F64("bo_header"), F64("bo_generation")
XANY, KANY = z3.BitVec("any_cell", 64), z3.BitVec("any_card", 64)
GS = 35                                # card map of generation g + 1 at offset g << GS of the region "cards"
MAPO = lambda eng: fo(eng, "card_map_t", "map")[0]
gnum = lambda a: z3.ZeroExt(48, z3.LShR(a, 12))
boxed = lambda w: z3.Extract(1, 0, w) == 0
def mapoff(st): return st.ghost["mapoff"]
def isold(st, x):
    a = aid(st, simp(st.regions["cells"].base + x)); return z3.And(a != 0, a != 0xffff)
def nursery(st, w): return z3.And(boxed(w), aid(st, w) == 0)
def cgen(st, x): return gnum(aid(st, simp(st.regions["cells"].base + x)))
def dgen(st, w):
    """generation of the object w after the collection"""
    a = aid(st, w); return z3.If((z3.LShR(a, 8) & 15) == 8, BOGEN(w), z3.If(gnum(a) == 0, BV(1), gnum(a)))
def cbase(st, x, rg): return st.loadr(rg, simp((cgen(st, x) - 1) << GS), 8)
def cardoff(st, x):
    b = cbase(st, x, st.ghost["cards0"]); return simp(((cgen(st, x) - 1) << GS) + mapoff(st) + z3.LShR(st.regions["cells"].base + x - b, 8))
def byteat(st, rg, off): return st.loadr(rg, off, 1)
def word(st, x, rg=None): return st.loadr(rg or st.regions["cells"], x, 8)
def orgw(st, x): return word(st, x, st.ghost["cells0"])
def wfacts(st, w):
    """what the heap invariants say of a pointer: it is an address of user space; its copy, if it is a new object, lies in an arena of the first generation; the generation of a big object is at least that of its region"""
    f = FWDF(w); a = aid(st, f)
    st.assume(z3.Implies(boxed(w), z3.ULT(w, BV(1 << 47))))
    st.assume(z3.Implies(nursery(st, w), z3.And(boxed(f), z3.ULT(f, BV(1 << 47)), gnum(a) == 1, z3.UGE(z3.LShR(a, 8) & 15, 1), z3.ULE(z3.LShR(a, 8) & 15, 4))))
    for v in (w, f): b = aid(st, v); st.assume(z3.Implies(gnum(b) == 0, b == 0)); st.assume(z3.Implies((z3.LShR(b, 8) & 15) == 8, z3.And(z3.UGE(BOGEN(v), gnum(b)), z3.ULE(BOGEN(v), BV(14)), gnum(b) >= 1)))
def cellfacts(st, x):
    """a cell of an old object: aligned, in the array arena of its generation, which its card map covers"""
    b = cbase(st, x, st.ghost["cards0"]); c = z3.LShR(st.regions["cells"].base + x - b, 8)
    st.assume(z3.And(z3.Extract(2, 0, x) == 0, z3.ULT(x, BV(1 << 34))))
    st.assume(z3.Implies(isold(st, x), z3.And(cgen(st, x) >= 1, cgen(st, x) <= 14, z3.ULT(c, BV(1 << 31)))))
    wfacts(st, orgw(st, x))
def stlfacts(st, j):
    p = CPOS(j); st.assume(z3.And(z3.Extract(2, 0, p) == 0, z3.ULT(p, BV(1 << 34)), CINV(p) == 2 * j, CINV(p + 8) == 2 * j + 1))
def stlword(st, off):
    n, b, t = st.ghost["n"], st.regions["stl"].base, st.regions["cells"].base
    for x, k in ((off, 0), (simp(off - 8), 1)):
        if app1(x, CPOS) is False: continue
        j = x.arg(0); stlfacts(st, j); stlfacts(st, simp(j + 1))
        return t + CADR(j) if k == 0 else z3.If(j + 1 == n, BV(1), b + CPOS(simp(j + 1)))
def cellword(st, off):
    """a cell before the collection: the heap invariants hold of it and of what it refers to"""
    seen = st.ghost.get("cellseen", frozenset()); k = off.get_id()
    if k not in seen: st.ghost["cellseen"] = seen | {k}; st.ghost[("keep", k)] = off; cellfacts(st, off)
def heapgens(eng, st):
    """the heap descriptor and its generations, each with its own card map"""
    hb = st.region("heapd", None, kind="heapd"); gb = st.region("gens", None, kind="heapd", writable=False); cb = st.region("cards", None, kind="heapd")
    go, do = fo(eng, "heap", "gen")[0], fo(eng, "generation", "dirty")[0]; mo = MAPO(eng); st.ghost["mapoff"] = mo
    st.regions["heapd"].gen = lambda s, off: simp(gb + ((off - go) << 6)) if num(off) is None else None
    st.regions["heapd"].fix = {go: gb}
    st.regions["gens"].gen = lambda s, off: simp(cb + ((off - do) << (GS - 9)))
    st.regions["cards"].writable = lambda off, size: z3.And(z3.UGE(off & BV((1 << GS) - 1), mo), z3.ULE(off, BV(14 << GS)))
    st.ghost["cards0"] = st.regions["cards"].copy()
    return hb
def stlargs(eng, st, A):
    bibop(eng, st); hb = heapgens(eng, st); sb = st.region("stl", None, kind="gcold", writable=False); st.regions["stl"].gen = stlword
    st.region("cells", None, kind="gcold"); st.regions["cells"].gen = cellword; st.ghost["cells0"] = st.regions["cells"].copy()
    n = z3.BitVec("updates", 64); st.assume(z3.And(n >= 1, n < 1 << 40)); st.ghost["n"] = n
    st.assume(z3.And(JANY >= 0, JANY < n)); stlfacts(st, JANY); stlfacts(st, BV(0)); cellfacts(st, CADR(JANY)); cellfacts(st, CADR(BV(0))); cellfacts(st, XANY)
    return [hb, simp(sb + CPOS(BV(0)))]
def cellinv(st, x):
    """an old cell holds what it held, or the copy of the new object that it held"""
    w, o = word(st, x), orgw(st, x); return z3.Implies(isold(st, x), z3.Or(w == o, z3.And(nursery(st, o), w == FWDF(o))))
def good(st, x):
    """an old cell that was looked at: it does not refer to a new object, and its card is marked when it refers to a younger generation"""
    w, o = word(st, x), orgw(st, x)
    return z3.Implies(isold(st, x), z3.And(w == z3.If(nursery(st, o), FWDF(o), o), z3.Implies(z3.And(boxed(w), z3.UGT(cgen(st, x), dgen(st, w))), z3.ULE(z3.ZeroExt(56, byteat(st, st.regions["cards"], cardoff(st, x))), dgen(st, w)))))
def hdrsame(st, x): return z3.Implies(isold(st, x), cbase(st, x, st.regions["cards"]) == cbase(st, x, st.ghost["cards0"]))
def cardok(st): return z3.ULE(byteat(st, st.regions["cards"], KANY), byteat(st, st.ghost["cards0"], KANY))
def stlinv(L):
    st = L.st; n = st.ghost["n"]; i = BV(0) if L.phase == "entry" else st.ghost["i"] if L.phase == "assume" else simp(st.ghost["i"] + 1)
    x = CADR(JANY)
    out = [("position in the list", z3.And(i >= 0, i < n)), ("next cell of the list", L.get("stl") == st.regions["stl"].base + CPOS(i)),
           ("the updated cells so far are done", z3.Implies(JANY < i, good(st, x))), ("old cells keep what they hold, or its copy", cellinv(st, XANY)), ("the card maps' headers", hdrsame(st, x)), ("no card is made cleaner", cardok(st))]
    if L.phase == "assume": out += [cellinv(st, CADR(i)), cellinv(st, x), hdrsame(st, CADR(i))]
    return out
def stlsetup(L):
    st = L.st; i = st.fresh("i"); st.ghost["i"] = i; n = st.ghost["n"]; st.assume(z3.And(i >= 0, i < n)); stlfacts(st, i); cellfacts(st, CADR(i)); L.set("stl", st.regions["stl"].base + CPOS(i))
    # the big-object region of the object that this cell refers to
    w = word(st, CADR(i)); h = HDRF(w); rb = st.regions["boregion"].base if "boregion" in st.regions else None
    if rb is None:
        rb = st.region("boregion", None, kind="heapd", writable=False); db = st.region("bodesc", None, kind="heapd", writable=False); mo = fo(L.eng, "bigobj_region", "objMap")[0]
        fp = z3.BitVec("firstPage", 64); go = fo(L.eng, "bigobj_desc", "gen")[0]
        st.regions["boregion"].fix = {fo(L.eng, "bigobj_region", "firstPage")[0]: fp}
        st.regions["boregion"].gen = lambda s, off: simp(db + ((off - mo) << 3))
        st.ghost["ptrhints"] = [(rb, "boregion")]
        big = (z3.LShR(aid(st, w), 8) & 15) == 8; pg = z3.LShR(w - fp, 10)
        st.assume(z3.Implies(big, z3.And(rb == h << 18, z3.ULE(h, z3.LShR(w, 18)), (haid(st, h) & 0xff) == 1, z3.ULT(pg, BV(1 << 30)), z3.ZeroExt(56, byteat(st, st.regions["bodesc"], simp((pg << 6) + go))) == BOGEN(w))))
def haid(st, k): return aid(st, simp(k << 18))
def hdrinv(L):
    """the pages from the header to the object's own belong to one region"""
    st = L.st; w = L.get("w"); h = HDRF(w); i = z3.SignExt(32, L.get("i", 4))
    out = [("the header is not passed", z3.And(i >= h, i <= z3.LShR(w, 18))), ("the page's identifier", L.get("dstId", 2) == haid(st, i))]
    if L.phase == "assume": out += [z3.Implies(i > h, (haid(st, i) & 0xff) != 1)]
    return out
def stlpost(r):
    st = r.st; x = CADR(JANY)
    r.prove(good(st, x), "every updated cell of an old object refers to the copy, and its card is marked")
    r.prove(cellinv(st, XANY), "no other cell changes"); r.prove(cardok(st), "no card is made cleaner")
def fwdstub(x):
    st = x.st; g, w = x.args; x.require(g == st.regions["gens"].base, "the first generation"); x.require(nursery(st, w), "an object of the allocation area"); wfacts(st, w)
    return FWDF(w)
G.add(MG, "MinorGC_ScanStoreList", None, stlpost, args=stlargs, stubs=DIE, contracts={"MinorGC_ForwardObj": fwdstub}, loops={("MinorGC_ScanStoreList", 0): Loop(stlinv, mods=["cells", "cards"], setup=stlsetup), ("MinorGC_ScanStoreList", 1): Loop(hdrinv)}, msp=False, limit=600, bound=0)

# --- sweeping the first generation's to-space
SWEPT = (0, 1, 3)
NEXTW = lambda eng: fo(eng, "arena", "nextw")[0]
SWEEP = lambda eng: fo(eng, "arena", "sweep_nextw")[0]
def innew(st, w): return z3.And(boxed(w), z3.ULT(w - st.ghost["allocBase"], st.ghost["allocSz"]))
def swargs(eng, st, A):
    hb = st.region("heapd", None, kind="heapd", writable=False); gb = st.region("gen1", None, kind="heapd", writable=False)
    ab, sz = z3.BitVec("allocBase", 64), z3.BitVec("allocSz", 64); st.assume(z3.And(z3.ULT(ab, BV(1 << 47)), z3.ULT(sz, BV(1 << 40)))); st.ghost.update(allocBase=ab, allocSz=sz)
    st.regions["heapd"].fix = {fo(eng, "heap", "allocBase")[0]: ab, fo(eng, "heap", "allocSzB")[0]: sz, fo(eng, "heap", "gen")[0]: gb}
    ga = fo(eng, "generation", "arena")[0]; fx = {fo(eng, "generation", "heap")[0]: hb}
    for k, nm in enumerate(ARENAS):
        fx[ga + 8 * k] = st.region("arena_" + nm, None, kind="heapd", writable=(lambda off, size, k=k: z3.And(off == SWEEP(eng), k != 2)))
        b = st.region("sp_" + nm, None, kind="gcnew"); nw, sw = z3.BitVec("nextw_" + nm, 64), z3.BitVec("sweep_" + nm, 64)
        for x in (nw, sw): st.assume(z3.And(z3.Extract(2, 0, x) == 0, x >= 0, x < 1 << 34))
        st.assume(sw <= nw); st.regions["sp_" + nm].size = nw; st.ghost["sw0", k] = sw; st.ghost["nw", k] = nw
        st.regions["arena_" + nm].fix = {NEXTW(eng): simp(b + nw), SWEEP(eng): simp(b + sw)}
    st.regions["gen1"].fix = fx; st.ghost["sp0"] = {k: st.regions["sp_" + n].copy() for k, n in enumerate(ARENAS)}
    st.assume(z3.And(z3.Extract(2, 0, QANY) == 0, QANY >= 0, QANY < 1 << 34))
    return [gb]
def setnw(st, eng, k, v):
    rg = st.regions["arena_" + ARENAS[k]]; st.setw(rg, NEXTW(eng), simp(st.regions["sp_" + ARENAS[k]].base + v)); st.regions["sp_" + ARENAS[k]].size = v; st.ghost["nw", k] = v
def appended(eng, st, but=()):
    """more objects may have been copied into the arenas; what they hold is arbitrary"""
    for k in range(4):
        v = st.fresh("nextw_" + ARENAS[k]); st.assume(z3.And(v >= st.ghost["nw", k], v < 1 << 34, z3.Extract(2, 0, v) == 0)); setnw(st, eng, k, v)
def fwd1(x):
    st = x.st; g, w = x.args; x.require(g == st.regions["gen1"].base, "the first generation"); x.require(innew(st, w), "an object of the allocation area"); appended(x.eng, st); return FWDF(w)
def oarena(st, eng, k, f):
    return simp(st.loadr(st.regions["arena_" + ARENAS[k]], fo(eng, "arena", f)[0], 8) - st.regions["sp_" + ARENAS[k]].base)
def done(st, k, limit, q=None):
    """word q of arena k: swept when it lies below the limit"""
    q = QANY if q is None else q; nm = "sp_" + ARENAS[k]; w, o = st.loadr(st.regions[nm], q, 8), z3.Select(st.ghost["sp0"][k].arr, q)
    return w == z3.If(z3.And(q >= st.ghost["sw0", k], q < limit, innew(st, o)), FWDF(o), o)
def sweepinv(n):
    def which(L, find=False):
        if find: L.st.ghost["which", n] = ARENAS.index(L.st.resolve(L.fr.allocs[L.inbody(n, "__p")])[0].label[3:])
        return L.st.ghost["which", n]
    def inner(L):
        bodies = {k: b for h, (k, b) in L.eng.loops_of(L.fr.f).items()}; heads = {k: h for h, (k, b) in L.eng.loops_of(L.fr.f).items()}
        return [k for k in bodies if k != n and heads[k] in bodies[n]]
    def inv(L):
        st, eng = L.st, L.eng; sub = inner(L); out = []
        lim = {}
        if len(sub) > 1: cur = None                                  # the outer loop
        else:
            cur = which(L, L.phase == "entry"); b = st.regions["sp_" + ARENAS[cur]].base; p = simp(L.fr.allocs[L.inbody(n, "__p")] - b); lim[cur] = p
            top = oarena(st, eng, cur, "nextw"); out += [("the sweep pointer is aligned", z3.Extract(2, 0, p) == 0), ("nothing is swept twice", p >= oarena(st, eng, cur, "sweep_nextw"))]
            if not sub: q = simp(L.fr.allocs[L.inbody(n, "__q")] - b); out += [("the sweep stays below the limit", z3.And(p >= 0, p <= q)), ("the limit is not beyond the arena's objects", q <= top), ("limit aligned", z3.Extract(2, 0, q) == 0)]
            else: out += [("the sweep stays below the limit", z3.And(p >= 0, p <= top))]
            out += [("something was swept", L.get("swept", 4) != 0)]
        for k in SWEPT:
            l = lim.get(k, oarena(st, eng, k, "sweep_nextw")); out += [(f"the {ARENAS[k]} arena is swept up to its pointer", done(st, k, l)), (f"the {ARENAS[k]} arena's sweep pointer", z3.And(z3.Extract(2, 0, l) == 0, l >= st.ghost["sw0", k], l <= st.ghost["nw", k]))]
        return out
    def setup(L):
        st, eng = L.st, L.eng; sub = inner(L); cur = None if len(sub) > 1 else which(L)
        appended(eng, st)
        for k in SWEPT:
            b = st.regions["sp_" + ARENAS[k]].base
            if cur is None: s = st.fresh("sweep_" + ARENAS[k]); st.setw(st.regions["arena_" + ARENAS[k]], SWEEP(eng), simp(b + s))
        if cur is not None:
            nm = "sp_" + ARENAS[cur]; b = st.regions[nm].base
            p = st.fresh("p"); L.fr.allocs[L.inbody(n, "__p")] = simp(b + p)
            if not sub: q = st.fresh("q"); L.fr.allocs[L.inbody(n, "__q")] = simp(b + q)
            o = z3.Select(st.ghost["sp0"][cur].arr, p); st.assume(z3.Extract(2, 0, p) == 0); st.assume(done(st, cur, p, p)); st.setw(st.regions[nm], p, o)
    def mods(L):
        sub = inner(L); cur = None if len(sub) > 1 else which(L)
        if cur is None: return ["sp_" + ARENAS[k] for k in SWEPT] + [("arena_" + ARENAS[k], SWEEP(L.eng), SWEEP(L.eng) + 8) for k in SWEPT]
        return ["sp_" + ARENAS[cur]]
    return Loop(inv, mods=mods, setup=setup)
def swpost(r):
    st, eng = r.st, r.eng
    for k in SWEPT:
        r.eq(oarena(st, eng, k, "sweep_nextw"), oarena(st, eng, k, "nextw"), f"all of the {ARENAS[k]} arena is swept")
        r.prove(done(st, k, oarena(st, eng, k, "nextw")), f"every word of the {ARENAS[k]} arena that referred to a new object refers to its copy, the others are unchanged")
G.add(MG, "MinorGC_SweepToSpace", None, swpost, args=swargs, stubs=DIE, contracts={"MinorGC_ForwardObj": fwd1}, loops={("MinorGC_SweepToSpace", n): sweepinv(n) for n in range(7)}, msp=False, limit=600, bound=0)

# --- a minor collection
RCELL = F64("root_cell")
def rootword(st, off):
    """roots[j]: the address of a root; the list ends with a null pointer"""
    j = simp(z3.LShR(off, 3)); x = RCELL(j); st.assume(z3.And(z3.Extract(2, 0, x) == 0, z3.ULT(x, BV(1 << 34))))
    return z3.If(j == st.ghost["nroots"], BV(0), st.regions["rootcells"].base + x)
def mgargs(eng, st, A):
    a = swargs(eng, st, A); st.regions["heapd"].writable = True; gb = a[0]
    for nm in ARENAS: st.regions["arena_" + nm].writable = False
    n = z3.BitVec("nroots", 64); st.assume(z3.And(n >= 0, n < 1 << 20)); st.ghost["nroots"] = n
    rb = st.region("roots", simp(n * 8 + 8), kind="gcold", writable=False); st.regions["roots"].gen = rootword
    st.region("rootcells", None, kind="gcold"); st.ghost["cells0"] = st.regions["rootcells"].copy()
    m = st.regions["msp"]; st.assume(z3.And(JANY >= 0, JANY < n)); rootword(st, simp(JANY * 8)); rootword(st, BV(0)); newfacts(st, RCELL(JANY))
    st.assume(z3.And(z3.Extract(2, 0, XANY) == 0, z3.ULT(XANY, BV(1 << 34)))); newfacts(st, XANY)
    m.fix = {**m.fix, fo(eng, "ml_state", "ml_heap")[0]: st.regions["heapd"].base}
    st.ghost["mg0"] = {l: r.copy() for l, r in st.regions.items()}
    return [m.base, rb]
def newfacts(st, x):
    """the copy of a new object is not in the allocation area"""
    o = orgw(st, x); st.assume(z3.Implies(innew(st, o), z3.And(boxed(FWDF(o)), z3.Not(innew(st, FWDF(o))))))
def rword(st, x): return st.loadr(st.regions["rootcells"], x, 8)
def rootdone(st, x): w, o = rword(st, x), orgw(st, x); return w == z3.If(innew(st, o), FWDF(o), o)
def rootany(st, x): w, o = rword(st, x), orgw(st, x); return z3.Or(w == o, z3.And(innew(st, o), w == FWDF(o)))
def rootinv(L):
    st = L.st; n = st.ghost["nroots"]; i = BV(0) if L.phase == "entry" else st.ghost["i"] if L.phase == "assume" else simp(st.ghost["i"] + 1)
    out = [("position", z3.And(i >= 0, i <= n)), ("next root", L.get("roots") == st.regions["roots"].base + i * 8), ("the roots so far are done", z3.Implies(JANY < i, rootdone(st, RCELL(JANY)))), ("every word holds what it held, or its copy", rootany(st, XANY))]
    if L.phase == "assume": out += [z3.Implies(i < n, rootany(st, RCELL(i))), rootany(st, RCELL(JANY))]
    return out
def rootsetup(L):
    st = L.st; i = st.fresh("i"); st.ghost["i"] = i; st.assume(z3.And(i >= 0, i <= st.ghost["nroots"])); L.set("roots", st.regions["roots"].base + i * 8); rootword(st, simp(i * 8)); newfacts(st, RCELL(i)); appended(L.eng, st)
hfield = lambda r, f: r.st.loadr(r.st.regions["heapd"], fo(r.eng, "heap", f)[0], fo(r.eng, "heap", f)[1] if isinstance(fo(r.eng, "heap", f)[1], int) else 8)
def stlstub(x): x.event(); appended(x.eng, x.st); weaks(x.eng, x.st)
def weaks(eng, st): st.setw(st.regions["heapd"], fo(eng, "heap", "weakList")[0], st.fresh("weakList"))
def swstub(x): x.event(); appended(x.eng, x.st); weaks(x.eng, x.st)
def wkstub(x): x.event(); x.st.setw(x.st.regions["heapd"], fo(x.eng, "heap", "weakList")[0], BV(0))
def mgpost(r):
    st, eng = r.st, r.eng; m0, h0 = st.ghost["mg0"]["msp"], st.ghost["mg0"]["heapd"]; H = lambda rg, f, n=8: st.loadr(rg, fo(eng, "heap", f)[0], n); M = lambda rg, f: st.loadr(rg, fo(eng, "ml_state", f)[0], 8)
    h, m = st.regions["heapd"], st.regions["msp"]
    ev = [e for e in st.events if e.name in ("MinorGC_ScanStoreList", "MinorGC_SweepToSpace", "ScanWeakPtrs")]; names = [e.name for e in ev]
    r.prove(z3.Implies(st.ghost["nroots"] > 0, rootdone(st, RCELL(JANY))), "every root refers to the copy of its object")
    r.prove(rootany(st, XANY), "nothing else changes")
    stl = M(m0, "ml_storePtr")
    if r.case(stl != 1):
        if names[:1] != ["MinorGC_ScanStoreList"]: r.fail("the updated cells are looked at before the sweep")
        r.eq(ev[0].args[0], h.base, "this heap"); r.eq(ev[0].args[1], stl, "the store list"); ev, names = ev[1:], names[1:]
    r.eq(M(m, "ml_storePtr"), 1, "the store list is empty afterwards")
    if names[:1] != ["MinorGC_SweepToSpace"]: r.fail("the first generation's to-space is swept after the roots and the updated cells"); return
    r.eq(ev[0].args[0], st.regions["gen1"].base, "the first generation is swept")
    wl = z3.simplify(st.loadr(ev[0].regs["heapd"], fo(eng, "heap", "weakList")[0], 8))
    r.eq(H(h, "weakList"), 0, "no weak pointer is left to be looked at")
    for e in ev[1:]:
        if e.name != "ScanWeakPtrs": r.fail("the sweep is done once"); return
    r.eq(H(h, "numMinorGCs", 4), H(h0, "numMinorGCs", 4) + 1, "number of collections of the allocation area")
    r.eq(H(h, "numAlloc"), H(h0, "numAlloc") + M(m0, "ml_allocPtr") - st.ghost["allocBase"], "bytes allocated so far")
    nc = fo(eng, "heap", "numCopied")[0]
    for k in range(4): r.eq(st.loadr(h, nc + 8 * k, 8), st.loadr(h0, nc + 8 * k, 8) + st.ghost["nw", k] - z3.BitVec("nextw_" + ARENAS[k], 64), f"bytes copied to the {ARENAS[k]} arena so far")
    for f in ("ml_allocPtr", "ml_heap"): r.eq(M(m, f), M(m0, f), f"{f} stays")
G.add(MG, "MinorGC", None, mgpost, args=mgargs, stubs=DIE, contracts={"MinorGC_ForwardObj": fwd1, "MinorGC_ScanStoreList": stlstub, "MinorGC_SweepToSpace": swstub, "ScanWeakPtrs": wkstub}, loops={("MinorGC", 1): Loop(rootinv, mods=["rootcells"], setup=rootsetup)}, msp=True, bound=0)
