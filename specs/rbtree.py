"""Red-black maps and sets (smlnj-lib/Util/{redblack,int-redblack,word-redblack}-{map,set}*.sml).
A tree denotes the sequence of its elements in order, sq(t, rest); a map value is sound when the
sequence is strictly increasing, the stored count is its length and the tree is a balanced
red-black tree with a black root."""
import z3
from core import *
from verify import define, lemma, Inst
from interp import Prog

I, Bo = z3.IntSort(), z3.BoolSort()
And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
LIM = 1 << 59
DIR = "smlnj-lib/Util/"

def order_prim(rank):
    def f(cx, a):
        x, y = untup(a)
        rx, ry = rank(x), rank(y)
        return TOrder.unpack(If(rx < ry, TOrder.mk("LESS"), If(rx == ry, TOrder.mk("EQUAL"), TOrder.mk("GREATER"))))
    return Prim("compare", f)

class RB:
    def __init__(self, which, kind):
        """which: 'fn' | 'int' | 'word'; kind: 'map' | 'set'"""
        self.which, self.kind = which, kind
        p = self.p = Prog()
        m = self.m = kind == "map"
        p.bind_struct("LibBase", {"NotFound": ExnCon("NotFound")})
        if which == "fn":
            K = TAbs("Key")
            rk0 = z3.Function("rank", K.sort(), I)
            rk = lambda k: rk0(k)
            p.load(DIR + f"redblack-{kind}-fn.sml")
            arg = p.bind_struct("KeyArg", {"compare": order_prim(lambda v: rk(v.t))})
            self.S = "RBMap" if m else "RBSet"
            p.apply_functor("RedBlackMapFn" if m else "RedBlackSetFn", arg, self.S)
            keyty = {"K.ord_key": K, "Key.ord_key": K, "item": K}
        else:
            K = TInt if which == "int" else TWord
            rk = lambda k: k
            for s in ("Int", "Word"): p.bind_struct(s, {"compare": order_prim(lambda v: zi(v.t))})
            p.load(DIR + f"{which}-redblack-{kind}.sml")
            self.S = ("Int" if which == "int" else "Word") + "RedBlack" + ("Map" if m else "Set")
            keyty = {"Key.ord_key": K, "item": K, "ord_key": K}
        self.K, self.rk = K, rk
        V = self.V = TAbs("Val")
        EL = self.EL = TTup(K, V) if m else K
        S = self.S
        ta = {"'a": V} if m else {}
        zn = S + "_"
        self.TREE = TREE = p.data(S + ".tree", ta, keyty)
        self.COL = COL = p.data(S + ".color")
        self.MAP = MAP = p.data(S + (".map" if m else ".set"), ta, keyty)
        self.DIG = DIG = p.data(S + ".digit", ta, keyty)
        self.ZIP = ZIP = p.data(S + ".zipper", ta, keyty)
        T, L = TREE.sort(), None
        self.LE = LE = TList(EL)
        L = LE.sort()
        E = self.E = EL.sort()
        el = self.el = (lambda k, v: EL.sort().constructor(0)(k, v)) if m else (lambda k, v: k)
        ek = self.ek = (lambda e: EL.sort().accessor(0, 0)(e)) if m else (lambda e: e)
        ev = self.ev = (lambda e: EL.sort().accessor(0, 1)(e)) if m else (lambda e: e)
        er = self.er = lambda e: rk(ek(e))
        OE = self.OE = TOption(EL)
        nil = self.nil = LE.mk("nil")
        cons = self.cons = lambda h, t: LE.mk("::", h, t)
        isnil = self.isnil = lambda l: LE.is_("nil", l)
        hd = self.hd = lambda l: LE.acc("::", 0, l)
        # field layout of a tree node
        if m:
            fld = lambda f: dict(c=f[0], a=f[1], k=f[2], v=f[3], b=f[4])
        else:
            fld = lambda f: dict(c=f[0], a=f[1], k=f[2], v=None, b=f[3])
        red = COL.mk("R"); black = COL.mk("B")
        F = z3.Function
        sq = self.sq = F("sq", T, L, L)
        define(p, "sq", sq, TREE, {"E": lambda r: r, "T": lambda *f: (lambda d, r: sq(d["a"], cons(el(d["k"], d["v"]), sq(d["b"], r))))(fld(f[:-1]), f[-1])}, rest=[L])
        bh = self.bh = F("bh", T, I)
        ok = self.ok = F("ok", T, Bo)
        define(p, "rb", bh, TREE, {"E": lambda: 0, "T": lambda *f: (lambda d: bh(d["a"]) + If(d["c"] == black, 1, 0))(fld(f))})
        isblack = self.isblack = lambda t: Or(TREE.is_("E", t), TREE.acc("T", 0, t) == black)
        define(p, "rb", ok, TREE, {"E": lambda: True, "T": lambda *f: (lambda d: And(ok(d["a"]), ok(d["b"]), bh(d["a"]) == bh(d["b"]), Imp(d["c"] == red, And(isblack(d["a"]), isblack(d["b"])))))(fld(f))})
        lemma(p, "black height is non-negative", "rb", [T], lambda t: bh(t) >= 0, induct=(TREE, 0), patterns=lambda t: bh(t), uses=["rb"])
        # ---- lists
        srt = self.srt = F("sorted", L, Bo); ln = self.ln = F("len", L, I)
        get = self.get = F("getL", L, I, OE.sort()); ins = self.ins = F("insL", L, E, L); rem = self.rem = F("remL", L, I, L)
        NONE = self.NONE = OE.mk("NONE"); SOME = self.SOME = lambda e: OE.mk("SOME", *([ek(e), ev(e)] if False else [e]))
        if m: SOME = self.SOME = lambda e: OE.sort().constructor(1)(e) if OE.sort().constructor(1).arity() == 1 else OE.sort().constructor(1)(ek(e), ev(e))
        self.eo = (lambda o: OE.acc("SOME", 0, o)) if not m else (lambda o: el(OE.acc("SOME", 0, o), OE.acc("SOME", 1, o)) if OE.sort().constructor(1).arity() == 2 else OE.acc("SOME", 0, o))
        define(p, "li", srt, LE, {"nil": lambda: True, "::": lambda h, t: And(srt(t), Or(isnil(t), er(h) < er(hd(t))))})
        define(p, "li", ln, LE, {"nil": lambda: 0, "::": lambda h, t: 1 + ln(t)})
        define(p, "li", get, LE, {"nil": lambda r: NONE, "::": lambda h, t, r: If(er(h) == r, SOME(h), get(t, r))}, rest=[I])
        define(p, "li", ins, LE, {"nil": lambda e: cons(e, nil), "::": lambda h, t, e: If(er(e) < er(h), cons(e, cons(h, t)), If(er(e) == er(h), cons(e, t), cons(h, ins(t, e))))}, rest=[E])
        define(p, "li", rem, LE, {"nil": lambda r: nil, "::": lambda h, t, r: If(er(h) == r, t, cons(h, rem(t, r)))}, rest=[I])
        lemma(p, "length is non-negative", "li", [L], lambda l: ln(l) >= 0, induct=(LE, 0), patterns=lambda l: ln(l), uses=["li"])
        lemma(p, "nothing below the head of a sorted list", "li", [L, I], lambda l, r: Imp(And(srt(l), Or(isnil(l), r < er(hd(l)))), get(l, r) == NONE), induct=(LE, 0), patterns=lambda l, r: [(srt(l), get(l, r))], uses=["li"])
        # list-level meaning of the operations
        r_ = z3.Int("r_"); e_ = z3.Const("e_", E)
        lemma(p, "insertion keeps a list sorted", "lm", [L, E], lambda l, e: Imp(srt(l), And(srt(ins(l, e)), Not(isnil(ins(l, e))), er(hd(ins(l, e))) == If(isnil(l), er(e), If(er(e) < er(hd(l)), er(e), er(hd(l)))))), induct=(LE, 0), patterns=lambda l, e: [(srt(l), ins(l, e))], uses=["li"])
        lemma(p, "lookup after insertion", "lm", [L, E, I], lambda l, e, r: Imp(srt(l), get(ins(l, e), r) == If(r == er(e), SOME(e), get(l, r))), induct=(LE, 0), patterns=lambda l, e, r: [get(ins(l, e), r)], uses=["li"])
        lemma(p, "length after insertion", "lm", [L, E], lambda l, e: Imp(srt(l), ln(ins(l, e)) == ln(l) + If(get(l, er(e)) == NONE, 1, 0)), induct=(LE, 0), patterns=lambda l, e: [(srt(l), ins(l, e))], uses=["li"])
        lemma(p, "removal keeps a list sorted", "lm", [L, I], lambda l, r: Imp(srt(l), And(srt(rem(l, r)), Imp(Not(isnil(rem(l, r))), And(Not(isnil(l)), er(hd(rem(l, r))) >= er(hd(l)))))), induct=(LE, 0), patterns=lambda l, r: [(srt(l), rem(l, r))], uses=["li"])
        lemma(p, "lookup after removal", "lm", [L, I, I], lambda l, q, r: Imp(srt(l), get(rem(l, q), r) == If(r == q, NONE, get(l, r))), induct=(LE, 0), patterns=lambda l, q, r: [get(rem(l, q), r)], uses=["li"])
        lemma(p, "length after removal", "lm", [L, I], lambda l, r: ln(rem(l, r)) == ln(l) - If(get(l, r) == NONE, 0, 1), induct=(LE, 0), patterns=lambda l, r: [(ln(l), rem(l, r)), ln(rem(l, r))], uses=["li"])
        # ---- sequences of trees and sorted-ness
        lemma(p, "the tail of a sorted sequence is sorted", "tq", [T, L], lambda t, l: Imp(srt(sq(t, l)), srt(l)), induct=(TREE, 0), patterns=lambda t, l: srt(sq(t, l)), uses=["sq", "li"])
        lemma(p, "an element is below what follows it", "tq", [E, T, E, L], lambda e, t, f, l: Imp(srt(cons(e, sq(t, cons(f, l)))), er(e) < er(f)), induct=(TREE, 1), patterns=lambda e, t, f, l: srt(cons(e, sq(t, cons(f, l)))), uses=["sq", "li", "tq"])
        lemma(p, "sorted after dropping a subtree", "tq", [E, T, L], lambda e, t, l: Imp(srt(cons(e, sq(t, l))), srt(cons(e, l))), induct=(TREE, 1), patterns=lambda e, t, l: srt(cons(e, sq(t, l))), uses=["sq", "li", "tq"])
        lemma(p, "insertion beyond a subtree", "tq3", [T, E, L, E], lambda t, f, l, e: Imp(And(srt(sq(t, cons(f, l))), er(f) < er(e)), ins(sq(t, cons(f, l)), e) == sq(t, cons(f, ins(l, e)))), induct=(TREE, 0), patterns=lambda t, f, l, e: ins(sq(t, cons(f, l)), e), uses=["sq", "li", "tq"])
        lemma(p, "insertion of an equal key beyond a subtree", "tq3", [T, E, L, E], lambda t, f, l, e: Imp(And(srt(sq(t, cons(f, l))), er(f) == er(e)), ins(sq(t, cons(f, l)), e) == sq(t, cons(e, l))), induct=(TREE, 0), patterns=lambda t, f, l, e: ins(sq(t, cons(f, l)), e), uses=["sq", "li", "tq", "tq3"])
        lemma(p, "lookup beyond a subtree", "tq3", [T, E, L, I], lambda t, f, l, r: Imp(And(srt(sq(t, cons(f, l))), er(f) <= r), get(sq(t, cons(f, l)), r) == get(cons(f, l), r)), induct=(TREE, 0), patterns=lambda t, f, l, r: get(sq(t, cons(f, l)), r), uses=["sq", "li", "tq"])
        lemma(p, "removal beyond a subtree", "tq3", [T, E, L, I], lambda t, f, l, r: Imp(And(srt(sq(t, cons(f, l))), er(f) < r), rem(sq(t, cons(f, l)), r) == sq(t, cons(f, rem(l, r)))), induct=(TREE, 0), patterns=lambda t, f, l, r: rem(sq(t, cons(f, l)), r), uses=["sq", "li", "tq"])
        lemma(p, "removal of the element after a subtree", "tq3", [T, E, L, I], lambda t, f, l, r: Imp(And(srt(sq(t, cons(f, l))), er(f) == r), rem(sq(t, cons(f, l)), r) == sq(t, l)), induct=(TREE, 0), patterns=lambda t, f, l, r: rem(sq(t, cons(f, l)), r), uses=["sq", "li", "tq", "tq3"])
        # absent(t, r): searching t for r ends at an empty tree
        absent = self.absent = F("absent", T, I, Bo)
        define(p, "ab", absent, TREE, {"E": lambda r: True, "T": lambda *f: (lambda d, r: If(r < rk(d["k"]), absent(d["a"], r), And(r != rk(d["k"]), absent(d["b"], r))))(fld(f[:-1]), f[-1])}, rest=[I])
        lemma(p, "the search path decides membership", "ab", [T, I, L], lambda t, r, l: Imp(And(srt(sq(t, l)), Or(isnil(l), r < er(hd(l)))), absent(t, r) == (get(sq(t, l), r) == NONE)), induct=(TREE, 0),
              patterns=lambda t, r, l: [(absent(t, r), sq(t, l))], uses=["sq", "li", "tq", "tq3", "ab"])
        self.root = lambda mp: MAP.acc("MAP" if m else "SET", 1, mp)
        self.cnt = lambda mp: MAP.acc("MAP" if m else "SET", 0, mp)
        self.C = {}
        p.contracts = self.C
    def con(self, name, *a, **k):
        k.setdefault("uses", ["sq", "rb", "li", "tq", "tq3", "lm", "ab"])
        n = f"{self.S}.{name}"
        self.C[n] = Contract(n, *a, **k)
    def seq(self, mp): return self.sq(self.root(mp), self.nil)
    def mok(self, mp, lim=LIM):
        t = self.root(mp)
        return And(self.isblack(t), self.ok(t), self.srt(self.sq(t, self.nil)), self.cnt(mp) == self.ln(self.sq(t, self.nil)), self.cnt(mp) <= lim)
    def snd(self, mp, what=""):
        t = self.root(mp)
        return [(f"{what}root is black", self.isblack(t)), (f"{what}red-black invariants", self.ok(t)), (f"{what}keys in order", self.srt(self.sq(t, self.nil))), (f"{what}count", self.cnt(mp) == self.ln(self.sq(t, self.nil)))]

def basics(R):
    m = R.m
    MAPT, TREE, K, V, OE, LE = R.MAP, R.TREE, R.K, R.V, R.OE, R.LE
    sq, nil, srt, ins, get, rem, ln, ok, bh, isblack, hd, isnil = R.sq, R.nil, R.srt, R.ins, R.get, R.rem, R.ln, R.ok, R.bh, R.isblack, R.hd, R.isnil
    absent = R.absent
    con, rk, el, er = R.con, R.rk, R.el, R.er
    acc_, r_ = z3.Const("acc_", LE.sort()), z3.Int("r_")
    OV = TOption(V)
    before = lambda k, l: Or(isnil(l), rk(k) < er(hd(l)))
    insname = "insert" if m else "add"
    def ins_contract(name, keyname, newel):
        con(name, [TREE], TREE, requires=lambda s, t: [ok(t), isblack(t), s.env("nItems") >= 0, s.env("nItems") < LIM],
            modifies=lambda s, t: [s.env("nItems'", TRefT(TInt))],
            ensures=lambda s, t, r: [("balanced", ok(r)), ("same black height", bh(r) == bh(t)), ("not empty", TREE.is_("T", r)),
                ("contents", z3.ForAll([acc_], Imp(And(srt(sq(t, acc_)), before(s.env(keyname), acc_)), sq(r, acc_) == ins(sq(t, acc_), newel(s, t, acc_))), patterns=[sq(r, acc_), sq(t, acc_)])),
                ("count", z3.ForAll([acc_], Imp(And(srt(sq(t, acc_)), before(s.env(keyname), acc_)), s.env("nItems'", TRefT(TInt)).post == If(get(sq(t, acc_), rk(s.env(keyname))) == R.NONE, s.env("nItems") + 1, s.env("nItems'", TRefT(TInt)).pre)), patterns=[sq(r, acc_), sq(t, acc_)]))])
    allget = lambda res, f: z3.ForAll([r_], get(R.seq(res), r_) == f(r_), patterns=[get(R.seq(res), r_)])
    if m:
        ins_contract("insert.ins", "xk", lambda s, t, acc: el(s.env("xk"), s.env("x")))
        con("insert", [TTup(MAPT, K, V)], MAPT, requires=lambda s, a: R.mok(a[0], LIM - 1),
            ensures=lambda s, a, r: R.snd(r) + [("contents", R.seq(r) == ins(R.seq(a[0]), el(a[1], a[2]))), ("lookup", allget(r, lambda q: If(q == rk(a[1]), R.SOME(el(a[1], a[2])), get(R.seq(a[0]), q))))])
        con("insert'", [TTup(TTup(K, V), MAPT)], MAPT, requires=lambda s, a: R.mok(a[1], LIM - 1),
            ensures=lambda s, a, r: R.snd(r) + [("contents", R.seq(r) == ins(R.seq(a[1]), el(a[0][0], a[0][1])))])
    else:
        ins_contract("add.ins", "x", lambda s, t, acc: s.env("x"))
        con("add", [TTup(MAPT, K)], MAPT, requires=lambda s, a: R.mok(a[0], LIM - 1),
            ensures=lambda s, a, r: R.snd(r) + [("contents", R.seq(r) == ins(R.seq(a[0]), a[1])), ("membership", allget(r, lambda q: If(q == rk(a[1]), R.SOME(a[1]), get(R.seq(a[0]), q))))])
        con("add'", [TTup(K, MAPT)], MAPT, requires=lambda s, a: R.mok(a[1], LIM - 1),
            ensures=lambda s, a, r: R.snd(r) + [("contents", R.seq(r) == ins(R.seq(a[1]), a[0]))])
    con("singleton", [TTup(K, V)] if m else [K], MAPT, ensures=lambda s, a, r: R.snd(r) + [R.seq(r) == R.cons(el(a[0], a[1]) if m else a, nil)])
    con("isEmpty", [MAPT], TB, requires=lambda s, a: R.mok(a), ensures=lambda s, a, r: r == isnil(R.seq(a)))
    con("numItems", [MAPT], TInt, requires=lambda s, a: R.mok(a), ensures=lambda s, a, r: r == ln(R.seq(a)))
    # searches
    def search(name, loc, ret, val, retT):
        con(f"{name}.{loc}", [TREE], retT, ensures=lambda s, t, r: z3.ForAll([acc_], Imp(And(srt(sq(t, acc_)), before(s.env("k"), acc_)), r == val(get(sq(t, acc_), rk(s.env("k"))))), patterns=[sq(t, acc_)]))
        con(name, [TTup(MAPT, K)], retT, requires=lambda s, a: R.mok(a[0]), ensures=lambda s, a, r: r == val(get(R.seq(a[0]), rk(a[1]))))
    isN = lambda o: OE.is_("NONE", o)
    eo = R.eo
    if m:
        search("inDomain", "find'", TB, lambda o: Not(isN(o)), TB)
        search("find", "find'", OV, lambda o: If(isN(o), OV.mk("NONE"), OV.mk("SOME", R.ev(eo(o)))), OV)
        nf = lambda t, k, acc: isN(get(sq(t, acc), rk(k)))
        con("lookup.look", [TREE], V, raises={"LibBase.NotFound": lambda s, t: absent(t, rk(s.env("k")))},
            ensures=lambda s, t, r: z3.ForAll([acc_], Imp(And(srt(sq(t, acc_)), before(s.env("k"), acc_)), r == R.ev(eo(get(sq(t, acc_), rk(s.env("k")))))), patterns=[sq(t, acc_)]))
        con("lookup", [TTup(MAPT, K)], V, requires=lambda s, a: R.mok(a[0]), raises={"LibBase.NotFound": lambda s, a: isN(get(R.seq(a[0]), rk(a[1])))},
            ensures=lambda s, a, r: r == R.ev(eo(get(R.seq(a[0]), rk(a[1])))))
    else:
        search("member", "find'", TB, lambda o: Not(isN(o)), TB)
    return ins_contract

def build(which="fn", kind="map"):
    R = RB(which, kind)
    basics(R)
    return R.p
