"""IntInf core arithmetic (base/system/smlnj/init/target64-core-intinf.sml)"""
import z3
from core import *
from verify import define, lemma, Inst
from interp import Prog

F = "base/system/smlnj/init/target64-core-intinf.sml"
B = 1 << 62
H = 1 << 31
I = z3.IntSort()
LW = TList(TWord)
LIM = 1 << 57          # no list in memory has this many cells

def build():
    p = Prog()
    p.load(F)
    L = LW.sort()
    nil = LW.mk("nil")
    cons_ = lambda h, t: LW.mk("::", h, t)
    isnil = lambda x: LW.is_("nil", x)
    nval = z3.Function("nval", L, I)
    norm = z3.Function("norm", L, z3.BoolSort())
    length = z3.Function("len", L, I)
    at = z3.Function("at", L, I, I)          # digit i, zero beyond the end
    last = z3.Function("last", L, I)
    lo = z3.Function("lo", L, I, I)          # value of the first i digits
    pw = z3.Function("pw", I, I)             # B^i
    And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
    define(p, "nat", nval, LW, {"nil": lambda: 0, "::": lambda d, r: d + B * nval(r)})
    define(p, "nat", norm, LW, {"nil": lambda: True, "::": lambda d, r: And(0 <= d, d < B, norm(r), Imp(isnil(r), d > 0))})
    define(p, "len", length, LW, {"nil": lambda: 0, "::": lambda d, r: 1 + length(r)})
    define(p, "len", last, LW, {"nil": lambda: 0, "::": lambda d, r: If(isnil(r), d, last(r))})
    define(p, "len", at, LW, {"nil": lambda i: 0, "::": lambda d, r, i: If(i == 0, d, at(r, i - 1))}, rest=[I])
    define(p, "pw", lo, LW, {"nil": lambda i: 0, "::": lambda d, r, i: If(i <= 0, 0, d + B * lo(r, i - 1))}, rest=[I])
    i_, j_ = z3.Ints("i_ j_")
    p.axiom("pw", "def pw 0", pw(0) == 1)
    p.axiom("pw", "def pw succ", z3.ForAll([i_], Imp(i_ >= 1, pw(i_) == B * pw(i_ - 1)), patterns=[pw(i_)]))
    lemma(p, "norm values are non-negative, zero only for nil", "nat", [L],
          lambda x: Imp(norm(x), And(nval(x) >= 0, (nval(x) == 0) == isnil(x))),
          induct=(LW, 0), patterns=lambda x: norm(x))
    lemma(p, "length is non-negative", "len", [L], lambda x: And(length(x) >= 0, (length(x) == 0) == isnil(x)), induct=(LW, 0), patterns=lambda x: length(x))
    lemma(p, "digits of a norm list", "len", [L, I], lambda x, i: Imp(norm(x), And(0 <= at(x, i), at(x, i) < B)), induct=(LW, 0), patterns=lambda x, i: [(norm(x), at(x, i))])
    lemma(p, "powers are positive", "pw", [I], lambda i: Imp(i >= 0, pw(i) >= 1), induct=("nat", 0), patterns=lambda i: pw(i))
    lemma(p, "digits beyond the end are zero", "len", [L, I], lambda x, i: Imp(i >= length(x), at(x, i) == 0), induct=(LW, 0), patterns=lambda x, i: at(x, i), uses=["len"])
    lemma(p, "low part is bounded", "pw", [L, I], lambda x, i: Imp(And(norm(x), i >= 0), And(0 <= lo(x, i), lo(x, i) < pw(i))), induct=(LW, 0),
          patterns=lambda x, i: lo(x, i))
    lemma(p, "top digit", "pw", [L, I], lambda x, i: Imp(And(norm(x), i >= 0, length(x) <= i + 1), nval(x) == lo(x, i) + pw(i) * at(x, i)),
          induct=(LW, 0), patterns=lambda x, i: lo(x, i))
    lemma(p, "two top digits", "pw", [L, I], lambda x, i: Imp(And(norm(x), i >= 0, length(x) <= i + 2), nval(x) == lo(x, i) + pw(i) * (at(x, i) + B * at(x, i + 1))),
          induct=(LW, 0), patterns=lambda x, i: lo(x, i))
    lemma(p, "last digit", "len", [L], lambda x: Imp(And(norm(x), Not(isnil(x))), And(last(x) == at(x, length(x) - 1), last(x) >= 1, last(x) < B)), induct=(LW, 0), patterns=lambda x: last(x),
          uses=["nat", "len"])
    lemma(p, "size of a norm value", "size", [L, I], lambda x, k: Imp(And(norm(x), k >= 0, nval(x) < pw(k)), length(x) <= k), induct=(LW, 0),
          patterns=lambda x, k: [(norm(x), pw(k))], uses=["nat", "len", "pw"])
    C = {}
    NT = ["nat"]
    def con(name, *a, **k):
        k.setdefault("uses", NT)
        C["CoreIntInf." + name] = Contract("CoreIntInf." + name, *a, **k)
    o = lambda x, y: If(x < y, TOrder.mk("LESS"), If(x > y, TOrder.mk("GREATER"), TOrder.mk("EQUAL")))
    b2i = lambda b: If(b, 1, 0)
    dig = lambda d: And(0 <= d, d < B)
    con("natcmp", [TTup(LW, LW)], TOrder, requires=lambda s, a: [norm(a[0]), norm(a[1])],
        returns=lambda s, a: o(nval(a[0]), nval(a[1])))
    con("natinc", [LW], LW, requires=lambda s, x: norm(x), ensures=lambda s, x, r: [("norm", norm(r)), ("value", nval(r) == nval(x) + 1)])
    con("natdec", [LW], LW, requires=lambda s, x: [norm(x), Not(isnil(x))], ensures=lambda s, x, r: [norm(r), nval(r) == nval(x) - 1])
    con("natadd1", [TTup(LW, LW)], LW, requires=lambda s, a: [norm(a[0]), norm(a[1])], ensures=lambda s, a, r: [("norm", norm(r)), ("value", nval(r) == nval(a[0]) + nval(a[1]) + 1)])
    # the multiplication passes [0w0] as second argument, with a non-empty first one
    con("natadd0", [TTup(LW, LW)], LW, requires=lambda s, a: [norm(a[0]), Or(norm(a[1]), And(a[1] == cons_(0, nil), Not(isnil(a[0]))))],
        ensures=lambda s, a, r: [("norm", norm(r)), ("value", nval(r) == nval(a[0]) + nval(a[1]))])
    con("natsub", [TTup(LW, LW, TB)], LW, requires=lambda s, a: [norm(a[0]), Or(norm(a[1]), And(a[1] == cons_(0, nil), a[2]))],
        raises={"Negative": lambda s, a: nval(a[0]) < nval(a[1]) + b2i(a[2])},
        ensures=lambda s, a, r: [("norm", norm(r)), ("value", nval(r) == nval(a[0]) - nval(a[1]) - b2i(a[2]))])
    con("ddmul", [TTup(TWord, TWord)], TTup(TWord, TWord), requires=lambda s, a: [dig(a[0]), dig(a[1])],
        ensures=lambda s, a, r: [dig(r[0]), dig(r[1]), ("product", r[0] * B + r[1] == a[0] * a[1])])
    con("natmadd", [TTup(TWord, LW, TWord)], LW, requires=lambda s, a: [dig(a[0]), norm(a[1]), dig(a[2])],
        ensures=lambda s, a, r: [norm(r), nval(r) == a[0] * nval(a[1]) + a[2]],
        asserts={"h'": lambda s: [s.env("h'") * B + s.env("l'") == s.env("w") * s.env("x") + s.env("c"), 
                                  s.env("w") * s.env("x") <= (B-1)*(B-1), s.env("h'") < B]})
    con("natmul", [TTup(LW, LW)], LW, requires=lambda s, a: [norm(a[0]), norm(a[1])],
        ensures=lambda s, a, r: [norm(r), nval(r) == nval(a[0]) * nval(a[1])])
    con("consd", [TTup(TWord, LW)], LW, requires=lambda s, a: [dig(a[0]), norm(a[1])],
        ensures=lambda s, a, r: [norm(r), nval(r) == a[0] + B * nval(a[1]), length(r) <= 1 + length(a[1]),
                                 z3.ForAll([i_], Imp(i_ >= 1, at(r, i_) == at(a[1], i_ - 1)), patterns=[at(r, i_)]), at(r, 0) == a[0]], uses=["nat", "len"])
    con("scale", [TWord], TWord, requires=lambda s, w: [1 <= w, w < B],
        ensures=lambda s, w, r: [r >= 1, r * (w + 1) <= B, r * (w + 1) > B - (w + 1), ("2*scale*w >= base", 2 * (r * w) >= B), r < B],
        uses=[], )
    con("length'n'last", [LW], TTup(TInt, TWord), requires=lambda s, x: [norm(x), Not(isnil(x)), length(x) < LIM],
        ensures=lambda s, x, r: [r[0] == length(x) - 1, r[1] == last(x)], uses=["nat", "len"])
    con("nth", [TTup(TInt, LW)], TWord, requires=lambda s, a: [a[0] >= 0, norm(a[1])], ensures=lambda s, a, r: r == at(a[1], a[0]), uses=["nat", "len"])
    con("natdivmod2", [TTup(TTup(TWord, TWord), TWord)], TTup(TWord, TWord),
        requires=lambda s, a: [a[0][0] < a[1], a[1] < B, a[1] >= B // 2, a[0][0] >= 0, dig(a[0][1])],
        ensures=lambda s, a, r: [("quotient", r[0] * a[1] + r[1] == a[0][0] * B + a[0][1]), 0 <= r[1], r[1] < a[1], dig(r[0])], uses=[],
        asserts={})
    con("natdivmod2.adj", [TTup(TWord, TWord, TWord)], TTup(TWord, TWord),
        requires=lambda s, a: [a[0] >= 0, a[0] <= H + 1, 0 <= a[1], a[1] < s.env("ih"), 0 <= a[2], a[2] < H, a[0] * s.env("ih") + a[1] < s.env("i")],
        ensures=lambda s, a, r: [r[0] * s.env("i") + r[1] == (a[0] * s.env("ih") + a[1]) * H + a[2], 0 <= r[1], r[1] < s.env("i"), r[0] >= 0, r[0] < H], uses=[])
    con("natdivmod2.adj.loop", [TTup(TWord, TWord)], TTup(TWord, TWord),
        requires=lambda s, a: [a[0] >= 0, a[0] <= H + 1, a[1] - s.env("y") < s.env("i"), a[0] * s.env("i") + a[1] - s.env("y") >= 0, s.env("y") < B, a[1] >= 0],
        ensures=lambda s, a, r: [r[0] * s.env("i") + r[1] == a[0] * s.env("i") + a[1] - s.env("y"), 0 <= r[1], r[1] < s.env("i"), r[0] >= 0, r[0] <= a[0]], uses=[])
    con("natdivmodd", [TTup(LW, TWord)], TTup(LW, TWord), requires=lambda s, a: [norm(a[0]), 1 <= a[1], a[1] < B],
        ensures=lambda s, a, r: [norm(r[0]), nval(a[0]) == nval(r[0]) * a[1] + r[1], 0 <= r[1], r[1] < a[1]])
    con("natdivmodd.dmi", [LW], TTup(LW, TWord), requires=lambda s, x: [norm(x)],
        ensures=lambda s, x, r: [norm(r[0]), nval(x) == nval(r[0]) * s.env("i'") + r[1], 0 <= r[1], r[1] < s.env("i'")])
    con("natdivmod", [TTup(LW, LW)], TTup(LW, LW), requires=lambda s, a: [norm(a[0]), norm(a[1]), length(a[1]) < LIM],
        raises={"Div": lambda s, a: isnil(a[1])},
        ensures=lambda s, a, r: [norm(r[0]), norm(r[1]), nval(a[0]) == nval(r[0]) * nval(a[1]) + nval(r[1]), nval(r[1]) < nval(a[1])], uses=["nat", "len", "pw", "size"])
    N = lambda s: nval(s.env("n'", LW))
    def m1bound(s):
        P, rm, m1, n1 = pw(s.env("ln")), s.env("rm"), s.env("m1"), s.env("n1")
        a, b = lo(rm, s.env("ln")), lo(s.env("n'"), s.env("ln"))
        return [("m1 is the top digit of rm", m1 == at(rm, s.env("ln"))),
                Arith("P*m1 < P*(n1+1)", [nval(rm) == a + P * m1, N(s) == b + P * n1, a >= 0, b < P, nval(rm) < N(s)], P * m1 < P * n1 + P),
                Arith("m1 is at most n1", [P * m1 < P * n1 + P, P >= 1], m1 <= n1)]
    def trialq(s):
        P, m, m1, m2, n1, Y = pw(s.env("ln")), nval(s.env("m", LW)), s.env("m1"), s.env("m2"), s.env("n1"), s.env("tq") + 1
        X, lom = m2 + B * m1, lo(s.env("m", LW), s.env("ln"))
        return [Arith("trial quotient, equal top digits", [m == s.env("d") + B * nval(s.env("rm")), s.env("d") < B, nval(s.env("rm")) + 1 <= N(s)], m < B * N(s)),
                ("trial quotient, cases", Or(Y == B, X + 1 <= Y * n1)),
                Arith("trial quotient 1", [m == lom + P * X, lom < P], m < P * (X + 1)),
                Arith("trial quotient 2", [P >= 1], Imp(X + 1 <= Y * n1, P * (X + 1) <= P * (Y * n1))),
                Arith("trial quotient 3", [P * n1 <= N(s), Y >= 0], P * (Y * n1) <= Y * N(s)),
                Arith("trial quotient", [m < B * N(s), Or(Y == B, X + 1 <= Y * n1), m < P * (X + 1), Imp(X + 1 <= Y * n1, P * (X + 1) <= P * (Y * n1)), P * (Y * n1) <= Y * N(s)], m < Y * N(s))]
    con("natdivmod.divl", [LW], TTup(LW, LW), requires=lambda s, x: [norm(x)],
        ensures=lambda s, x, r: [norm(r[0]), norm(r[1]), nval(x) == nval(r[0]) * N(s) + nval(r[1]), nval(r[1]) < N(s)], uses=["nat", "len", "pw", "size"],
        asserts={
            "rm": lambda s: [nval(s.env("rm")) < pw(s.env("ln") + 1), length(s.env("rm")) <= s.env("ln") + 1],
            "m2": lambda s: [("rm by its top digit", nval(s.env("rm")) == lo(s.env("rm"), s.env("ln")) + pw(s.env("ln")) * at(s.env("rm"), s.env("ln"))),
                             ("n' by its top digit", N(s) == lo(s.env("n'"), s.env("ln")) + pw(s.env("ln")) * s.env("n1")),
                             ("m by its top digits", nval(s.env("m", LW)) == lo(s.env("m", LW), s.env("ln")) + pw(s.env("ln")) * (s.env("m2") + B * s.env("m1"))),
                             *m1bound(s)],
            "tq": lambda s: trialq(s)})
    con("natdivmod.divl.msds", [TTup(LW, TInt)], TTup(TWord, TWord), requires=lambda s, a: [norm(a[0]), a[1] >= 0, length(a[0]) <= a[1] + 2],
        ensures=lambda s, a, r: [r[0] == at(a[0], a[1] + 1), r[1] == at(a[0], a[1])], uses=["nat", "len"])
    con("natdivmod.divl.try", [TTup(TWord, LW)], TTup(TWord, LW),
        requires=lambda s, a: [dig(a[0]), norm(a[1]), nval(a[1]) == a[0] * N(s), nval(s.env("m", LW)) < (a[0] + 1) * N(s)],
        ensures=lambda s, a, r: [dig(r[0]), norm(r[1]), nval(s.env("m", LW)) == r[0] * N(s) + nval(r[1]), nval(r[1]) < N(s)],
        hints=lambda s, a: [("divisor positive", N(s) >= 1), ("m non-negative", nval(s.env("m", LW)) >= 0),
                            Arith("q > 0 when the trial product exceeds m", [N(s) >= 1, nval(s.env("m", LW)) >= 0], Imp(nval(s.env("m", LW)) < a[0] * N(s), a[0] >= 1)),
                            Arith("one less", [N(s) >= 1], And((a[0] - 1) * N(s) == a[0] * N(s) - N(s), (a[0] + 1) * N(s) == a[0] * N(s) + N(s), Imp(a[0] >= 1, a[0] * N(s) >= N(s))))])
    def scaled(s):
        P, sc, la, n, n1 = pw(s.env("ln")), s.env("scale"), s.env("last"), s.env("n", LW), nval(s.env("n'"))
        return [Arith("scaled low part", [lo(n, s.env("ln")) < P, sc >= 1], sc * lo(n, s.env("ln")) < sc * P),
                Arith("n' bounded by the scaled top digit", [n1 == sc * nval(n), nval(n) == lo(n, s.env("ln")) + P * la, sc * lo(n, s.env("ln")) < sc * P], n1 < P * (sc * (la + 1))),
                Arith("scaled top digit bounded", [P >= 1, sc * (la + 1) <= B], P * (sc * (la + 1)) <= P * B),
                Arith("n' < B^(ln+1)", [n1 < P * (sc * (la + 1)), P * (sc * (la + 1)) <= P * B, pw(s.env("ln") + 1) == B * P], n1 < pw(s.env("ln") + 1))]
    C["CoreIntInf.natdivmod"].asserts = {
        "scale": lambda s: [("value of n by its top digit", nval(s.env("n", LW)) == lo(s.env("n", LW), s.env("ln")) + pw(s.env("ln")) * s.env("last"))],
        "n'": lambda s: [("n' >= scale*last*B^ln", nval(s.env("n'")) >= pw(s.env("ln")) * (s.env("scale") * s.env("last"))),
                         *scaled(s),
                         ("length of n'", length(s.env("n'")) <= s.env("ln") + 1)],
        "n1": lambda s: [("top digit of n'", nval(s.env("n'")) == lo(s.env("n'"), s.env("ln")) + pw(s.env("ln")) * s.env("n1")),
                         Arith("P*(n1+1) > P*(scale*last)", [nval(s.env("n'")) == lo(s.env("n'"), s.env("ln")) + pw(s.env("ln")) * s.env("n1"), lo(s.env("n'"), s.env("ln")) < pw(s.env("ln")),
                                nval(s.env("n'")) >= pw(s.env("ln")) * (s.env("scale") * s.env("last"))], pw(s.env("ln")) * (s.env("n1") + 1) > pw(s.env("ln")) * (s.env("scale") * s.env("last"))),
                         Arith("n1+1 > scale*last", [pw(s.env("ln")) * (s.env("n1") + 1) > pw(s.env("ln")) * (s.env("scale") * s.env("last")), pw(s.env("ln")) >= 1], s.env("n1") + 1 > s.env("scale") * s.env("last")),
                         ("n1 >= B/2", s.env("n1") >= B // 2)],
        "rm'": lambda s: [("remainder is a multiple of scale", nval(s.env("rm'")) == s.env("scale") * (nval(s.env("m", LW)) - nval(s.env("qt")) * nval(s.env("n", LW))))],
        "rm": lambda s: []}
    # ---- signed layer
    REP = p.data("CoreIntInf.rep")
    neg = lambda r: REP.acc("BI", 0, r)
    digs = lambda r: REP.acc("BI", 1, r)
    R = REP.sort()
    nosel = lambda r, i: r.arg(i) if z3.is_app(r) and r.decl().eq(R.constructor(0)) else None
    ndig = lambda r: digs(r) if nosel(r, 1) is None else nosel(r, 1)
    nneg = lambda r: neg(r) if nosel(r, 0) is None else nosel(r, 0)
    sv = lambda n, d: If(n, -nval(d), nval(d))
    ival = lambda r: sv(nneg(r), ndig(r))
    rnorm = lambda r: And(norm(ndig(r)), Imp(isnil(ndig(r)), Not(nneg(r))))
    rlen = lambda r: length(ndig(r))
    U = ["nat"]; UL = ["nat", "len", "fl"]
    ok2 = lambda s, a: [rnorm(a[0]), rnorm(a[1])]
    ok2l = lambda s, a: [rnorm(a[0]), rnorm(a[1]), rlen(a[0]) < LIM, rlen(a[1]) < LIM]
    P2 = TTup(REP, REP)
    Z = ival
    def op2(name, f, **k):
        con(name, [P2], REP, requires=ok2, ensures=lambda s, a, r: [("norm", rnorm(r)), ("value", Z(r) == f(Z(a[0]), Z(a[1])))], uses=U, **k)
    for nm in ("add", "+"): op2(nm, lambda x, y: x + y)
    for nm in ("sub", "-"): op2(nm, lambda x, y: x - y)
    for nm in ("mul", "*"): op2(nm, lambda x, y: x * y)
    for nms, f in ((("neg", "~"), lambda x: -x), (("abs'", "abs"), lambda x: If(x >= 0, x, -x))):
        for nm in nms:
            con(nm, [REP], REP, requires=lambda s, a: rnorm(a), ensures=lambda s, a, r, f=f: [rnorm(r), Z(r) == f(Z(a))], uses=U)
    for nms, f in ((("lt", "<"), lambda x, y: x < y), (("gt", ">"), lambda x, y: x > y), (("le", "<="), lambda x, y: x <= y), (("ge", ">="), lambda x, y: x >= y)):
        for nm in nms:
            con(nm, [P2], TB, requires=ok2, ensures=lambda s, a, r, f=f: r == f(Z(a[0]), Z(a[1])), uses=U)
    for nm in ("compare'", "compare"):
        con(nm, [P2], TOrder, requires=ok2, ensures=lambda s, a, r: r == o(Z(a[0]), Z(a[1])), uses=U)
    ab = lambda y: If(y > 0, y, -y)
    floor_ok = lambda x, y, q, r: And(x == q * y + r, If(y > 0, And(0 <= r, r < y), And(y < r, r <= 0)))
    trunc_ok = lambda x, y, q, r: And(x == q * y + r, If(x >= 0, And(0 <= r, r < ab(y)), And(-ab(y) < r, r <= 0)))
    floorR = z3.Function("floorR", I, I, I, I, z3.BoolSort())
    truncR = z3.Function("truncR", I, I, I, I, z3.BoolSort())
    x_, y_, q_, r_ = z3.Ints("x_ y_ q_ r_")
    for f, d in ((floorR, floor_ok), (truncR, trunc_ok)):
        p.axiom("fl", "def " + f.name(), z3.ForAll([x_, y_, q_, r_], f(x_, y_, q_, r_) == d(x_, y_, q_, r_), patterns=[f(x_, y_, q_, r_)]))
    modr = lambda x, y, r: If(y > 0, r == x % y, -r == (-x) % (-y))
    remr = lambda x, y, r: If(x >= 0, r == x % ab(y), -r == (-x) % ab(y))
    euc = lemma(p, "euclid", "euclid", [I, I, I, I], lambda x, y, q, r: Imp(And(x == q * y + r, 0 <= r, r < y), And(r == x % y, q == x / y)),
          steps=lambda x, y, q, r: [Imp(And(x == q * y + r, 0 <= r, r < y), And(x == (x / y) * y + x % y, 0 <= x % y, x % y < y)),
                                    Imp(And(x == q * y + r, 0 <= r, r < y), (q - x / y) * y == x % y - r),
                                    Imp(And(x == q * y + r, 0 <= r, r < y), q - x / y < 1),
                                    Imp(And(x == q * y + r, 0 <= r, r < y), q - x / y > -1)], uses=[])
    lemma(p, "floor division is unique", "fl", [I, I, I, I], lambda x, y, q, r: Imp(floorR(x, y, q, r), And(y != 0, modr(x, y, r), q == If(y > 0, x / y, (-x) / (-y)))),
          patterns=lambda x, y, q, r: floorR(x, y, q, r), uses=["fl"],
          steps=lambda x, y, q, r: [Imp(floorR(x, y, q, r), floor_ok(x, y, q, r)),
                Inst(euc, x, y, q, r),
                Inst(euc, -x, -y, q, -r)])
    lemma(p, "truncated division is unique", "fl", [I, I, I, I], lambda x, y, q, r: Imp(truncR(x, y, q, r), And(remr(x, y, r))),
          patterns=lambda x, y, q, r: truncR(x, y, q, r), uses=["fl"],
          steps=lambda x, y, q, r: [Imp(truncR(x, y, q, r), trunc_ok(x, y, q, r))] + [
                Inst(euc, u, v, w, z) for u, v, w, z in
                ((x, y, q, r), (x, -y, -q, r), (-x, y, -q, -r), (-x, -y, q, -r))])
    Dv = {"Div": lambda s, a: Z(a[1]) == 0}
    XR = TRec({"digits": LW, "negative": TB})
    XP = TTup(XR, XR)
    xv = lambda a: sv(a["negative"], a["digits"])
    xok = lambda s, a: [norm(a[0]["digits"]), norm(a[1]["digits"]), Not(isnil(a[0]["digits"])), Not(isnil(a[1]["digits"])), length(a[0]["digits"]) < LIM, length(a[1]["digits"]) < LIM]
    con("quotRem''", [XP], P2, requires=xok, ensures=lambda s, a, r: [rnorm(r[0]), rnorm(r[1]), ("division", trunc_ok(xv(a[0]), xv(a[1]), Z(r[0]), Z(r[1]))), ("truncated", truncR(xv(a[0]), xv(a[1]), Z(r[0]), Z(r[1])))], uses=UL)
    con("divMod''", [XP], P2, requires=xok, ensures=lambda s, a, r: [rnorm(r[0]), rnorm(r[1]), ("division", floor_ok(xv(a[0]), xv(a[1]), Z(r[0]), Z(r[1]))), ("floor", floorR(xv(a[0]), xv(a[1]), Z(r[0]), Z(r[1])))], uses=UL)
    zx = lambda x: x
    for nm in ("divMod'", "divMod"):
        con(nm, [P2], P2, requires=ok2l, raises=Dv, ensures=lambda s, a, r: [rnorm(r[0]), rnorm(r[1]), floor_ok(Z(a[0]), Z(a[1]), Z(r[0]), Z(r[1]))], uses=UL)
    for nm in ("quotRem'", "quotRem"):
        con(nm, [P2], P2, requires=ok2l, raises=Dv, ensures=lambda s, a, r: [rnorm(r[0]), rnorm(r[1]), trunc_ok(Z(a[0]), Z(a[1]), Z(r[0]), Z(r[1]))], uses=UL)
    exq = lambda f: (lambda s, a, r: [rnorm(r), f(Z(a[0]), Z(a[1]), Z(r), Z(a[0]) - Z(r) * Z(a[1]))])
    for nm in ("div'", "div"): con(nm, [P2], REP, requires=ok2l, raises=Dv, ensures=exq(floor_ok), uses=UL)
    for nm in ("quot'", "quot"): con(nm, [P2], REP, requires=ok2l, raises=Dv, ensures=exq(trunc_ok), uses=UL)
    for nm in ("mod'", "mod"): con(nm, [P2], REP, requires=ok2l, raises=Dv, ensures=lambda s, a, r: [rnorm(r), modr(Z(a[0]), Z(a[1]), Z(r))], uses=UL)
    for nm in ("rem'", "rem"): con(nm, [P2], REP, requires=ok2l, raises=Dv, ensures=lambda s, a, r: [rnorm(r), remr(Z(a[0]), Z(a[1]), Z(r))], uses=UL)
    # ---- powers
    npow = z3.Function("npow", I, I, I)
    x_, n_ = z3.Ints("x_ n_")
    p.axiom("pow", "def npow 0", z3.ForAll([x_], npow(x_, 0) == 1, patterns=[npow(x_, 0)]))
    p.axiom("pow", "def npow succ", z3.ForAll([x_, n_], Imp(n_ >= 1, npow(x_, n_) == x_ * npow(x_, n_ - 1)), patterns=[npow(x_, n_)]))
    lemma(p, "powers of one", "pow1", [I, I], lambda x, n: Imp(And(n >= 0, x == 1), npow(x, n) == 1), induct=("nat", 1), patterns=lambda x, n: npow(x, n), uses=["pow"])
    lemma(p, "power of a sum", "pow2", [I, I, I], lambda x, m, n: Imp(And(m >= 0, n >= 0), npow(x, m + n) == npow(x, m) * npow(x, n)), induct=("nat", 1),
          patterns=lambda x, m, n: [(npow(x, m), npow(x, n))], uses=["pow"],
          steps=lambda x, m, n: [Imp(m == 0, npow(x, m) == 1), Imp(And(m >= 1, n >= 0), npow(x, m) == x * npow(x, m - 1)), Imp(And(m >= 1, n >= 0), npow(x, m + n) == x * npow(x, m - 1 + n)),
                                 Imp(And(m >= 1, n >= 0), npow(x, m - 1 + n) == npow(x, m - 1) * npow(x, n))])
    lemma(p, "sign of a power", "pow2", [I, I], lambda x, n: Imp(And(n >= 0, x >= 0), And(npow(x, n) >= 0, npow(-x, n) == If(n % 2 == 0, npow(x, n), -npow(x, n)))), induct=("nat", 1), uses=["pow"],
          patterns=lambda x, n: [npow(-x, n), npow(x, n)],
          steps=lambda x, n: [Imp(n >= 1, npow(x, n) == x * npow(x, n - 1)), Imp(n >= 1, npow(-x, n) == -x * npow(-x, n - 1)), Imp(And(n >= 1, x >= 0), And(npow(x, n - 1) >= 0, npow(-x, n - 1) == If((n - 1) % 2 == 0, npow(x, n - 1), -npow(x, n - 1))))])
    def halving(M, n, x, y):
        h = n / 2
        return [("half", And(x == npow(M, h), y == x * x)), ("even power", npow(M, h + h) == npow(M, h) * npow(M, h)), Imp(n % 2 == 0, n == h + h), Imp(n % 2 == 1, n == h + h + 1),
                Imp(n % 2 == 1, npow(M, h + h + 1) == M * npow(M, h + h)), Arith("square", [y == x * x, x == npow(M, h), npow(M, h + h) == npow(M, h) * npow(M, h)], y == npow(M, h + h)), 
                ("result", And(Imp(n % 2 == 0, npow(M, n) == y), Imp(n % 2 == 1, npow(M, n) == M * y)))]
    con("natpow", [TTup(LW, TInt)], LW, requires=lambda s, a: [norm(a[0])], raises={"Div": lambda s, a: And(isnil(a[0]), a[1] < 0)},
        ensures=lambda s, a, r: [norm(r), Imp(a[1] >= 0, nval(r) == npow(nval(a[0]), a[1])),
                                 Imp(a[1] < 0, nval(r) == If(nval(a[0]) == 1, 1, 0))], uses=["nat", "pow", "pow1"])
    con("natpow.exp", [TTup(LW, TWord)], LW, requires=lambda s, a: [norm(a[0]), Not(isnil(a[0]))],
        ensures=lambda s, a, r: [norm(r), nval(r) == npow(nval(a[0]), a[1])], uses=["nat", "pow", "pow2"],
        asserts={"y": lambda s: halving(nval(s.env("m", LW)), s.env("n"), nval(s.env("x", LW)), nval(s.env("y", LW)))})
    con("pow", [TTup(REP, TInt)], REP, requires=lambda s, a: [rnorm(a[0])], raises={"Div": lambda s, a: And(Z(a[0]) == 0, a[1] < 0)},
        ensures=lambda s, a, r: [rnorm(r), ("non-negative exponent", Imp(a[1] >= 0, Z(r) == npow(Z(a[0]), a[1]))),
                                 ("negative exponent", Imp(a[1] < 0, Z(r) == If(Z(a[0]) == 1, 1, If(Z(a[0]) == -1, If(a[1] % 2 == 0, 1, -1), 0))))], uses=["nat", "rep", "pow", "pow2"])
    # ---- conversions
    T64, W64 = TNum("int64"), TNum("word64")
    con("testInf64", [REP], T64, requires=lambda s, x: rnorm(x), raises={"Overflow": lambda s, x: Not(And(Z(x) >= -(1 << 63), Z(x) < (1 << 63)))}, ensures=lambda s, x, r: r == Z(x), uses=U)
    con("truncInf64", [REP], W64, requires=lambda s, x: rnorm(x), ensures=lambda s, x, r: r == Z(x) % (1 << 64), uses=U)
    con("extend64Inf", [T64], REP, ensures=lambda s, x, r: [rnorm(r), Z(r) == x], uses=U)
    con("copy64Inf", [W64], REP, ensures=lambda s, x, r: [rnorm(r), Z(r) == x], uses=U)
    con("makeNegInf", [LW], REP, requires=lambda s, x: [norm(x), Not(isnil(x))], ensures=lambda s, x, r: [rnorm(r), Z(r) == -nval(x)], uses=U)
    con("makePosInf", [LW], REP, requires=lambda s, x: norm(x), ensures=lambda s, x, r: [rnorm(r), Z(r) == nval(x)], uses=U)
    con("makeSmallNegInf", [TWord], REP, requires=lambda s, x: x < B, ensures=lambda s, x, r: [rnorm(r), Z(r) == -x], uses=U)
    con("makeSmallPosInf", [TWord], REP, requires=lambda s, x: x < B, ensures=lambda s, x, r: [rnorm(r), Z(r) == x], uses=U)
    con("lowValue", [REP], TInt, requires=lambda s, x: rnorm(x), ensures=lambda s, x, r: r == If(And(-B < Z(x), Z(x) < B), Z(x), -B), uses=U)
    p.contracts = C
    p.cost = {"CoreIntInf.natmul": 9, "CoreIntInf.natdivmod": 9, "CoreIntInf.natdivmod.divl": 9}
    return p
