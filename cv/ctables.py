"""Name/value tables: a symbolic key string ordered among the names that matter, strcmp and bsearch over it."""
from mlspec import *
def cstr(st, p):
    """the bytes of a constant C string, or None"""
    try: r, off = st.resolve(p)
    except Shape: return None
    if r.const is None or num(off) is None: return None
    n = num(off); out = []
    while True:
        b = num(st.loadr(r, n + len(out), 1))
        if b is None: return None
        if b == 0: return bytes(out)
        out.append(b)
def table(mod, name):
    """[(string, value)] of a constant table of {char *, int} entries"""
    g = mod.globals.get(name)
    if g is None or g.init is None: raise Shape(f"table {name} not found")
    out = []
    if g.init[0] != "agg": raise Shape(f"table {name}")
    for t, v in g.init[2]:
        fs = v[2] if v[0] == "agg" else None
        if fs is None or len(fs) < 2: raise Shape(f"table {name}: entry")
        s = n = None
        for ft, fv in fs:
            if fv[0] == "g":
                q = mod.globals[fv[1]].init
                s = bytes(q[2]).rstrip(b"\0") if q[0] == "str" else b""
            elif fv[0] == "c" and mod.resolve(ft).k == "i": n = fv[2] - (1 << 32) if fv[2] >= 1 << 31 else fv[2]
        if s is None or n is None: raise Shape(f"table {name}: entry")
        out.append((s, n))
    return out
class Key:
    def __init__(self, st, label, names):
        self.label = label; self.names = sorted(set(names)); self.rank = z3.BitVec("rank_" + label, 16)
        st.assume(z3.ULE(self.rank, 2 * len(self.names)))
        st.ghost["key"] = self
    def is_(self, n): return self.rank == 2 * self.names.index(n) + 1 if n in self.names else z3.BoolVal(False)
def iskey(st, p):
    k = st.ghost.get("key")
    if k is None: return False
    try: r, off = st.resolve(p)
    except Shape: return False
    return r.label == k.label and num(off) == 0
def s_strcmp(x):
    st = x.st; a, b = x.args[:2]
    ka, kb = iskey(st, a), iskey(st, b)
    ca, cb = (None if ka else cstr(st, a)), (None if kb else cstr(st, b))
    r = x.fresh("strcmp", 32)
    if ka and cb is not None or kb and ca is not None:
        k = st.ghost["key"]; c = cb if ka else ca
        if c not in k.names: raise Shape("comparison with a string outside the table")
        i = 2 * k.names.index(c) + 1
        lt, eq = z3.ULT(k.rank, i), k.rank == i
        st.assume((r == 0) == eq); st.assume((r < 0) == (lt if ka else z3.UGT(k.rank, i)))
    elif ca is not None and cb is not None: st.assume(r == 0 if ca == cb else r < 0 if ca < cb else r > 0)
    else: x.event(r)
    return r
def s_bsearch(x):
    st = x.st; key, base, n, sz, cmp = x.args
    if num(n) is None or num(sz) != 16: raise Shape("bsearch over a table of unknown size")
    r, off = st.resolve(cmp)
    if r.kind != "fun" or r.label != "f:cmp": raise Shape("bsearch with another comparison")
    if not iskey(st, st.load(key, 8)): raise Shape("bsearch for another key")
    rows = [cstr(st, st.load(simp(base + 16 * i), 8)) for i in range(num(n))]
    if any(q is None for q in rows): raise Shape("bsearch over a table that is not constant")
    bad = [f"{rows[i].decode()} >= {rows[i+1].decode()}" for i in range(len(rows) - 1) if rows[i] >= rows[i + 1]]
    x.require(not bad, "the table is sorted and without duplicates" + (": " + bad[0] if bad else ""))
    k = st.ghost["key"]
    found = z3.Or(*[k.is_(q) for q in rows]) if rows else z3.BoolVal(False)
    if st.entails(z3.Not(found)): return BV(0)
    if not st.entails(found): raise NeedFork(simp(found))
    i = z3.BitVec(f"row!{st.nf}", 64); st.nf += 1
    st.assume(z3.ULT(i, len(rows)))
    for j, q in enumerate(rows): st.assume(z3.Implies(k.is_(q), i == j))
    return simp(base + 16 * i)
TBL = {"strcmp": s_strcmp, "bsearch": s_bsearch}
NV = "c-libs/posix-error/posix-name-val.c"
def nvspec(G):
    """the comparison that the binary search uses"""
    def args(eng, st, A):
        a = st.region("key", 16, kind="cobj", writable=False); b = st.region("item", 16, kind="cobj", writable=False)
        return [a, b]
    def post(r):
        e = r.one("strcmp")
        r.eq(e.args[0], r.st.loadr(r.st.regions["key"], 0, 8), "compares the key's name"); r.eq(e.args[1], r.st.loadr(r.st.regions["item"], 0, 8), "with the item's name")
        r.eq(r.ret, e.ret, "returns the comparison")
    G.add(NV, "cmp", None, post, args=args, stubs={"strcmp": sysc(retlo=None, errno=False)}, msp=False)
def lookup_pre(expected, label="arg_data", tbl="values"):
    """expected: dict name -> value or callable(eng) -> dict"""
    def pre(eng, st, A):
        ex = expected(eng) if callable(expected) else expected
        eng.expected = {k.encode() if isinstance(k, str) else k: v for k, v in ex.items()}
        t = table(eng.mods[0], tbl)
        Key(st, label, [n for n, _ in t] + list(eng.expected))
    return pre
def keycase(r):
    """the expected value (a term) for the key of this path, 'other' for a table name outside the specification, or None"""
    k = r.st.ghost["key"]; ex = r.eng.expected
    ns = [n for n in k.names if n in ex]
    if ns and r.case(z3.Or(*[k.is_(n) for n in ns])):
        v = BV(ex[ns[0]], 32)
        for n in ns[1:]: v = z3.If(k.is_(n), BV(ex[n], 32), v)
        return v
    rest = [n for n in k.names if n not in ex]
    if rest and r.case(z3.Or(*[k.is_(n) for n in rest])): return "other"
    return None
def osval(G, file, fn, headers, macros, **kw):
    def expected(eng):
        vs = cbuild.probe(headers, list(macros.values()))
        return {n: (0 if v is None and n in kw.get("zero", ()) else v) for n, v in zip(macros, vs) if v is not None or n in kw.get("zero", ())}
    def post(r):
        kc = keycase(r)
        if r.effects() and [e.name for e in r.effects()] != ["RaiseSysError"]: r.fail("makes no system call")
        if kc is None: r.raised(None, True)
        elif isinstance(kc, str): pass
        else:
            if r.calls("RaiseSysError"): r.fail("every constant of the system's headers is found")
            r.match(r.ret, eInt(sx(kc, 64)), "value of the constant")
    G.add(file, fn, STR, post, link=[NV], stubs=TBL, pre=lookup_pre(expected), consts=("values",))

EINTR, EINVAL = 4, 22
def conf(G, file, fn, arg, label, prefix, required, call, argi, args, value):
    """sysconf and its like: look the name up, ask the system (again when interrupted), report value(r, e) or the error"""
    def expected(eng):
        names = [n.decode() for n, _ in table(eng.mods[0], "values")]
        names = [n for n in names if n.replace("_", "").isalnum()]
        full = sorted(set(names) | set(required))
        return dict(zip(full, cbuild.probe(["unistd.h"], [prefix + n for n in full])))
    def evs(r_or_events): return [e for e in r_or_events if e.name == call]
    def post(r):
        kc = keycase(r)
        bad = [e for e in r.effects() if e.name not in (call, "RaiseSysError")]
        if bad: r.fail(f"the only system call is {call}")
        if kc is None:
            if r.calls(call): r.fail("an unknown name makes no call")
            r.raised(); r.eq(r.st.loadr(r.calls("RaiseSysError")[0].regs["errno"], 0, 4), BV(EINVAL, 32), "an unknown name is EINVAL"); return
        es = evs(last(r.st))
        if not es: r.fail(f"{call} is called")
        for e in es:
            r.eq(e.args[argi], kc, "asks for the named value")
            for i, a in args(r.A): r.eq(e.args[i], a, f"argument {i} of {call}")
            r.eq(r.st.loadr(e.regs["errno"], 0, 4), BV(0, 32), "errno is cleared before the call")
        for e in es[:-1]: r.prove(z3.And(e.ret == -1, r.st.loadr(e.post["errno"], 0, 4) == EINTR), "asks again only when interrupted")
        e = es[-1]; er = r.st.loadr(e.post["errno"], 0, 4)
        if not r.case(e.ret == -1): r.noraise(); r.match(r.ret, value(r, e)); return
        r.prove(er != EINTR, "asks again when interrupted")
        if r.case(er == 0): value(r, None)
        else: r.raised(e)
    def chk(L, ev):
        es = evs(ev); st = L.st
        if len(es) != 1: return [("one call per round", False)]
        e = es[0]
        return [("asks again only when interrupted", z3.And(e.ret == -1, st.loadr(e.post["errno"], 0, 4) == EINTR)), ("errno is cleared", L.read("errno", 0, 4) == 0)]
    def inv(L):
        if L.phase == "kept": return chk(L, last(L.st))
        return [("errno is cleared", L.read("errno", 0, 4) == 0)]
    G.add(file, fn, arg, post, link=[NV], stubs=TBL, pre=lookup_pre(expected, label), consts=("values",), loops={fn: Loop(inv, mods=["errno"])}, bound=2, limit=200)

def consttable(G, file, glob, headers, prefix, required, tbl="tbl"):
    """a table of {number, name}: every entry is a constant of the system's headers, none is missing from those required, and the header of the table covers it"""
    pf = prefix if callable(prefix) else lambda n: prefix + n
    def chk(mod):
        t = table(mod, tbl)
        names = [n.decode() for n, _ in t]
        vs = dict(zip(names, cbuild.probe(headers, [pf(n) for n in names])))
        want = {n: v for n, v in zip(required, cbuild.probe(headers, [pf(n) for n in required])) if v is not None}
        for n, v in t:
            x = vs[n.decode()]
            if x is None: raise Shape(f"{n.decode()} is not a constant of the headers")
            yield f"{glob}: {n.decode()} has the system's number", v == x, f"{n.decode()} is {v}, the headers say {x}"
        for n in want: yield f"{glob}: {n} is in the table", n in names, f"{n} is missing"
        g = mod.globals.get(glob)
        if g is None or g.init is None or g.init[0] != "agg": raise Shape(f"{glob} not found")
        fs = [q[1] for q in g.init[2]]
        yield f"{glob}: the number of entries", fs[0][0] == "c" and fs[0][2] == len(t), f"{fs[0]} for {len(t)} entries"
        yield f"{glob}: the entries", fs[1] == ("g", tbl), str(fs[1])
    G.check(file, glob, chk)
