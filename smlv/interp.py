"""Evaluator: symbolic execution of parsed SML, with contracts at calls."""
import os, z3
from core import *
import core

REPO = os.environ.get("SMLV_REPO", "/repo")

TYKIND = {}
for nm, k in {"int": "int", "word": "word", "char": "char", "intinf": "intinf", "IntInf.int": "intinf", "LargeInt.int": "intinf", "Int.int": "int", "word8": "word8",
              "word32": "word32", "word64": "word64", "int32": "int32", "int64": "int64", "Word8.word": "word8", "Word32.word": "word32", "Word64.word": "word64",
              "Word.word": "word", "Int32.int": "int32", "Int64.int": "int64", "LargeWord.word": "word64", "Char.char": "char", "W.word": "word", "W8.word": "word8"}.items():
    TYKIND[nm] = k

class Prog:
    def __init__(self):
        self.contracts = {}
        self.datadecl = {}
        self.files = []
        self.axioms = []          # (group, name, z3 formula)
        self.top = Env()
        self.loadcx = Ctx(self)
        self.notes = []
        self.unroll = 16
        self.functors = {}
        import prims
        prims.install(self)
    # ---- loading
    def load(self, rel, fix=None):
        path = os.path.join(REPO, rel)
        self.files.append(rel)
        try:
            ds = parse_file(path, fix)
        except (ParseError, OSError, IndexError, ValueError) as e:
            raise Shape(f"{rel}: {e}")
        self.cur = rel
        self.top = ev_decs(self.loadcx, ds, self.top, "")
    def struct(self, path):
        parts = path.split(".")
        v = self.top.get(("S", parts[0]))
        for p in parts[1:]:
            if v is None: break
            v = v.env.get(("S", p))
        if v is None: raise Shape(f"structure {path} not found")
        return v
    def value(self, path):
        parts = path.split(".")
        if len(parts) == 1: v = self.top.get(path)
        else: v = self.struct(".".join(parts[:-1])).env.get(parts[-1])
        if v is None: raise Shape(f"{path} not found")
        return v
    def bind_struct(self, name, d, env=None):
        """a structure given by the spec (functor argument, or a dependency assumed by contract)"""
        st = Struct(Env(None, dict(d)), name)
        (env or self.top).d[("S", name)] = st
        return st
    def apply_functor(self, fname, arg, path):
        f = self.top.get(("F", fname))
        if f is None: raise Shape(f"functor {fname} not found")
        st = inst_functor(self.loadcx, f, arg, path)
        self.top.d[("S", path)] = st
        return st
    # ---- datatypes of the program as z3 datatypes
    def data(self, key, tyargs=None, names=None, zname=None):
        """z3 datatype for the program's datatype `key` (scope path + '.' + name)"""
        cache = self.__dict__.setdefault("_data", {})
        names = dict(names or {}); tyargs = tyargs or {}
        ck = (key, zname)
        if ck in cache: return cache[ck]
        if key not in self.datadecl: raise Shape(f"datatype {key} not found")
        tyvars, cons_, scope = self.datadecl[key]
        d = TData(zname or key.replace(".", "_").replace("'", "p"))
        cache[ck] = d
        def conv(ty):
            if ty is None: return None
            if ty[0] == "tyvar":
                if ty[1] in tyargs: return tyargs[ty[1]]
                raise Shape(f"type variable {ty[1]} of {key}")
            if ty[0] == "tytuple": return TTup(*[conv(t) for t in ty[1]])
            if ty[0] == "tyrec": return TRec({l: conv(t) for l, t in ty[1]})
            if ty[0] == "tycon":
                n = ".".join(ty[1])
                if n in names: return names[n] if not callable(names[n]) or isinstance(names[n], Ty) else names[n](*[conv(a) for a in ty[2]])
                if n == "bool": return TB
                if n == "unit": return TUnit
                if n == "string": return TString
                if n in TYKIND: return TNum(TYKIND[n])
                if n == "list": return TList(conv(ty[2][0]))
                if n == "option": return TOption(conv(ty[2][0]))
                if n == "vector": return TVec(conv(ty[2][0]))
                sc = scope
                while True:
                    k2 = f"{sc}.{n}" if sc else n
                    if k2 in self.datadecl:
                        return self.data(k2, tyargs, names, zname and f"{zname}_{n}" if k2 != key else zname)
                    if not sc: break
                    sc = sc.rpartition(".")[0]
                raise Shape(f"type {n} in datatype {key}")
            raise Shape(f"type form {ty[0]}")
        d.cons = [(c, conv(t)) for c, t in cons_]
        return d
    def axiom(self, group, name, f): self.axioms.append((group, name, f))

def inst_functor(cx, f, arg, path):
    env = Env(f.env)
    for p in f.params:
        if p is None: continue
        if p[0] == "named": env.d[("S", p[1])] = arg
        else:
            for k, v in arg.env.d.items(): env.d[k] = v
    return ev_str(cx, f.body, env, path)

# ---------------------------------------------------------------- declarations
def ev_decs(cx, ds, env, path):
    """evaluate declarations; returns the environment after them (a rebinding opens a new
    layer, so closures made earlier keep the binding they saw)"""
    for d in ds:
        if d[0] in ("open", "local"):
            t = Env(env)
            ev_dec(cx, d, t, path)
            if any(env.get(k) is not None for k in t.d): env = t
            else: env.d.update(t.d)
            continue
        if any(env.get(k) is not None for k in dec_keys(d, env)): env = Env(env)
        ev_dec(cx, d, env, path)
    return env

def dec_keys(d, env):
    k = d[0]
    if k == "val": return [x for p, _ in d[1] for x in pat_vars(p, env)]
    if k == "fun": return [nm for nm, _ in d[1]]
    if k == "datatype": return [c for _, _, cs in d[1] for c, _ in cs]
    if k == "exn": return [nm for nm, _ in d[1]]
    if k == "struct": return [("S", x[0]) for x in d[1]]
    if k == "functor": return [("F", x[0]) for x in d[1]]
    if k == "type": return [("T", d[2])]
    return []

def flatten(env, base):
    """bindings made between base (exclusive) and env, as one dictionary"""
    ch = []
    while env is not None and env is not base: ch.append(env.d); env = env.up
    out = {}
    for x in reversed(ch): out.update(x)
    return out

def open_struct(env, st):
    e = st.env
    chain = []
    while e is not None and not getattr(e, "d", {}).get("#base"):
        chain.append(e)
        e = e.up if e is not st.env or True else None
        break
    for e in reversed(chain):
        for k, v in e.d.items(): env.d[k] = v

def find_struct(env, lid):
    v = env.get(("S", lid[0]))
    for p in lid[1:]:
        if v is None: break
        v = v.env.d.get(("S", p)) if isinstance(v, Struct) else None
    if v is None: raise Shape(f"structure {'.'.join(lid)} not known")
    return v

def ev_dec(cx, d, env, path):
    k = d[0]
    if k == "val":
        if d[2]:
            for p, e in d[1]:
                q = p
                while q[0] == "ptyped": q = q[1]
                if q[0] != "pvar": raise Shape("val rec pattern")
                ee = e
                while ee[0] == "typed": ee = ee[1]
                env.d[q[1][0]] = Clo(sub(path, q[1][0]), [([m[0]], None, m[1]) for m in ee[1]], env, 1)
            for p, e in d[1]:
                q = p
                while q[0] == "ptyped": q = q[1]
                local_hook(cx, env.d[q[1][0]])
            return
        out = {}
        for p, e in d[1]:
            nm = None
            q = p
            while q[0] == "ptyped": q = q[1]
            if q[0] == "pvar" and len(q[1]) == 1: nm = q[1][0]
            try:
                v = ev(cx, e, env, sub(path, nm) if nm else path)
            except Shape as ex:
                if cx.loading and nm:
                    v = Poison(f"{sub(path, nm)}: {ex}")
                elif cx.loading:
                    for x in pat_vars(p, env): out[x] = Poison(f"{path}: {ex}")
                    continue
                else: raise
            b = {}
            if not match(cx, p, v, b, env):
                raise SMLRaise(Exn(cx.prog.exn["Bind"]))
            for x in b.values():
                if isinstance(x, Clo) and not x.args and x.path.endswith("#fn") and nm: x.path = sub(path, nm)
            out.update(b)
        env.d.update(out)
        if not cx.loading and cx.cur is not None and cx.cur.asserts:
            for nm in out:
                if nm in cx.cur.asserts:
                    try: fs = spec_list(cx.cur.asserts[nm](S(cx, EnvOnly(env, path))), "assertion after " + nm + " ")
                    except Shape: fs = []
                    run_steps(cx, fs, cx.job.name)
        for v in out.values():
            if isinstance(v, Clo) and not v.args: local_hook(cx, v)
    elif k == "fun":
        for nm, cl in d[1]:
            env.d[nm] = Clo(sub(path, nm), cl, env, len(cl[0][0]))
        for nm, cl in d[1]: local_hook(cx, env.d[nm])
    elif k == "type":
        if d[3] is not None: env.d[("T", d[2])] = (d[1], d[3])
    elif k == "datatype":
        for tv, nm, cons_ in d[1]:
            env.d[("D", nm)] = [c for c, _ in cons_]
            cx.prog.datadecl[sub(path, nm)] = (tv, cons_, path)
            for c, ty in cons_:
                env.d[c] = ConFn(c, nm) if ty is not None else Con(c, None, nm)
    elif k == "datarepl":
        lid = d[2]
        if len(lid) > 1:
            try: st = find_struct(env, lid[:-1])
            except Shape: st = None
            cs = st.env.get(("D", lid[-1])) if st else None
            src = st.env if st else None
        else:
            cs = env.get(("D", lid[0])); src = env
        if cs is None:
            if lid[-1] in ("list", "option", "order", "bool"): return
            raise Shape(f"datatype {'.'.join(lid)}")
        env.d[("D", d[1])] = cs
        for c in cs: env.d[c] = src.get(c)
    elif k == "exn":
        for nm, spec in d[1]:
            if spec is None: env.d[nm] = ExnCon(nm)
            elif spec[0] == "of": env.d[nm] = ExnCon(nm, True)
            else:
                v = lookup(cx, spec[1], env)
                env.d[nm] = v
    elif k == "local":
        e1 = ev_decs(cx, d[1], Env(env), path)
        e2 = ev_decs(cx, d[2], Env(e1), path)
        env.d.update(flatten(e2, e1))
    elif k == "open":
        for lid in d[1]:
            try: open_struct(env, find_struct(env, lid))
            except Shape:
                if not cx.loading: raise
                cx.prog.notes.append(f"open {'.'.join(lid)} not modelled in {path}")
    elif k == "struct":
        for nm, _, se in d[1]:
            try: env.d[("S", nm)] = ev_str(cx, se, env, sub(path, nm))
            except Shape as ex:
                if not cx.loading: raise
                cx.prog.notes.append(f"structure {sub(path, nm)} not modelled: {ex}")
    elif k == "functor":
        for nm, params, se in d[1]: env.d[("F", nm)] = Functor(nm, params, se, env, path)
    elif k == "overload":
        pass
    elif k == "fix": pass
    else: raise Shape(f"declaration {k}")

def pat_vars(p, env):
    k = p[0]
    if k == "pvar":
        return [p[1][0]] if len(p[1]) == 1 and not isinstance(env.get(p[1][0]), (Con, ConFn, ExnCon)) else []
    if k == "pcon": return pat_vars(p[2], env)
    if k == "prec": return [x for _, q in p[1] for x in pat_vars(q, env)]
    if k in ("plist", "pvec", "por"): return [x for q in p[1] for x in pat_vars(q, env)]
    if k == "pas": return [p[1]] + pat_vars(p[2], env)
    if k == "ptyped": return pat_vars(p[1], env)
    return []

class Poison:
    def __init__(self, why): self.why = why

def ev_str(cx, se, env, path):
    k = se[0]
    if k == "sstruct":
        e = ev_decs(cx, se[1], Env(env), path)
        return Struct(Env(env, flatten(e, env)), path)
    if k == "sid":
        return find_struct(env, se[1])
    if k == "slet":
        e = ev_decs(cx, se[1], Env(env), path)
        return ev_str(cx, se[2], e, path)
    if k == "sapp":
        fn = se[1]
        if fn[0] != "sid": raise Shape("functor expression")
        f = env.get(("F", fn[1][-1]))
        if f is None: raise Shape(f"functor {fn[1]}")
        return inst_functor(cx, f, ev_str(cx, se[2], env, path + ".arg"), path)
    raise Shape(f"structure expression {k}")

def sub(path, nm): return f"{path}.{nm}" if path else nm

# ---------------------------------------------------------------- lookup
def lookup(cx, lid, env):
    if len(lid) == 1:
        v = env.get(lid[0])
        if v is None: raise Shape(f"identifier {lid[0]} not known")
    else:
        st = find_struct(env, lid[:-1])
        v = st.env.d.get(lid[-1])
        if v is None: raise Shape(f"identifier {'.'.join(lid)} not known")
    if isinstance(v, Poison): raise Shape(v.why)
    return v

# ---------------------------------------------------------------- pattern matching
def refine(cx, v, cname):
    """v : Sym ; does it have constructor cname?  Splits the path."""
    key = v.t.get_id()
    r = cx.refined.get(key)
    if r is not None: return r[1] if r[1].name == cname else None
    ty = v.ty
    i = ty.idx(cname)
    ex = cx.excl.setdefault(key, (v.t, set()))[1]
    if cname in ex: return None
    rest = [c for c, _ in ty.cons if c not in ex]
    if rest == [cname] or cx.branch(ty.is_(cname, v.t)):
        ts = []
        for j, ft in enumerate(ty.fieldtys(i)):
            x = cx.fresh(f"{ty.cname(i)}_{j}", ft.sort())
            ts.append(x)
        con = ty.sort().constructor(i)(*ts) if ts else ty.sort().constructor(i)()
        cx.assume(v.t == con)
        for x, ft in zip(ts, ty.fieldtys(i)): cx.assume(ft.wf(x))
        c = ty._con(i, ts)
        cx.refined[key] = (v.t, c)
        return c
    ex.add(cname)
    rest = [c for c, _ in ty.cons if c not in ex]
    if len(rest) == 1: refine(cx, v, rest[0])
    return None

def match(cx, p, v, b, env):
    k = p[0]
    if k == "wild": return True
    if k == "ptyped": 
        if isinstance(v, Num) and v.k is None: v = retype(cx, v, p[2], env)
        return match(cx, p[1], v, b, env)
    if k == "pas":
        b[p[1]] = v
        return match(cx, p[2], v, b, env)
    if k == "pvar":
        lid = p[1]
        c = None
        if len(lid) == 1: c = env.get(lid[0])
        else: c = lookup(cx, lid, env)
        if isinstance(c, Con) and c.arg is None and isinstance(c, Con) and c.dt is not None and (len(lid) > 1 or is_con_binding(env, lid[0])):
            return match_con(cx, c.name, None, v, b, env)
        if isinstance(c, bool) and lid[0] in ("true", "false"):
            if isinstance(v, (bool, z3.BoolRef)):
                return cx.branch(v) if c else not cx.branch(v)
            raise Shape("bool pattern")
        if isinstance(c, ExnCon):
            if not isinstance(v, Exn): raise Shape("exception pattern")
            return v.con is c
        b[lid[0]] = v
        return True
    if k == "pcon":
        c = lookup(cx, p[1], env)
        if isinstance(c, ConFn): return match_con(cx, c.name, p[2], v, b, env)
        if isinstance(c, ExnCon):
            if not isinstance(v, Exn): raise Shape("exception pattern")
            return v.con is c and match(cx, p[2], v.arg, b, env)
        if isinstance(c, Prim) and c.name == "ref":
            v = cx.norm(v)
            if not isinstance(v, Seq): raise Shape("ref pattern")
            return match(cx, p[2], cx.heap[v.id].elems[0], b, env)
        raise Shape(f"constructor pattern {p[1]}")
    if k == "prec":
        if not isinstance(v, Rec): raise Shape(f"record pattern against {v!r}")
        for lab, q in p[1]:
            if lab not in v.f: raise Shape(f"no field {lab}")
            if not match(cx, q, v.f[lab], b, env): return False
        return True
    if k in ("pint", "pword", "pchar"):
        if not isinstance(v, Num): raise Shape(f"numeric pattern against {v!r}")
        t = v.t
        return (t == p[1]) if isc(t) else cx.branch(t == p[1])
    if k == "pstr":
        v = cx.norm(v)
        c = cx.heap[v.id]
        if not (isc(c.len) and c.len == len(p[1])):
            if isc(c.len): return False
            if not cx.branch(c.len == len(p[1])): return False
        for i, ch in enumerate(p[1]):
            e = seq_get(cx, v, i)
            if not (e.t == ch if isc(e.t) else cx.branch(e.t == ch)): return False
        return True
    if k == "plist":
        for q in p[1]:
            v = cx.norm(v)
            c = con_of(cx, v, "::")
            if c is None: return False
            h, t = untup(c.arg)
            if not match(cx, q, h, b, env): return False
            v = t
        return con_of(cx, cx.norm(v), "nil") is not None
    if k == "por":
        for q in p[1]:
            b2 = {}
            if match(cx, q, v, b2, env):
                b.update(b2); return True
        return False
    if k == "pvec":
        v = cx.norm(v)
        c = cx.heap[v.id]
        if isc(c.len):
            if c.len != len(p[1]): return False
        elif not cx.branch(c.len == len(p[1])): return False
        return all(match(cx, q, seq_get(cx, v, i), b, env) for i, q in enumerate(p[1]))
    raise Shape(f"pattern {k}")

def is_con_binding(env, nm):
    # a value variable may be bound to a nullary constructor value; only a real
    # constructor binding (made by a datatype declaration or the prelude) counts
    e = env
    while e is not None:
        if nm in e.d:
            v = e.d[nm]
            return isinstance(v, Con) and v.name == nm and v.arg is None
        e = e.up
    return False

def con_of(cx, v, cname):
    v = cx.norm(v)
    if isinstance(v, Con): return v if v.name == cname else None
    if isinstance(v, Sym): return refine(cx, v, cname)
    raise Shape(f"constructor {cname} matched against {v!r}")

def match_con(cx, cname, ap, v, b, env):
    c = con_of(cx, v, cname)
    if c is None: return False
    if ap is None: return True
    return match(cx, ap, c.arg, b, env)

# ---------------------------------------------------------------- sequences
def seq_get(cx, v, i):
    """element i (term or int), assumed in bounds"""
    v = cx.norm(v)
    c = cx.heap[v.id]
    if c.elems is not None:
        if isc(i):
            if not (0 <= i < len(c.elems)) or c.elems[i] is None: raise Shape("element of a concrete sequence out of range")
            return c.elems[i]
        if v.kind == "string": c.symbolic(cx, TChar)
        else:
            if c.ety is None:
                e = next((x for x in c.elems if x is not None), None)
                if isinstance(e, Num): c.ety = TNum(e.k or "int")
                elif isinstance(e, (bool, z3.BoolRef)): c.ety = TB
            c.symbolic(cx, c.ety)
    t = z3.Select(c.arr, zi(i))
    if not isinstance(c.ety, TAny):
        t2 = z3.simplify(t) if isc(i) else t
        if z3.is_int_value(t2): t = t2.as_long()
    cx.assume(c.ety.wf(t))
    return c.ety.unpack(t)
def seq_set(cx, v, i, x):
    c = cx.heap[v.id]
    if c.elems is not None and isc(i) and c.kind != "ref":
        c.elems[i] = x; return
    if c.kind == "ref": c.elems[0] = x; return
    c.symbolic(cx, guess_ty(x))
    c.arr = z3.Store(c.arr, zi(i), c.ety.pack(cx, cx.norm(x)))
def guess_ty(v):
    if isinstance(v, Num): return TNum(v.k or "int")
    if isinstance(v, (bool, z3.BoolRef)): return TB
    if isinstance(v, Abs):
        for n, s in TAbs._sorts.items():
            if s == v.t.sort(): return TAbs(n)
    if isinstance(v, Sym): return v.ty
    return None
def mkstr(cx, codes):
    return cx.alloc(Cell("string", len(codes), [Num("char", c) for c in codes], None, TChar), "string")

# ---------------------------------------------------------------- expressions
def retype(cx, v, ty, env):
    if ty[0] == "tycon":
        n = ".".join(ty[1])
        k = TYKIND.get(n)
        seen = 0
        while k is None and seen < 5 and len(ty) > 1 and ty[0] == "tycon":
            a = None
            if len(ty[1]) == 1: a = env.get(("T", ty[1][0]))
            else:
                try: a = find_struct(env, ty[1][:-1]).env.get(("T", ty[1][-1]))
                except Shape: a = None
            if a is None: break
            ty = a[1]; seen += 1
            if ty[0] == "tycon": k = TYKIND.get(".".join(ty[1]))
        if k is not None: return Num(k, v.t)
    return v

def ev(cx, e, env, path):
    while True:
        k = e[0]
        if k == "var": return lookup(cx, e[1], env)
        if k == "int": return Num(None, e[1])
        if k == "word": return Num("?w", e[1])
        if k == "char": return Num("char", e[1])
        if k == "str": return mkstr(cx, e[1])
        if k == "app":
            f = ev(cx, e[1], env, path)
            a = ev(cx, e[2], env, path)
            return apply(cx, f, a)
        if k == "rec":
            if not e[1]: return UNIT
            return Rec({l: ev(cx, x, env, path) for l, x in e[1]})
        if k == "tuple": return tup(*[ev(cx, x, env, path) for x in e[1]])
        if k == "list": return mklist([ev(cx, x, env, path) for x in e[1]])
        if k == "vec":
            vs = [ev(cx, x, env, path) for x in e[1]]
            return cx.alloc(Cell("vector", len(vs), vs), "vector")
        if k == "seq":
            for x in e[1][:-1]: ev(cx, x, env, path)
            e = e[1][-1]; continue
        if k == "fn":
            return Clo(path + "#fn", [([m[0]], None, m[1]) for m in e[1]], env, 1, (), True)
        if k == "case":
            v = ev(cx, e[1], env, path)
            for p, body in e[2]:
                b = {}
                if match(cx, p, v, b, env):
                    env = Env(env, b); e = body
                    break
            else: raise SMLRaise(Exn(cx.prog.exn["Match"]))
            continue
        if k == "if":
            c = ev(cx, e[1], env, path)
            if not isinstance(c, (bool, z3.BoolRef)): raise Shape(f"condition {c!r}")
            e = e[2] if cx.branch(c) else e[3]
            continue
        if k == "andalso":
            c = ev(cx, e[1], env, path)
            if not cx.branch(c): return False
            e = e[2]; continue
        if k == "orelse":
            c = ev(cx, e[1], env, path)
            if cx.branch(c): return True
            e = e[2]; continue
        if k == "let":
            env = ev_decs(cx, e[1], Env(env), path)
            e = e[2]; continue
        if k == "typed":
            v = ev(cx, e[1], env, path)
            if isinstance(v, Num) and (v.k is None or v.k == "?w"): v = retype(cx, v, e[2], env)
            return v
        if k == "raise":
            v = ev(cx, e[1], env, path)
            if isinstance(v, ExnCon): v = Exn(v)
            if not isinstance(v, Exn): raise Shape("raise of a non-exception")
            raise SMLRaise(v)
        if k == "handle":
            try:
                return ev(cx, e[1], env, path)
            except SMLRaise as ex:
                for p, body in e[2]:
                    b = {}
                    if match(cx, p, ex.exn, b, env):
                        env = Env(env, b); e = body
                        break
                else: raise
            continue
        if k == "while":
            n = 0
            while cx.branch(ev(cx, e[1], env, path)):
                n += 1
                if n > cx.prog.unroll: raise Shape(f"while loop in {path} without invariant")
                ev(cx, e[2], env, path)
            return UNIT
        if k == "sel":
            lab = e[1]
            def fsel(cx, v, lab=lab):
                if not isinstance(v, Rec) or lab not in v.f: raise Shape(f"#{lab} of {v!r}")
                return v.f[lab]
            return Prim("#" + lab, fsel)
        if k == "real": return Real(e[1])
        raise Shape(f"expression {k}")

# ---------------------------------------------------------------- application
def apply(cx, f, a):
    if isinstance(f, Clo):
        need = f.arity
        if not cx.loading and cx.prog.contracts:
            c = find_contract(cx, f)
            if c is not None: need = len(c.args)
        if len(f.args) + 1 < need:
            return Clo(f.path, f.clauses, f.env, f.arity, f.args + (a,), f.isfn)
        return call(cx, f, f.args + (a,))
    if isinstance(f, Prim): return f.fn(cx, a)
    if isinstance(f, ConFn): return Con(f.name, a, f.dt)
    if isinstance(f, ExnCon): return Exn(f, a)
    if isinstance(f, Poison): raise Shape(f.why)
    raise Shape(f"application of {f!r}")

def find_contract(cx, f):
    cs = cx.prog.contracts
    return cs.get(f"{cx.job.name if cx.job else ''}>{f.path}") or cs.get(f.path)

def call(cx, f, args):
    if not cx.loading and cx.prog.contracts:
        c = find_contract(cx, f)
        if c is not None: return call_contract(cx, c, f, list(args))
    return body(cx, f, args)

def body(cx, f, args):
    ident = id(f.clauses)
    depth = sum(1 for x in cx.stack if x == ident)
    if depth > (100000 if cx.loading else cx.prog.unroll):
        raise Shape(f"recursive function {f.path} has no contract")
    cx.stack.append(ident)
    try:
        for pats, ty, e in f.clauses:
            b = {}
            if all(match(cx, p, a, b, f.env) for p, a in zip(pats, args)):
                v = ev(cx, e, Env(f.env, b), f.path)
                if ty is not None and isinstance(v, Num) and (v.k is None or v.k == "?w"): v = retype(cx, v, ty, f.env)
                return v
        raise SMLRaise(Exn(cx.prog.exn["Match"]))
    finally:
        cx.stack.pop()

def exn_by_name(cx, nm, env=None):
    e = cx.prog.exn.get(nm)
    if e is None and env is not None:
        e = env.get(nm) if "." not in nm else lookup_opt(env, nm)
    if e is None: raise Shape(f"exception {nm} not known")
    return e

def argviews(cx, c, args):
    if len(args) != len(c.args): raise Shape(f"{c.name}: {len(args)} curried arguments, contract has {len(c.args)}")
    return [view(cx, a, t) for a, t in zip(args, c.args)]

def spec_list(r, what):
    out = []
    for i, x in enumerate(as_list(r)):
        if isinstance(x, Arith): out.append((x.label, x))
        elif isinstance(x, tuple): out.append((x[0], zb(x[1]) if not isinstance(x[1], (list, tuple)) else z3.And(*[zb(y) for y in x[1]])))
        else: out.append((f"{what}{i+1}", zb(x)))
    return out

def run_steps(cx, fs, who):
    for lab, g in fs:
        if isinstance(g, Arith): cx.prove_from(g.hyps, g.goal, f"{who}: {lab}")
        else: cx.prove(g, f"{who}: {lab}")

def call_contract(cx, c, f, args):
    sp = S(cx, f)
    vs = argviews(cx, c, args)
    here = cx.job.name
    if c.requires:
        for lab, g in spec_list(c.requires(sp, *vs), "requires"):
            cx.prove(g, f"precondition {lab} of {c.name} at call in {here}")
    if c.decreases and cx.measure is not None and here in cx.measure and cx.group == c.group:
        m = c.decreases(sp, *vs)
        m0 = cx.measure[cx.job.name]
        ms = m if isinstance(m, (list, tuple)) else [m]
        m0s = m0 if isinstance(m0, (list, tuple)) else [m0]
        g = z3.BoolVal(False)
        for i in reversed(range(min(len(ms), len(m0s)))):
            g = z3.Or(z3.And(ms[i] < m0s[i], m0s[i] >= 0) if True else None, z3.And(ms[i] == m0s[i], g))
        cx.prove(z3.simplify(g) if False else g, f"termination measure of {c.name} decreases at call in {here}")
    for exn, cond in c.raises.items():
        cc = cond(sp, *vs)
        if cx.branch(zb(cc)):
            havoc(cx, c, sp, vs)
            raise SMLRaise(Exn(exn_by_name(cx, exn, f.env), Opaque()))
    mods = havoc(cx, c, sp, vs)
    if c.returns is not None:
        t = c.returns(sp, *vs)
        r = t if not isinstance(t, z3.ExprRef) else c.ret.unpack(t)
        if isinstance(t, z3.ExprRef): cx.assume(c.ret.wf(t))
        if c.ensures:
            for lab, g in spec_list(c.ensures(sp, *vs, view(cx, r, c.ret)), "ensures"): cx.assume(g)
        return r
    r = cx.mksym(c.ret, c.name.split(".")[-1])
    if c.ensures:
        for lab, g in spec_list(c.ensures(sp, *vs, view(cx, r, c.ret)), "ensures"): cx.assume(g)
    return r

def havoc(cx, c, sp, vs):
    """forget the contents of what the callee may modify; set .post of the views"""
    if not c.modifies: return []
    ms = c.modifies(sp, *vs)
    for hv in ms:
        if not isinstance(hv, HeapView): raise Shape(f"{c.name}: modifies clause on a value that is not a heap object")
        cell = cx.heap[hv.v.id]
        if cell.kind == "ref":
            ety = hv.ety or guess_ty(cell.elems[0])
            cell.elems = [cx.mksym(ety, "ref")]
            hv.post = view(cx, cell.elems[0], ety)
        else:
            cell.symbolic(cx, hv.ety)
            cell.arr = cx.fresh("arr", cell.arr.sort())
            hv.post = SeqView(cell.len, cell.arr)
    return ms

# ---------------------------------------------------------------- local functions under contract
def local_hook(cx, f):
    """a local function under contract was created: the job that verifies it (or something
    inside it) enters its body here, in the captured context; other jobs go on"""
    if cx.loading or cx.job is None: return
    job = cx.job
    c = find_contract(cx, f)
    if c is None: return
    tgt = job.target
    if tgt == f.path or tgt.startswith(f.path + "."):
        # heap contents may have changed between creation and call: forget them
        for i, cell in list(cx.heap.items()):
            if mutable_here(cell):
                if cell.kind == "ref":
                    ety = guess_ty(cell.elems[0])
                    if ety is not None: cell.elems = [cx.mksym(ety, "refh")]
                    else: cell.elems = [Poison("contents of a reference cell unknown")]
                elif cell.arr is not None: cell.arr = cx.fresh("arrh", cell.arr.sort())
                elif cell.elems is not None and cell.elems:
                    cell.symbolic(cx, cell.ety or guess_ty(cell.elems[0])); cell.arr = cx.fresh("arrh", cell.arr.sort())
        if tgt == f.path: job.transit = 0
        verify_body(cx, c, f)
        raise PathDone()

def mutable_here(cell):
    return cell.mut

def verify_body(cx, c, f, runner=None):
    """assume the precondition, run the body, prove the postcondition"""
    job = cx.job
    sp = S(cx, f)
    if runner is None and len(c.args) < f.arity: raise Shape(f"{c.name}: arity {f.arity}, contract has {len(c.args)}")
    names = [argname(f, i) if runner is None and i < f.arity else f"arg{i}" for i in range(len(c.args))]
    args = [cx.mksym(t, names[i]) for i, t in enumerate(c.args)]
    vs = argviews(cx, c, args)
    if c.requires:
        for lab, g in spec_list(c.requires(sp, *vs), "requires"): cx.assume(g)
    if c.hints:
        run_steps(cx, spec_list(c.hints(sp, *vs), "proof step"), c.name)
    save = (job.name, cx.measure, cx.group, cx.cur)
    cx.group = c.group; cx.cur = c
    prev = job.name
    job.name = c.name
    job.local_vacuity(cx, c)
    cx.measure = dict(cx.measure or {})
    if c.decreases: cx.measure[c.name] = c.decreases(sp, *vs)
    frame = {i: cell.copy() for i, cell in cx.heap.items()}
    raised = None
    try:
        if runner is not None:
            r = runner
            for x in args: r = apply(cx, r, x)
        else:
            r = body(cx, f, tuple(args[:f.arity]))
            for x in args[f.arity:]: r = apply(cx, r, x)
    except SMLRaise as ex:
        raised = ex.exn
    # post states
    mods = c.modifies(sp, *vs) if c.modifies else []
    modids = {hv.v.id for hv in mods}
    for hv in mods: hv.post = snap(cx, hv.v, hv.ety)
    for v in vs:
        if isinstance(v, HeapView) and v not in mods: v.post = snap(cx, v.v, v.ety)
    if job.transit == 0: job.exits += 1
    # frame: no other existing object was written
    for i, old in frame.items():
        if i in modids: continue
        new = cx.heap[i]
        if old.kind == "ref":
            if new.elems[0] is not old.elems[0]:
                cx.prove(prims_eq(cx, new.elems[0], old.elems[0]), f"{c.name}: frame, reference cell unchanged")
        elif old.mut and old.arr is not None and new.arr is not None and not new.arr.eq(old.arr):
            cx.prove(new.arr == old.arr, f"{c.name}: frame, array unchanged")
    if raised is not None:
        job.exn_exits += 1
        for exn, cond in c.raises.items():
            if exn_by_name(cx, exn, f.env) is raised.con:
                cx.prove(zb(cond(sp, *vs)), f"{c.name}: raises {exn} only when specified")
                break
        else:
            cx.prove(False, f"{c.name}: exception {raised.con.name} is not raised")
        job.name, cx.measure, cx.group, cx.cur = save
        return
    for exn, cond in c.raises.items():
        cx.prove(z3.Not(zb(cond(sp, *vs))), f"{c.name}: {exn} is raised when specified")
    rv = view(cx, r, c.ret)
    if c.returns is not None:
        t = c.returns(sp, *vs)
        if not isinstance(t, z3.ExprRef): t = c.ret.pack(cx, t)
        rt = c.ret.pack(cx, cx.norm(r))
        cx.prove(rt == t, f"{c.name}: result")
    if c.ensures:
        for lab, g in spec_list(c.ensures(sp, *vs, rv), "ensures"):
            cx.prove(g, f"{c.name}: {lab}")
    job.name, cx.measure, cx.group, cx.cur = save

def prims_eq(cx, a, b):
    import prims
    return prims.poly_eq(cx, a, b)

def argname(f, i):
    p = f.clauses[-1][0][i]
    while p[0] in ("ptyped",): p = p[1]
    if p[0] == "pvar": return p[1][0].replace("'", "_")
    if p[0] == "prec" and all(q[1][0] in ("pvar", "ptyped") for q in p[1]): return "arg"
    return f"arg{i}"
