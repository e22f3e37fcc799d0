"""LLVM IR (textual, clang -O0 -g) reader: types, globals, functions, debug-info layouts."""
import re

TOK = re.compile(r'\s*(?:(;.*)|("(?:[^"\\]|\\.)*")|([%@!#$](?:"[^"]*"|[-\w.$]+))|(c"(?:[^"]*)")|(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|(0x[0-9A-Fa-fKLMHR]+)|([A-Za-z_][\w.]*)|(\.\.\.)|(.))')
def lex(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i] == 'c' and i + 1 < n and s[i+1] == '"' and (i == 0 or not (s[i-1].isalnum() or s[i-1] in "_.")):
            j = s.index('"', i + 2); out.append(s[i:j+1]); i = j + 1; continue
        m = TOK.match(s, i)
        if not m: break
        if m.group(1): break
        t = m.group(0).strip()
        if t.startswith("0x") or True:
            pass
        i = m.end()
        if t == "0" and i < n and s[i] == 'x':
            m2 = re.compile(r'x[0-9A-Fa-f]+').match(s, i); t += m2.group(0); i = m2.end()
        if t: out.append(t)
    return out

class Unsupported(Exception): pass
class Ty:
    __slots__ = ("k", "n", "e", "fs", "packed")
    def __init__(self, k, n=0, e=None, fs=None, packed=False): self.k, self.n, self.e, self.fs, self.packed = k, n, e, fs, packed
    def __repr__(self): return {"i": f"i{self.n}"}.get(self.k, self.k if self.k != "arr" else f"[{self.n} x {self.e}]" )
PTR, VOID, DBL, FLT = Ty("ptr"), Ty("void"), Ty("double"), Ty("float")
_ints = {}
def I(n):
    if n not in _ints: _ints[n] = Ty("i", n)
    return _ints[n]

class P:
    """token cursor"""
    def __init__(self, mod, toks): self.m, self.t, self.i = mod, toks, 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError(f"expected {x} got {y} in {' '.join(self.t)[:300]}")
    def ty(self):
        t = self.next()
        if t == "void": r = VOID
        elif t == "ptr": r = PTR
        elif t == "double": r = DBL
        elif t == "float": r = FLT
        elif t in ("x86_fp80", "fp128", "half"): r = Ty(t)
        elif t in ("metadata", "label", "token"): r = Ty(t)
        elif re.fullmatch(r"i\d+", t): r = I(int(t[1:]))
        elif t == "[":
            n = int(self.next()); self.expect("x"); e = self.ty(); self.expect("]"); r = Ty("arr", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next(); fs = self.tylist("}"); self.expect(">"); r = Ty("struct", fs=fs, packed=True)
            else:
                n = int(self.next()); self.expect("x"); e = self.ty(); self.expect(">"); r = Ty("vec", n, e)
        elif t == "{": r = Ty("struct", fs=self.tylist("}"))
        elif t.startswith("%"): r = Ty("named", t)
        elif t == "opaque": r = Ty("opaque")
        else: raise SyntaxError(f"type {t} in {' '.join(self.t)[:200]}")
        # function types in calls: "i32 (ptr, ...)"
        if self.peek() == "(" and r.k != "metadata" and self._isfnty():
            self.next(); d = 1
            while d:
                x = self.next()
                if x == "(": d += 1
                elif x == ")": d -= 1
            r = Ty("fn", e=r)
        return r
    def _isfnty(self):
        # a function type is followed by its matching ) and then @/% callee
        d = 0; j = self.i
        while j < len(self.t):
            if self.t[j] == "(": d += 1
            elif self.t[j] == ")":
                d -= 1
                if d == 0: break
            j += 1
        return j + 1 < len(self.t) and self.t[j+1][0] in "@%" and self.t[self.i - 1] not in (",",)
    def tylist(self, end):
        fs = []
        if self.eat(end): return fs
        while True:
            fs.append(self.ty())
            if self.eat(end): return fs
            self.expect(",")
    ATTR = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "readnone", "writeonly", "returned", "immarg", "nofree", "noreturn", "dso_local", "swiftself", "noalias"}
    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTR: self.next()
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "allocsize", "preallocated"):
                self.attr_seen.append(x) if hasattr(self, "attr_seen") else None
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.next()
                        if y == "(": d += 1
                        elif y == ")":
                            d -= 1
                            if d == 0: break
                elif x == "align": self.next()
            else: return
    def val(self, ty):
        """operand: ('c', ty, int) | ('l', name) | ('g', name) | ('expr', ...) | ('zero', ty) | ('undef', ty) | ('agg', ty, [..]) | ('str', bytes)"""
        t = self.next()
        if t.startswith("%"): return ("l", t)
        if t.startswith("@"): return ("g", t[1:].strip('"'))
        if t in ("null", "none"): return ("c", ty, 0)
        if t == "zeroinitializer": return ("zero", ty)
        if t in ("undef", "poison"): return ("undef", ty)
        if t == "true": return ("c", ty, 1)
        if t == "false": return ("c", ty, 0)
        if t.startswith('c"'): return ("str", ty, unesc(t[2:-1]))
        if t in ("[", "{", "<"):
            if t == "<" and self.peek() == "{": self.next(); packed = True
            else: packed = False
            end = {"[": "]", "{": "}", "<": "}" if packed else ">"}[t]
            vs = []
            if not self.eat(end):
                while True:
                    et = self.ty(); vs.append((et, self.val(et)))
                    if self.eat(end): break
                    self.expect(",")
            if packed: self.expect(">")
            return ("agg", ty, vs)
        if t in ("getelementptr",):
            while self.peek() in ("inbounds", "nuw", "nusw"): self.next()
            self.expect("("); st = self.ty(); self.expect(",")
            ops = []
            while True:
                while self.peek() in ("inrange",): self.next()
                ot = self.ty(); ops.append((ot, self.val(ot)))
                if self.eat(")"): break
                self.expect(",")
            return ("gep", st, ops)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("("); ot = self.ty(); v = self.val(ot); self.expect("to"); rt = self.ty(); self.expect(")")
            return ("cast", t, ot, v, rt)
        if t in ("add", "sub", "mul", "shl", "and", "or", "xor", "lshr", "ashr"):
            while self.peek() in ("nuw", "nsw"): self.next()
            self.expect("("); a = self.ty(); x = self.val(a); self.expect(","); b = self.ty(); y = self.val(b); self.expect(")")
            return ("bin", t, a, x, y)
        if t == "blockaddress": raise SyntaxError("blockaddress")
        if ty.k in ("double", "float"):
            import struct
            if t.startswith("0x"): return ("c", ty, int(t, 16)) if ty.k == "double" else ("c", ty, f32bits(struct.unpack("<d", struct.pack("<Q", int(t, 16)))[0]))
            f = float(t)
            return ("c", ty, struct.unpack("<Q", struct.pack("<d", f))[0] if ty.k == "double" else f32bits(f))
        if re.fullmatch(r"-?\d+", t): return ("c", ty, int(t))
        if t == "asm": raise SyntaxError("asm")
        return ("undef", ty) if t in ("metadata",) else self._bad(t)
    def _bad(self, t): raise SyntaxError(f"value {t} in {' '.join(self.t)[:200]}")
def f32bits(f):
    import struct
    return struct.unpack("<I", struct.pack("<f", f))[0]
def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i+1:i+3], 16)); i += 3
        else: out += s[i].encode("latin-1"); i += 1
    return bytes(out)

class Ins:
    __slots__ = ("op", "res", "a", "dbg", "line")
    def __init__(self, op, res, a, dbg=None): self.op, self.res, self.a, self.dbg = op, res, a, dbg
    def __repr__(self): return f"{self.res} = {self.op} {self.a}"
class Func:
    def __init__(self, name): self.name = name; self.params = []; self.blocks = {}; self.order = []; self.ret = None; self.varargs = False; self.vars = {}; self.dbgvar = {}
    def __repr__(self): return f"Func {self.name}"
class Glob:
    def __init__(self, name, ty, init, const): self.name, self.ty, self.init, self.const = name, ty, init, const

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = set(); self.md = {}
        self.parse(text)
        self._layout = {}
    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.n]
        return t
    def size(self, t):
        t = self.resolve(t)
        if t.k == "i": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n, (t.n + 7) // 8)
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "arr": return t.n * self.size(t.e)
        if t.k == "vec": return t.n * self.size(t.e)
        if t.k == "struct": return self.layout(t)[1]
        if t.k in ("x86_fp80", "fp128"): return 16
        if t.k == "void": return 1
        if t.k == "opaque": return 0
        raise SyntaxError(f"size of {t.k}")
    def align(self, t):
        t = self.resolve(t)
        if t.k == "i": return min(16 if t.n == 128 else 8, self.size(t))
        if t.k in ("arr",): return self.align(t.e)
        if t.k == "struct":
            if t.packed: return 1
            return max([1] + [self.align(f) for f in t.fs])
        return max(1, self.size(t))
    def layout(self, t):
        o = 0; offs = []; mx = 1
        for f in t.fs:
            a = 1 if t.packed else self.align(f)
            mx = max(mx, a)
            o = (o + a - 1) // a * a
            offs.append(o); o += self.size(f)
        return offs, (o + mx - 1) // mx * mx
    def parse(self, text):
        lines = text.split("\n"); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                nm, rest = l.split(" = type ", 1)
                self.types[nm.strip()] = P(self, lex(rest)).ty()
            elif l.startswith("@"): self.glob(l)
            elif l.startswith("declare"):
                m = re.search(r"@([-\w.$]+|\"[^\"]+\")\(", l)
                if m: self.decls.add(m.group(1).strip('"'))
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}": j += 1
                self.func(l, lines[i+1:j]); i = j
            elif l.startswith("!"):
                m = re.match(r"(!\d+) = (?:distinct )?(.*)$", l)
                if m: self.md[m.group(1)] = m.group(2)
            i += 1
    def glob(self, l):
        nm, rest = l.split(" = ", 1)
        nm = nm[1:].strip('"')
        toks = lex(re.sub(r", !dbg !\d+", "", rest))
        p = P(self, toks); ext = False; const = False; static = False
        while True:
            x = p.peek()
            if x in ("global", "constant"): const = x == "constant"; p.next(); break
            if x in ("external", "extern_weak"): ext = True
            if x in ("internal", "private"): static = True
            if x == "alias": return
            p.next()
        ty = p.ty(); init = None
        if not ext and p.peek() not in (",", None): init = p.val(ty)
        self.globals[nm] = Glob(nm, ty, init, const); self.globals[nm].static = static
    def func(self, head, body):
        m = re.match(r"define\s+(.*?)@([-\w.$]+|\"[^\"]+\")\((.*)\)[^()]*(?:![^{]*)?\{", head)
        m = re.match(r"define\s+(.*?)@([-\w.$]+|\"[^\"]+\")\(", head)
        f = Func(m.group(2).strip('"'))
        rest = head[m.end():]
        p = P(self, lex(rest)); p.attr_seen = []
        k = 0
        while not p.eat(")"):
            if p.eat("..."): f.varargs = True; continue
            t = p.ty(); p.attr_seen = []; p.attrs()
            byval = "byval" in p.attr_seen
            nm = p.next() if p.peek() and p.peek().startswith("%") else f"%{k}"
            f.params.append((t, nm, byval)); k += 1
            p.eat(",")
        rp = m.group(1).split()
        q = P(self, lex(m.group(1)));
        while q.peek() in ("dso_local", "internal", "hidden", "noundef", "zeroext", "signext", "noalias", "linkonce_odr", "weak", "available_externally", "local_unnamed_addr", "nonnull", "dereferenceable", "align", "weak_odr", "mustprogress") or (q.peek() or "").isdigit() or q.peek() in ("(", ")"): q.next()
        f.ret = q.ty()
        cur = None
        blk = []
        j = 0
        f.static = "internal" in rp
        md = re.search(r"!dbg (!\d+)", head); f.sub = md.group(1) if md else None
        name = None
        bi = 0
        # the entry block's implicit number
        entry = f"%{len(f.params)}" if not any(not x[1][1:].isdigit() for x in f.params) or True else "%entry"
        cur = []; f.blocks["%entry"] = cur; f.order.append("%entry"); f.entry_alias = f"%{len(f.params)}"
        while j < len(body):
            l = body[j]
            s = l.strip()
            mm = re.match(r'^([-\w.$]+|"[^"]+"):', l)
            if mm:
                nm = "%" + mm.group(1)
                if not cur and len(f.order) == 1 and f.order[0] == "%entry":
                    del f.blocks["%entry"]; f.order = []; f.entry_alias = None
                cur = []; f.blocks[nm] = cur; f.order.append(nm)
            elif s and not s.startswith(";"):
                if s.startswith("switch") or " = switch" in s:
                    while "]" not in s.split("[", 1)[-1] if "[" in s else True:
                        j += 1; s += " " + body[j].strip()
                ins = self.ins(s, f)
                if ins is not None: cur.append(ins)
            j += 1
        self.funcs[f.name] = f
    def ins(self, s, f):
        dbg = None
        m = re.search(r", !dbg (!\d+)", s)
        if m: dbg = m.group(1); s = s[:m.start()] + s[m.end():]
        s = re.sub(r", !(tbaa|range|srcloc|llvm\.loop|heapallocsite|nosanitize|noundef|prof|nonnull|align|dereferenceable)(\.struct)? !\d+", "", s)
        if "@llvm.dbg.declare" in s:
            m = re.search(r"metadata ptr (%[-\w.$]+), metadata (!\d+)", s)
            if m: f.dbgvar[m.group(1)] = m.group(2)
            return None
        if "@llvm.dbg." in s or "@llvm.lifetime" in s: return None
        t = lex(s); p = P(self, t)
        res = None
        if len(t) > 1 and t[0].startswith("%") and t[1] == "=": res = t[0]; p.i = 2
        op = p.next()
        if op in ("tail", "musttail", "notail"): op = p.next()
        if op == "alloca":
            ty = p.ty(); cnt = None
            if p.eat(","):
                if p.peek() != "align":
                    ct = p.ty(); cnt = p.val(ct)
            return Ins("alloca", res, (ty, cnt), dbg)
        if op == "load":
            while p.peek() in ("volatile", "atomic"): p.next()
            ty = p.ty(); p.expect(","); p.ty(); return Ins("load", res, (ty, p.val(PTR)), dbg)
        if op == "store":
            while p.peek() in ("volatile", "atomic"): p.next()
            ty = p.ty(); v = p.val(ty); p.expect(","); p.ty(); return Ins("store", None, (ty, v, p.val(PTR)), dbg)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            st = p.ty(); p.expect(","); ops = []
            while True:
                ot = p.ty(); ops.append((ot, p.val(ot)))
                if not p.eat(","): break
            return Ins("gep", res, (st, ops), dbg)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in ("nuw", "nsw", "exact", "fast", "disjoint", "contract"): p.next()
            ty = p.ty(); a = p.val(ty); p.expect(","); b = p.val(ty); return Ins("bin", res, (op, ty, a, b), dbg)
        if op == "fneg": ty = p.ty(); return Ins("fneg", res, (ty, p.val(ty)), dbg)
        if op in ("icmp", "fcmp"):
            c = p.next(); ty = p.ty(); a = p.val(ty); p.expect(","); b = p.val(ty); return Ins(op, res, (c, ty, a, b), dbg)
        if op in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            while p.peek() in ("nneg", "nuw", "nsw"): p.next()
            ty = p.ty(); v = p.val(ty); p.expect("to"); return Ins("cast", res, (op, ty, v, p.ty()), dbg)
        if op == "br":
            if p.peek() == "label": p.next(); return Ins("jmp", None, p.next(), dbg)
            ty = p.ty(); c = p.val(ty); p.expect(","); p.next(); a = p.next(); p.expect(","); p.next(); b = p.next()
            return Ins("br", None, (c, a, b), dbg)
        if op == "switch":
            ty = p.ty(); v = p.val(ty); p.expect(","); p.next(); d = p.next(); p.expect("["); cs = []
            while not p.eat("]"):
                ct = p.ty(); cv = p.val(ct); p.expect(","); p.next(); cs.append((cv[2], p.next()))
            return Ins("switch", None, (ty, v, d, cs), dbg)
        if op == "ret":
            ty = p.ty(); return Ins("ret", None, (ty, None if ty.k == "void" else p.val(ty)), dbg)
        if op == "unreachable": return Ins("unreachable", None, None, dbg)
        if op == "phi":
            ty = p.ty(); inc = []
            while True:
                p.expect("["); v = p.val(ty); p.expect(","); b = p.next(); p.expect("]"); inc.append((v, b))
                if not p.eat(","): break
            return Ins("phi", res, (ty, inc), dbg)
        if op == "select":
            ct = p.ty(); c = p.val(ct); p.expect(","); ty = p.ty(); a = p.val(ty); p.expect(","); p.ty(); b = p.val(ty)
            return Ins("select", res, (c, ty, a, b), dbg)
        if op == "extractvalue":
            ty = p.ty(); v = p.val(ty); idx = []
            while p.eat(","): idx.append(int(p.next()))
            return Ins("extract", res, (ty, v, idx), dbg)
        if op == "insertvalue":
            ty = p.ty(); v = p.val(ty); p.expect(","); t2 = p.ty(); v2 = p.val(t2); idx = []
            while p.eat(","): idx.append(int(p.next()))
            return Ins("insert", res, (ty, v, t2, v2, idx), dbg)
        if op == "call":
            while p.peek() in ("fastcc", "ccc", "fast", "nnan"): p.next()
            p.attrs(); rt = p.ty()
            if rt.k == "fn": rt = rt.e
            if p.peek() == "asm": return Ins("asm", res, (rt, s), dbg)
            cal = p.val(PTR); p.expect("("); args = []
            while not p.eat(")"):
                ty = p.ty(); p.attr_seen = []; p.attrs()
                if ty.k == "metadata":
                    while p.peek() not in (",", ")"): p.next()
                    args.append((ty, None, False))
                else: args.append((ty, p.val(ty), "byval" in p.attr_seen))
                p.eat(",")
            return Ins("call", res, (rt, cal, args), dbg)
        if op == "va_arg": ty = p.ty(); v = p.val(ty); p.expect(","); return Ins("vaarg", res, (v, p.ty()), dbg)
        if op in ("fence",): return None
        if op == "freeze": ty = p.ty(); v = p.val(ty); return Ins("cast", res, ("bitcast", ty, v, ty), dbg)
        return Ins("unsupported", res, s, dbg)
    # ---- debug info
    def mdfield(self, ref, key):
        s = self.md.get(ref, "")
        m = re.search(r"\b" + key + r': ("(?:[^"]*)"|[^,)]+)', s)
        return m.group(1).strip('"') if m else None
    def varname(self, f, alloca):
        r = f.dbgvar.get(alloca)
        return self.mdfield(r, "name") if r else None
    def line(self, dbg): 
        return self.mdfield(dbg, "line") if dbg else None
    def structs(self):
        """name -> {field: (byte offset, bit size, type ref)} from debug info (structs, unions and typedefs of them)"""
        if hasattr(self, "_st"): return self._st
        st = {}; byref = {}
        for r, s in self.md.items():
            if s.startswith("!DICompositeType") and ("structure_type" in s or "union_type" in s or "class_type" in s):
                els = self.mdfield(r, "elements")
                fs = {}
                if els and els in self.md:
                    for e in re.findall(r"!\d+", self.md[els]):
                        if "DW_TAG_member" in self.md.get(e, ""):
                            fs[self.mdfield(e, "name") or f"_{len(fs)}"] = (int(self.mdfield(e, "offset") or 0) // 8, int(self.mdfield(e, "size") or 0), self.mdfield(e, "baseType"))
                byref[r] = fs
                nm = self.mdfield(r, "name")
                sz = int(self.mdfield(r, "size") or 0) // 8
                fs["#size"] = (sz, 0, None)
                if nm and (nm not in st or len(fs) > 1): st[nm] = fs
        for r, s in self.md.items():
            if "DW_TAG_typedef" in s:
                b = self.mdfield(r, "baseType"); nm = self.mdfield(r, "name")
                if b in byref and nm and (nm not in st): st[nm] = byref[b]
        self._byref = byref; self._st = st
        return st
    def field(self, sname, path):
        """(offset, size in bytes) of a dotted field path"""
        st = self.structs()
        if sname not in st: raise KeyError(f"struct {sname}")
        fs = st[sname]; off = 0
        parts = path.split(".")
        for i, x in enumerate(parts):
            if x not in fs: raise KeyError(f"field {x} of {sname}")
            o, sz, ty = fs[x]; off += o
            if i < len(parts) - 1:
                while ty and "DW_TAG_typedef" in self.md.get(ty, ""): ty = self.mdfield(ty, "baseType")
                fs = self._byref[ty]
        return off, sz // 8
