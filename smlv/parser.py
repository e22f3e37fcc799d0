"""Lexer and parser for Standard ML '97 (plus the SML/NJ extensions used in the
tree: or-patterns, vector expressions, functor parameters).  It yields plain
tuples; no types are inferred, but type annotations are kept.

Expressions
  ('int',n) ('word',n) ('real',s) ('char',n) ('str',bytes-as-list-of-codes)
  ('var',[long,id]) ('rec',[(lab,e)]) ('tuple',[e]) ('list',[e]) ('vec',[e])
  ('seq',[e]) ('app',f,x) ('fn',match) ('case',e,match) ('if',a,b,c)
  ('andalso',a,b) ('orelse',a,b) ('handle',e,match) ('raise',e)
  ('while',a,b) ('let',decs,e) ('sel',lab) ('typed',e,ty)
Patterns
  ('wild') ('pint',n) ('pword',n) ('pchar',n) ('pstr',codes) ('pvar',longid)
  ('pcon',longid,pat) ('prec',[(lab,pat)],flex) ('plist',[p]) ('pas',name,pat)
  ('ptyped',pat,ty) ('por',[p]) ('pvec',[p])
Declarations
  ('val',[(pat,exp)],rec) ('fun',[(name,[clause])]) clause=([pats],ty,exp)
  ('type',..) ('datatype',[(tyvars,name,[(con,ty)])],withtype)
  ('datarepl',name,longid) ('exn',[(name,ty|None|('=',longid))])
  ('local',ds,ds) ('open',[longid]) ('struct',[(name,sigc,strexp)])
  ('functor',[(name,param,strexp)]) ('sig',) ('fix',kind,prec,[ids])
Structure expressions
  ('sstruct',decs) ('sid',longid) ('sapp',functor,strexp or decs) ('slet',decs,strexp) ('scon',strexp)
"""
import re, sys
sys.setrecursionlimit(100000)

KW = set("""abstype and andalso as case do datatype else end exception fn fun handle
if in infix infixr let local nonfix of op open orelse raise rec then type val with
withtype while eqtype functor include sharing sig signature struct structure where""".split())
SYMCH = set("!%&$#+-/:<=>?@\\~`^|*")
RESSYM = {":", "|", "=", "=>", "->", "#", ":>"}

class ParseError(Exception):
    pass

class Tok:
    __slots__ = ("k", "v", "line", "pos")
    def __init__(self, k, v, line, pos):
        self.k, self.v, self.line, self.pos = k, v, line, pos
    def __repr__(self):
        return f"{self.k}:{self.v}@{self.line}"

def lex(src):
    toks = []
    i, n, line = 0, len(src), 1
    while i < n:
        c = src[i]
        if c == "\n":
            line += 1; i += 1; continue
        if c in " \t\r\f\v":
            i += 1; continue
        if src.startswith("(*", i):
            d, j = 1, i + 2
            if src.startswith("(*)", i):       # SML/NJ line comment is not enabled; treat as nested
                j = i + 2
            while d > 0:
                if j >= n:
                    raise ParseError(f"line {line}: unterminated comment")
                if src.startswith("(*", j):
                    d += 1; j += 2
                elif src.startswith("*)", j):
                    d -= 1; j += 2
                else:
                    if src[j] == "\n":
                        line += 1
                    j += 1
            i = j; continue
        if c == '"' or (c == "#" and i + 1 < n and src[i+1] == '"'):
            ischar = c == "#"
            j = i + (2 if ischar else 1)
            out = []
            while True:
                if j >= n:
                    raise ParseError(f"line {line}: unterminated string")
                ch = src[j]
                if ch == '"':
                    j += 1; break
                if ch == "\\":
                    e = src[j+1]
                    simple = {"n": 10, "t": 9, "a": 7, "b": 8, "v": 11, "f": 12, "r": 13, '"': 34, "\\": 92}
                    if e in simple:
                        out.append(simple[e]); j += 2
                    elif e == "^":
                        out.append(ord(src[j+2]) - 64); j += 3
                    elif e == "u":
                        out.append(int(src[j+2:j+6], 16)); j += 6
                    elif e.isdigit():
                        out.append(int(src[j+1:j+4])); j += 4
                    elif e in " \t\r\n\f":
                        j += 1
                        while src[j] != "\\":
                            if src[j] == "\n":
                                line += 1
                            j += 1
                        j += 1
                    else:
                        raise ParseError(f"line {line}: bad escape \\{e}")
                else:
                    if ch == "\n":
                        line += 1
                    out += list(ch.encode("utf-8")); j += 1
            if ischar:
                toks.append(Tok("char", out[0], line, i))
            else:
                toks.append(Tok("str", out, line, i))
            i = j; continue
        m = re.compile(r"~?0x[0-9a-fA-F_]+|0wx[0-9a-fA-F_]+|0w[0-9_]+|~?[0-9][0-9_]*(\.[0-9]+)?([eE]~?[0-9]+)?").match(src, i)
        if m and (c.isdigit() or (c == "~" and i + 1 < n and src[i+1].isdigit())):
            t = m.group(0).replace("_", "")
            if t.startswith("0wx"):
                toks.append(Tok("word", int(t[3:], 16), line, i))
            elif t.startswith("0w"):
                toks.append(Tok("word", int(t[2:]), line, i))
            elif "0x" in t:
                neg = t[0] == "~"
                v = int(t[3:] if neg else t[2:], 16)
                toks.append(Tok("int", -v if neg else v, line, i))
            elif "." in t or "e" in t or "E" in t:
                toks.append(Tok("real", t, line, i))
            else:
                toks.append(Tok("int", int(t.replace("~", "-")), line, i))
            i = m.end(); continue
        if c.isalpha() or c == "'" or c == "_" and i+1 < n and src[i+1].isalpha() and False:
            m = re.compile(r"'+[A-Za-z0-9_']*|[A-Za-z][A-Za-z0-9_']*").match(src, i)
            t = m.group(0)
            i0 = i; i = m.end()
            if t[0] == "'":
                toks.append(Tok("tyvar", t, line, i0)); continue
            # long identifiers
            parts = [t]
            while i < n and src[i] == "." and t not in KW:
                m2 = re.compile(r"\.([A-Za-z][A-Za-z0-9_']*|[!%&$#+\-/:<=>?@\\~`^|*]+)").match(src, i)
                if not m2:
                    break
                parts.append(m2.group(1)); i = m2.end()
            if len(parts) == 1 and t in KW:
                toks.append(Tok("kw", t, line, i0))
            else:
                toks.append(Tok("id", parts, line, i0))
            continue
        if c == "_":
            toks.append(Tok("p", "_", line, i)); i += 1; continue
        if src.startswith("...", i):
            toks.append(Tok("p", "...", line, i)); i += 3; continue
        if src.startswith("#[", i):
            toks.append(Tok("p", "#[", line, i)); i += 2; continue
        if c in "()[]{},;":
            toks.append(Tok("p", c, line, i)); i += 1; continue
        if c in SYMCH:
            j = i
            while j < n and src[j] in SYMCH:
                j += 1
            t = src[i:j]
            if t in RESSYM:
                toks.append(Tok("p", t, line, i))
            else:
                toks.append(Tok("id", [t], line, i))
            i = j; continue
        raise ParseError(f"line {line}: unexpected character {c!r}")
    toks.append(Tok("eof", None, line, n))
    return toks

DEFAULT_FIX = {}
for p, ids in [(7, ["*", "/", "mod", "div", "quot", "rem"]), (6, ["+", "-", "^"]), (4, ["=", "<>", ">", ">=", "<", "<="]), (3, [":=", "o"]), (0, ["before"])]:
    for x in ids:
        DEFAULT_FIX[x] = (p, "l")
del DEFAULT_FIX["quot"], DEFAULT_FIX["rem"]
for x in ["::", "@"]:
    DEFAULT_FIX[x] = (5, "r")

class Parser:
    def __init__(self, src, fix=None):
        self.t = lex(src)
        self.i = 0
        self.fix = [dict(DEFAULT_FIX if fix is None else fix)]

    # -- helpers
    def err(self, msg):
        raise ParseError(f"line {self.t[self.i].line}: {msg} (at {self.t[self.i]})")
    @property
    def cur(self):
        return self.t[self.i]
    def isk(self, v):
        t = self.cur
        return t.k == "kw" and t.v == v
    def isp(self, v):
        t = self.cur
        return t.k == "p" and t.v == v
    def isid(self, v=None):
        t = self.cur
        return t.k == "id" and (v is None or t.v == [v])
    def adv(self):
        t = self.cur; self.i += 1; return t
    def eatk(self, v):
        if self.isk(v):
            self.i += 1; return True
        return False
    def eatp(self, v):
        if self.isp(v):
            self.i += 1; return True
        return False
    def needk(self, v):
        if not self.eatk(v):
            self.err(f"expected {v}")
    def needp(self, v):
        if not self.eatp(v):
            self.err(f"expected {v}")
    def getfix(self, name):
        for d in reversed(self.fix):
            if name in d:
                return d[name]
        return None
    def ident(self):
        if self.cur.k == "id" and len(self.cur.v) == 1:
            return self.adv().v[0]
        if self.isp("="):       # op =
            self.adv(); return "="
        self.err("expected identifier")
    def longid(self):
        if self.cur.k == "id":
            return self.adv().v
        if self.isp("="):
            self.adv(); return ["="]
        self.err("expected identifier")

    # -- types
    def ty(self):
        t = self.ty_tuple()
        if self.eatp("->"):
            return ("->", t, self.ty())
        return t
    def ty_tuple(self):
        ts = [self.ty_app()]
        while self.isid("*"):
            self.adv(); ts.append(self.ty_app())
        return ts[0] if len(ts) == 1 else ("tytuple", ts)
    def ty_app(self):
        if self.cur.k == "tyvar":
            t = ("tyvar", self.adv().v)
        elif self.eatp("{"):
            fs = []
            while not self.eatp("}"):
                if self.eatp("..."):
                    pass
                else:
                    lab = self.label(); self.needp(":"); fs.append((lab, self.ty()))
                self.eatp(",")
            t = ("tyrec", fs)
        elif self.eatp("("):
            ts = [self.ty()]
            while self.eatp(","):
                ts.append(self.ty())
            self.needp(")")
            if len(ts) > 1:
                t = ("tycon", self.longid(), ts)
            else:
                t = ts[0]
        elif self.cur.k == "id" and not self.isid("*"):
            t = ("tycon", self.adv().v, [])
        else:
            self.err("type expected")
        while self.cur.k == "id" and self.cur.v[-1] not in ("*",) and (self.cur.v[-1][0].isalpha()):
            t = ("tycon", self.adv().v, [t])
        return t
    def label(self):
        if self.cur.k == "int":
            return str(self.adv().v)
        return self.ident()
    def tyvars(self):
        if self.cur.k == "tyvar":
            return [self.adv().v]
        if self.isp("(") and self.t[self.i+1].k == "tyvar":
            self.adv()
            vs = [self.adv().v]
            while self.eatp(","):
                vs.append(self.adv().v)
            self.needp(")")
            return vs
        return []

    # -- patterns
    def atpat_start(self):
        t = self.cur
        if t.k in ("int", "word", "char", "str", "real"):
            return True
        if t.k == "p" and t.v in ("_", "(", "[", "{", "#["):
            return True
        if t.k == "kw" and t.v == "op":
            return True
        if t.k == "id":
            return True
        return False
    def atpat(self):
        t = self.cur
        if t.k == "int": self.adv(); return ("pint", t.v)
        if t.k == "word": self.adv(); return ("pword", t.v)
        if t.k == "char": self.adv(); return ("pchar", t.v)
        if t.k == "str": self.adv(); return ("pstr", t.v)
        if t.k == "real": self.adv(); return ("preal", t.v)
        if self.eatp("_"): return ("wild",)
        if self.eatk("op"):
            return ("pvar", self.longid())
        if t.k == "id":
            return ("pvar", self.adv().v)
        if self.eatp("("):
            if self.eatp(")"):
                return ("prec", [], False)
            ps = [self.pat()]
            if self.isp("|"):
                while self.eatp("|"):
                    ps.append(self.pat())
                self.needp(")")
                return ("por", ps)
            while self.eatp(","):
                ps.append(self.pat())
            self.needp(")")
            if len(ps) == 1:
                return ps[0]
            return ("prec", [(str(k+1), p) for k, p in enumerate(ps)], False)
        if self.eatp("["):
            ps = []
            while not self.eatp("]"):
                ps.append(self.pat()); self.eatp(",")
            return ("plist", ps)
        if self.eatp("#["):
            ps = []
            while not self.eatp("]"):
                ps.append(self.pat()); self.eatp(",")
            return ("pvec", ps)
        if self.eatp("{"):
            fs, flex = [], False
            while not self.eatp("}"):
                if self.eatp("..."):
                    flex = True
                else:
                    lab = self.label()
                    if self.eatp("="):
                        fs.append((lab, self.pat()))
                    else:
                        ty = None
                        if self.eatp(":"):
                            ty = self.ty()
                        p = ("pvar", [lab])
                        if ty is not None:
                            p = ("ptyped", p, ty)
                        if self.eatk("as"):
                            p = ("pas", lab, self.pat())
                        fs.append((lab, p))
                self.eatp(",")
            return ("prec", fs, flex)
        self.err("pattern expected")
    def isinfix_here(self):
        t = self.cur
        if t.k == "id" and len(t.v) == 1 and self.getfix(t.v[0]):
            return t.v[0]
        if t.k == "p" and t.v == "=" :
            return None
        return None
    def pat_app(self):
        # constructor application
        t = self.cur
        isop = self.isk("op")
        if (t.k == "id" and not self.isinfix_here()) or isop:
            p = self.atpat()
            if self.atpat_start() and not (self.isinfix_here()) :
                arg = self.atpat()
                return ("pcon", p[1], arg)
            return p
        return self.atpat()
    def pat_infix(self, minp=0):
        left = self.pat_app()
        while True:
            op = self.isinfix_here()
            if not op:
                return left
            p, assoc = self.getfix(op)
            if p < minp:
                return left
            self.adv()
            right = self.pat_infix(p if assoc == "r" else p + 1)
            left = ("pcon", [op], ("prec", [("1", left), ("2", right)], False))
    def pat(self):
        p = self.pat_infix()
        while True:
            if self.eatp(":"):
                p = ("ptyped", p, self.ty())
            elif self.eatk("as"):
                q = self.pat()
                if p[0] == "ptyped" and p[1][0] == "pvar":
                    p = ("pas", p[1][1][-1], ("ptyped", q, p[2]))
                elif p[0] == "pvar":
                    p = ("pas", p[1][-1], q)
                else:
                    self.err("bad as pattern")
            else:
                return p
    def orpat(self):
        return self.pat()

    # -- expressions
    def atexp_start(self):
        t = self.cur
        if t.k in ("int", "word", "char", "str", "real"):
            return True
        if t.k == "p":
            return t.v in ("(", "[", "{", "#", "#[")
        if t.k == "kw":
            return t.v in ("op", "let")
        return t.k == "id"
    def atexp(self):
        t = self.cur
        if t.k in ("int", "word", "char", "str", "real"):
            self.adv(); return (t.k, t.v)
        if self.eatk("op"):
            return ("var", self.longid())
        if t.k == "id":
            return ("var", self.adv().v)
        if self.eatp("#"):
            return ("sel", self.label())
        if self.eatp("("):
            if self.eatp(")"):
                return ("rec", [])
            es = [self.exp()]
            if self.isp(";"):
                while self.eatp(";"):
                    if self.isp(")"): break
                    es.append(self.exp())
                self.needp(")")
                return ("seq", es)
            while self.eatp(","):
                es.append(self.exp())
            self.needp(")")
            if len(es) == 1:
                return es[0]
            return ("rec", [(str(k+1), e) for k, e in enumerate(es)])
        if self.eatp("["):
            es = []
            while not self.eatp("]"):
                es.append(self.exp()); self.eatp(",")
            return ("list", es)
        if self.eatp("#["):
            es = []
            while not self.eatp("]"):
                es.append(self.exp()); self.eatp(",")
            return ("vec", es)
        if self.eatp("{"):
            fs = []
            while not self.eatp("}"):
                lab = self.label(); self.needp("="); fs.append((lab, self.exp()))
                self.eatp(",")
            return ("rec", fs)
        if self.eatk("let"):
            self.fix.append({})
            ds = self.decs()
            self.needk("in")
            es = [self.exp()]
            while self.eatp(";"):
                if self.isk("end"): break
                es.append(self.exp())
            self.needk("end")
            self.fix.pop()
            return ("let", ds, es[0] if len(es) == 1 else ("seq", es))
        self.err("expression expected")
    def exp_app(self):
        if self.isk("raise") or self.isk("fn") or self.isk("case") or self.isk("if") or self.isk("while"):
            return self.exp()
        if self.isinfix_here():
            # an infix identifier in atomic position (nonfix use)
            pass
        line = self.cur.line
        e = self.atexp()
        while True:
            if self.atexp_start() and not self.isinfix_here():
                e = ("app", e, self.atexp(), line)
            else:
                return e
    def infix_op(self):
        t = self.cur
        if t.k == "id" and len(t.v) == 1 and self.getfix(t.v[0]):
            return t.v[0]
        if t.k == "p" and t.v == "=" and self.getfix("="):
            return "="
        return None
    def exp_infix(self, minp=0):
        left = self.exp_app()
        while True:
            op = self.infix_op()
            if not op:
                return left
            p, assoc = self.getfix(op)
            if p < minp:
                return left
            line = self.cur.line
            self.adv()
            right = self.exp_infix(p if assoc == "r" else p + 1)
            left = ("app", ("var", [op]), ("rec", [("1", left), ("2", right)]), line)
    def exp_typed(self):
        e = self.exp_infix()
        while self.eatp(":"):
            e = ("typed", e, self.ty())
        return e
    def exp_andalso(self):
        e = self.exp_typed()
        if self.eatk("andalso"):
            return ("andalso", e, self.exp_andalso())
        return e
    def exp_orelse(self):
        e = self.exp_andalso()
        if self.eatk("orelse"):
            return ("orelse", e, self.exp_orelse())
        return e
    def exp(self):
        if self.isk("raise"):
            line = self.adv().line
            return ("raise", self.exp(), line)
        if self.eatk("fn"):
            return ("fn", self.match())
        if self.eatk("case"):
            e = self.exp(); self.needk("of")
            return ("case", e, self.match())
        if self.eatk("if"):
            a = self.exp(); self.needk("then"); b = self.exp(); self.needk("else"); c = self.exp()
            return ("if", a, b, c)
        if self.eatk("while"):
            a = self.exp(); self.needk("do"); b = self.exp()
            return ("while", a, b)
        e = self.exp_orelse()
        while self.isk("handle"):
            self.adv()
            e = ("handle", e, self.match())
            # typed after handle etc. not needed
        return e
    def match(self):
        self.eatp("|")
        rules = []
        while True:
            ps = [self.pat()]
            self.needp("=>")
            rules.append((ps[0], self.exp()))
            if not self.eatp("|"):
                return rules

    # -- declarations
    def decs(self):
        out = []
        while True:
            if self.eatp(";"):
                continue
            t = self.cur
            if t.k == "kw" and t.v in ("val", "fun", "type", "eqtype", "datatype", "abstype", "exception", "local", "open",
                                       "infix", "infixr", "nonfix", "structure", "functor", "signature"):
                d = self.dec()
                if d is not None:
                    out.append(d)
            elif t.k == "id" and t.v in (["overload"], ["funsig"]):
                # SML/NJ internal: overload id : ty as e1 and e2 ...
                if t.v == ["overload"]:
                    self.adv()
                    nm = self.ident(); self.needp(":"); self.ty(); self.needk("as")
                    es = [self.exp()]
                    while self.eatk("and"):
                        es.append(self.exp())
                    out.append(("overload", nm, es))
                else:
                    self.err("funsig")
            else:
                return out
    def funbind(self):
        clauses, name = [], None
        while True:
            nm, pats = self.funclause_head()
            if name is None:
                name = nm
            elif name != nm:
                self.err(f"clause name {nm} differs from {name}")
            ty = None
            if self.eatp(":"):
                ty = self.ty()
            self.needp("=")
            clauses.append((pats, ty, self.exp()))
            if not self.eatp("|"):
                return (name, clauses)
    def funclause_head(self):
        def pair(l, r):
            return ("prec", [("1", l), ("2", r)], False)
        save = self.i
        if self.eatk("op"):
            nm = self.ident()
            pats = []
            while self.atpat_start() and not self.isp("="):
                pats.append(self.atpat())
            return nm, pats
        if self.cur.k == "id" and len(self.cur.v) == 1 and not self.isinfix_here():
            nxt = self.t[self.i+1]
            if not (nxt.k == "id" and len(nxt.v) == 1 and self.getfix(nxt.v[0])):
                nm = self.adv().v[0]
                pats = []
                while self.atpat_start() and not self.isp("="):
                    pats.append(self.atpat())
                return nm, pats
        # infix forms
        if self.isp("("):
            # try (p1 op p2) p3 ...
            try:
                self.adv()
                l = self.pat_app()
                op = self.isinfix_here()
                if op and self.getfix(op) and op not in ("::",):
                    self.adv()
                    r = self.pat_app()
                    if self.isp(")"):
                        self.adv()
                        pats = [pair(l, r)]
                        while self.atpat_start() and not self.isinfix_here():
                            pats.append(self.atpat())
                        return op, pats
            except ParseError:
                pass
            self.i = save
        l = self.atpat()
        op = self.isinfix_here()
        if not op:
            self.err("infix function name expected")
        self.adv()
        r = self.atpat()
        return op, [pair(l, r)]
    def dec(self):
        if self.eatk("val"):
            self.tyvars()
            rec = self.eatk("rec")
            bs = []
            while True:
                if self.eatk("rec"):
                    rec = True
                p = self.pat(); self.needp("="); e = self.exp()
                bs.append((p, e))
                if not self.eatk("and"):
                    break
            return ("val", bs, rec)
        if self.eatk("fun"):
            self.tyvars()
            fs = []
            while True:
                fs.append(self.funbind())
                if not self.eatk("and"):
                    break
            return ("fun", fs)
        if self.isk("type") or self.isk("eqtype"):
            self.adv()
            while True:
                tv = self.tyvars(); nm = self.ident()
                ty = None
                if self.eatp("="):
                    ty = self.ty()
                if not self.eatk("and"):
                    break
            return ("type", tv, nm, ty)
        if self.isk("datatype") or self.isk("abstype"):
            isabs = self.adv().v == "abstype"
            bs = []
            while True:
                tv = self.tyvars(); nm = self.ident(); self.needp("=")
                if self.eatk("datatype"):
                    return ("datarepl", nm, self.longid())
                self.eatp("|")
                cons = []
                while True:
                    self.eatk("op")
                    c = self.ident(); ty = None
                    if self.eatk("of"):
                        ty = self.ty()
                    cons.append((c, ty))
                    if not self.eatp("|"):
                        break
                bs.append((tv, nm, cons))
                if not self.eatk("and"):
                    break
            wt = []
            if self.eatk("withtype"):
                while True:
                    self.tyvars(); nm2 = self.ident(); self.needp("="); wt.append((nm2, self.ty()))
                    if not self.eatk("and"):
                        break
            if isabs:
                self.needk("with"); ds = self.decs(); self.needk("end")
                return ("local", [("datatype", bs, wt)], ds)
            return ("datatype", bs, wt)
        if self.eatk("exception"):
            out = []
            while True:
                self.eatk("op")
                nm = self.ident()
                if self.eatk("of"):
                    out.append((nm, ("of", self.ty())))
                elif self.eatp("="):
                    self.eatk("op")
                    out.append((nm, ("=", self.longid())))
                else:
                    out.append((nm, None))
                if not self.eatk("and"):
                    break
            return ("exn", out)
        if self.eatk("local"):
            # fixity declared in the local part scopes over the body; directives of
            # the body escape
            self.fix.append({})
            a = self.decs()
            self.needk("in")
            self.fix.append({})
            b = self.decs()
            self.needk("end")
            top = self.fix.pop()
            self.fix.pop()
            self.fix[-1].update(top)
            return ("local", a, b)
        if self.eatk("open"):
            ids = []
            while self.cur.k == "id":
                ids.append(self.adv().v)
            return ("open", ids)
        if self.isk("infix") or self.isk("infixr"):
            a = "r" if self.adv().v == "infixr" else "l"
            p = 0
            if self.cur.k == "int":
                p = self.adv().v
            while self.cur.k == "id" or self.isp("="):
                self.fix[-1][self.ident()] = (p, a)
            return None
        if self.eatk("nonfix"):
            while self.cur.k == "id" or self.isp("="):
                self.fix[-1][self.ident()] = None
            return None
        if self.eatk("structure"):
            out = []
            while True:
                nm = self.ident()
                if self.eatp(":") or self.eatp(":>"):
                    self.sigexp()
                self.needp("=")
                out.append((nm, None, self.strexp()))
                if not self.eatk("and"):
                    break
            return ("struct", out)
        if self.eatk("functor"):
            out = []
            while True:
                nm = self.ident()
                params = []
                while self.isp("("):
                    self.adv()
                    if self.isp(")"):
                        par = None
                    elif self.cur.k == "id":
                        pn = self.ident()
                        if not (self.eatp(":") or self.eatp(":>")):
                            self.err("functor param")
                        self.sigexp()
                        par = ("named", pn)
                    else:
                        par = ("spec", self.specs())
                    self.needp(")")
                    params.append(par)
                if self.eatp(":") or self.eatp(":>"):
                    self.sigexp()
                self.needp("=")
                out.append((nm, params, self.strexp()))
                if not self.eatk("and"):
                    break
            return ("functor", out)
        if self.eatk("signature"):
            while True:
                self.ident(); self.needp("="); self.sigexp()
                if not self.eatk("and"):
                    break
            return None
        self.err("declaration expected")
    def strexp(self):
        s = self.strexp1()
        while self.isp(":") or self.isp(":>"):
            self.adv(); self.sigexp()
        return s
    def strexp1(self):
        if self.eatk("struct"):
            self.fix.append({})
            ds = self.decs()
            self.needk("end")
            self.fix.pop()
            return ("sstruct", ds)
        if self.eatk("let"):
            self.fix.append({})
            ds = self.decs(); self.needk("in"); s = self.strexp(); self.needk("end")
            self.fix.pop()
            return ("slet", ds, s)
        lid = self.longid()
        args = []
        while self.isp("("):
            self.adv()
            if self.isp(")"):
                args.append(("sstruct", []))
            elif self.cur.k == "id" or self.isk("struct") or self.isk("let"):
                args.append(self.strexp())
            else:
                args.append(("sstruct", self.decs()))
            self.needp(")")
        if args:
            r = ("sid", lid)
            for a in args:
                r = ("sapp", r, a)
            return r
        return ("sid", lid)
    def sigexp(self):
        if self.eatk("sig"):
            self.specs()
            self.needk("end")
        else:
            self.longid()
        while self.eatk("where"):
            while True:
                if self.isk("type") or self.isk("structure"): self.adv()
                self.tyvars(); self.longid(); self.needp("="); 
                self.ty()
                if not (self.isk("and") and self.t[self.i+1].k == "kw" and self.t[self.i+1].v in ("type", "structure")):
                    break
                self.adv()
    def specs(self):
        # skip specifications structurally
        while True:
            t = self.cur
            if self.eatp(";"):
                continue
            if t.k == "kw" and t.v in ("val", "type", "eqtype", "datatype", "exception", "structure", "include", "sharing"):
                self.adv()
                if t.v == "val":
                    while True:
                        self.ident(); self.needp(":"); self.ty()
                        if not self.eatk("and"): break
                elif t.v in ("type", "eqtype"):
                    while True:
                        self.tyvars(); self.ident()
                        if self.eatp("="): self.ty()
                        if not self.eatk("and"): break
                elif t.v == "datatype":
                    while True:
                        self.tyvars(); self.ident(); self.needp("=")
                        if self.eatk("datatype"):
                            self.longid()
                        else:
                            self.eatp("|")
                            while True:
                                self.eatk("op")
                                self.ident()
                                if self.eatk("of"): self.ty()
                                if not self.eatp("|"): break
                        if not self.eatk("and"): break
                    if self.eatk("withtype"):
                        while True:
                            self.tyvars(); self.ident(); self.needp("="); self.ty()
                            if not self.eatk("and"): break
                elif t.v == "exception":
                    while True:
                        self.ident()
                        if self.eatk("of"): self.ty()
                        if not self.eatk("and"): break
                elif t.v == "structure":
                    while True:
                        self.ident()
                        if self.eatp(":"): self.sigexp()
                        if self.eatp("="): self.longid()
                        if not self.eatk("and"): break
                elif t.v == "include":
                    self.sigexp()
                    while self.cur.k == "id":
                        self.longid()
                elif t.v == "sharing":
                    self.eatk("type")
                    self.longid()
                    while self.eatp("="):
                        self.longid()
            elif t.k == "kw" and t.v in ("infix", "infixr"):
                self.dec()
            else:
                return
    def program(self):
        ds = self.decs()
        if self.cur.k != "eof":
            self.err("unexpected token at top level")
        return ds

def parse_file(path, fix=None):
    src = open(path, encoding="utf-8", errors="surrogateescape").read()
    return Parser(src, fix).program()

if __name__ == "__main__":
    ok = bad = 0
    for f in sys.argv[1:]:
        try:
            parse_file(f); ok += 1
        except Exception as e:
            bad += 1
            print(f, "::", type(e).__name__, e)
    print(ok, "ok", bad, "bad")
