"""IntInf: differential search against Python's integers"""
import random
SML = r'''
val ins = TextIO.openIn "cases.txt"
fun I s = valOf (IntInf.fromString s)
val sh = IntInf.toString
fun pr (a, b) = sh a ^ "," ^ sh b
val B = Bool.toString
fun ord LESS = "L" | ord EQUAL = "E" | ord GREATER = "G"
fun run (oper, a, b) = (case oper of
    "add" => sh (I a + I b) | "sub" => sh (I a - I b) | "mul" => sh (I a * I b)
  | "div" => sh (I a div I b) | "mod" => sh (I a mod I b) | "quot" => sh (IntInf.quot (I a, I b)) | "rem" => sh (IntInf.rem (I a, I b))
  | "divMod" => pr (IntInf.divMod (I a, I b)) | "quotRem" => pr (IntInf.quotRem (I a, I b))
  | "cmp" => ord (IntInf.compare (I a, I b)) | "lt" => B (I a < I b) | "le" => B (I a <= I b) | "gt" => B (I a > I b) | "ge" => B (I a >= I b)
  | "neg" => sh (~ (I a)) | "abs" => sh (abs (I a))
  | "pow" => sh (IntInf.pow (I a, valOf (Int.fromString b)))
  | "toInt" => Int.toString (IntInf.toInt (I a)) | "toI64" => Int64.toString (Int64.fromLarge (I a)) | "toI32" => Int32.toString (Int32.fromLarge (I a))
  | "toW64" => Word64.fmt StringCvt.DEC (Word64.fromLargeInt (I a)) | "toW" => Word.fmt StringCvt.DEC (Word.fromLargeInt (I a)) | "toW8" => Word8.fmt StringCvt.DEC (Word8.fromLargeInt (I a))
  | "ofInt" => sh (IntInf.fromInt (valOf (Int.fromString a))) | "ofI64" => sh (Int64.toLarge (valOf (Int64.fromString a)))
  | "ofW64" => sh (Word64.toLargeInt (valOf (Word64.scan StringCvt.DEC Substring.getc (Substring.full a) ) |> #1)) 
  | _ => "?") handle Div => "Div" | Overflow => "Overflow" | e => "exn " ^ exnName e
'''.replace('(valOf (Word64.scan StringCvt.DEC Substring.getc (Substring.full a) ) |> #1)', '(#1 (valOf (Word64.scan StringCvt.DEC Substring.getc (Substring.full a))))') + r'''
fun loop n = case TextIO.inputLine ins of NONE => print ("DONE\t" ^ Int.toString n ^ "\n")
  | SOME l => (case String.tokens Char.isSpace l of
      [oper, a, b] => (print (run (oper, a, b)); print "\n"; loop (n + 1)) | _ => loop n)
val _ = loop 0
val _ = OS.Process.exit OS.Process.success
'''
def sm(n): return str(n) if n >= 0 else "~" + str(-n)
def tquot(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def expect(op, a, b):
    W = lambda n, k: n % (1 << k)
    if op in ("div", "mod", "quot", "rem", "divMod", "quotRem") and b == 0: return "Div"
    if op == "add": return sm(a + b)
    if op == "sub": return sm(a - b)
    if op == "mul": return sm(a * b)
    if op == "div": return sm(a // b)
    if op == "mod": return sm(a % b)
    if op == "quot": return sm(tquot(a, b))
    if op == "rem": return sm(a - tquot(a, b) * b)
    if op == "divMod": return sm(a // b) + "," + sm(a % b)
    if op == "quotRem": return sm(tquot(a, b)) + "," + sm(a - tquot(a, b) * b)
    if op == "cmp": return "L" if a < b else "E" if a == b else "G"
    if op in ("lt", "le", "gt", "ge"): return str({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]).lower()
    if op == "neg": return sm(-a)
    if op == "abs": return sm(abs(a))
    if op == "pow":
        if b >= 0: return sm(a ** b)
        if a == 0: return "Div"
        return sm(a if a in (1, -1) and b % 2 else 1) if a in (1, -1) else "0"
    if op in ("toInt", "toI64", "toI32"):
        n = {"toInt": 62, "toI64": 63, "toI32": 31}[op]
        return sm(a) if -(1 << n) <= a < (1 << n) else "Overflow"
    if op in ("toW64", "toW", "toW8"): return str(W(a, {"toW64": 64, "toW": 63, "toW8": 8}[op]))
    if op in ("ofInt", "ofI64", "ofW64"): return sm(a)
def gen(rng, n):
    B = 1 << 62
    def digit():
        return rng.choice([0, 0, 1, 2, B - 1, B - 2, B // 2, B // 2 - 1, B // 2 + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, rng.randrange(B), rng.randrange(B), rng.randrange(1 << 31), B - 1 - rng.randrange(1 << 20)])
    def nat(k):
        return sum(digit() * B ** i for i in range(k))
    def sgn(x): return x if rng.random() < .5 else -x
    small = [0, 1, 2, 3, 10, B - 1, B, B + 1, 2 * B - 1, 2 * B, B * B - 1, B * B, (1 << 31), (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 4 * B]
    bin_ = ["add", "sub", "mul", "divMod", "quotRem", "div", "mod", "quot", "rem", "cmp", "lt", "le", "gt", "ge"]
    out = []
    for x in small:
        for y in small:
            for sx in (1, -1):
                for sy in (1, -1):
                    for op in bin_: out.append((op, sx * x, sy * y))
    vals = small + [x + d for x in (1 << 7, 1 << 8, 1 << 15, 1 << 30, 1 << 31, 1 << 32, 1 << 61, 1 << 62, 1 << 63, 1 << 64, 1 << 124, 1 << 126, 1 << 127) for d in (-2, -1, 0, 1, 2)]
    for x in vals:
        for s in (1, -1):
            for op in ("neg", "abs", "toInt", "toI64", "toI32", "toW64", "toW", "toW8"): out.append((op, s * x, 0))
            if -(1 << 62) <= s * x < (1 << 62): out.append(("ofInt", s * x, 0))
            if -(1 << 63) <= s * x < (1 << 63): out.append(("ofI64", s * x, 0))
            if 0 <= s * x < (1 << 64): out.append(("ofW64", s * x, 0))
            if x < (1 << 70):
                for e in (-5, -4, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17): out.append(("pow", s * x, e))
    for _ in range(n):
        op = rng.choice(bin_)
        a, b = nat(rng.randrange(0, 7)), nat(rng.randrange(0, 5))
        r = rng.random()
        if op not in ("add", "sub", "mul") and r < .5 and b:
            q = nat(rng.randrange(0, 4)); a = q * b + rng.choice([0, 0, 1, b - 1, b // 2, rng.randrange(b)])
            if rng.random() < .3: a += rng.choice([-1, 1])
        elif r < .6: a = b + rng.choice([-1, 0, 1, B, -B])
        out.append((op, sgn(abs(a)), sgn(b)))
        if rng.random() < .1:
            op = rng.choice(["neg", "abs", "toInt", "toI64", "toW64", "toW", "toW8", "toI32"])
            out.append((op, sgn(a), 0))
    for _ in range(200): out.append(("pow", sgn(nat(rng.randrange(1, 3))), rng.randrange(-3, 40)))
    return out
def search(real, seed, budget):
    rng = random.Random(seed)
    cases = gen(rng, 40000 * budget)
    txt = "".join(f"{op} {sm(a)} {sm(b)}\n" for op, a, b in cases)
    out, st = real.sml(SML, {"cases.txt": txt}, timeout=300)
    lines = out.splitlines()
    try: k = next(i for i, l in enumerate(lines) if l.startswith("val _ =") or l.startswith("[opening")) 
    except StopIteration: k = None
    res = [l for l in lines if l and (l[0] in "~0123456789LEG" or l in ("true", "false", "Div", "Overflow", "?") or l.startswith("exn "))]
    found = []
    for i, (op, a, b) in enumerate(cases):
        if i >= len(res):
            if not found: found.append({"input": f"IntInf {op} {sm(a)} {sm(b)}", "got": f"the run ended here (status {st}): {lines[-3:]}", "expected": expect(op, a, b)})
            break
        e = expect(op, a, b)
        if res[i] != e:
            found.append({"input": f"IntInf {op} {sm(a)} {sm(b)}", "expected": e, "got": res[i]})
            if len(found) >= 10: break
    return found, min(len(cases), len(res))
