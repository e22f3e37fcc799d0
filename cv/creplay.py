"""Replays a verifier counterexample on the compiled C function.  The memory regions of the model are
mapped at the model's addresses, every external call is scripted (recorded, then answered with the
model's result and outputs), and the run's trace, result and memory are compared with what the
verifier predicted from the source.  Equal means: on this concrete input the real code does what the
failed obligation forbids."""
import os, subprocess, re, tempfile, shutil
import z3
import cbuild, cexec
from cexec import *
KEEP = {"strlen", "memcpy", "memset", "memmove", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "memcmp", "strchr", "abs", "bsearch", "_GLOBAL_OFFSET_TABLE_", "__stack_chk_fail", "__ctype_b_loc"}
M64 = (1 << 64) - 1
MAPPED = {"obj", "ml", "mlnew", "alloc", "msp", "errno", "malloc", "cobj", "tosp", "heapd"}
class No(Exception): pass

def ev(m, t):
    if isinstance(t, int): return t & M64
    if isinstance(t, bool): return int(t)
    v = m.eval(t, model_completion=True)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    raise No(f"no value for {str(t)[:60]}")
def entries(m, arr):
    """finite part of an array's interpretation"""
    out = {}
    v = m.eval(arr, model_completion=True)
    for _ in range(10000):
        if z3.is_store(v):
            i, x = v.arg(1), v.arg(2)
            if z3.is_bv_value(i) and z3.is_bv_value(x): out.setdefault(i.as_long(), x.as_long())
            v = v.arg(0)
        else: break
    return out
def sgn(x): return x - (1 << 64) if x >= 1 << 63 else x

def replay(eng, st, m, sp, args, name):
    """returns a description of the confirmed failing input, or raises No"""
    mod, f = eng.find(sp.fn)
    if any(e.name == "loop" for e in st.events): raise No("the counterexample starts inside a loop")
    tmp = tempfile.mkdtemp(prefix="cvr-")
    try: return _replay(eng, st, m, sp, args, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def _replay(eng, st, m, sp, args, tmp):
    rt = os.path.join(cbuild.scratch(), "runtime")
    objs = []; und = set(); dfn = set()
    for k, rel in enumerate([sp.file] + sp.link):
        o = os.path.join(tmp, f"o{k}.o")
        p = subprocess.run(["gcc", "-O1", "-fPIC", "-w", "-fno-stack-protector", "-fno-builtin", "-U_FORTIFY_SOURCE", "-c", *cbuild.CFLAGS, *cbuild.incs(rel), "-o", o, os.path.join(rt, rel)], capture_output=True, text=True, timeout=60)
        if p.returncode: raise No("compile: " + p.stderr[-200:])
        subprocess.run(["objcopy", "--globalize-symbol=" + sp.fn, o], check=True)
        objs.append(o)
        for l in subprocess.run(["nm", o], capture_output=True, text=True).stdout.splitlines():
            w = l.split()
            if w[-2] in ("U", "w"): und.add(w[-1])
            elif w[-2] in "TDBRVWC": dfn.add(w[-1])
    und -= dfn
    # callees under contract that the same object files define: the harness's definition takes their place
    wk = {n for n in dfn if (n in eng.contracts or n in eng.stubs) and n != sp.fn and eng.find(n)[1] is not None}
    for n in sorted(wk):
        for o in objs: subprocess.run(["objcopy", "--weaken-symbol=" + n, o], check=True)
    data = {n for mo in eng.mods for n in mo.globals}
    ren = {s: "vp_" + s for s in und if s not in KEEP}
    args_ = sum([["--redefine-sym", f"{a}={b}"] for a, b in ren.items()], [])
    if args_:
        for o in objs: subprocess.run(["objcopy", *args_, o], check=True)
    # regions
    W = []            # (addr, value): initial words
    maps = []
    base = {}
    native = {}       # label -> C symbol for data symbols defined by the harness
    for l, r in st.regions.items():
        b = ev(m, r.base)
        base[l] = b
        if r.kind in MAPPED:
            maps.append((b & ~0xfff) - 0x1000)
            sz = 512 if r.size is None else min(ev(m, r.size), 2048)
            words = {}
            for o in range(r.lo, sz, 8):
                t = r.fix.get(o)
                if t is None and r.gen is not None: t = r.gen(st, BV(o & M64))
                words[o] = t if t is not None else z3.Select(r.arr, BV(o & M64))
            for o, x in entries(m, r.arr).items():
                so = sgn(o)
                if r.lo <= so < (1 << 30) and o % 8 == 0 and so not in words: words[so] = BV(x)
            for o, t in words.items(): W.append((b + o, ev(m, t)))
    key = st.ghost.get("key")
    if key is not None and key.label in base:
        rk = ev(m, key.rank); nm = key.names[(rk - 1) // 2] if rk & 1 else (key.names[rk // 2 - 1] + b"\x01" if rk else b"")
        nm += b"\0" * (8 - len(nm) % 8)
        W += [(base[key.label] + o, int.from_bytes(nm[o:o + 8], "little")) for o in range(0, len(nm), 8)]
    def place(v, pred):
        """predicted pointer -> (label, offset) when it lies in a region whose native address differs"""
        if not z3.is_bv(v) or v.size() != 64: return None
        try: r, off = st.resolve(v)
        except (Shape, NeedFork): return None
        if r.kind in ("stack", "global", "fun"): return r.label, ev(m, off)
        return None
    def defined(r, t):
        """mask of the bytes of word t that do not depend on uninitialised memory"""
        a = z3.substitute(t, (r.arr, z3.K(z3.BitVecSort(64), BV(0)))); b = z3.substitute(t, (r.arr, z3.K(z3.BitVecSort(64), BV(M64))))
        x, y = ev(m, a), ev(m, b)
        return sum(0xff << (8 * i) for i in range(8) if (x >> (8 * i)) & 255 == (y >> (8 * i)) & 255), x
    evs = [e for e in st.events if not e.name.startswith("llvm.") and e.name not in KEEP and e.name != "loop"]
    pred = []; code = []
    stk = {}
    for k, e in enumerate(evs):
        ps = []
        for i, a in enumerate(e.args):
            if a is None or not z3.is_bv(a): raise No("argument kind")
            ps.append((ev(m, a), a.size(), place(a, None)))
        pred.append((e.name, ps))
        c = []
        for i, (v, w, pl) in enumerate(ps):
            if pl and st.regions[pl[0]].kind == "stack":
                r = e.regs.get(pl[0]) if e.regs else None
                if r is not None:
                    for o in sorted({en[1] for en in r.log if en[0] == "st" and isinstance(en[1], int)}):
                            msk, x = defined(r, st.loadr(r, o, 8))
                            if msk: c.append(f'  chk(a[{i}] - {pl[1]}ULL + {o}, {x}ULL, {msk}ULL, "memory given to {e.name}");')
        for i, lab in (e.out or {}).items():
            r = e.post[lab]
            sz = 512 if r.size is None else min(ev(m, r.size), 4096)
            pl = ps[i][2]
            off0 = pl[1] if pl else ev(m, simp(e.args[i] - r.base))
            native_base = f"(a[{i}] - {off0}ULL)" if pl else f"{base[lab]}ULL"
            old = e.regs[lab] if e.regs and lab in e.regs else None
            for o in range(0, (sz + 7) & ~7, 8):
                if o + 8 > sz and r.kind == "stack": 
                    x = ev(m, st.loadr(r, o, 8))
                    for j in range(sz - o): c.append(f"  *(unsigned char *)({native_base} + {o + j}) = {(x >> (8 * j)) & 255};")
                    continue
                c.append(f"  *(uint64_t *)({native_base} + {o}ULL) = {ev(m, st.loadr(r, o, 8))}ULL;")
        for lab, o, t in getattr(e, "wr", ()): c.append(f"  *(uint64_t *){base[lab] + o}ULL = {ev(m, t)}ULL;")
        if e.post and "errno" in e.post: c.append(f"  *(int *){base['errno']}ULL = {ev(m, st.loadr(e.post['errno'], 0, 4))};")
        ret = 0
        if e.ret is not None:
            ret = ev(m, e.ret)
            if e.ret.size() == 32: ret = (ret | 0xffffffff00000000) if ret >> 31 else ret
            pl = place(e.ret, None)
            if pl: raise No("call returns a native address")
        # memory a contract function left behind (objects it built)
        if e.ret is not None and e.ret.size() == 64:
            pass
        # a fresh allocation pointer left by an allocating contract
        c.append(f"  ret = {ret}ULL;")
        code.append((k, c))
    # allocation pointer updates made by contract functions: replay the msp word after each event when it changed
    offp = eng.off.get("allocPtr") if hasattr(eng, "off") else None
    if offp is not None and "msp" in base:
        for k, e in enumerate(evs):
            nx = evs[k + 1].regs if k + 1 < len(evs) else st.regions
            if e.name in ("ML_CString", "ML_AllocString", "ML_AllocBytearray", "ML_AllocRaw", "ML_AllocRaw64", "ML_CData", "ML_ShrinkRaw", "ML_CStringList", "ML_SysConst", "ML_SysConstList", "InvokeGC", "InvokeGCWithRoots") or e.name in getattr(sp, "allocs", ()):
                ap = st.ghost.get(("ap", st.events.index(e)))
                if ap is not None: code[k][1].insert(-1, f"  *(uint64_t *){base['msp'] + offp}ULL = {ev(m, ap)}ULL;")
                if e.name == "ML_ShrinkRaw":
                    r, off = st.resolve(e.args[1]); code[k][1].insert(-1, f"  *(uint64_t *){base[r.label] - 8}ULL = {ev(m, (e.args[2] << 7) | 18)}ULL;")
    C = ['#include <stdint.h>', '#include <stdio.h>', '#include <stdlib.h>', '#include <sys/mman.h>', '#include <string.h>', '#include <signal.h>', '#include <unistd.h>',
         'static int n; static uint64_t ret;', 'static void end(const char *w) { printf("END %s\\n", w); fflush(stdout); _exit(0); }',
         'static void chk(uint64_t ad, uint64_t v, uint64_t m, const char *w) { uint64_t x = *(uint64_t *)ad; if ((x & m) != (v & m)) { printf("MISMATCH %s %lx %lx\\n", w, x, v); } }',
         'static uint64_t call(const char *nm, uint64_t *a) { int k = n++; printf("CALL %s %lu %lu %lu %lu %lu %lu\\n", nm, a[0], a[1], a[2], a[3], a[4], a[5]); ret = 0;', ' switch (k) {']
    for k, c in code: C.append(f" case {k}: if (strcmp(nm, \"{evs[k].name}\")) end(\"other call\");"); C += c; C.append("  break;")
    C += [' default: end("more calls");', ' }', ' return ret; }']
    for s, v in ren.items():
        if s == "__errno_location": C.append(f"void *{v}(void) {{ return (void *){base.get('errno', 0)}ULL; }}")
        elif s in ("free",): C.append(f"void {v}(void *p) {{ }}")
        elif s in data and s not in {e.name for e in evs}: C.append(f"char {v}[8192] __attribute__((aligned(16)));"); native["g:" + s] = v
        elif s == "malloc" or s == "calloc": C.append(f"void *{v}(uint64_t x) {{ static int k; static uint64_t t[] = {{{', '.join(str(ev(m, r)) + 'ULL' for r in st.ghost.get('mallocs', ())) or '0'}}}; return k < {len(st.ghost.get('mallocs', ()))} ? (void *)t[k++] : 0; }}")
        else: C.append(f"uint64_t {v}(uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5) {{ uint64_t a[6] = {{a0,a1,a2,a3,a4,a5}}; return call(\"{s}\", a); }}")
    for s in sorted(wk): C.append(f"uint64_t {s}(uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5) {{ uint64_t a[6] = {{a0,a1,a2,a3,a4,a5}}; return call(\"{s}\", a); }}")
    C.append(f"uint64_t {sp.fn}();")
    C.append('static void onsig(int s) { printf("SIGNAL %d\\n", s); fflush(stdout); _exit(0); }')
    C.append("int main(void) {")
    for a in sorted(set(maps)): C.append(f"  if (mmap((void *){a}ULL, 1 << 24, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE, -1, 0) == MAP_FAILED) {{ printf(\"NOMAP\\n\"); return 0; }}")
    for a, v in W: C.append(f"  *(uint64_t *){a}ULL = {v}ULL;")
    for l, o, n in st.ghost.get("strlens", ()):
        if l in base and st.regions[l].kind in MAPPED and not st.regions[l].log:
            k = ev(m, n)
            if k < 1 << 22: C.append(f"  memset((void *){base[l] + ev(m, o)}ULL, 'a', {k}); ((char *){base[l] + ev(m, o)}ULL)[{k}] = 0;")
    for l, v in native.items():
        if l in st.regions:
            r = st.regions[l]
            sz = 64 if r.size is None else min(ev(m, r.size), 2048)
            for o in range(0, sz, 8):
                t = eng.constword(st, r, o) if r.const is not None else z3.Select(r.arr, BV(o))
                if place(t, None): continue
                C.append(f"  *(uint64_t *)({v} + {o}) = {ev(m, t)}ULL;")
    C.append("  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); alarm(20);")
    C.append(f"  uint64_t r = {sp.fn}({', '.join(str(ev(m, a)) + 'ULL' for a in args)});")
    C.append('  printf("RET %lu\\n", r);')
    finals = []
    if st.done:
        for l, r in st.regions.items():
            if r.kind not in MAPPED or r.kind == "errno": continue
            for en in r.log:
                if en[0] != "st": continue
                o = en[1] if isinstance(en[1], int) else sgn(ev(m, en[1]))
                # the last store to this offset decides
                t = st.loadr(r, o, 8)
                msk, x = defined(r, t)
                pl = place(t, None)
                if pl: continue
                if not (-64 <= o < (1 << 23)): continue
                finals.append((base[l] + o, x, msk, l))
    for a, x, msk, l in {f[0]: f for f in finals}.values(): C.append(f'  chk({a}ULL, {x}ULL, {msk}ULL, "final memory of {l}");')
    C.append("  end(\"done\"); return 0; }")
    src = os.path.join(tmp, "h.c"); exe = os.path.join(tmp, "h")
    open(src, "w").write("\n".join(C))
    p = subprocess.run(["gcc", "-O0", "-w", "-no-pie", "-o", exe, src, *objs, "-lm"], capture_output=True, text=True, timeout=60)
    if p.returncode: raise No("harness: " + p.stderr[-300:])
    p = subprocess.run([exe], capture_output=True, text=True, timeout=60, cwd=tmp, stdin=subprocess.DEVNULL)
    if os.environ.get("CV_R"): print("\n".join(C) if os.environ["CV_R"] == "2" else "", p.stdout, p.stderr)
    out = p.stdout.splitlines()
    if any(l.startswith("MISMATCH") or l == "NOMAP" for l in out): raise No("native run differs: " + [l for l in out if l.startswith(("MISM", "NOM"))][0])
    calls = [l.split() for l in out if l.startswith("CALL")]
    bind = {}
    for k, (nm, ps) in enumerate(pred):
        if k >= len(calls) or calls[k][1] != nm: raise No(f"native run makes other calls ({[c[1] for c in calls]})")
        for i, (v, w, pl) in enumerate(ps[:6]):
            x = int(calls[k][2 + i])
            if pl:
                b = bind.setdefault(pl[0], (x - pl[1]) & M64)
                if (b + pl[1]) & M64 != x: raise No("native pointer differs")
                continue
            if (x ^ v) & ((1 << w) - 1): raise No(f"native argument {i} of {nm} is {x:#x}, predicted {v:#x}")
    sig = [l for l in out if l.startswith("SIGNAL")]
    if st.done:
        r = [l for l in out if l.startswith("RET")]
        if not r: raise No("native run does not return: " + (sig[0] if sig else out[-1] if out else "?"))
        if st.ret is not None and z3.is_bv(st.ret):
            v = ev(m, st.ret); x = int(r[0].split()[1]); pl = place(st.ret, None)
            if pl is None and (x ^ v) & ((1 << st.ret.size()) - 1): raise No(f"native result {x:#x}, predicted {v:#x}")
        if len(calls) != len(pred): raise No("native run makes more calls")
    elif not st.ghost.get("failevent") and not sig: raise No("the failure is inside the function and leaves no trace")
    inp = {d.name(): (m[d].as_long() if z3.is_bv_value(m[d]) else str(m[d])) for d in m.decls() if d.arity() == 0 and z3.is_bv_sort(d.range()) and "!" not in d.name() and not d.name().startswith("p_") and z3.is_bv_value(m[d])}
    if key is not None: inp["name"] = rk & 1 and key.names[(rk - 1) // 2].decode() or "(not in the table)"
    inp = {k: v if isinstance(v, str) else (f"{sgn(v) >> 1} (tagged)" if not k.endswith(("_val", "_len")) and v & 1 else hex(v)) for k, v in inp.items()}
    tr = [f"{nm}({', '.join(hex(v) if not pl else f'&{pl[0]}+{pl[1]}' for v, w, pl in ps)}) -> {hex(ev(m, evs[k].ret)) if evs[k].ret is not None else '()'}" for k, (nm, ps) in enumerate(pred)]
    return {"function": sp.fn, "input": inp, "native_trace": tr, "native_result": hex(ev(m, st.ret)) if st.done and st.ret is not None and z3.is_bv(st.ret) else (sig[0] if sig else None),
            "check": "the compiled function was run on this input with the external calls scripted as shown; its calls, result and memory are those that the failed obligation forbids"}
