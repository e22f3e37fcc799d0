"""Builds from /repo's current working tree, in a scratch directory: the generated headers, the LLVM IR
of the C files under contract, and (for replays) native objects and the whole runtime."""
import os, shutil, subprocess, tempfile, atexit, re
REPO = os.environ.get("SMLV_REPO", "/repo")
CFLAGS = "-std=gnu99 -m64 -DARCH_AMD64 -DSIZE_64 -DOPSYS_UNIX -DOPSYS_LINUX -D_GNU_SOURCE -DGNU_ASSEMBLER -DDLOPEN -DINDIRECT_CFUNC".split()
DEFS = "-DARCH_AMD64 -DSIZE_64 -DOPSYS_UNIX -DOPSYS_LINUX -D_GNU_SOURCE -DGNU_ASSEMBLER -DDLOPEN -DINDIRECT_CFUNC"
class BuildError(Exception): pass
TMP = None; OWNER = None
def scratch():
    """scratch copy of the runtime sources with the generated headers"""
    global TMP, OWNER
    if TMP: return TMP
    TMP = tempfile.mkdtemp(prefix="cv-"); OWNER = os.getpid()
    atexit.register(cleanup)
    os.environ["CV_SCRATCH"] = TMP
    src = os.path.join(REPO, "base/runtime")
    def ign(d, names):
        return [n for n in names if n.endswith((".o", ".a")) or n.startswith(("v-", "gen-")) and d.endswith("objs") and "." not in n or n.startswith("run.amd64")
                or n in ("ml-sizes.h", "mlstate-offsets.h", "system-signals.h", "unix-sigtbl.c", "ml_pathconf.h", "ml_sysconf.h", "bc-instr-def.h")]
    shutil.copytree(src, os.path.join(TMP, "runtime"), ignore=ign, symlinks=True)
    rt = os.path.join(TMP, "runtime")
    def mk(d, *t):
        p = subprocess.run(["make", "-f", "makefile", "CC=gcc -std=gnu99", "CFLAGS=-O1 -m64", "AS=as --64", "CPP=gcc -x assembler-with-cpp -E -P", "VERSION=v-amd64-linux", "TARGET=AMD64", "DEFS=" + DEFS, *t],
                           cwd=os.path.join(rt, d), capture_output=True, text=True, timeout=300)
        if p.returncode: raise BuildError(f"{d}: {' '.join(t)}: " + (p.stdout + p.stderr)[-800:])
    mk("objs", "ml-sizes.h"); mk("objs", "system-signals.h", "unix-sigtbl.c"); mk("objs", "mlstate-offsets.h")
    for d, h, x in (("posix-filesys", "ml_pathconf.h", "_PC_"), ("posix-procenv", "ml_sysconf.h", "_SC_")):
        p = subprocess.run(["bash", "../../config/gen-posix-names.sh", x, h], cwd=os.path.join(rt, "c-libs", d), capture_output=True, text=True,
                           env=dict(os.environ, VERSION="v-amd64-linux", CPP="gcc -x assembler-with-cpp -E -P"), timeout=60)
        if p.returncode: raise BuildError(f"{d}/{h}: " + p.stderr[-500:])
    return TMP
def cleanup():
    if TMP and OWNER == os.getpid(): shutil.rmtree(TMP, ignore_errors=True)
def incs(rel):
    rt = os.path.join(scratch(), "runtime")
    d = [os.path.join(rt, x) for x in ("objs", "include", "gc", "c-libs", "kernel", "mach-dep")] + [os.path.join(rt, os.path.dirname(rel))]
    return [f"-I{x}" for x in d]
_ir = {}
def ir_text(rel, defs=()):
    """LLVM IR of base/runtime/<rel>"""
    k = (rel, tuple(defs))
    if k in _ir: return _ir[k]
    rt = os.path.join(scratch(), "runtime")
    out = os.path.join(TMP, re.sub(r"\W", "_", rel + "".join(defs)) + f".{os.getpid()}.ll")
    p = subprocess.run(["clang", "-S", "-emit-llvm", "-O0", "-g", "-w", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", *CFLAGS, *defs, *incs(rel), "-o", out, os.path.join(rt, rel)], capture_output=True, text=True, timeout=120)
    if p.returncode: raise BuildError(f"{rel}: " + p.stderr[-800:])
    _ir[k] = open(out).read()
    os.unlink(out)
    return _ir[k]
_probe = {}
def probe(headers, exprs):
    """values of C constant expressions according to the system headers; None where the macro is not defined"""
    k = (tuple(headers), tuple(exprs))
    if k not in _probe:
        src = "#define _GNU_SOURCE\n#include <stdio.h>\n" + "".join(f"#include <{h}>\n" for h in headers) + "int main(void) {\n"
        for e in exprs:
            g = re.fullmatch(r"\w+", e)
            if g and not e.isdigit() and not e.startswith("_SC_") and not e.startswith("_PC_"): src += f"#ifdef {e}\nprintf(\"%ld\\n\", (long)({e}));\n#else\nprintf(\"none\\n\");\n#endif\n"
            else: src += f"printf(\"%ld\\n\", (long)({e}));\n"
        src += "return 0; }\n"
        d = tempfile.mkdtemp(prefix="cvp-")
        try:
            open(d + "/p.c", "w").write(src)
            p = subprocess.run(["gcc", "-w", "-o", d + "/p", d + "/p.c"], capture_output=True, text=True, timeout=60)
            if p.returncode: raise BuildError("probe: " + p.stderr[-300:])
            out = subprocess.run([d + "/p"], capture_output=True, text=True, timeout=20).stdout.split()
        finally: shutil.rmtree(d, ignore_errors=True)
        _probe[k] = [None if x == "none" else int(x) for x in out]
    return _probe[k]
def tokens(path):
    """preprocessor-independent token text of a C file: comments and layout removed"""
    t = open(path, encoding="latin-1").read()
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t)
    return re.sub(r"\s+", " ", t).strip()
_rt = None
def runtime():
    """run.amd64-linux built from the current tree"""
    global _rt
    if _rt: return _rt
    rt = os.path.join(scratch(), "runtime")
    d = os.path.join(TMP, "rt2")
    if not os.path.isdir(d): shutil.copytree(os.path.join(REPO, "base/runtime"), d, ignore=lambda dd, ns: [n for n in ns if n.endswith((".o", ".a")) or n.startswith(("v-", "run.amd64"))], symlinks=True)
    p = subprocess.run(["make", "-f", "mk.amd64-linux"], cwd=os.path.join(d, "objs"), capture_output=True, text=True, timeout=300)
    r = os.path.join(d, "objs", "run.amd64-linux")
    if p.returncode or not os.path.exists(r): raise BuildError("runtime: " + (p.stdout + p.stderr)[-800:])
    _rt = r
    return r
if __name__ == "__main__":
    import time
    t = time.time(); scratch(); print(time.time() - t)
    t = time.time(); x = ir_text("c-libs/posix-filesys/stat.c"); print(len(x), time.time() - t)
