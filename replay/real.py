"""Runs the real code: a scratch copy of the repository is built with the project's own
build and the harness programs run on the result."""
import os, shutil, subprocess, tempfile, atexit

class CannotRun(Exception): pass

class Real:
    def __init__(self, repo):
        self.repo = repo
        self.dir = None
        self.log = []
    def build(self):
        if self.dir is not None: return self.root
        self.dir = tempfile.mkdtemp(prefix="verif-real-")
        atexit.register(self.close)
        self.root = os.path.join(self.dir, "repo")
        p = subprocess.run(["cp", "-a", self.repo, self.root], capture_output=True, text=True)
        if p.returncode: raise CannotRun("copy failed: " + p.stderr[-300:])
        txt = open("/opt/vp/build.sh").read().replace("REPO=/repo\n", f"REPO={self.root}\n")
        bs = os.path.join(self.dir, "build.sh")
        open(bs, "w").write(txt)
        ex = os.path.join(self.root, ".git", "info", "exclude")
        try:
            os.makedirs(os.path.dirname(ex), exist_ok=True)
            open(ex, "a").write("\n/.vp-build/\n/sml.boot.*\n/sml.*-unix\n/sml.lib/\n")
        except OSError: pass
        try: p = subprocess.run(["bash", bs], capture_output=True, text=True, timeout=500)
        except subprocess.TimeoutExpired: raise CannotRun("build timed out")
        if p.returncode: raise CannotRun("build failed: " + (p.stdout + p.stderr)[-800:])
        return self.root
    def sml(self, src, files=None, timeout=240, cm=None):
        """run an SML program on the built system; returns (output, status)"""
        root = self.build()
        d = tempfile.mkdtemp(dir=self.dir)
        for n, t in (files or {}).items(): open(os.path.join(d, n), "w").write(t)
        f = os.path.join(d, "main.sml")
        open(f, "w").write(src)
        env = dict(os.environ, CM_VERBOSE="false", HOME=d)
        env.pop("SMLNJ_HOME", None)
        try:
            p = subprocess.run([os.path.join(root, "bin/sml"), "-Ccm.verbose=false"] + (cm or []) + [f], stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, cwd=d, env=env)
            return p.stdout.decode("latin-1") + p.stderr.decode("latin-1"), p.returncode
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b"").decode("latin-1"), "timeout"
    def close(self):
        if self.dir and os.path.isdir(self.dir): shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

def collect(out, st, what):
    """harness protocol: AT<tab>case before risky work, FAIL<tab>text per failure, DONE<tab>n at the end"""
    lines = out.splitlines()
    fails = [l[5:] for l in lines if l.startswith("FAIL\t")]
    done = [l for l in lines if l.startswith("DONE\t")]
    at = [l[3:] for l in lines if l.startswith("AT\t")]
    res = [{"input": f, "harness": what} for f in fails[:20]]
    if not done and not fails:
        if any("Error:" in l for l in lines) or st == "nostart":
            raise CannotRun(f"{what}: harness does not compile: " + "\n".join(l for l in lines if "Error" in l)[:500])
        res.append({"input": at[-1] if at else "(start)", "harness": what, "got": f"the run ended abnormally (status {st}): " + " | ".join(lines[-6:])[-600:]})
    return res, int(done[-1].split("\t")[1]) if done else 0
