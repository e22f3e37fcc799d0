"""runs the C contracts of a property"""
import os, sys, time, importlib, multiprocessing as mp
import mlspec, cbuild
from cbuild import tokens
_SP = None
def bad(i, st, de): return {"function": f"{_SP[i].file}:{_SP[i].fn}", "status": st, "detail": de, "obligations": [], "time": 0, "paths": 0, "confirmed": [], "unconfirmed": []}
def _one(a):
    i, scale, case = a
    try: return mlspec.run_spec(_SP[i], scale, case)
    except BaseException as e: return bad(i, "shape", f"{type(e).__name__}: {e}")
def pool_map(idx, scale, wall):
    """the functions (and within a function the cases of its argument) in parallel"""
    got = {}
    with mp.get_context("fork").Pool(8) as p:
        rs = []
        for i in sorted(idx, key=lambda i: -_SP[i].limit):
            n = mlspec.ncases(_SP[i])
            rs += [(i, p.apply_async(_one, ((i, scale, c if n > 1 else None),))) for c in range(n)]
        end = time.time() + wall
        for i, r in rs:
            try: q = r.get(timeout=max(0.1, end - time.time()))
            except mp.TimeoutError: q = bad(i, "unknown", "time limit")
            got.setdefault(i, []).append(q)
        p.terminate()
    return {i: mlspec.merge(q) for i, q in got.items()}
def run(groups, repo, tier, wall=560):
    global _SP
    t0 = time.time()
    try: cbuild.scratch()
    except cbuild.BuildError as e:
        return [{"function": "build", "status": "shape", "detail": f"the tree does not build: {e}", "obligations": [], "time": 0}]
    _SP = []
    for g in groups: _SP += importlib.import_module(g).G.specs
    out = pool_map(range(len(_SP)), 1, wall)
    redo = [i for i, r in out.items() if r["status"] in ("failed", "unknown", "bounded") and not r.get("confirmed") and (r["status"] != "failed" or all((o[4] or "").startswith("unknown") for o in r["obligations"] if o[1] == "failed"))]
    if redo and time.time() - t0 < wall:
        o2 = pool_map(redo, 3, 200)
        for i, r in o2.items():
            if r["status"] in ("proved", "failed", "shape", "bounded"): out[i] = r
    for i, r in out.items(): r["spec"] = "C"; r["sp"] = i
    return [out[i] for i in sorted(out)]
