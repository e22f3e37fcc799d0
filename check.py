#!/usr/bin/env python3-vt
"""check.py PROPERTY [--baseline]: decide one property; see DESIGN.md for the verdict rules."""
import sys, os, time, json, hashlib, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ("smlv", "specs", "replay", "cv", "cspecs"): sys.path.insert(0, os.path.join(HERE, d))
sys.setrecursionlimit(20000)
REPO = os.environ.get("SMLV_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
from props import PROPS

def sml_tokens(path):
    import parser as P
    return repr([t[:2] for t in P.lex(open(path, encoding="latin-1").read())])

def fingerprint(p):
    """token-level hash of the sources under contract (comments and layout do not count)"""
    h = hashlib.sha256()
    for f in sorted(p.get("files", [])):
        fp = os.path.join(REPO, f)
        try:
            if f.endswith((".sml", ".sig", ".fun")): t = sml_tokens(fp)
            else:
                import cverify
                t = cverify.tokens(fp)
        except Exception as e: t = f"!{type(e).__name__}"
        h.update((f + "\0" + t + "\0").encode("utf-8", "replace"))
    return h.hexdigest()

def run_sml_specs(p, tier):
    import verify, core
    out = []
    for mod in p.get("specs", []):
        try:
            m = importlib.import_module(mod)
            prog = m.build()
        except core.Shape as e:
            out.append({"function": f"{mod}: loading", "status": "shape", "detail": str(e), "obligations": [], "time": 0}); continue
        except Exception as e:
            out.append({"function": f"{mod}: loading", "status": "shape", "detail": f"{type(e).__name__}: {e}", "obligations": [], "time": 0, "trace": traceback.format_exc()[-1500:]}); continue
        rs = verify.run_all(prog, procs=8, wall=400)
        redo = [r["function"] for r in rs if r["status"] in ("failed", "unknown")]
        if redo:
            # a second attempt with larger limits before anything is concluded
            verify.SCALE = 3
            rs2 = {r["function"]: r for r in verify.run_all(prog, only=redo, procs=6, wall=250, exact=True)}
            verify.SCALE = 1
            rs = [rs2.get(r["function"], r) if r["function"] in redo and rs2.get(r["function"], {}).get("status") in ("proved", "failed", "shape", "vacuous") else r for r in rs]
        for r in rs: r["spec"] = mod
        out += rs
        p.setdefault("_assumed", []).extend(getattr(prog, "assumed_notes", []))
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    p = PROPS[pid]
    results = run_sml_specs(p, TIER)
    if p.get("cspecs"):
        import cverify
        results += cverify.run(p["cspecs"], REPO, TIER)
    if not results:
        print("no obligations"); sys.exit(3)
    fp = fingerprint(p)
    basefile = os.path.join(HERE, "baseline.json")
    try: base = json.load(open(basefile))
    except (OSError, ValueError): base = {}
    if "--baseline" in sys.argv:
        if all(r["status"] == "proved" for r in results):
            base[pid] = fp
            json.dump(base, open(basefile, "w"), indent=1, sort_keys=True)
            print("baseline recorded")
        else: print("not proved, baseline not recorded")
    for r in results:
        if r.get("bounded"): p.setdefault("bounded", []).append([r["function"], r["bounded"]])
    nobl = sum(len([o for o in r["obligations"] if o[1] != "skipped"]) for r in results)
    ndis = sum(len([o for o in r["obligations"] if o[1] == "proved"]) for r in results)
    bad = [r for r in results if r["status"] != "proved"]
    failed = [r for r in bad if r["status"] == "failed"]
    mism = [r for r in bad if r["status"] in ("shape", "vacuous", "unknown", "bounded")]
    same = base.get(pid) == fp
    print(f"{pid}: {len(results)} functions and lemmas, {nobl} obligations, {ndis} discharged, {len(failed)} failed, {len(mism)} undecided ({time.time()-t0:.1f}s)")
    for r in bad:
        print(f"  {r['status']}: {r['function']} {r.get('detail') or ''}")
        for o in r["obligations"]:
            if o[1] == "failed": print(f"     failed obligation: {o[0]}")
    found, ntried, cannot = [], 0, None
    for r in results:
        for c in r.get("confirmed") or []: found.append(dict(c, input=json.dumps(c)))
    # C functions: the symbolic execution follows the code path by path, so a counterexample is one of the code; without a replay it is reported as such
    cfail = [r for r in failed if r.get("spec") == "C" and any(o[1] == "failed" and not (o[4] or "").startswith("unknown") for o in r["obligations"])]
    sbad = [r for r in bad if r.get("spec") != "C"]
    need_search = bool(sbad) or (TIER == "thorough" and p.get("replay"))
    if need_search and p.get("replay"):
        import real as RL
        R = RL.Real(REPO)
        try:
            for rm in p["replay"]:
                m = importlib.import_module(rm)
                f, n = m.search(R, SEED, 1 if TIER == "quick" else 5)
                for x in f: x["search"] = rm
                found += f; ntried += n
                if found: break
        except RL.CannotRun as e:
            cannot = str(e)
            print("  concrete search impossible:", cannot[:400])
        finally: R.close()
    known, fixed = load_known(pid)
    new = [f for f in found if not any(k in f["input"] for k in known)]
    old = [f for f in found if f not in new]
    for k in known: print(f"KNOWN-FINDING: property={pid} {k}")
    verdict = 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = os.path.join(HERE, "evidence", f"{pid}.replay.json")
    if os.path.exists(rp): os.unlink(rp)
    nviol = 0
    sfail = [r for r in failed if r.get("spec") != "C"]; smism = [r for r in mism if r.get("spec") != "C"]
    if new or cfail or (sfail and not same and not smism and not old):
        obs = [{"function": r["function"], "obligation": o[0], "verifier_output": o[4]} for r in failed for o in r["obligations"] if o[1] == "failed"]
        json.dump({"property": pid, "failed_obligations": obs, "failing_inputs": new, "undecided": [(r["function"], r["detail"]) for r in mism],
                   "replay_attempts": [w for r in failed for w in r.get("unconfirmed") or []],
                   "how": "SML: the inputs were run on the system built from this tree (replay/); C: the compiled function was run on the input with its external calls scripted (cv/creplay.py)"}, open(rp, "w"), indent=1, default=str)
        verdict = 1
        nviol = max(1, len(new))
        for f in new[:5]: print("  failing input:", json.dumps(f)[:500])
        print(f"VIOLATION property={pid} replay={rp}" + ("" if new else " no-failing-input-found"))
    elif bad:
        print(f"  undecided by the verifier: the source no longer matches the annotations, or a limit was reached; the bounded search ({ntried} cases on the real code) found nothing")
    level = "proof" if not bad else "exploration"
    be = {}
    for r in results:
        for o in r["obligations"]:
            if o[1] == "proved": be[o[2] or "z3"] = be.get(o[2] or "z3", 0) + 1
    cov = {"obligations": nobl, "discharged": ndis, "checker_cmd": f"python3-vt check.py {pid}", "trusted_base": p["trusted"],
           "functions_under_contract": sorted(r["function"] for r in results if not r.get("lemma")), "lemmas": sorted(r["function"] for r in results if r.get("lemma")),
           "proved": sum(1 for r in results if r["status"] == "proved"), "back_ends": be, "solver_time_s": round(sum(o[3] for r in results for o in r["obligations"]), 1),
           "undecided": [[r["function"], r["status"], r.get("detail")] for r in mism], "failed": [r["function"] for r in failed], "files": p.get("files", []), "bounded": p.get("bounded", [])}
    if bad or TIER == "thorough":
        cov.update({"evaluations": ntried, "distinct_nontrivial": ntried, "rule": p.get("rule", "cases of the replay harness, boundary values and random ones"), "samples": [f["input"] for f in found[:3]] or ["none failing"]})
        if cannot: cov["concrete_search"] = cannot
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov, "assumptions": p["assumptions"] + sorted(set(p.get("_assumed", []))), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    sys.stdout.flush()
    if "cbuild" in sys.modules: sys.modules["cbuild"].cleanup()
    os._exit(verdict)

def load_known(pid):
    """known-findings.txt: 'finding: property=ID <text identifying the failing input>' (suppresses that input), 'fixed: ...' (suppresses nothing)"""
    known, fixed = [], []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            l = l.strip()
            if l.startswith(f"finding: property={pid} "): known.append(l.split(" ", 2)[2])
            elif l.startswith(f"fixed: property={pid} "): fixed.append(l)
    except OSError: pass
    return known, fixed

main()
