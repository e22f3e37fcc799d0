import sys, os, time
sys.path.insert(0, "/verif/smlv"); sys.path.insert(0, "/verif/specs")
import importlib, verify
m = importlib.import_module(sys.argv[1])
only = sys.argv[2:] or None
t = time.time()
p = m.build()
for n in p.notes: print("note", n)
rs = verify.run_all(p, only, procs=1 if os.environ.get("SMLV_V") else 8)
bad = 0
for r in sorted(rs, key=lambda r: r["status"] == "proved"):
    print(f"{r['status']:8} {r['function']:45} obs={len(r['obligations'])} paths={r.get('paths')} {r['time']}s {r['detail'] or ''}")
    if r["status"] != "proved":
        bad += 1
        if r.get("trace"): print(r["trace"])
        for o in r["obligations"]:
            if o[1] == "failed": print("   FAILED", o[0], o[3], "\n     ", (o[4] or "")[:int(os.environ.get("SMLV_N","1500"))])
print("bad", bad, "of", len(rs), "time", round(time.time() - t, 1), "obligations", sum(len(r["obligations"]) for r in rs))
