import sys, os, importlib, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [HERE, os.path.join(HERE, "../cspecs")]
sys.setrecursionlimit(20000)
import mlspec
m = importlib.import_module(sys.argv[1])
only = sys.argv[2:]
for sp in m.G.specs:
    if only and not any(o in sp.fn or o in sp.file for o in only): continue
    r = mlspec.run_spec(sp)
    print(f"{r['status']:8} {r['function']:60} {len(r['obligations'])} obl {r['paths']} paths {r['time']:.1f}s {r['detail']}", flush=True)
    for c in r["confirmed"]: print("     CONFIRMED", str(c)[:600])
    for c in r["unconfirmed"]: print("     unconfirmed", c[:300])
    for o in r["obligations"]:
        if o[1] == "failed": print("     FAILED", o[0], "\n", (o[4] or "")[:int(os.environ.get("CV_N", "300"))])
