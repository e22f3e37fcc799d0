"""fills the tables of DESIGN.md from proptext.py, props.py, the evidence files and seeded/ (run after the checks)"""
import sys, os, json, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import props, proptext
def repl(txt, name, body): return re.sub(f"(<!-- {name} -->\n).*?(<!-- /{name} -->)|@{name}@", lambda m: f"<!-- {name} -->\n{body}\n<!-- /{name} -->", txt, flags=re.S)
rows = []
for pid, p in props.PROPS.items():
    t = proptext.T[pid]
    try: e = json.load(open(f"{H}/evidence/{pid}.json"))
    except OSError: e = None
    c = e["coverage"] if e else {}
    rows.append(f"### {pid}: {t['title']}\n{t['statement']}\n\n* Contracts: {', '.join((('cspecs/' + s) if p.get('cspecs') else ('specs/' + s)) + '.py' for s in p.get('cspecs') or p['specs'])}; " +
                (f"{len(c['functions_under_contract'])} functions and tables under contract, {c['obligations']} obligations, {e['wall_s']:.0f} s (last run)." if e else "") +
                f"\n* Why tests cannot settle it: {t['why']}\n* Assumptions: " + "; ".join(p["assumptions"]) + "." + ("\n* " + t["note"] if t.get("note") else "") + ("\n* " + p["design"] if p.get("design") else ""))
s = []
for d in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{d}/meta.json")); s.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', 'check of ' + m['property'])} |")
na = "\n".join(f"* **{k}** {v['title']}: {v['reason']}" for k, v in getattr(proptext, "NA", {}).items()) or "none"
p = f"{H}/DESIGN.md"; txt = open(p).read()
txt = repl(txt, "TABLE", "\n\n".join(rows)); txt = repl(txt, "SEEDS", "| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(s)); txt = repl(txt, "NA", na)
open(p, "w").write(txt)
