#!/usr/bin/env python3
"""mkseed.py: write /verif/seeded/<id>/ from a Python description (file, old text, new text) and a demo."""
import sys, os, json, subprocess, tempfile, shutil
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; runs in the built tree
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T"
export CM_VERBOSE=false
out=$(timeout 100 "$R/bin/sml" -Ccm.verbose=false %s "$D/demo.sml" < /dev/null 2>&1)
echo "$out" | grep -E "WRONG|ALLOK|rror|uncaught" | head -20
echo "$out" | grep -q "^ALLOK" && ! echo "$out" | grep -q "WRONG"
'''
HEAD = '''fun chk (name, b) = if b then () else print ("WRONG " ^ name ^ "\\n")
fun safe (name, f) = (if f () then () else print ("WRONG " ^ name ^ "\\n")) handle e => print ("WRONG " ^ name ^ " raises " ^ exnName e ^ "\\n")
'''
TAIL = '\nval _ = print "ALLOK\\n"\nval _ = OS.Process.exit OS.Process.success\n'
def mk(id, prop, edits, demo, needs, breaks, cm="", demosh=None):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        for side in ("a", "b"):
            for f, old, new in edits:
                p = os.path.join(t, side, f)
                if not os.path.exists(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    shutil.copyfile(os.path.join("/repo", f), p)
                if side == "b":
                    s = open(p, encoding="latin-1", newline="").read()
                    assert s.count(old) == 1, (id, f, old, s.count(old))
                    open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=t, capture_output=True)
        txt = r.stdout.decode("latin-1").replace("a/a/", "a/").replace("b/b/", "b/")
        open(d + "/patch.diff", "w", encoding="latin-1", newline="").write(txt)
    finally: shutil.rmtree(t)
    assert subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode == 0
    open(d + "/demo.sh", "w").write(demosh or DEMO % cm)
    if demo:
        open(d + "/demo.sml", "w").write(HEAD + demo + TAIL)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("written", id)
