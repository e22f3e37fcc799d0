#!/bin/bash
# seed.sh ID: confirm a planted bug in scratch copies: it builds, the stable tests pass, demo.sh is 0 without and nonzero with the patch.
# The demo runs with cwd = the copy; in the real check it runs in /repo.
ID=$1; V=/verif/seeded/$ID; W=${W:-/tmp/seed-$ID}
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
git -C "$W/repo" checkout -q -- . ; git -C "$W/repo" apply "$V/patch.diff" || { echo "APPLY FAILED"; rm -rf "$W"; exit 1; }
sed "s#^REPO=/repo#REPO=$W/repo#" /opt/vp/build.sh > "$W/build.sh"
sed "s#^R=/repo#R=$W/repo#; s#/opt/vp/build.sh#$W/build.sh#" /opt/vp/test.sh > "$W/test.sh"
printf '\n/.vp-build/\n/sml.boot.*\n/sml.*-unix\n/sml.lib/\n' >> "$W/repo/.git/info/exclude"
cp -a /opt/vp/tests "$W/tests"; grep -rl /repo "$W/tests" | xargs sed -i "s#/repo#$W/repo#g"
sed -i "s#/opt/vp/tests#$W/tests#g" "$W/test.sh"
bash "$W/test.sh" "$W/out.json" > "$W/log" 2>&1 || { echo BUILD FAILED; tail -5 "$W/log"; }
python3 - "$W/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
exp=b.get('passed') or b.get('stable') or b
ids=set(exp if isinstance(exp,list) else exp.get('passed',[]))
print('stable tests failing:', len(ids-set(o['passed'])), 'of', len(ids))
P
cp -a "$V" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/d1" 2>&1; echo "demo with patch: $?"; tail -3 "$W/d1")
(cd /repo && timeout 300 bash "$W/demo/demo.sh" > "$W/d2" 2>&1; echo "demo without: $?"; tail -3 "$W/d2")
[ -n "$KEEP" ] || rm -rf "$W"
