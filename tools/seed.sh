#!/bin/bash
# seed.sh ID [notest]: demo on the clean tree, then with the patch: build, tests, demo, quick check of the property
id=$1; d=/verif/seeded/$id; S=$(mktemp -d); cp $d/* $S/; rm -f $S/*.diff $S/meta.json
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo dirty"; exit 1; }
cpp=$(grep -cE '^\+\+\+ .*\.(c|h)pp' $d/patch.diff)
cd /repo; timeout 300 bash $S/demo.sh > $S/clean.log 2>&1; echo "$id demo clean: $?"
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; [ "$cpp" = 0 ] || bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf $S' EXIT
bash /opt/vp/build.sh > $S/build.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 $S/build.log; exit 1; }
timeout 300 bash $S/demo.sh > $S/bug.log 2>&1; echo "$id demo patched: $?"; tail -2 $S/bug.log
(cd /verif && timeout 900 ./run $prop quick > $S/chk.log 2>&1; echo "$id check $prop: $?"; grep -v KNOWN $S/chk.log | head -3 | cut -c1-250)
[ "$2" = notest ] || { bash /opt/vp/test.sh $S/t.json > $S/t.log 2>&1; python3 - $S/t.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(r.get('passed') or [k for k,v in r.get('tests',{}).items() if v=='passed'])
print('tests missing:', [t[:100] for t in b if t not in ok][:5])
P
}
