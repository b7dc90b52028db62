#!/bin/bash
# mkseed.sh ID : /tmp/seedwork/ID/ holds edit.py (edits files in cwd), demo.py or demo.sh, meta.json
# Confirms: applies, stable tests pass with it, demo passes without and fails with it. Writes /verif/seeded/ID.
set -u
id=$1; src=/tmp/seedwork/$id; w=/tmp/seedtree-$id
rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 2
git checkout -q -- . ; /opt/venv/bin/python "$src/edit.py" || { echo "EDIT FAILED"; exit 2; }
git diff > /tmp/$id.diff; [ -s /tmp/$id.diff ] || { echo "EMPTY DIFF"; exit 2; }
out=/verif/seeded/$id; mkdir -p "$out"; cp /tmp/$id.diff "$out/patch.diff"; cp "$src/meta.json" "$out/"
cp "$src/demo.py" "$out/demo.py"
printf '#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' > "$out/demo.sh"; chmod +x "$out/demo.sh"
(timeout 300 bash "$out/demo.sh" >/tmp/$id.with 2>&1); a=$?
(cd /repo && timeout 300 bash "$out/demo.sh" >/tmp/$id.without 2>&1); b=$?
git -C /repo status --short | head -3
[ $b = 0 ] || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/$id.without; }
[ $a != 0 ] || { echo "DEMO PASSES WITH BUG"; }
# tests in the scratch tree
/opt/venv/bin/python - "$w" <<'PY'
import json, subprocess, sys, os, xml.etree.ElementTree as E, tempfile
w=sys.argv[1]
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
print(subprocess.run(['/opt/venv/bin/python','-c','import bit;print(bit.__file__)'],cwd=w,env=env,capture_output=True,text=True).stdout.strip())
x=tempfile.mktemp()
r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=300','--continue-on-collection-errors','-W','error:Unreachable API','--ignore=tests/network/test_fees.py','-o','junit_family=xunit2','--junitxml='+x,'tests'],cwd=w,env=env,capture_output=True,text=True)
ok=set()
for t in E.parse(x).getroot().iter('testcase'):
    if not list(t): ok.add(t.get('classname')+'::'+t.get('name'))
miss=sorted(base-ok)
print('stable passing: %d of %d'%(len(base&ok),len(base)), 'BROKEN' if miss else 'ok', miss[:4])
PY
echo "$id demo with=$a without=$b"
rm -rf "$w"
