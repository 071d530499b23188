#!/bin/bash
# verify_seeded.sh [id...]: confirms every planted change in /repo: the demo
# passes without it; with it the program builds, the tests pass, the demo fails.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls /verif/seeded))
for id in "${ids[@]}"; do
  d=$(mktemp -d /tmp/svXXXXXX); cp -a /verif/seeded/$id/. $d/; rm $d/patch.diff $d/meta.json
  r=""
  timeout 300 bash $d/demo.sh >/tmp/sv.clean 2>&1 || r+=" CLEAN-DEMO-FAILS($(tail -1 /tmp/sv.clean))"
  git apply /verif/seeded/$id/patch.diff || r+=" NOAPPLY"
  bash /opt/vp/build.sh >/tmp/sv.build 2>&1 || r+=" NOBUILD"
  bash /opt/vp/test.sh /tmp/sv.json >/dev/null 2>&1
  python3 - <<'E' || r+=" TESTS"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sv.json'))
names=lambda x: set(x.get('stable', x.get('passed', x.get('pass', []))))
sys.exit(0 if names(b) <= names(o) else 1)
E
  timeout 300 bash $d/demo.sh >/tmp/sv.mut 2>&1 && r+=" DEMO-STILL-PASSES"
  # changed lines of the original?
  git diff -U0 | python3 -c "
import sys,re,subprocess
f=None;ok=True;n=0
for l in sys.stdin:
    m=re.match(r'--- a/(.*)',l)
    if m: f=m.group(1)
    m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
    if m:
        s=int(m.group(1)); c=int(m.group(2) or 1)
        if c:
            b=subprocess.run(['git','blame','-s','-L','%d,+%d'%(s,c),'HEAD','--',f],capture_output=True,text=True).stdout
            for x in b.splitlines():
                n+=1
                if not x.startswith('^'): ok=False; print('   added line:',f,x)
if n==0: print('   only insertions')
" > /tmp/sv.blame
  git checkout -q -- .
  echo "$id:${r:- ok} [$(tail -1 /tmp/sv.mut | cut -c1-100)]"; cat /tmp/sv.blame
  rm -rf "$d"
done
