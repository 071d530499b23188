#!/bin/bash
# run_seeded.sh [id...]: runs the quick check of each planted change's property
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls /verif/seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$SECONDS
  out=$(cd /verif && timeout 900 bash check.sh $p quick 2>&1); rc=$?
  git checkout -q -- .
  r=missed; if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id CAUGHT $((SECONDS-s))s $(grep ^VIOLATION <<<"$out" | head -1)"; r=$(grep -o 'violation in Verif[A-Za-z0-9_]*' <<<"$out" | head -1 | sed 's/.*Verif//'); else echo "$id MISSED rc=$rc $((SECONDS-s))s"; fi
  f=/verif/tools/seeded_results.txt; { grep -v "^$id	" $f 2>/dev/null; printf '%s\t%s\n' "$id" "$r"; } | sort > $f.new; mv $f.new $f
done
