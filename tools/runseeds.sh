#!/bin/bash
# tools/runseeds.sh [id...]: for each planted change, runs its property's check on a scratch copy with the change applied
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for s in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  t=$(mktemp -d); git clone -q /repo "$t/repo"; git -C "$t/repo" apply "$PWD/seeded/$s/patch.diff"
  out=$(VERIF_REPO="$t/repo" timeout 900 python3-vt checks/${p,,}.py 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -E '^VIOLATION' | head -1 | sed 's/replay=[^ ]*/replay/') | $(echo "$out" | grep -c 'failed obligation') obl | $(echo "$out" | grep -E '^NOTE' | head -2 | cut -c1-160 | tr '\n' ' ')"
  rm -rf -- "$t"
done
