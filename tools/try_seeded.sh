#!/bin/bash
# try_seeded.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
here="$(cd "$(dirname "$0")/.." && pwd)"; cd "$here" || exit 2
repo=$(sed -n 's/^repo=//p' run.sh)   # a copy of /verif made by copy.sh has its own copy of /repo
[ -z "$(git -C $repo status --porcelain)" ] || { echo "$repo is not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C $repo apply "$here/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    s=$(date +%s)
    ./run.sh "$p" quick > "/tmp/try-$id.log" 2>&1
    rc=$?
    git -C $repo checkout -q -- .
    echo "$id $p rc=$rc $(($(date +%s) - s))s $(grep -c VIOLATION /tmp/try-$id.log) $(grep -m1 '^  .*: ' /tmp/try-$id.log | tail -1 | cut -c1-160)"
done
