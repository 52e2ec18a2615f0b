#!/bin/bash
# bugcheck.sh ID [CHECK...]: runs the checks (default: the planted bug's own property) against seeded/ID in a scratch copy of /repo
id=$1; shift; S=/verif/seeded/$id; [ -d $S ] || S=/verif/seeded-more/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); W=$(mktemp -d /tmp/bc-$id-XXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/r" && git -C "$W/r" apply $S/patch.diff || exit 2
for c in ${@:-$p}; do t=$(date +%s); VERIF_SEED=1 VF_REPO="$W/r" timeout 900 /verif/bin/check $c > "$W/o" 2>&1; echo "$id $c rc=$? $(($(date +%s)-t))s $(grep -m1 -E 'VIOLATION|rror' "$W/o" | cut -c1-200)"; done
