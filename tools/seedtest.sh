#!/bin/bash
# seedtest.sh ID [notest]: in a scratch copy of /repo, confirms that seeded/ID compiles, passes the stable tests
# and that its demonstration tells the two trees apart.
id=$1; S=/verif/seeded/$id; [ -d $S ] || S=/verif/seeded-more/$id; W=$(mktemp -d /tmp/sd-$id-XXXX); trap 'rm -rf "$W"' EXIT
git -C /repo worktree prune; cp -a /repo "$W/r"; rm -rf "$W/r/_build"; cd "$W/r" || exit 2
mkdir "$W/d"; cp -a $S/. "$W/d"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
b() { cmake -S "$W/r" -B "$W/r/_build" -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_PROJECT_hybridpqc_INCLUDE=/opt/vp/harness/harness.cmake >/dev/null 2>&1 && ninja -C "$W/r/_build" > "$W/b.log" 2>&1; }
export CC=/usr/bin/gcc CXX=/usr/bin/g++
b || { echo "$id: base build failed"; exit 2; }
bash "$W/d/demo.sh" > "$W/o" 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
b || { echo "$id: build failed"; tail -5 "$W/b.log"; exit 2; }
bash "$W/d/demo.sh" > "$W/o2" 2>&1; p=$?
echo "$id: demo base=$a patched=$p"; [ $a = 0 ] || cat "$W/o"; tail -3 "$W/o2"
[ "$2" = notest ] && exit
python3 /opt/vp/harness/run.py "$W/r/_build" "$W/res" >/dev/null
python3 - "$W/res" "$id" <<'P'
import sys,json
s=json.load(open('/opt/vp/BASELINE.json'))["stable"]; p=[l.split()[1] for l in open(sys.argv[1]) if l.startswith("PASS")]
m=[x for x in s if x not in p]; print(sys.argv[2]+": tests", "FAIL "+str(m) if m else "pass")
P
