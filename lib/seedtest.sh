#!/bin/bash
# Development tool: try planted bugs in a private copy of /repo.
# usage: seedtest.sh DIR [PROP...]   DIR has patch.diff, demo.sh, meta.json
# Runs build, the stable tests, the demo with and without the patch, the check.
dir=$(realpath "$1"); shift
if [ -z "$INNS" ]; then
	tmp=$(mktemp -d /tmp/seedtest.XXXXXX)
	cp -a /repo "$tmp/repo"; cp -a /opt/vp "$tmp/vp"
	INNS=1 unshare -Urm bash "$0" "$dir" "$@" < <(echo "$tmp")
	rc=$?
	[[ $tmp == /tmp/seedtest.* ]] && rm -rf "$tmp"
	exit $rc
fi
read -r tmp
mount --bind "$tmp/repo" /repo; mount --bind "$tmp/vp" /opt/vp
mkdir -p "$tmp/demo"; cp -a "$dir/." "$tmp/demo"; rm -f "$tmp/demo"/*.diff "$tmp/demo/meta.json"
cd /repo || exit 3
git diff --quiet || { echo "repo not clean"; exit 3; }
bash /opt/vp/build.sh > "$tmp/build.log" 2>&1 || echo "BASE BUILD FAILED"
(cd /repo; bash "$tmp/demo/demo.sh" > "$tmp/demo.log" 2>&1); echo "demo on unchanged: $?"
git apply "$dir/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 3; }
bash /opt/vp/build.sh > "$tmp/build.log" 2>&1 || { echo "BUILD FAILED"; tail -5 "$tmp/build.log"; }
bash /opt/vp/test.sh "$tmp/t.json" > "$tmp/test.log" 2>&1
python3 - "$tmp/t.json" <<'P'
import json, sys
d = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
print('stable tests broken:', [x for x in b['stable'] if x not in d['passed']])
P
(cd /repo; bash "$tmp/demo/demo.sh" > "$tmp/demo.log" 2>&1); echo "demo on patched: $?"
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
[ "$1" = none ] && exit
for p in "$@"; do
	(cd /verif; VERIF_EXTCACHE= ./check $p 2>&1 | cut -c1-500 | grep -v '^   ' | tail -${TAIL:-12}; echo "check $p: ${PIPESTATUS[0]}")
done
