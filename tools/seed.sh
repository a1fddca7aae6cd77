#!/bin/bash
# tools/seed.sh ID [CHECK...]: try a planted bug in a copy mounted over /repo.
#   Says whether the patch applies, builds, passes the stable tests, whether
#   the demonstration tells the two trees apart, and which checks catch it.
# SKIP_TESTS=1 leaves the test suite out.
ID=$1; shift
HERE=$(realpath "$(dirname "$0")/..")
SEED=$HERE/seeded/$ID
if [ -z "$SEED_INSIDE" ]; then
    export SEED_INSIDE=$(mktemp -d /tmp/seed-XXXXXX)
    cp -a /repo "$SEED_INSIDE/repo"
    git -C "$SEED_INSIDE/repo" checkout -q -- .
    mkdir "$SEED_INSIDE/verif" "$SEED_INSIDE/demo"
    (cd "$HERE" && tar c --exclude=./.git --exclude=./seeded .) | tar x -C "$SEED_INSIDE/verif"
    cp -a "$SEED/." "$SEED_INSIDE/demo"
    rm -f "$SEED_INSIDE/verif/replays/"*
    unshare -m -n bash "$0" "$ID" "$@"
    case "$SEED_INSIDE" in /tmp/seed-*) rm -rf "$SEED_INSIDE" ;; esac
    exit
fi
PATCH=$SEED/patch.diff
ip link set lo up
mount --bind "$SEED_INSIDE/repo" /repo
cd /repo
export PYTHONDONTWRITEBYTECODE=1
timeout 300 bash "$SEED_INSIDE/demo/demo.sh" >"$SEED_INSIDE/d0" 2>&1; clean=$?
git apply "$PATCH" || { echo "$ID: DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID: DOES NOT BUILD"
timeout 300 bash "$SEED_INSIDE/demo/demo.sh" >"$SEED_INSIDE/d1" 2>&1; bad=$?
echo "$ID: demo clean=$clean patched=$bad $(tail -1 "$SEED_INSIDE/d1" | cut -c1-150)"
[ $clean = 0 ] || tail -5 "$SEED_INSIDE/d0"
if [ -z "$SKIP_TESTS" ]; then
    bash /opt/vp/test.sh "$SEED_INSIDE/out.json" >/dev/null 2>&1
    python3 - "$SEED_INSIDE/out.json" "$ID" <<'P'
import json, sys
out = json.load(open(sys.argv[1])); base = json.load(open("/opt/vp/BASELINE.json"))
base = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
gone = [x for x in base if x not in out.get("passed", [])]
print(f"{sys.argv[2]}: tests", "pass" if not gone else f"FAIL {gone[:4]}")
P
fi
mount --bind "$SEED_INSIDE/verif" /verif
cd /verif
[ $# = 0 ] && set -- "$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$SEED_INSIDE/demo/meta.json")"
for c in "$@"; do
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py "$c" >"$SEED_INSIDE/c" 2>&1; rc=$?
    echo "$ID: check $c rc=$rc $(grep -c '^VIOLATION' "$SEED_INSIDE/c") $(grep -v '^VIOLATION' "$SEED_INSIDE/c" | head -1 | cut -c1-200)"
done
