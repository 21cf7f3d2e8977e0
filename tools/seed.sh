#!/bin/bash
# seed.sh <seed id> [property...]   confirms a planted bug in a scratch copy and runs checks against it there
# (by default the check of the property the bug breaks). Everything happens in /tmp/sw and /tmp/vw.
set -u
V=/verif; S=/tmp/sw; W=/tmp/vw
id="$1"; shift
d=$V/seeded/$id
. /opt/vp/env.sh 2>/dev/null
if [ ! -d $S ]; then cp -a /repo $S; fi
cd $S && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- . || exit 3
demo() { rm -rf /tmp/demo-run; cp -r $d /tmp/demo-run; rm -f /tmp/demo-run/*.diff /tmp/demo-run/meta.json; timeout 300 bash /tmp/demo-run/demo.sh >/tmp/demo.log 2>&1; local c=$?; rm -rf /tmp/demo-run; return $c; }
bld() { cargo test --workspace --no-run --locked --offline --lib --bins --tests --benches >/tmp/seed-build.log 2>&1; }
if [ -z "${SKIP_CONFIRM:-}" ]; then
    bld || { echo "$id: unchanged tree does not build"; exit 3; }
    demo; a=$?
    git apply --check $d/patch.diff || { echo "$id: patch does not apply"; exit 3; }
    git apply $d/patch.diff
    bld || { echo "$id: patched tree does not build"; tail -20 /tmp/seed-build.log; git checkout -q -- .; exit 3; }
    cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/seed-test.log 2>&1
    t=$(grep -c '^test .* ok$' /tmp/seed-test.log)
    f=$(grep '^test .*FAILED$' /tmp/seed-test.log | tr '\n' ';')
    demo; b=$?
    echo "$id: demo unchanged=$a patched=$b  tests ok=$t failed=[$f]"
    git status --short | grep -v '^ M src' | head
else
    git apply $d/patch.diff || exit 3
fi
props="$*"
[ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ "$props" = none ] && props=
if [ -n "$props" ]; then
    mkdir -p $W
    (cd $V && tar cf - --exclude=./target --exclude=./.git --exclude=./replays --exclude=./evidence .) | tar xf - -C $W
    mkdir -p $W/evidence
    sed -i "s#\"/repo\"#\"$S\"#" $W/harness/Cargo.toml
    for p in $props; do
        t0=$(date +%s.%N)
        VMON_REPO=$S VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${TIER:-quick} $W/run.sh $p ${TIER:-quick} >/tmp/seed-check.log 2>&1; c=$?
        echo "$id: check $p exit=$c ($(echo "$(date +%s.%N)-$t0" | bc | cut -c1-5) s) $(grep -m1 -E 'VIOLATION|INCONCLUSIVE|BUILD|note:' /tmp/seed-check.log) $(grep -m1 -A0 'what' /tmp/seed-check.log | cut -c1-200)"
    done
fi
cd $S && git checkout -q -- .
