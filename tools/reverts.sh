#!/bin/bash
# reverts.sh [commit...]   undoes each repair in a scratch copy and runs the check of its property there
S=/tmp/sw; V=/verif; W=/tmp/vw
cd $S && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- . && git clean -qfd src
mkdir -p $W; (cd $V && tar cf - --exclude=./target --exclude=./.git --exclude=./replays --exclude=./evidence .) | tar xf - -C $W
mkdir -p $W/evidence; sed -i "s#\"/repo\"#\"$S\"#" $W/harness/Cargo.toml
grep '^fixed:' $V/known_findings.txt | while read -r _ p c rest; do
    p=${p#property=}
    [ $# -gt 0 ] && case " $* " in *" $c "*) ;; *) continue;; esac
    git checkout -q -- . 
    if ! git show $c | git apply -R -3 >/tmp/rev.log 2>&1; then
        echo "$c $p: does not revert cleanly ($rest)"; git checkout -qf HEAD -- .; git reset -q --hard; continue
    fi
    git reset -q
    VMON_REPO=$S VERIF_SEED=1 VERIF_TIER=quick $W/run.sh $p quick >/tmp/rev-check.log 2>&1; r=$?
    echo "$c $p: exit=$r $(grep -m1 -E 'VIOLATION|BUILD|note:' /tmp/rev-check.log | cut -c1-80) | $rest"
    git checkout -q -- .
done
