#!/bin/bash
# seedtest.sh ID [--tests]: confirm a planted bug in a scratch copy (builds, demo fails with and passes without, stable tests pass)
S=/verif/seeded/$1; W=$(mktemp -d /tmp/seedXXXXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/repo"; (cd /repo && git archive HEAD | tar x -C "$W/repo")
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > "$W/build.sh"
sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#; s#-j8#-j4#; s#-n 6#-n 4#" /opt/vp/test.sh > "$W/test.sh"
cd "$W/repo" && git init -q . && git apply "$S/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
bash "$W/build.sh" --native-only > "$W/b.log" 2>&1 || { echo "$1: build failed"; tail -5 "$W/b.log"; exit 1; }
(cd /repo && bash "$S/demo.sh" > "$W/d0.log" 2>&1); a=$?
bash "$S/demo.sh" > "$W/d1.log" 2>&1; b=$?
echo "$1: demo unpatched $a, patched $b: $(tail -1 $W/d1.log | cut -c1-150)"
[ $a = 0 ] || tail -3 "$W/d0.log"
[ "$2" = --tests ] || exit 0
bash "$W/test.sh" "$W/out.json" > "$W/t.log" 2>&1
python3 - "$W/out.json" "$1" <<'P'
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=set(json.load(open(sys.argv[1]))["passed"])
print(sys.argv[2]+": stable tests lost:", sorted(b-p)[:5])
P
