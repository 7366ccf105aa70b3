#!/bin/bash
# seedcheck.sh ID [PROPERTY]: run the property's check against a copy of /repo with the planted bug
S=/verif/seeded/$1; W=$(mktemp -d /tmp/seedcXXXXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/repo"; (cd /repo && git archive HEAD | tar x -C "$W/repo"); cp -a /repo/_build/src "$W/repo/" 2>/dev/null; mkdir -p "$W/repo/_build"; cp -a /repo/_build/src "$W/repo/_build/"
cd "$W/repo" && rm -rf "$W/repo/src.tmp"; git init -q . && git apply "$S/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
mkdir "$W/v"; cp -a /verif/check.py /verif/vdv /verif/known_findings.txt "$W/v/"
t=$(date +%s)
VERIF_REPO="$W/repo" python3-vt "$W/v/check.py" $P > "$W/log" 2>&1; rc=$?
echo "$1 [$P]: rc=$rc $(($(date +%s)-t))s $(grep -h 'VIOLATION\|failing input' "$W/log" | cut -c1-220 | tr '\n' ' ')"
[ -z "$V" ] || cut -c1-300 "$W/log" | tail -12
