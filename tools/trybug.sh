#!/bin/bash
# trybug.sh ID [CHECK...]: confirm a planted change in a scratch copy (build, tests, demo), then run the checks on it
id=$1; shift; d=/verif/seeded/$id; W=/tmp/bug.$id; rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 1
(cd /repo && bash $d/demo.sh >/tmp/demo.$id.0 2>&1); a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $d/demo.sh >/tmp/demo.$id.1 2>&1; b=$?
echo "$id demo clean=$a patched=$b: $(tail -1 /tmp/demo.$id.1)"
for c in "$@"; do echo "   $c: $(cd /verif; VERIF_REPO=$W python3 check.py $c quick 2>&1 | grep -E 'VIOLATION|jobs' | tr '\n' ' ' | cut -c1-260)"; done
rm -rf "/tmp/bug.$id"
