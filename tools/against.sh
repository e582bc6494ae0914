#!/bin/bash
# against.sh <patch file> <check>...   development aid: runs quick checks against a scratch copy of /repo with a
# patch applied (a copy of the machinery whose paths point there), so that several patches can be tried at once.
# Prints one line per check: PATCH CHECK exit code, seconds.  TIER=thorough for the other tier.
patch=$(realpath "$1"); shift
name=$(basename "$(dirname "$patch")")-$(basename "$patch" .diff)
w=$(mktemp -d /tmp/against.XXXXXX)
cp -a /repo "$w/repo" && mkdir "$w/verif" && cp -a /verif/check.sh /verif/mon /verif/known_findings.jsonl /verif/properties.jsonl "$w/verif/" || exit 3
sed -i "s#/repo#$w/repo#g" "$w/verif/check.sh" "$w/verif/mon/core.py" "$w/verif/mon/nocache.py"
find "$w/verif" -name __pycache__ -prune -exec rm -rf {} +
if [ -s "$patch" ]; then git -C "$w/repo" apply "$patch" || { echo "$name: does not apply"; rm -rf "$w"; exit 3; }; fi
for c in "$@"; do
  c=$(basename "$(ls /verif/mon/checks/$c*.py)" .py)
  s=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${TIER:-quick} timeout 1800 bash "$w/verif/check.sh" "$c" "${TIER:-quick}" >"$w/out" 2>&1; rc=$?
  echo "$name $c rc=$rc $((SECONDS - s))s $(grep -m1 -E '^VIOLATION' "$w/out" | cut -c1-60) $([ $rc -gt 1 ] && tail -2 "$w/out" | tr '\n' ' ' | cut -c1-200)"
  [ -n "$SHOW" ] && tail -${SHOW} "$w/out"
done
rm -rf "$w"
