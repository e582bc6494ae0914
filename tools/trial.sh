#!/bin/bash
# trial.sh <seeded id> [notests]   tries a planted bug in a scratch copy of /repo:
# demo on the unchanged copy (must be 0), demo with the patch (must be nonzero), stable tests with the patch
id=$1
dir=/verif/seeded/$id
w=/tmp/trial/$id
mkdir -p "$w" && cp -a /repo "$w/repo" && cp -aT "$dir" "$w/demo" || exit 3
cd "$w/repo" || exit 3
export OMP_NUM_THREADS=1
timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1; a=$?
git apply "$dir/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; exit 3; }
timeout 300 bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1; b=$?
t=skipped
if [ "$2" != notests ]; then
  PYTHONPATH="$w/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TORCH_DEVICE=cpu \
  MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=600 >"$w/tests.log" 2>&1
  t=$(tail -1 "$w/tests.log")
fi
echo "$id: demo clean=$a patched=$b [$(tail -1 "$w/bug.log" | cut -c1-150)] tests: $t"
rm -rf "$w/repo"
