#!/bin/bash
# plant.sh ID [test files...]: confirms one planted bug in a scratch copy of /repo.
# (The full confirmation is vcheck's; this one runs the demo and selected tests.)
id=$1; shift
d=/verif/seeded/$id
w=$(mktemp -d /tmp/plant_XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo/. "$w/"
cd "$w"
export PYTHONPATH=$w PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
bash "$d/demo.sh" >"$w.clean" 2>&1; echo "demo clean: $?"
git apply --check "$d/patch.diff" && git apply "$d/patch.diff" || exit 3
bash "$d/demo.sh" >"$w.bug" 2>&1; echo "demo patched: $?"
tail -n 3 "$w.bug"; rm -f "$w.clean" "$w.bug"
if [ $# -gt 0 ]; then
  XLA_FLAGS=--xla_cpu_multi_thread_eigen=false OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n ${NW:-4} --dist worksteal --ignore=tests/matrix/matmat_test.py "$@" 2>&1 | tail -n 8
fi
