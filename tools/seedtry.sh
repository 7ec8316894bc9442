#!/bin/bash
# seedtry.sh ID [notest]: in a scratch copy of /repo, confirm that seeded/ID's demo passes without and fails with the patch,
# that the stable tests pass with it, and say whether the check of its property catches it.
S=/verif/seeded/$1; D=/tmp/seed.$1; mkdir -p $D; cp -a /repo/. $D/
export PYTHONPATH=$D/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
cd $D || exit 1
X=$(mktemp -d); cp $S/* $X/
bash $X/demo.sh >/tmp/seed.$1.out0 2>&1; echo "$1 demo unchanged: $?"
git apply $S/patch.diff || { echo "patch does not apply"; rm -rf "$D" "$X"; exit 1; }
bash $X/demo.sh >/tmp/seed.$1.out1 2>&1; echo "$1 demo patched: $?"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != notest ]; then
 OMP_NUM_THREADS=2 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 --continue-on-collection-errors --ignore=tests/test_menagerie.py --ignore=tests/mujoco_menagerie tests 2>&1 | grep -E "^FAILED|^ERROR|passed|failed" | cut -c1-200 | sed "s/^/$1 /"
fi
cd /verif; VERIF_REPO=$D PYTHONPATH= timeout 900 ./check $P 2>/dev/null | grep -c VIOLATION | sed "s/^/$1 check $P violations: /"
rm -rf "$D" "$X"
