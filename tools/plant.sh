#!/bin/bash
# developer tool.  plant.sh new ID  -> scratch copy /tmp/plant/ID of /repo to edit
#                  plant.sh done ID -> diff into seeded/ID, run tests, demo (with/without), and the check
set -u
V=$(cd "$(dirname "$0")/.." && pwd); cmd=$1; id=$2; W=/tmp/plant/$id; D=$V/seeded/$id
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
if [ "$cmd" = new ]; then rm -rf "$W"; mkdir -p /tmp/plant; cp -a /repo "$W"; exit; fi
if [ "$cmd" = clean ]; then rm -rf "$W"; exit; fi
mkdir -p "$D"
[ -d "$W" ] || { cp -a /repo "$W"; git -C "$W" apply "$D/patch.diff" || exit 9; }
git -C "$W" diff > "$D/patch.diff"
git -C "$W" diff --stat | tail -3
if git -C "$W" diff --name-only | grep -q pyx; then
  (cd "$W"; sed "s#/repo#$W#g" /opt/vp/build_repo.py > /tmp/plant/b_$id.py; /opt/venv/bin/python -W ignore /tmp/plant/b_$id.py) || echo BUILD-FAIL
fi
if [ "${SKIPTEST:-}" = "" ]; then
(cd "$W"; PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=600 --disable-warnings \
 --doctest-glob='*.rst' pystruct doc 2>&1 | grep -E "^FAILED|^ERROR|passed|failed" | cut -c1-150 | grep -v -E "pyqpbo|opengm" )
fi
(cd /repo; timeout 300 bash "$D/demo.sh" >/tmp/plant/d0_$id 2>&1; echo "demo unchanged: $?")
(cd "$W"; timeout 300 bash "$D/demo.sh" >/tmp/plant/d1_$id 2>&1; echo "demo patched: $?")
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
(cd "$V"; VERIF_REPO=$W ./check $P | cut -c1-200)
