#!/bin/bash
# verify.sh demo|tests|check [ID...]: confirm planted bugs in scratch copies of /repo
mode=$1; shift
cd /verif/seeded
for id in ${@:-$(ls)}; do
  w=/tmp/plant_$id
  rm -rf "$w"; cp -a /repo "$w"
  git -C "$w" apply /verif/seeded/$id/patch.diff || { echo "$id: PATCH FAILS"; continue; }
  case $mode in
  demo)
    (cd /repo && timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/plant_$id.good 2>&1); a=$?
    (cd $w && timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/plant_$id.bad 2>&1); b=$?
    echo "$id: unchanged $a, planted $b $(grep BROKEN /tmp/plant_$id.bad | head -1) $([ $a != 0 ] && tail -1 /tmp/plant_$id.good) $([ $b != 0 ] && ! grep -q BROKEN /tmp/plant_$id.bad && tail -1 /tmp/plant_$id.bad)"
    ;;
  tests)
    cd $w
    export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu
    res=$(ls -S tests/test_*.py | xargs -P 8 -I{} bash -c 'timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --randomly-seed=0 --randomly-dont-reorganize {} 2>&1 | tail -1')
    echo "$id: $(echo "$res" | grep -c passed) files, failed: $(echo "$res" | grep -c failed)$(echo "$res" | grep -c ' error')"
    cd /verif/seeded
    ;;
  check)
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    out=$(cd /verif && DST_REPO=$w bash run.sh $p --tier quick --no-evidence --jobs ${JOBS:-8} 2>&1); rc=$?
    echo "$id: exit $rc $(echo "$out" | grep -E '^seed' | head -1 | cut -c1-150) | $(echo "$out" | tail -1 | grep -o '[0-9.]* s, exit.*')"
    ;;
  esac
  rm -rf "$w"
done
