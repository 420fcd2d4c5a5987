#!/bin/bash
# plant.sh ID : verify /verif/seeded/ID in a scratch copy (demo passes clean, fails patched, stable tests pass)
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant_$ID
rm -rf "$W" "$W.demo" "$W.t"; cp -a /repo "$W"; mkdir -p "$W.t/cwd"
run_demo(){ mkdir -p "$W.demo"; cp -r $D/. "$W.demo/"; rm -f "$W.demo/patch.diff" "$W.demo/meta.json"; (cd "$W" && timeout 300 bash "$W.demo/demo.sh" >"$W.t/log" 2>&1); echo $?; }
c=$(run_demo); [ $c = 0 ] || tail -5 "$W.t/log"
git -C "$W" apply $D/patch.diff || { echo "$ID APPLY-FAIL"; exit 1; }
p=$(run_demo)
tail -2 "$W.t/log"
t=skip
if [ -z "$SKIPTESTS" ]; then
 t=$(cd "$W.t/cwd" && env PYTHONPYCACHEPREFIX=$W.t/pyc NUMBA_CACHE_DIR=$W.t/nb MPLCONFIGDIR=$W.t/mpl MPLBACKEND=Agg PYTHONPATH=$W PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --rootdir=$W --timeout=300 --tb=short $W/tests 2>&1 | grep -E "^FAILED|passed|failed" | tail -4 | tr '\n' ' ')
fi
export SSQ_REPO=$W
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
k=$(cd /verif && python3 run.py $PROP --tier quick 2>&1 | grep -c "^VIOLATION property=$PROP")
echo "$ID prop=$PROP demo clean=$c patched=$p tests=[$t] caught=$k"
rm -rf "$W" "$W.demo" "$W.t"
