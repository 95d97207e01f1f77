#!/bin/bash
# confirms a planted bug in a scratch copy: demo passes without and fails with the patch, stable tests pass
# usage: tools/plant.sh ID [notest]
ID=$1; B=/verif/seeded/$ID; D=/tmp/plant/$ID; W=/tmp/plant/w_$ID
mkdir -p /tmp/plant; [ -d "$D" ] && rm -rf "/tmp/plant/$ID"; cp -a /repo "$D"; mkdir -p "$W"/{a,b}/cwd "$W/numba"
cd "$D" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 NUMBA_CACHE_DIR=$W/numba
timeout 300 bash "$B/demo.sh" > "$W/demo0.log" 2>&1 || { echo "$ID: demo FAILS on clean tree"; tail -5 "$W/demo0.log"; rm -rf "/tmp/plant/$ID" "/tmp/plant/w_$ID"; exit 1; }
git apply "$B/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "/tmp/plant/$ID" "/tmp/plant/w_$ID"; exit 1; }
timeout 300 bash "$B/demo.sh" > "$W/demo1.log" 2>&1 && { echo "$ID: demo PASSES with patch"; rm -rf "/tmp/plant/$ID" "/tmp/plant/w_$ID"; exit 1; }
echo "$ID: demo ok ($(tail -1 "$W/demo1.log" | cut -c1-120))"
python3 /verif/check.py --root "$D" --property "$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")" | grep -v KNOWN | cut -c1-250 | tail -4
if [ "$2" != notest ]; then
export PYTHONPATH=$D
run() { local d=$1; shift
  (cd "$W/$d/cwd" && timeout 780 /opt/venv/bin/python -m pytest -q -c "$D/pytest.ini" --rootdir="$D" \
    -p no:cacheprovider --timeout=300 --continue-on-collection-errors \
    -o junit_family=xunit2 --junitxml="$W/$d.xml" "$@" > "$W/$d.log" 2>&1); }
run b "$D/tests/test_external_data.py" &
run a -n ${NP:-6} --dist loadfile "$D/tests" --ignore="$D/tests/test_external_data.py"
wait
python3 /opt/vp/results.py "$W/out.json" "junit:$W/*.xml" > /dev/null
echo "$ID: tests $(python3 /tmp/rt.py "$W/out.json" | cut -c1-300)"
fi
rm -rf "/tmp/plant/$ID" "/tmp/plant/w_$ID"
