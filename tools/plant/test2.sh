#!/bin/bash
# bash /opt/vp/test.sh OUT.json: rebuilds, then runs src/tests/testNN one after
# another (they share src/tests/testTmp), judged as src/tests/testAll does.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root LC_ALL=C
OUT=$(realpath -m "${1:?usage: test.sh OUT.json}")
rm -f "$OUT"
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
if ! bash /tmp/plant/build2.sh > "$W/build.log" 2>&1; then
  tail -40 "$W/build.log"
  echo "BUILD FAILED"
  echo '{"passed": [], "failed": []}' > "$OUT"
  exit 1
fi
cd /tmp/plant/w2/src/tests || exit 1
: > "$W/lines"
for t in test[0-9][0-9]; do
  timeout -k 5 60 perl "./$t" > "$W/log" 2>&1 < /dev/null
  rc=$?
  if [ $rc = 0 ] && [ "$(tail -n 1 "$W/log")" = passed ]; then
    echo "PASS $t" >> "$W/lines"
  else
    echo "FAIL $t" >> "$W/lines"
    echo "--- $t"; tail -n 15 "$W/log"
  fi
done
cat "$W/lines"
python3 /opt/vp/results.py "$OUT" "lines:$W/lines"
