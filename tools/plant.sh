#!/bin/bash
# Try out a planted bug. usage: plant.sh ID   (edit the scratch clone $PL=/tmp/pl first; put demo.sh
# and its files in /verif/seeded/ID). Builds, runs the repository's tests, runs the demo with and
# without the change, and writes patch.diff. The scratch clone is left clean.
id=$1; PL=${PL:-/tmp/pl}; d=/verif/seeded/$id
export CC=gcc CXX=g++
cd "$PL" || exit 1
[ -f "$d/patch.diff" ] && [ -z "$(git diff)" ] && git apply "$d/patch.diff"
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
ninja -C _build > /tmp/pl.log 2>&1 || { tail -20 /tmp/pl.log; echo "BUILD FAILED"; git checkout -q -- .; exit 1; }
mkdir -p _build/reports
python3 /opt/vp/run_catch.py "$PL/_build/test" "$PL/_build/reports" > /tmp/pl.tests 2>&1
echo "tests failing: $(grep -c ^FAIL /tmp/pl.tests)"; grep ^FAIL /tmp/pl.tests | head -5
cp -r "$d" /tmp/pl_demo; (timeout 300 bash /tmp/pl_demo/demo.sh > /tmp/pl.demo 2>&1; echo "demo with the change: $?"); tail -3 /tmp/pl.demo
rm -r /tmp/pl_demo
git checkout -q -- .
ninja -C _build > /tmp/pl.log 2>&1
cp -r "$d" /tmp/pl_demo; (timeout 300 bash /tmp/pl_demo/demo.sh > /tmp/pl.demo 2>&1; echo "demo without: $?"); tail -1 /tmp/pl.demo
rm -r /tmp/pl_demo
