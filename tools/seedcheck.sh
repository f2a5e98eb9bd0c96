#!/bin/bash
# seedcheck.sh <id>...: confirms planted bugs in a scratch copy of /repo (/tmp/wt): the patch applies and builds, the test suite passes with
# it, the demonstration passes without and fails with it; then runs the quick check of its property against the patched copy.
W=/tmp/wt
head=$(git -C /repo rev-parse HEAD)
if [ ! -d $W/.git ]; then git clone -q /repo $W; fi
cd $W || exit 1
build() { cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=g++ -DCMAKE_CXX_FLAGS=-Wno-error -DFL_BUILD_TESTS=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/tmp/wt.cmake 2>&1 && ninja -C $W/_build >/tmp/wt.build 2>&1; }
demo() { d=$(mktemp -d /tmp/demoXXXXXX); cp -r /verif/seeded/$1/. $d; rm -f $d/meta.json $d/*.diff; (cd $W && timeout 300 bash $d/demo.sh >/tmp/wt.demo 2>&1); r=$?; rm -r "$d"; return $r; }
for id in "$@"; do
  git fetch -q origin; git reset -q --hard $head; git clean -qfd -e _build
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  if [ -z "$NODEMO" ]; then
  build || { echo "$id: base build failed"; continue; }
  demo $id; r0=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  build || { echo "$id: build failed"; tail -20 /tmp/wt.build; continue; }
  ctest --test-dir $W/_build -j8 --timeout 300 >/tmp/wt.ctest 2>&1; t=$?
  demo $id; r1=$?
  else git apply /verif/seeded/$id/patch.diff; fi
  VERIF_SEED=${SEED:-1} VERIF_REPO=$W timeout 900 python3 /verif/tools/check.py $p quick >/tmp/wt.check.$id 2>&1; c=$?
  echo "$id ($p): demo without $r0, with $r1; tests rc $t $(grep -c Failed /tmp/wt.ctest) ; check rc $c $(grep -m1 'what failed' /tmp/wt.check.$id | cut -c1-150) $(grep -E 'quick seed' /tmp/wt.check.$id)"
  git reset -q --hard $head
done
