#!/bin/bash
# seedtest.sh ID...: confirms planted changes (/repo clean and built) in a scratch copy of /repo (/tmp/seedw): builds, stable tests pass, demo 0 without and non-zero with the change
W=/tmp/seedw
S=$(cd "$(dirname "$0")/../seeded" && pwd)
HEADC=$(git -C /repo rev-parse HEAD)
if [ "$(cat $W/.seedhead 2>/dev/null)" != "$HEADC" ]; then
  rm -rf /tmp/seedw; git clone -q /repo $W; echo "$HEADC" > $W/.seedhead
fi
bld() { (cd $W && cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_PROJECT_cNARS_INCLUDE=/opt/vp/cmake/cnars.cmake -DCMAKE_GTEST_DISCOVER_TESTS_DISCOVERY_MODE=PRE_TEST \
    -DFETCHCONTENT_FULLY_DISCONNECTED=ON "-DCMAKE_CXX_FLAGS=-DFMT_CONSTEVAL= -Wno-attributes" -DPYTHON_EXECUTABLE=/usr/bin/python3 && ninja -C _build -j8) > /tmp/seedbuild.log 2>&1; }
tst() { (cd $W && rm -rf _build/rep && mkdir -p _build/rep && ctest --test-dir $W/_build -R '^all/' -j8 --timeout 300 --output-junit $W/_build/rep/c.xml) > /tmp/seedtest.log 2>&1; tail -4 /tmp/seedtest.log | tr '\n' ' '; }
for id in "$@"; do
  git -C $W checkout -q -- .
  D=$(mktemp -d); cp -r $S/$id/* $D; rm -f $D/*.diff $D/meta.json
  (cd /repo && bash $D/demo.sh > /tmp/seed.$id.base 2>&1); a=$?
  git -C $W apply $S/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bld || { echo "$id: build FAILED"; git -C $W checkout -q -- .; continue; }
  t=$(tst)
  (cd $W && bash $D/demo.sh > /tmp/seed.$id.bug 2>&1); b=$?
  git -C $W checkout -q -- .
  rm -rf "$D"
  echo "$id: demo base=$a bug=$b | $t"
done
