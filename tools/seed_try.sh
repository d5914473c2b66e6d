#!/bin/bash
# seed_try.sh ID [SLOT]  -- confirm a planted change: applies, builds, stable tests pass,
# demo passes on the clean tree and fails with the patch.  Scratch copy in /tmp/sw<SLOT>.
ID=$1; SLOT=${2:-1}; SW=/tmp/sw$SLOT; D=/verif/seeded/$ID
. /opt/vp/env.sh
PETSC=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
if [ ! -d $SW ]; then git -C /repo worktree prune; git clone -q /repo $SW; fi
git -C $SW fetch -q origin && git -C $SW checkout -q --force origin/HEAD 2>/dev/null || git -C $SW checkout -q --force $(git -C /repo rev-parse HEAD)
build() {
 ( cmake -S $SW -B $SW/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo \
  "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g -DDEBUG=1 -Wno-error -isystem /usr/include/scotch" \
  -DEIGEN3_INCLUDE_DIR=/usr/include/eigen3 -DPETSC_DIR=$PETSC -DPETSC_ARCH= -DSCOTCH_DIR=/usr -DNOTAGS=1 -Wno-dev && ninja -C $SW/_build ) >$SW.build.log 2>&1
}
build || { echo "$ID clean build failed"; exit 2; }
DT=$(mktemp -d); cp -r $D/. $DT/; rm -f $DT/patch.diff $DT/meta.json
( cd $SW && timeout 300 bash $DT/demo.sh ) >$SW.demo0.log 2>&1; r0=$?
git -C $SW apply $D/patch.diff || { echo "$ID patch does not apply"; exit 2; }
build || { echo "$ID patched build failed"; git -C $SW checkout -q -- .; exit 2; }
( cd $SW && timeout 300 bash $DT/demo.sh ) >$SW.demo1.log 2>&1; r1=$?
find $SW/_build/tests $SW/_build/testcases \( -name '*.log' -o -name '*.pmat' \) -delete
ctest --test-dir $SW/_build -j4 --timeout 200 --output-junit $SW/j.xml >$SW.test.log 2>&1
python3 /opt/vp/results.py $SW.out.json junit:$SW/j.xml >/dev/null
T=$(python3 -c "
import json
o=json.load(open('$SW.out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print([x for x in b['stable'] if x not in o['passed']])")
git -C $SW checkout -q -- .
ok=BAD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$T" = "[]" ] && ok=GOOD
echo "$ID demo clean=$r0 patched=$r1 stable-failing=$T $ok"
rm -r "$DT"
