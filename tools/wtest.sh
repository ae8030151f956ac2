#!/bin/bash
# Development helper: build a scratch copy DIR of the repository and compare its unit tests with the baseline.
# usage: wtest.sh DIR   -> prints missing (baseline tests that no longer pass)
. /opt/vp/env.sh
D=$(realpath "$1")
cmake -S $D -B $D/_wb -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-D_GLIBCXX_USE_TBB_PAR_BACKEND=0 \
 -DCPM_DISABLE=ON -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/openemsh.cmake -DCMAKE_PROJECT_openemsh_INCLUDE=/opt/vp/cmake/catch2.cmake >$D/_wb.log 2>&1
ninja -C $D/_wb all unittest >>$D/_wb.log 2>&1 || { echo BUILD-FAILED; tail -30 $D/_wb.log; exit 2; }
rm -rf $D/_wbrep; mkdir -p $D/_wbrep; cd $D/_wbrep
python3 /opt/vp/run_catch.py $D/_wb/test/unit/openemsh_unittest $D/_wbrep || exit 2
python3 /opt/vp/results.py $D/_wb.json "junit:$D/_wbrep/*.xml" "lines:$D/_wbrep/extra.txt"
python3 - $D/_wb.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
bp=set(b.get('passed') or b.get('stable') or b['passed']); m=bp-set(r['passed'])
print('baseline',len(bp),'passed',len(r['passed']),'missing',len(m))
for x in sorted(m)[:20]: print('  MISSING',x)
sys.exit(1 if m else 0)
P
