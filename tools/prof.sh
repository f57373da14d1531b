#!/bin/bash
# prof.sh FILE FN UNWIND PARTS PART [defs]: profile one harness function
W=/tmp/w; f=$1; fn=$2; u=$3; ps=$4; p=$5; shift 5
if [ ! -d $W/over -o -n "$NEWW" ]; then rm -rf $W; mkdir -p $W; (cd /verif && python3 -c "
import check; check.Builder('$W', {})"); fi
goto-cc -o $W/x.gb -I /verif/harness -I $W/over -I /repo -I /repo/include -I /repo/src/c -I $W/defs -DIOT_BUILD_COMPONENTS -DIOT_BUILD_DYNAMIC_LOAD -D_GNU_SOURCE -std=gnu11 -Dconstructor=unused -DPARTS=$ps -DPART=$p "$@" /verif/harness/$f
timeout ${TO:-100} cbmc $W/x.gb --function $fn --unwind $u --no-standard-checks --unwinding-assertions $CK --no-malloc-may-fail --drop-unused-functions --slice-formula --object-bits 14 --verbosity 10 $XF > $W/prof.out 2>&1
grep -E "Runtime (Sym|Conv|dec)|size of|VCC|^VERIF|: FAILURE" $W/prof.out | cut -c1-200
grep "Unwinding loop" $W/prof.out | awk '{print $3}' | sort | uniq -c | sort -rn | head -${H:-12}
