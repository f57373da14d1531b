#!/bin/bash
# mut.sh FILE 'sed-expression' PROP... : run checks against a mutated scratch copy of /repo's sources
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/mutXXXXXX)
mkdir -p $d/src; cp -a ${VF_SRC:-/repo}/include ${VF_SRC:-/repo}/VERSION $d/; cp -a ${VF_SRC:-/repo}/src/c $d/src/
sed -i -E "$e" $d/$f
if diff -q $d/$f ${VF_SRC:-/repo}/$f >/dev/null; then echo "NO CHANGE"; rm -rf "$d"; exit 3; fi
diff ${VF_SRC:-/repo}/$f $d/$f | head -20
for p in "$@"; do VF_REPO=$d python3 /verif/check.py $p -v --only "${ONLY:-.}" 2>&1 | grep -vE " ok " | grep -E "fail|undec|UNDEC|VIOL|^$p|FAILED" | cut -c1-200 | tail -4; done
rm -rf "$d"
