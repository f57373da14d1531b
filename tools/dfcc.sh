#!/bin/bash
# dfcc.sh PROP OBL: show why the instrumented build fails
cd /verif; python3 - "$2" <<'P'
import check,sys,shlex,tempfile
o=[x for x in check.parse_obls() if x.name==sys.argv[1]][0]
b=check.Builder(tempfile.mkdtemp(),check.parse_loops())
orig=check.run
def run(cmd,*a,**k):
    r=orig(cmd,*a,**k)
    if r[0]!=0: print((r[1]+r[2])[-3000:])
    return r
check.run=run
print(b.gb(o))
P
