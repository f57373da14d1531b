#!/usr/bin/env python3
"""seed.py FILE.py: create seeded bugs. FILE.py defines B = [(id, prop, file, old, new, needs, breaks, demo_c)].
Each is verified in /repo: demo passes unchanged, patch builds, stable tests pass, demo fails; then checked with the property's check."""
import subprocess, sys, os, json, runpy, shutil
R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO='''#!/bin/bash
# run with cwd /repo after the build: 0 on the unchanged tree, 1 when the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
gcc -std=gnu11 -D_GNU_SOURCE -DIOT_BUILD_COMPONENTS -g -w -I include -I src/c %s -o $t/demo "$d/demo.c" %s || exit 2
(cd $t && timeout 100 ./demo)
r=$?
rm -rf "$t"
exit $r
'''
def main():
    ns = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json')); 
    for b in ns['B']:
        id, prop, f, edits, needs, breaks, demo = b[:7]
        opt = b[7] if len(b) > 7 else {}
        if only and id not in only: continue
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        D=f'/verif/seeded/{id}'; os.makedirs(D, exist_ok=True)
        if demo is not None: open(D+'/demo.c','w').write(demo)
        lib = opt.get('lib', '_build/c/libiot.a -lyaml -lpthread -ldl -lm -lrt')
        open(D+'/demo.sh','w').write(DEMO % (opt.get('cflags',''), lib)); os.chmod(D+'/demo.sh',0o755)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(D+'/meta.json','w'), indent=1)
        if isinstance(edits, tuple): edits=[edits]
        r0 = sh(f'bash {D}/demo.sh', cwd=R)
        for e in edits:
            ff, old, new = (f,)+e if len(e)==2 else e
            s=open(f'{R}/{ff}').read(); assert s.count(old)==1, (id, s.count(old), old)
            open(f'{R}/{ff}','w').write(s.replace(old,new))
        open(D+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
        try:
            t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            j = json.load(open('/tmp/seedtest.json'))
            miss = [x for x in base['stable'] if x not in j['passed']]
            r1 = sh(f'bash {D}/demo.sh', cwd=R)
            cs=[]
            if '--nocheck' not in sys.argv:
                for p in prop.split(','):
                    c = sh(f'python3 check.py {p} quick', cwd='/verif'); v=[l for l in (c.stdout+c.stderr).splitlines() if 'FAILED' in l or 'VIOL' in l]
                    cs.append((p, c.returncode, [x[:160] for x in v[:3]]))
            print(id, 'demo', r0.returncode, r1.returncode, 'tests lost', miss[:5], 'check', cs, flush=True)
            if r0.returncode: print(r0.stdout[-300:], r0.stderr[-600:])
        finally:
            sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
main()
