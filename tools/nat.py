#!/usr/bin/env python3
"""nat.py [REGEX]: build every obligation natively against /repo and run it on zero and random inputs: none may fail (a failure is a harness that misrepresents the code, or a defect)"""
import sys, os, re, random, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from concurrent.futures import ThreadPoolExecutor
rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
w = tempfile.mkdtemp(prefix='vf_nat_'); b = check.Builder(w, check.parse_loops())
def one(o):
    if o.dfcc: return o.name, 'dfcc', ''
    exe, err = check.native_build(o, b, 'zero')
    if exe is None: return o.name, 'BUILD', err[-400:]
    bad = ''
    for seed in range(4):
        r = random.Random(seed); f = os.path.join(w, '%s.%d' % (o.name, seed))
        open(f, 'w').write('\n'.join(str(0 if seed == 0 else r.choice([0, 1, 2, r.getrandbits(3), r.getrandbits(64)])) for _ in range(3000)))
        rc, so, se, t = check.run([exe, f], 30, mem_gb=0)
        if rc not in (0, 77): bad += 'seed %d rc %s %s %s\n' % (seed, rc, so[-300:], se[-600:])
    return o.name, 'FAIL' if bad else 'ok', bad
seen = set(); obls = []
for o in check.parse_obls():
    if rx.search(o.name): obls.append(o)
with ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '4'))) as ex:
    for n, s, m in ex.map(one, obls):
        if s not in ('ok', 'dfcc'): print(n, s, m[:700])
    print(len(obls), 'done')
shutil.rmtree(w)
