#!/usr/bin/env python3
"""replay.py REPLAY.json: re-run a recorded counterexample natively against /repo (gcc, ASan/UBSan)."""
import sys, json, tempfile, shutil
import check
info = json.load(open(sys.argv[1]))
o = [x for x in check.parse_obls() if x.name == info['obligation']][0]
if not info.get('witness'):
    print('no failing input was found; failed conditions:')
    for f in info['failed']: print(' ', f['condition'], f['description'], f['at'])
    sys.exit(1)
w = tempfile.mkdtemp(prefix='vf_replay_')
try:
    b = check.Builder(w, check.parse_loops())
    ok, out = check.replay(o, b, info['witness'])
    print(out); print('reproduced' if ok else 'not reproduced')
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if ok else 0)
