#!/usr/bin/env python3
"""muts.py FILE PROP expr...: run the check against several one-expression mutations of FILE"""
import subprocess, sys
f, prop = sys.argv[1:3]
for m in sys.argv[3:]:
    r = subprocess.run(['/verif/tools/mut.sh', f, m, prop], capture_output=True, text=True)
    print(m[:100], '=>', [l[:110] for l in r.stdout.splitlines() if 'VIOL' in l or l.startswith(prop + ':') or 'NO CH' in l][-2:])
