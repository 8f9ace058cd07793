#!/usr/bin/env python3
"""Applies each seeded change to /repo in turn, runs its property's check and undoes the change."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for n in names:
    S = '%s/seeded/%s' % (V, n)
    prop = json.load(open(S + '/meta.json'))['property']
    a = subprocess.run(['git', '-C', '/repo', 'apply', S + '/patch.diff'])
    try:
        r = subprocess.run([V + '/check', prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        o = r.stdout.decode().splitlines()
        print(n, prop, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, o[0].strip()[:160] if o else '', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
