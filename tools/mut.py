"""mut.py FILE OLD NEW IDS...: try a change of /repo on some checks, then undo it (whitespace in OLD is loose)."""
import re, subprocess, sys
f, old, new = sys.argv[1:4]
ids = sys.argv[4:]
p = '/repo/' + f
s = open(p).read()
rx = r'\s+'.join(re.escape(w) for w in old.split())
assert re.search(rx, s), 'not found: ' + old
open(p, 'w').write(re.sub(rx, lambda m: new, s, count=1))
try:
    for i in ids:
        try:
            r = subprocess.run(['python3', '-m', 'sa', i], cwd='/verif', stdout=subprocess.PIPE, timeout=120)
            ls = r.stdout.decode().splitlines()
            print(i, {0: 'quiet', 1: 'ALARM'}.get(r.returncode, r.returncode), '' if r.returncode == 0 else '\n'.join(x[:260] for x in ls[:3]), flush=True)
        except subprocess.TimeoutExpired:
            print(i, 'TIMEOUT', flush=True)
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
