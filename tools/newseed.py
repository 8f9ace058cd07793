#!/usr/bin/env python3
"""newseed.py NAME PROPERTY CRATE[,CRATE] NEEDS WHAT  < json {edits:[[file,old,new]...], main:"rust main"}
Creates seeded/NAME: patch.diff, demo.sh, main.rs, meta.json; verifies it in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, t=300):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors='replace')
DEMO = '''#!/bin/bash
# Runs a small program against the crates of the current directory; exit 0 when the property holds.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d)
trap 'find "$D" -delete' EXIT
mkdir -p $D/src
cp $H/main.rs $D/src/main.rs
sed -i "s|@REPO@|$R|g" $D/src/main.rs
cat > $D/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
%DEPS%
[workspace]
T
cp $R/Cargo.lock $D/Cargo.lock 2>/dev/null
cd $D
timeout 250 env CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$D/target RUSTFLAGS=-Awarnings cargo run -q --offline
'''
def main():
    name, prop, deps, needs, what = sys.argv[1:6]
    spec = json.load(sys.stdin) if not sys.stdin.isatty() else {}
    S = '%s/seeded/%s' % (V, name)
    os.makedirs(S, exist_ok=True)
    W = tempfile.mkdtemp(prefix='seed')
    try:
        sh('cp -a /repo %s/repo' % W)
        R = W + '/repo'
        for f, old, new in spec['edits']:
            p = R + '/' + f
            s = open(p).read()
            assert s.count(old) >= 1, 'not found: ' + old
            open(p, 'w').write(s.replace(old, new, 1))
        rc, d = sh('git diff', R)
        open(S + '/patch.diff', 'w').write(d)
        open(S + '/main.rs', 'w').write(spec['main'])
        dl = []
        for x in deps.split(','):
            if '=' in x: dl.append(x)
            else: dl.append('%s = { path = "$R%s" }' % (x, '' if x == 'torrent-rs' else '/' + x))
        open(S + '/demo.sh', 'w').write(DEMO.replace('%DEPS%', '\n'.join(dl)))
        os.chmod(S + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(S + '/meta.json', 'w'), indent=1)
        sh("sed 's#/repo#%s#g' /opt/vp/env.sh > %s/env.sh; mkdir %s/out" % (R, W, W))
        rc, o = sh("bash -c '. %s/env.sh; cargo build --workspace --offline -q 2>&1 | grep -E \\^error -A5; run_tests %s/out 2>&1 | grep -E \"FAIL|Summary|error\"'" % (W, W))
        print('tests with patch:', o.strip()[-500:])
        tests = 'FAIL' not in o and 'error' not in o
        rc, o = sh(S + '/demo.sh', R)
        print('demo with patch rc', rc, o[-200:].strip())
        sh('git checkout -q -- .', R)
        rc2, o = sh(S + '/demo.sh', R)
        print('demo clean rc', rc2, o[-300:].strip())
        print('GOOD' if tests and rc != 0 and rc2 == 0 else 'BAD')
    finally:
        sh('find %s -delete' % W)
main()
