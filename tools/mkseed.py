#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from the list in seeds.py: applies the edit to a scratch copy of /repo,
# takes the diff, builds, runs the stable tests and the demonstration with and without it.
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; runs in a scratch directory of its own
HERE=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 9; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -O1 %s -w -I"$R/include" -I"$HERE" "$HERE/demo.cpp" "$R"/src/*.cpp -o "$T/demo" || exit 8
cd "$T" && timeout 200 ./demo
'''
want = sys.argv[1:]
for s in SEEDS:
    if want and s['id'] not in want: continue
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed.'); r = t + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    try:
        for f, old, new in s['edits']:
            p = os.path.join(r, f); x = open(p).read()
            if x.count(old) != 1: print(s['id'], 'edit text found', x.count(old), 'times'); raise SystemExit(1)
            open(p, 'w').write(x.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff', '--', 'src', 'include'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write('#include "seed_common.hpp"\n' + s['demo'].strip('\n') + '\n')
        shutil.copy(H + '/seed_common.hpp', d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        print(s['id'], s['property'], 'demo clean', a.returncode, 'patched', b.returncode, (a.stdout if a.returncode else '')[-300:], b.stdout.strip()[-120:], b.stderr[-300:] if b.returncode not in (0, 1) else '', flush=True)
    finally:
        shutil.rmtree(t)
