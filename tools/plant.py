#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in tools/plants.py (old/new text in /repo's sources and a demonstration)."""
import os, sys, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plants import PLANTS
PRE = open(os.path.join(V, 'tools', 'demo_pre.h')).read()
SH = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not.  Run with cwd /repo.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
C=/usr/lib/x86_64-linux-gnu/android
clang++-18 -std=c++17 -g1 -w %s -I"$PWD" -I"$d" -isystem /usr/include/android "$d/demo.cc" %s "$C/libcrypto.so" -Wl,-rpath,$C $(pkg-config --libs absl_strings absl_time absl_flat_hash_set absl_flat_hash_map protobuf) -o "$t/demo" || exit 4
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
'''
only = sys.argv[1:]
for p in PLANTS:
    if only and p['id'] not in only: continue
    d = os.path.join(V, 'seeded', p['id'])
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix='plant')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (wt, wt), shell=True, check=True)
    for f, old, new in p['edits']:
        q = os.path.join(wt, f)
        s = open(q).read()
        assert s.count(old) == 1, (p['id'], f, s.count(old), old)
        open(q, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.rmtree(wt)
    open(os.path.join(d, 'demo.cc'), 'w').write('#include "demo_pre.h"\n' + p['demo'])
    open(os.path.join(d, 'demo_pre.h'), 'w').write(PRE)
    san = p.get('san', '')
    open(os.path.join(d, 'demo.sh'), 'w').write(SH % (san, '' if p.get('lru') else 'src/*.cc'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(p['id'])
