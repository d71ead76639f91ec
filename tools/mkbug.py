#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE <<< python-ish spec: writes seeded/ID from an old/new replacement and a demo.rs body.
stdin: JSON-free format with sections  %%old %%new (repeatable, %%file to switch) %%demo %%needs %%breaks"""
import sys, os, json, subprocess, re
bid, prop, f = sys.argv[1:4]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sec = re.split(r'^%%(\w+)[ \t]*(.*)\n', sys.stdin.read(), flags=re.M)
W = '/tmp/h/bugrepo'
subprocess.run(['rm', '-rf', W]); subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
meta = dict(property=prop); old = None; demo = ''; ext = ''
for i in range(1, len(sec), 3):
    k, arg, body = sec[i], sec[i+1].strip(), sec[i+2]
    if k == 'file': f = arg
    elif k == 'old': old = body
    elif k == 'new':
        p = f'{W}/{f}'; s = open(p).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(p, 'w').write(s.replace(old, body))
    elif k == 'demo': demo = body; ext = arg
    elif k == 'needs': meta['needs'] = body.strip()
    elif k == 'breaks': meta['what_it_breaks'] = body.strip()
d = f'{V}/seeded/{bid}'; os.makedirs(d, exist_ok=True)
open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True, check=True).stdout)
open(f'{d}/meta.json', 'w').write(json.dumps(meta, indent=1) + '\n')
open(f'{d}/demo.rs', 'w').write(demo)
open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds on the built tree
set -e
D=$(cd "$(dirname "$0")" && pwd)
L=$PWD/target/debug/deps
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
lib() { ls -t $L/lib$1-*.rlib | head -1; }
X=""
for c in siderust %s; do X="$X --extern $c=$(lib $c)"; done
rustc +stable --edition 2021 -A warnings -C debug-assertions=on -L dependency=$L $X "$D/demo.rs" -o "$T/demo" || exit 99
timeout 200 "$T/demo"
''' % ext)
subprocess.run(['rm', '-rf', W])
