#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ps = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in ps:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} thorough',
            technique='symbolic execution of the compiled LLVM IR + z3' + (' (exact reals)' if all(e['name'].startswith('hr_') for e in c['entries']) else ''),
            level='model_checking', level_note=c.get('note', 'Every path within the stated bounds is executed symbolically; each assertion is discharged by z3 for all inputs of the path.') + ' Trusts: rustc front end, the IR executor (validated per run by replaying path samples natively), z3.'))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
hooks = dict(guard='cfg(verif_hooks)', enable='RUSTFLAGS="--cfg verif_hooks" (set by build.sh)', source_commits=[l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if l.split(' ', 1)[1].startswith('hook:')])
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, hooks=hooks,
    notes='All machinery is in engine/ (IR symbolic executor), harness/ (property harnesses), native/ (replay runtime), check.py (driver). See DESIGN.md.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
