import json,sys
# addprop.py: append/replace property lines from a python literal list on stdin
import ast
new = ast.literal_eval(sys.stdin.read())
rows = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
for n in new:
    pid, title, st, q, why, files, mech, obs = n
    r = dict(id=pid, title=title, statement=st, quantifier=dict(over=['inputs'], text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])], observe_at=obs, hook_needed=None))
    rows = [x for x in rows if x['id'] != pid] + [r]
rows.sort(key=lambda r: r['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(r)+'\n' for r in rows))
