#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json.  The table below is the source; bounds and assumptions come from the harnesses.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
NA = []
exec(open(os.path.join(V, 'tools', 'properties.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
checks = []
na_ids = {n for n, _ in NA}
for p in P:
    h = os.path.join(V, 'harness', p['id'] + '.cpp')
    if p['id'] in na_ids: continue
    if not os.path.exists(h): print('no harness for', p['id']); continue
    t = open(h).read()
    g = lambda k: ' '.join(x.strip() for x in re.findall(r'^//@ ' + k + r' (.*)$', t, re.M))
    note = 'Every path of the real code within the bounds is executed symbolically and each assertion is decided by Z3 for all values; a counterexample counts only after it is replayed on the natively compiled code. Bounds: %s. Outside: %s.' % (g('bounds'), g('outside') or 'nothing else')
    if g('assume'): note += ' Assumes: ' + g('assume') + '.'
    note += ' Trusts the LLVM front end, the executor (checked on each run by replaying sampled paths natively), Z3 and the library models in support/.'
    checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py %s quick' % p['id'], thorough_cmd='python3 tools/check.py %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique='bounded symbolic execution of the LLVM IR of the real code, decided by Z3', level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3 tools/check.py --build', checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in NA],
    notes='No hooks are needed in /repo; the only commits there are fixes. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(P), 'properties', len(checks), 'checks', len(NA), 'not applicable')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
