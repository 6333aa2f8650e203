#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep both in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts executed symbolically over the LLVM IR of the current source, every obligation discharged by a normal-form prover / z3'
PROPS = []; NA = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), level='proof', note='', na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    if na: NA.append(dict(property=id, reason=na))
    else: CHECKS.append(dict(property=id, quick_cmd='python3-vt engine/check.py ' + id, thorough_cmd='VERIF_TIER=thorough python3-vt engine/check.py ' + id, technique=TECH, level=level, level_note=note))
CHECKS = []
exec(open(os.path.join(V, 'tools', 'table.py')).read())
REAL = 'doubles are treated as mathematical reals (the native replay of the same contracts uses real doubles with a tolerance)'
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS: 
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3-vt engine/selftest.py', checks=CHECKS, not_applicable=NA, notes=open(os.path.join(V, 'tools', 'notes.txt')).read().strip())
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    for s, d in (('PROPERTIES', PROPS), ('MANIFEST', [m])):
        try:
            import jsonschema
            sc = json.load(open('/root/.vp/%s.schema.json' % s))
            for x in d: jsonschema.validate(x, sc)
        except (ImportError, FileNotFoundError): pass
    print(len(PROPS), 'properties', len(CHECKS), 'checks', len(NA), 'not applicable')
main()
