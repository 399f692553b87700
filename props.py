#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'irvc'), os.path.join(HERE, 'harness')]
L = []
def P(id, title, statement, over, qtext, why, files, mech, state=None, note='', na=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    L.append((d, note, na))
exec(open(os.path.join(HERE, 'props_list.py')).read())
TECH = ('contract-based deductive verification: pre/postconditions and inductive loop invariants on the functions of /repo, compiled to LLVM IR and '
        'translated mechanically on every run, every obligation discharged by CBMC with loops cut at their invariants and unwinding assertions on (no bound)')
def design(PROPS):
    import re
    o = []
    for d, note, why in L:
        o.append('### %s %s\n' % (d['id'], d['title']))
        if why or d['id'] not in PROPS: o.append('Not claimed: %s\n' % (why or 'no check yet')); continue
        o.append('Under contract: ' + '; '.join('%s (`%s`)' % (m['name'], m['where']) for m in d['anchors']['mechanism']) + '.  ' + note + '\n')
        for f in sorted(set(H.file for H in PROPS[d['id']]['harnesses'])):
            es = [H.entry for H in PROPS[d['id']]['harnesses'] if H.file == f]
            src = open(os.path.join(HERE, 'harness', f)).read()
            n = len(set(re.findall(r'vc_assert\([^"]*"(%s\.[^":]*)' % d['id'], src)))
            h = src.split('\n')[0].lstrip('/ ')
            o.append('- `harness/%s` (%s): %s - %d named obligations' % (f, ', '.join(es), h, n))
        b = [H for H in PROPS[d['id']]['harnesses'] if H.bounded]
        if b: o.append('- bounded, not counted as proved: ' + ', '.join(H.entry for H in b))
        o.append('')
    fx = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if l.strip()]
    sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
    res = json.load(open(os.path.join(HERE, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'seed_results.json')) else {}
    for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
        sd.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], res.get(s, 'not run')))
    t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
    t = t.replace('@@PROPS@@', '## Properties\n\n' + '\n'.join(o)).replace('@@FIXED@@', '\n'.join('- ' + l for l in fx)).replace('@@SEEDS@@', '\n'.join(sd))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
def main():
    from registry import PROPS
    checks = []; na = []
    for d, note, why in L:
        id = d['id']
        if why or id not in PROPS: na.append(dict(property=id, reason=why or 'no check yet')); continue
        checks.append(dict(property=id, quick_cmd='python3 check.py %s' % id, thorough_cmd='python3 check.py %s --tier thorough' % id, evidence_file='evidence/%s.json' % id,
            technique=TECH, level=PROPS[id].get('level', 'proof'), level_note=note))
    m = dict(version=1, setup_cmd='python3 irvc/selftest.py', checks=checks, not_applicable=na,
        notes='Verifier: /verif/irvc (LLVM IR of the real source -> C -> CBMC). Harnesses: /verif/harness. See DESIGN.md.')
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write(''.join(json.dumps(d) + '\n' for d, _, _ in L))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    unl = [p for p in PROPS if p not in [d['id'] for d, _, _ in L]]
    if unl: print('registry properties without an entry:', unl)
    import jsonschema
    for d, _, _ in L: jsonschema.validate(d, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    design(PROPS)
    print(len(checks), 'claimed', len(na), 'not claimed')
main()
