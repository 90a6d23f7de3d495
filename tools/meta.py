#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA
TECH = 'contract-based deductive verification: weakest-precondition style VCs over the LLVM IR extracted from /repo on every run, discharged by z3/cvc5'
NOTE = ('Every obligation generated from the current source (postconditions, loop invariants on entry and preservation, bounds of every memory access, lemmas) is discharged for all inputs. '
        'Trusted: clang front end and the listed LLVM passes, the VC generator in vf/, z3 and cvc5; assumed contracts of runtime functions are listed in the evidence. '
        'A failed obligation is confirmed by replaying the solver model, a bounded model or a searched input on the real code; an obligation that neither closes nor is refuted is reported as UNDECIDED and the function counted bounded, not proved.')
def main():
    seen = set()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert p['id'] not in seen
            seen.add(p['id'])
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['id'] in NA:
            na.append(dict(property=p['id'], reason=NA[p['id']]))
            continue
        if not os.path.exists(os.path.join(HERE, 'specs', p['id'] + '.py')):
            na.append(dict(property=p['id'], reason='contracts not written yet'))
            continue
        checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='proof', level_note=NOTE + (' ' + p['note'] if p.get('note') else '')))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes='see DESIGN.md')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design()


def design():
    how = dict(l.split(': ', 1) for l in open(os.path.join(HERE, 'tools', 'design.txt')).read().strip().split('\n'))
    o = []
    for p in PROPS:
        if p['id'] in NA:
            continue
        o.append('### %s %s\n\n%s\n\nHow it is decided: %s\n\nReach: %s. Why the tests cannot settle it: %s.\n' % (
            p['id'], p['title'], p['statement'], how[p['id']], p['quantifier']['text'], p['why_tests_cant']))
    d = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read().replace('PROPSECTION', '\n'.join(o).strip())
    kf = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if not l.startswith('#') and l.strip()]
    d = d.replace('SEEFINDINGS', '\n'.join('* ' + l for l in kf))
    t = ['| planted change | property | needs | breaks |', '|---|---|---|---|']
    sd = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        t.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks']))
    d = d.replace('SEEDTABLE', 'Each is caught by the quick check of the property it names, with a concrete failing input replayed on the real code, unless noted.\n\n' + '\n'.join(t))
    d = d.replace('NATABLE', '\n'.join('* **%s %s** - %s' % (p['id'], p['title'], NA[p['id']]) for p in PROPS if p['id'] in NA))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)


main()
