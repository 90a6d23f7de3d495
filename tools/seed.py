#!/usr/bin/env python3
"""seed.py FILE.py: materialise planted bugs into /verif/seeded/<id>/ (FILE.py defines SEEDS: id, prop, file, edits [(old,new)], demo C++, needs, breaks)
with --test: apply each to /repo, build, run the tests, the demo and the check, and undo"""
import json, os, subprocess, sys, importlib.util
V = '/verif'
R = '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mk(s):
    d = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = R + '/include/cybozu/' + f
        t = open(p).read()
        assert t.count(old) >= 1, (s['id'], 'text not found', old)
        assert t.count(old) == 1 or s.get('first'), (s['id'], 'ambiguous', old)
        open(p, 'w').write(t.replace(old, new, 1))
    diff = sh('git -C %s diff' % R).stdout
    sh('git -C %s checkout -- .' % R)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds and runs demo.cpp against /repo's headers (cwd)
d="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s-I include "$d/demo.cpp" -o "$t/demo" -lpthread %s || exit 2
"$t/demo"
''' % (s.get('cflags', '') + (' ' if s.get('cflags') else ''), s.get('libs', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return d
def test(i, prop, full=True):
    d = '%s/seeded/%s' % (V, i)
    out = [i]
    r0 = sh('bash %s/demo.sh' % d, cwd=R).returncode
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    try:
        r1 = sh('bash %s/demo.sh' % d, cwd=R).returncode
        out += ['demo clean=%d patched=%d' % (r0, r1)]
        if full:
            b = 0
            sh('bash /opt/vp/test.sh /tmp/seedout.json')
            j = json.load(open('/tmp/seedout.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            names = base['stable']
            miss = set(names) - set(j.get('passed', []))
            out += ['missing=%s' % sorted(miss)[:4]]
        if '--nocheck' in sys.argv:
            print(*out, flush=True); return
        c = sh('%s/check %s quick' % (V, prop))
        out += ['check=%d' % c.returncode, [l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'UNDECIDED' in l or 'counterexample' in l or 'discharged' in l][:4]]
    finally:
        sh('git -C %s checkout -- .' % R)
    print(*out, flush=True)
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    sp = importlib.util.spec_from_file_location('seeds', a[0]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.SEEDS:
        if len(a) > 1 and s['id'] not in a[1:]:
            continue
        if '--nomake' not in sys.argv:
            mk(s)
        if '--test' in sys.argv or '--demo' in sys.argv:
            test(s['id'], s['prop'], '--demo' not in sys.argv)
