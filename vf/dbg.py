import sys, importlib, os, time
sys.path.insert(0, '/verif')
from vf import runner, build
def main():
    pid, lab = sys.argv[1], sys.argv[2]
    mode = sys.argv[3] if len(sys.argv) > 3 else 'proof'
    mod = importlib.import_module('specs.' + pid)
    ts = mod.targets('quick')
    import tempfile
    for i, t in enumerate(ts):
        if t.label == lab:
            tmp = tempfile.mkdtemp(prefix='vfd')
            runner.MODS = [None] * len(ts)
            runner.MODS[i] = runner.extract(mod, [t], tmp)[0]
            r = runner.run_target(('specs.' + pid, i, 'quick', mode, 3000, time.time() + 3000))
            print(r['label'], r['status'], r['reason'], 'obl', len(r['obligations']), 't', r['time'], 'paths', r.get('paths'))
            for l in r['loops']:
                print(' LOOP', l['header'], l['invariants'])
            for o in r['obligations']:
                if o[1] != 'proved' or o[3] > float(os.environ.get('SLOW', '5')):
                    print('  ', o)
            for f in r['failing'][:4]:
                print('  FAIL', f[0], f[1][:400], '\n      MODEL', f[2][:1200])
            for m in r['models'][:3]:
                print('  IN', m)
            print('  contracts', r['contracts'], r['vac'])
main()
