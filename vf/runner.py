"""runs the check of one property: extract, verify, decide, replay, evidence"""
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from . import build, engine
from .engine import Engine, Undecided, BVV, num, ABase

VERIF = build.VERIF
NCPU = min(8, os.cpu_count() or 1)


class Target:
    """one function under contract"""

    def __init__(s, label, fname, mk, tu=None, level='proof', note='', defs=None, hfn=None, may_throw=True, noinline=None, weight=1, bounded=None):
        s.label, s.fname, s.mk, s.tu, s.level, s.note = label, fname, mk, tu, level, note
        s.defs = defs
        s.hfn = hfn or label
        s.noinline = noinline
        s.weight = weight
        s.bounded = bounded


def concretise(inputs, model):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, tuple):
            _, arr, n = v
            ln = model.eval(n, model_completion=True).as_long() if not isinstance(n, int) else n
            if ln > 65536:
                return None
            esz = arr.esz
            b = bytearray()
            for i in range(ln):
                e = arr.rd(BVV(i, 64), None)
                x = model.eval(e, model_completion=True).as_long()
                b += x.to_bytes(esz, 'little')
            out[k] = 'x:' + b.hex()
        elif isinstance(v, (int, str)):
            out[k] = str(v)
        elif z3.is_bool(v):
            out[k] = '1' if z3.is_true(model.eval(v, model_completion=True)) else '0'
        else:
            out[k] = str(model.eval(v, model_completion=True).as_long())
    return out


def small_model(pc, goal, inputs, to=8000, small=()):
    """ask again for a counterexample whose byte inputs are short, so that it can be replayed"""
    lens = [v[2] for v in inputs.values() if isinstance(v, tuple) and not isinstance(v[2], int)]
    lens += [inputs[k] for k in small if k in inputs]
    if not lens:
        return None
    for bound in (3, 8, 24, 80, 300, 1100, 5000):
        sol = z3.Solver()
        sol.set('timeout', to)
        for f in pc:
            sol.add(f)
        sol.add(z3.Not(goal))
        for l in lens:
            sol.add(z3.ULE(l, BVV(bound, l.size())))
        if sol.check() == z3.sat:
            return sol.model()
    return None


def run_target(args):
    modname, idx, tier, mode, budget, end = args
    t0 = time.time()
    budget = min(budget, end - t0)
    mod = importlib.import_module(modname)
    tg = mod.targets(tier)[idx]
    res = dict(label=tg.label, fname=tg.fname, status='undecided', obligations=[], reason='', loops=[], contracts=[],
               models=[], time=0.0, queries=0, level=tg.level, note=tg.note, mode=mode, unrolled=0, vac=[], failing=[])
    try:
        if budget < 1:
            raise Undecided('time budget')
        m = MODS[idx]
        if isinstance(m, str):
            raise Undecided('extraction: ' + m)
        spec = tg.mk()
        if mode == 'bounded':
            spec.bounded = True
            spec.loop_mode = lambda eng, st, f, h: 'unroll'
            spec.unroll_max = getattr(spec, 'bounded_unroll', 10)
            if tg.bounded:
                tg.bounded(spec)
        eng = Engine(m, spec)
        eng.bound_hit = False
        eng.deadline = t0 + budget
        eng.verify(tg.fname, spec.setup, spec.post)
        if hasattr(spec, 'lemmas'):
            for nm, pc, goal in spec.lemmas(eng):
                eng.obls.append(engine.Ob('lemma:' + nm, pc, goal, tg.fname))
        res['paths'] = eng.nret
        res['loops'] = eng.loops_cut
        res['unrolled'] = len(eng.loops_unrolled)
        res['contracts'] = sorted(eng.contracts_used)
        res['functions'] = sorted(eng.m.dem.get(f, f) for f in eng.funcs_used)
        if eng.nret == 0:
            raise Undecided('vacuous: no feasible return path')
        nposts = 0
        # vacuity: every precondition / loop invariant must be satisfiable
        for nm, pc in eng.vacuity:
            r = eng.check(pc, to=20000)
            res['vac'].append((nm, r))
            if r == 'unsat':
                raise Undecided('vacuous: %s is contradictory' % nm)
        bad = False
        unk = False
        seen = {}
        for ob in eng.obls:
            if time.time() - t0 > budget:
                raise Undecided('time budget')
            if getattr(ob, 'kind', '') == 'inv':
                res['obligations'].append((ob.name, 'proved', 'z3', 0))
                continue
            key = (tuple(f.get_id() for f in ob.pc), ob.goal.get_id())
            if key in seen:
                r = seen[key]
            else:
                r = eng.decide(ob.pc, ob.goal, getattr(spec, 'to', 30000))
                seen[key] = r
            res['obligations'].append((ob.name, r[0], r[2], round(r[3], 3)))
            if r[0] == 'refuted':
                bad = True
                inputs = getattr(spec, 'inputs', None)
                if inputs and len(res['models']) < 6:
                    c = None
                    try:
                        mm = small_model(ob.pc, ob.goal, inputs, small=getattr(mod, 'SMALL', ('len', 'n', 'size')))
                        c = concretise(inputs, mm if mm is not None else r[1])
                    except Exception as e:
                        c = None
                    if c is not None:
                        c['fn'] = tg.hfn
                        res['models'].append((ob.name, c))
                if len(res['failing']) < 20:
                    res['failing'].append((ob.name, str(ob.goal)[:600], str(r[1])[:1500]))
                if len([x for x in res['obligations'] if x[1] == 'refuted']) > 12:
                    break
            elif r[0] == 'unknown':
                unk = True
                res['failing'].append((ob.name, 'solver gave up', ''))
                if len([x for x in res['obligations'] if x[1] == 'unknown']) > 3:
                    break
        if not res['obligations']:
            raise Undecided('no obligations')
        if not any(o[0].startswith('post:') for o in res['obligations']):
            raise Undecided('no postcondition obligations')
        res['status'] = 'refuted' if bad else ('undecided' if unk else 'proved')
        if unk and not bad:
            res['reason'] = 'solver gave up on an obligation'
        res['queries'] = eng.stats.queries
        res['bound_hit'] = eng.bound_hit
    except Undecided as e:
        res['reason'] = str(e)
    except RecursionError:
        res['reason'] = 'recursion limit'
    except z3.Z3Exception as e:
        res['reason'] = 'z3: %s' % e
    except Exception as e:
        res['reason'] = 'internal: ' + traceback.format_exc()[-1500:]
    res['time'] = round(time.time() - t0, 2)
    return res


MODS = []


def extract(mod, targets, tmp):
    """one extraction per translation unit and option set"""
    groups = {}
    for i, t in enumerate(targets):
        groups.setdefault((t.tu or mod.TU, tuple(t.defs or ()), t.noinline.pattern if t.noinline else ''), []).append(i)
    out = [None] * len(targets)
    for (tu, defs, nl), idxs in groups.items():
        try:
            m = build.compile_ir(os.path.join(VERIF, 'tu', tu), sorted({targets[i].fname for i in idxs}), defs=defs, tmp=tmp,
                                 noinline=re.compile(nl) if nl else None, extra_flags=getattr(mod, 'CFLAGS', ()))
            names = set(m.funcs) | m.decls
            m.dem = engine.demangle(names)
        except build.BuildError as e:
            m = 'compile: ' + str(e)
        except (SyntaxError, KeyError, IndexError, NotImplementedError) as e:
            m = 'parse: ' + repr(e)
        for i in idxs:
            out[i] = m
    return out


def build_harness(mod, tmp, san=True):
    src = os.path.join(VERIF, 'harness', mod.HARNESS)
    exe = os.path.join(tmp, 'harness')
    cmd = ['g++', '-std=c++17', '-O1', '-g', '-w', '-march=x86-64-v2', '-I' + build.REPO + '/include', '-I' + os.path.join(VERIF, 'harness'),
           src, '-o', exe] + (['-fsanitize=address'] if san else []) + list(getattr(mod, 'HFLAGS', ['-lpthread']))
    r = subprocess.run(cmd + ['-DVF_INTERNAL'], capture_output=True, text=True)
    if r.returncode:
        # internal helpers may have moved; the public entry points are enough
        r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[-3000:])
    return exe


HENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')


def replay(exe, case, tmp):
    p = os.path.join(tmp, 'case.txt')
    with open(p, 'w') as f:
        f.write(''.join('%s=%s\n' % kv for kv in case.items()))
    try:
        r = subprocess.run([exe, 'replay', p], capture_output=True, text=True, timeout=120, env=HENV, errors='replace')
    except subprocess.TimeoutExpired:
        return True, 'timeout'
    if r.returncode == 0:
        return False, r.stdout.strip()
    return True, (r.stdout + r.stderr)[:2500]


def _search(a):
    exe, seed, secs, casefile, fns = a
    try:
        r = subprocess.run([exe, 'search', str(seed), str(secs), casefile] + fns, capture_output=True, text=True, timeout=secs + 120, env=HENV, errors='replace')
        rc, out = r.returncode, (r.stdout + r.stderr)
    except subprocess.TimeoutExpired:
        rc, out = 1, 'timeout'
    return rc, out[:2500], casefile


def search(exe, fns, secs, seed, tmp):
    """look for an input that breaks the executable contract"""
    jobs = [(exe, seed * 1000 + i, secs, os.path.join(tmp, 'sc%d' % i), fns) for i in range(NCPU)]
    cases = 0
    hit = None
    with mp.pool.ThreadPool(NCPU) as pool:
        for rc, out, cf in pool.imap_unordered(_search, jobs):
            mm = re.search(r'cases=(\d+)', out)
            if mm:
                cases += int(mm.group(1))
            if rc != 0 and hit is None:
                txt = open(cf, 'rb').read().split(b'\0')[0].decode('latin1') if os.path.exists(cf) else ''
                hit = (txt, out)
    return hit, cases


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    modname = 'specs.' + pid
    mod = importlib.import_module(modname)
    targets = mod.targets(tier)
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    rc = 2
    try:
        rc = _main(pid, tier, seed, mod, modname, targets, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def pool_run(jobs, stop=None):
    """results in the order of jobs; stop(result) true ends the run early (the rest stays None)"""
    ctx = mp.get_context('fork')
    out = [None] * len(jobs)
    with ctx.Pool(min(NCPU, max(1, len(jobs))), maxtasksperchild=4) as pool:
        for k, r in pool.imap_unordered(_run_indexed, list(enumerate(jobs)), chunksize=1):
            out[k] = r
            if stop is not None and stop(jobs[k][1], r):
                pool.terminate()
                break
    return out


def _run_indexed(a):
    return a[0], run_target(a[1])


def _main(pid, tier, seed, mod, modname, targets, tmp, t0):
    global MODS
    budget = getattr(mod, 'BUDGET', 240) if tier == 'quick' else getattr(mod, 'BUDGET', 240) * 4
    MODS = extract(mod, targets, tmp)
    if all(isinstance(m, str) for m in MODS):
        print('extraction failed: ' + MODS[0][:600])
    order = sorted(range(len(targets)), key=lambda i: -targets[i].weight)
    verbose = os.environ.get('VF_V')
    exe = None
    exe_err = None
    violation = None

    def harness():
        nonlocal exe, exe_err
        if exe is None and exe_err is None:
            try:
                exe = build_harness(mod, tmp)
            except build.BuildError as e:
                exe_err = str(e)
                print('harness does not build: %s' % e)
        return exe

    def replays(i, r):
        """replay the verifier's counterexamples on the real code"""
        nonlocal violation
        if violation is None and r['models'] and harness():
            for nm, c in r['models']:
                failed, o = replay(exe, c, tmp)
                if verbose:
                    print('  replay', nm, c, failed, o[:200])
                if failed:
                    violation = (i, nm, c, o)
                    break
        return violation is not None
    out = pool_run([(modname, i, tier, 'proof' if targets[i].level == 'proof' else 'bounded', budget, t0 + (480 if tier == 'quick' else 7200)) for i in order], replays)
    res = [None] * len(targets)
    for i, r in zip(order, out):
        res[i] = r or dict(label=targets[i].label, fname=targets[i].fname, status='not run', obligations=[], reason='stopped after a violation', loops=[], contracts=[],
                           models=[], time=0.0, queries=0, level=targets[i].level, note='', mode='', unrolled=0, vac=[], failing=[])
    if verbose:
        for r in res:
            print(r['label'], r['status'], r['reason'][:300], 'obl=%d' % len(r['obligations']), 't=%.1f' % r['time'], 'loops=%d' % len(r['loops']))
            for f in r['failing'][:6]:
                print('    FAILED', f[0], f[1][:300] if verbose > '1' else '')
            if verbose > '1':
                for l in r['loops']:
                    print('    LOOP', l)
                for m in r['models']:
                    print('    MODEL', m)
                print('    vac', r['vac'])
    bad = [i for i, r in enumerate(res) if r['status'] != 'proved']
    downgraded = []
    searched = 0
    known = load_known(pid)
    bres = {}
    if bad and not violation:
        harness()
        # bounded verification of the same functions, loops unrolled
        jobs = [(modname, i, tier, 'bounded', min(budget, 150), time.time() + 180) for i in bad if not isinstance(MODS[i], str)]
        rr = pool_run(jobs, replays) if jobs else []
        bres = {j[1]: r for j, r in zip(jobs, rr) if r is not None}
        for i, r in bres.items():
            if verbose:
                print('bounded', r['label'], r['status'], r['reason'][:200], 'obl=%d' % len(r['obligations']), r['time'])
        # 3. search with the executable contract
        if not violation and exe:
            secs = getattr(mod, 'SEARCH', 40) if tier == 'quick' else 200
            hit, searched = search(exe, sorted({targets[i].hfn for i in bad}), secs, seed, tmp)
            if hit:
                c = {}
                for l in hit[0].split('\n'):
                    if '=' in l:
                        k, v = l.split('=', 1)
                        c[k] = v
                failed, o = replay(exe, c, tmp)
                violation = (bad[0], (res[bad[0]]['failing'] or [('undecided', '', '')])[0][0], c, o if failed else hit[1])
            elif verbose:
                print('search: no failing input in %d cases' % searched)
        if not violation:
            nofail = []
            for i in bad:
                r = res[i]
                b = bres.get(i)
                if r['status'] == 'refuted' and not r['loops']:
                    nofail.append((i, r))
                elif b is not None and b['status'] == 'refuted':
                    nofail.append((i, b))
                else:
                    downgraded.append((i, r['reason'] or 'invariant lost', b))
            if nofail:
                violation = (nofail[0][0], nofail[0][1]['failing'][0][0], None, json.dumps(nofail[0][1]['failing'], indent=1))
            elif exe is None:
                print('ERROR: undecided and no harness')
                return 2
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    # evidence
    obl = sum(len(r['obligations']) for r in res)
    dis = sum(1 for r in res for o in r['obligations'] if o[1] == 'proved')
    backends = {}
    for r in res:
        for o in r['obligations']:
            backends[o[2]] = backends.get(o[2], 0) + 1
    nproof = sum(1 for t, r in zip(targets, res) if t.level == 'proof' and r['status'] == 'proved')
    level = getattr(mod, 'LEVEL', 'proof')
    if downgraded or violation:
        level = 'other'
    assum = list(BASE_ASSUMPTIONS) + list(getattr(mod, 'ASSUMPTIONS', []))
    ev = dict(property=pid, tier=tier, seed=seed, level=level,
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='./check %s %s' % (pid, tier),
                            trusted_base=TRUSTED,
                            functions_under_contract=[dict(label=t.label, entry=t.fname, status=r['status'], level=t.level if r['status'] == 'proved' else 'bounded', mode=r['mode'], note=t.note,
                                                           obligations=len(r['obligations']), paths=r.get('paths', 0), loops_with_invariant=len(r['loops']), loops_unrolled=r['unrolled'],
                                                           invariants=[l['invariants'] for l in r['loops']], solver_s=round(sum(o[3] for o in r['obligations']), 2), wall_s=r['time'],
                                                           assumed_contracts=r['contracts'], bodies_executed=[f[:160] for f in r.get('functions', [])], satisfiable_preconditions=len(r['vac']))
                                                      for t, r in zip(targets, res)],
                            proved_functions=nproof, backends=backends, solver_s=round(sum(o[3] for r in res for o in r['obligations']), 2),
                            bounded_stand_ins=[dict(function=targets[i].label, reason=why[:300], bounded_status=b['status'] if b else 'not run', searched_cases=searched) for i, why, b in downgraded]),
              wall_s=round(time.time() - t0, 2), assumptions=assum)
    if violation:
        i, nm, c, o = violation
        rp_dir = os.path.join(ev_dir, 'replay')
        os.makedirs(rp_dir, exist_ok=True)
        rp = os.path.join(rp_dir, '%s_%s.txt' % (pid, re.sub(r'\W+', '_', targets[i].label)))
        with open(rp, 'w') as f:
            f.write('# property %s, function %s (%s)\n# failed obligation: %s\n' % (pid, targets[i].label, targets[i].fname, nm))
            if c is not None:
                for k, v in c.items():
                    f.write('%s=%s\n' % (k, v))
                f.write('# replayed on the real code: %s\n' % o.replace('\n', '\n# '))
                f.write('# replay: g++ -Iinclude -I/verif/harness /verif/harness/%s && ./a.out replay <this file>\n' % mod.HARNESS)
            else:
                f.write('# no failing input found; verifier output follows\n')
                f.write('# ' + o.replace('\n', '\n# ') + '\n')
        ev['violations'] = 1
        ev['coverage']['violation'] = dict(obligation=nm, function=targets[i].label, replay=rp, replayed=c is not None)
    if level == 'other':
        ev['coverage']['explanation'] = 'deductive verification that did not close: ' + ('a property obligation fails' if violation else 'the functions under bounded_stand_ins were only checked to a bound')
    write_ev(pid, ev)
    if violation:
        print('failed obligation: %s in %s' % (nm, targets[i].label))
        if c is not None:
            print('counterexample: %s' % ' '.join('%s=%s' % (k, v[:200]) for k, v in c.items()))
            print(o[:500])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        return 1
    for i, why, b in downgraded:
        print('UNDECIDED %s: %s -- bounded stand-in (%s) and %d searched inputs found no failure' % (targets[i].label, why[:200], b['status'] if b else 'n/a', searched))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d functions, %d/%d obligations discharged, %d proved, %d bounded, %.1fs' % (
        pid, tier, len(targets), dis, obl, nproof, len(targets) - nproof, time.time() - t0))
    return 0


def write_ev(pid, ev):
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) (.*)', l)
            if m and m.group(1) == pid:
                r.append(m.group(2).strip())
    return r


TRUSTED = ['clang 18 front end and LLVM 18 passes (sroa, simplifycfg, instcombine, early-cse, jump-threading, inline) that lower /repo sources to the verified IR',
           'vf/ir.py, vf/engine.py (IR semantics and VC generator)', 'z3 5.3.2', 'cvc5 1.1.2']
BASE_ASSUMPTIONS = ['x86-64 little endian data layout; the tests and the library user compile with g++, the verified IR comes from clang on the same source',
                    'distinct argument objects do not overlap unless a contract says so; pointer arithmetic that would wrap the address space is undefined behaviour and not considered',
                    'raising an exception is an outcome; the text it carries and stack unwinding are not modelled',
                    'contracts of C/C++ runtime functions listed per function under assumed_contracts are assumed',
                    'termination is not proved']

if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
