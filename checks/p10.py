"""P10: independence of the number of processes and the decomposition."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import common  # noqa: F401
import vh
import nd
import spaces

HERE = os.path.dirname(os.path.abspath(__file__))
RULE = 'offline checker over event logs of mpirun jobs: every operation on the distributed space equals the slice of the same operation on one process, the local parts tile the global array, no rank raises and no job hangs'
OPS = ['layout', 'mask', 'backward', 'kinds', 'meshes', 'padded', 'vector', 'vpadded', 'inner', 'project', 'curl', 'matvec', 'solve', 'solvecon', 'block', 'eval', 'refine', 'assign',
       'convolve', 'dot', 'redistribute', 'hdf5', 'bv', 'homog', 'misc']
TOL = 1e-10
HANG = 40


def one(rng, i, T):
    kinds = rng.choice(['FF', 'FB', 'BF', 'BB', 'FFF', 'FFB', 'FBF', 'BFF', 'FFB', 'FBF', 'FBB', 'BFB', 'FFFF', 'FFFB', 'FFF'])
    co = None
    if rng.random() < .12:
        co, kinds = rng.choice([('polar', 'FB'), ('cylinder', 'BFF')]) if 'polar' in nd.COORDS and 'cylinder' in nd.COORDS else (None, kinds)
    mx = {2: 16, 3: 10, 4: 6}[len(kinds)]
    d = nd.rspace(rng, kinds, maxN=mx, fams=[rng.choice(['legendre', 'chebyshev', 'chebyshev', 'legendre', 'jacobi', 'chebyshevu'])], inhom=.4) if not co else \
        nd.rspace(rng, kinds, coords=co, maxN=mx, fams=['legendre'], inhom=0)
    if rng.random() < .3 and len(kinds) > 2:
        d['slab'] = True
    for b in d['bases']:
        # enough points for the processes along an axis most of the time
        if b['fam'] == 'fourier' and b['N'] < 6 and rng.random() < .8:
            b['N'] += 4
    ops = list(OPS)
    if len(kinds) == 4:
        ops = [o for o in ops if o not in ('curl', 'dot', 'project')]
    rng.shuffle(ops)
    k = len(ops) if T or rng.random() < .25 else 10
    return {'i': i, 'd': d, 's': rng.randint(0, 10**6), 'mode': rng.choice(['world', 'world', 'world', 'split']), 'ops': ops[:k],
            'pf': [rng.choice([1, 1.5, 1.5, 2]) if b['fam'] == 'fourier' or rng.random() < .5 else 1 for b in d['bases']], 'kinds': kinds}


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    n = 0
    plan = [2, 3, 4, 4, 2, 3] if not T else [2, 3, 4, 5, 6, 8]*14
    for np_ in plan:
        sub = []
        for _ in range(8 if T else 9):
            sub.append(one(rng, n, T))
            n += 1
        out.append({'np': np_, 'sub': sub, 'cost': np_*5, 'timeout': 420})
    return out


def stacks(text):
    """innermost repository frames of the ranks of a job that made no progress"""
    fr = re.findall(r'shenfun/(\w+\.py)", line (\d+) in (\w+)', text)
    return ' '.join(sorted(set('%s:%s' % (f[0], f[2]) for f in fr)))[:300]


def run(case, mon):
    tmp = tempfile.mkdtemp(prefix='p10-')
    try:
        todo = list(case['sub'])
        tries = 0
        while todo:
            todo = batch(case, todo, tmp, mon)
            tries += 1
            if tries > 6:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def batch(case, todo, tmp, mon):
    cf, pf = os.path.join(tmp, 'cases.json'), os.path.join(tmp, 'log.jsonl')
    json.dump(todo, open(cf, 'w'))
    if os.path.exists(pf):
        os.remove(pf)
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OMPI_MCA_btl_vader_single_copy_mechanism='none', TMPDIR=tmp,
               OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_hwloc_base_binding_policy='none')
    cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(case['np']), sys.executable, os.path.join(HERE, 'p10_mpi.py'), cf, pf]
    err = open(os.path.join(tmp, 'err'), 'w+')
    p = subprocess.Popen(cmd, stdout=err, stderr=err, cwd=tmp, env=env, start_new_session=True)
    size, t = -1, time.time()
    t00 = t
    hang = False
    while p.poll() is None:
        time.sleep(.1)
        s = os.path.getsize(pf) if os.path.exists(pf) else 0
        if s != size:
            size, t = s, time.time()
        if time.time()-t > HANG:
            hang = True
            break
    if hang:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err.seek(0)
    text = err.read()
    evs = []
    if os.path.exists(pf):
        for ln in open(pf):
            try:
                evs.append(json.loads(ln))
            except ValueError:
                pass
    by = {c['i']: c for c in todo}
    last, done = None, set()
    for e in evs:
        if e['ev'] == 'end':
            last = None
            done.update(by)
            continue
        c = by[e['i']]
        lab = '%s np=%d %s axes=%s slab=%s N=%s' % ('x'.join(spaces.label(b) for b in c['d']['bases']), case['np'], c['mode'], c['d'].get('axes'), c['d'].get('slab'), [b['N'] for b in c['d']['bases']])
        last = e
        if e['ev'] == 'layout':
            mon.event('layout')
            mon.seen('layout', c['kinds'], tuple(e['dims']), e['np'])
            c['dims'] = e['dims']
        elif e['ev'] == 'cmp':
            key = e['key'].split(':')[0].rstrip('0123456789') or e['key']
            mon.seen('cmp', e['op'], key, c['kinds'], case['np'])
            mon.check(e['err'] <= TOL, '%s:%s' % (e['op'], key), 'relerr=%.2e %s key=%s %s pf=%s dims=%s' % (e['err'], e['why'], e['key'], lab, c['pf'], c.get('dims')))
        elif e['ev'] == 'raises':
            if e['op'] == 'build' and ('assert' in e['why'].lower() or 'AssertionError' in e['why']) and 'mpi4py_fft' in e['why'] or 'too many' in e['why']:
                mon.skip('decomposition refused by mpi4py-fft')
            else:
                ln = [q for q in e['why'].strip().split('\n')][-1][:160]
                mon.fail('%s:raises' % e['op'], '%s on %d ranks: %s dims=%s' % (ln, e['n'], lab, c.get('dims')))
                mon.event('raises')
        elif e['ev'] == 'noref':
            mon.event('noref')
        elif e['ev'] == 'skip':
            mon.skip(e['why'])
        elif e['ev'] == 'done':
            done.add(e['i'])
        mon.event(e['ev'])
    if last is None and evs:
        return []
    if last is None:
        # never started: an environment problem, not a verdict
        mon.event('not-started')
        mon.skip('mpirun did not start: %s' % text[-200:])
        case['retry'] = case.get('retry', 0)+1
        return todo if case['retry'] < 3 else []
    c = by[last['i']]
    lab = '%s np=%d %s' % ('x'.join(spaces.label(b) for b in c['d']['bases']), case['np'], c['mode'])
    if hang:
        mon.fail('%s:hang' % last.get('op', '?'), 'no progress for %d s after event %s %s %s' % (HANG, last['ev'], lab, stacks(text)))
    else:
        mon.fail('%s:died' % last.get('op', '?'), 'job ended with %s: %s %s' % (p.returncode, text[-300:], lab))
    return [q for q in todo if q['i'] not in done and q['i'] != last['i']]


if __name__ == '__main__':
    vh.main('P10', cases, run, RULE, workers=2, case_timeout=800, assumptions=['the result on one process (COMM_SELF) is the reference; its correctness is decided by the other checks'])
