"""P14: result files, checkpoints, crashes during checkpoint writes, restarts."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import common  # noqa: F401
import vh
import nd
import p14_drv
from p12 import coeffs

HERE = os.path.dirname(os.path.abspath(__file__))
RULE = ('event-log checker: every read returns bit for bit what the model of the write history holds; after the writer is killed at a chosen write of '
        'a checkpoint (before, inside or after it), one of the checkpoint files holds a complete state at least as recent as the last finished update')


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    plans = ['FF', 'FB', 'BF', 'BB', 'FFF', 'FFB', 'FBF', 'BFF', 'FBB', 'FFFF']
    for i in range(200 if T else 44):
        kinds = plans[i % len(plans)]
        d = nd.rspace(rng, kinds, maxN=10 if len(kinds) < 4 else 6, inhom=.2)
        out.append({'kind': 'file', 'd': d, 's': rng.randint(0, 10**6), 'cost': 3})
    for i in range(60 if T else 14):
        kinds = plans[i % 10]
        d = nd.rspace(rng, kinds, maxN=10 if len(kinds) < 4 else 6, inhom=.2)
        out.append({'kind': 'ckpt', 'd': d, 's': rng.randint(0, 10**6), 'cost': 2})
    for i in range(20 if T else 7):
        out.append({'kind': 'crash', 's': rng.randint(0, 10**6), 'points': 50 if T else 9, 'cost': 15})
    for i in range(24 if T else 5):
        out.append({'kind': 'mpi', 'np': [2, 4, 3][i % 3], 's': rng.randint(0, 10**6), 'cost': 12})
    for i in range(30 if T else 8):
        out.append({'kind': 'restart', 's': rng.randint(0, 10**6), 'cost': 4})
    return out


def run(case, mon):
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='p14_')
    os.chdir(tmp)
    try:
        globals()[case['kind']](case, mon, tmp)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def same(mon, got, want, mech, det):
    got, want = np.asarray(got), np.asarray(want)
    ok = got.shape == want.shape and got.dtype == want.dtype and got.tobytes() == want.tobytes()
    e = '' if ok else 'shape %s %s dtype %s %s' % (got.shape, want.shape, got.dtype, want.dtype)
    if not ok and got.shape == want.shape:
        e += ' max difference %.1e' % np.max(np.abs(got-want), initial=0)
    return mon.check(ok, mech, '%s %s' % (e, det))


def fill(u, rs):
    """arbitrary bits: NaN, inf, subnormals and signed zeros included"""
    a = np.asarray(u)
    f = rs.standard_normal(a.shape)*10.**rs.integers(-5, 5, a.shape)
    if a.dtype.kind == 'c':
        f = f+1j*rs.standard_normal(a.shape)
    f = f.reshape(-1)
    if f.size > 4:
        f[rs.integers(0, f.size, 4)] = [np.nan, -np.inf, 5e-324, -0.]
    u[...] = f.reshape(a.shape)
    return u


def make(rs, T, sf):
    """named spaces over T"""
    dim = T.dimensions
    sp = {'s': T}
    if dim == 1:
        sp['m'] = sf.MixedFunctionSpace([T, T])
        return sp
    sp['v'] = sf.VectorSpace(T)
    if dim < 4:
        sp['t'] = sf.TensorSpace(T)
    sp['m'] = sf.CompositeSpace([T, T])
    if rs.random() < .5:
        sp['v1'] = sf.CompositeSpace([sp['v'], T])
    if rs.random() < .5:
        sp['m1'] = sf.CompositeSpace([T])
    return sp


def file(case, mon, tmp):
    import h5py
    import shenfun as sf
    rs = np.random.default_rng(case['s'])
    T = nd.build(case['d']) if len(case['d']['bases']) > 1 else nd.spaces.build(case['d']['bases'][0])
    dim = T.dimensions
    lab = 'x'.join(nd.spaces.label(b) for b in case['d']['bases'])
    sps = make(rs, T, sf)
    files = {}
    for fi in range(int(rs.integers(1, 4))):
        nm = ['res', 'other.x', 'a_b'][fi]
        spec = bool(rs.random() < .5)
        mesh = str(rs.choice(['quadrature', 'uniform']))
        base = sps['v' if rs.random() < .3 and 'v' in sps else 's']
        files[nm] = {'spec': spec, 'mesh': mesh, 'f': sf.ShenfunFile(nm, base, mode='w', mesh=mesh), 'model': {}, 'xdmf': not spec and rs.random() < .6,
                     'base': base, 'as_scalar': {}}
        mon.event('file created')
    hist = []
    for op in range(int(rs.integers(4, 12))):
        nm = str(rs.choice(list(files)))
        F = files[nm]
        name = str(rs.choice(['u', 'phi', 'w1']))
        key = F['model'].setdefault(name, {'sp': str(rs.choice(list(sps))), 'data': {}})
        space = sps[key['sp']]
        u = (sf.Function if F['spec'] else sf.Array)(space)
        fill(u, rs)
        step = int(rs.choice([0, 1, 2, 5, 10, 100]))
        sl = []
        if not F['spec'] and dim > 1 and rs.random() < .5 or (dim > 1 and rs.random() < .15):
            for _ in range(int(rs.integers(1, 3))):
                full = [slice(None)]*dim
                for ax in rs.permutation(dim)[:int(rs.integers(1, dim))]:
                    full[ax] = int(rs.integers(0, u.global_shape[-dim+ax]))
                sl.append(full)
        ass = F['as_scalar'].setdefault(name, bool(rs.random() < .3) and key['sp'] in ('v', 'm'))
        mode = str(rs.choice(['dict', 'method']))
        before = np.array(u)
        flds = ([u] if rs.random() < .8 or not sl else [])+[(u, list(s)) for s in sl]
        try:
            if ass:
                F['f'].write(step, {name: flds}, as_scalar=True)
            else:
                F['f'].write(step, {name: flds})
        except Exception as e:
            mon.fail('write raises', '%r %s rank %s %s %s' % (e, key['sp'], u.rank, lab, mode))
            return
        same(mon, u, before, 'write changes the field', lab)
        mon.event('written:'+key['sp'])
        hist.append((nm, name, step))
        a = np.array(u)
        for fl in flds:
            kk = '%dD' % dim if fl is u else '%dD/%s' % (sum(isinstance(q, slice) for q in fl[1]), '_'.join('slice' if isinstance(q, slice) else str(q) for q in fl[1]))
            key['data'][(kk, step)] = a if fl is u else a[(Ellipsis,)+tuple(fl[1])]
        if rs.random() < .3:
            F['f'] = sf.ShenfunFile(nm, F['base'], mode=str(rs.choice(['r+', 'a'])), mesh=F['mesh'])
            mon.event('file reopened')
        if rs.random() < .4:
            verify(mon, sf, files, sps, dim, lab, rs)
    verify(mon, sf, files, sps, dim, lab, rs)
    for nm, F in files.items():
        # domain data
        with h5py.File(nm+'.h5', 'r') as h:
            for name in h:
                g = h[name]
                X = F['base'].mesh(kind=F['mesh']) if dim > 1 else [F['base'].mesh(kind=F['mesh'])]
                for i in range(dim):
                    if 'mesh' in g:
                        same(mon, g['mesh/x%d' % i][()], np.squeeze(X[i]) if dim > 1 else np.squeeze(X[0]), 'mesh', '%s %s' % (lab, F['mesh']))
                        mon.event('mesh compared')
        if F['xdmf'] and dim in (2, 3) and case['d']['dtype'] == 'd':
            before = dump(nm+'.h5')
            steps = {}
            for name, k in F['model'].items():
                for kk, st in k['data']:
                    steps.setdefault(kk, set()).add(st)
            try:
                sf.generate_xdmf(nm+'.h5', order=str(rs.choice(['visit', 'paraview'])))
            except KeyError as e:
                # a slice that is missing from the first stored step of its dimension has no grid
                mon.event('xdmf refused')
                continue
            same(mon, np.array([before == dump(nm+'.h5')]), np.array([True]), 'xdmf changes the file', lab)
            xdmf(mon, nm, F, dim, lab)
    mon.seen(lab, len(hist))


def dump(fn):
    import h5py
    out = {}
    with h5py.File(fn, 'r') as h:
        h.visititems(lambda n, o: out.__setitem__(n, o[()].tobytes() if hasattr(o, 'shape') else sorted((k, str(v)) for k, v in o.attrs.items())))
    return out


def xdmf(mon, nm, F, dim, lab):
    """every data item of the index exists in the file with the declared shape, and every stored scalar field of the plotted dimensions is listed"""
    import re
    import h5py
    seen = set()
    with h5py.File(nm+'.h5', 'r') as h:
        for fn in os.listdir('.'):
            if not (fn.startswith(nm) and fn.endswith('.xdmf')):
                continue
            s = open(fn).read()
            for dims, ref in re.findall(r'<DataItem Format="HDF"[^>]*Dimensions="([^"]*)">\s*(\S+)\s*</DataItem>', s):
                f, path = ref.split(':')
                mon.event('xdmf item')
                if not mon.check(f == nm+'.h5' and path in h, 'xdmf:missing', '%s %s' % (ref, lab)):
                    continue
                n = [int(q) for q in dims.split()]
                ds = h[path]
                mon.check(np.prod(n) == ds.size and [q for q in n if q != 1] == [q for q in ds.shape if q != 1], 'xdmf:dimensions', '%s %s %s' % (ref, dims, ds.shape))
                seen.add(path)
        for name in h:
            if h[name].attrs['rank'] > 0:
                continue
            for g in h[name]:
                if g in ('2D', '3D'):
                    for a in h[name][g]:
                        its = ['%s/%s/%s' % (name, g, a)] if isinstance(h[name][g][a], h5py.Dataset) else ['%s/%s/%s/%s' % (name, g, a, b) for b in h[name][g][a]]
                        for it in its:
                            mon.check('/'+it in seen, 'xdmf:not listed', '%s %s' % (it, lab))


def verify(mon, sf, files, sps, dim, lab, rs):
    import h5py
    for nm, F in files.items():
        rd = sf.ShenfunFile(nm, F['base'], mode='r', mesh=F['mesh'])
        for name, k in F['model'].items():
            space = sps[k['sp']]
            for (kk, st), want in k['data'].items():
                det = '%s/%s/%s %s %s %s' % (name, kk, st, k['sp'], lab, 'Function' if F['spec'] else 'Array')
                if F['as_scalar'].get(name):
                    parts = want.reshape((-1,)+want.shape[-(len(want.shape)-(2 if k['sp'] == 't' else 1)):]) if want.ndim > (2 if k['sp'] == 't' else 1) else want.reshape(-1)
                    names = ['%s%d%d' % (name, i, j) for i in range(want.shape[0]) for j in range(want.shape[1])] if k['sp'] == 't' else ['%s%d' % (name, i) for i in range(want.shape[0])]
                    with h5py.File(nm+'.h5', 'r') as h:
                        for n2, w2 in zip(names, parts):
                            p = '%s/%s/%d' % (n2, kk, st)
                            if mon.check(p in h, 'scalar field missing', '%s %s' % (p, det)):
                                same(mon, h[p][()], w2, 'scalar components', det)
                    if '/' not in kk and k['sp'] in ('v', 'm', 't'):
                        u = (sf.Function if F['spec'] else sf.Array)(sps['s'])
                        rd.read(u, names[-1], step=st)
                        same(mon, u, parts[-1], 'read component', det)
                    mon.event('read back')
                    continue
                with h5py.File(nm+'.h5', 'r') as h:
                    p = '%s/%s/%d' % (name, kk, st)
                    if not mon.check(p in h, 'missing dataset', det):
                        continue
                    same(mon, h[p][()], want, 'raw data', det)
                if '/' not in kk:
                    u = (sf.Function if F['spec'] else sf.Array)(space)
                    u[...] = 3
                    try:
                        rd.read(u, name, step=st)
                    except Exception as e:
                        mon.fail('read raises', '%r %s' % (e, det))
                        continue
                    same(mon, u, want, 'read', det)
                mon.event('read back')


def ckpt(case, mon, tmp):
    import h5py
    import shenfun as sf
    from shenfun.io import Checkpoint
    rs = np.random.default_rng(case['s'])
    T = nd.build(case['d'])
    lab = 'x'.join(nd.spaces.label(b) for b in case['d']['bases'])
    sps = make(rs, T, sf)
    data, flat = {}, {}
    nlev = int(rs.integers(1, 4))
    names = {n: str(rs.choice(list(sps))) for n in ['U', 'phi', 'T'][:int(rs.integers(1, 4))]}
    for lev in range(nlev):
        data[str(lev)] = {}
        for n, k in names.items():
            if lev == 0 or rs.random() < .7:
                u = (sf.Array if rs.random() < .2 else sf.Function)(sps[k])
                data[str(lev)][n] = [u]
                flat[(n, lev)] = u
    every = int(rs.integers(1, 5))
    CK = str(rs.choice(['ck', 'c.k', 'c k']))
    chk = Checkpoint(CK, checkevery=every, data=data)
    saved = None
    t = float(rs.uniform(-1, 1))
    for i in range(int(rs.integers(0, 3)), int(rs.integers(6, 14))):
        for u in flat.values():
            fill(u, rs)
        t += float(rs.uniform(0, .1))
        kill = rs.random() < .1
        if kill:
            open('killshenfun', 'w').close()
        bits = {q: np.array(u) for q, u in flat.items()}
        died = False
        try:
            chk.update(t, i)
        except SystemExit:
            died = True
        mon.check(died == kill, 'ckpt:kill file', 'exit %s with kill file %s' % (died, kill))
        mon.check(not os.path.exists('killshenfun'), 'ckpt:kill file left', '')
        for q, u in flat.items():
            same(mon, u, bits[q], 'ckpt:update changes the data', '%s %s' % (q, lab))
        if kill or i % every == 0:
            prev, saved = saved, (t, i, bits)
            mon.event('checkpointed')
            if prev is not None:
                check_state(mon, CK+'.old.chk.h5', prev, 'ckpt:previous', lab)
        if saved is None:
            continue
        check_state(mon, CK+'.chk.h5', saved, 'ckpt', lab)
        if rs.random() < .4:
            c2 = chk if rs.random() < .3 else Checkpoint(CK)
            q = list(flat)[int(rs.integers(0, len(flat)))]
            u = type(flat[q])(sps[names[q[0]]])
            c2.read(u, q[0], **({'step': q[1]} if q[1] or rs.random() < .5 else {}))
            same(mon, u, saved[2][q], 'ckpt:read', '%s %s' % (q, lab))
            with h5py.File(CK+'.chk.h5', 'r') as h:
                mon.check(h.attrs['t'] == saved[0] and h.attrs['tstep'] == saved[1], 'ckpt:time', '%r %r' % (h.attrs['t'], h.attrs['tstep']))
            mon.event('restarted')
        if kill and rs.random() < .5:
            # restart from the file with a new object
            chk = Checkpoint(CK, checkevery=every, data=data)
            for q, u in flat.items():
                chk.read(u, q[0], step=q[1])
                same(mon, u, saved[2][q], 'ckpt:restart', '%s %s' % (q, lab))
    mon.seen(lab, nlev, len(names), every)


def check_state(mon, fn, st, mech, lab):
    import h5py
    with h5py.File(fn, 'r') as h:
        mon.check(float(h.attrs['t']) == st[0] and int(h.attrs['tstep']) == st[1], mech+':time', 't %r step %r, expected %r %r' % (h.attrs['t'], h.attrs['tstep'], st[0], st[1]))
        for (n, lev), want in st[2].items():
            p = '%s/%d' % (n, lev)
            if mon.check(p in h, mech+':missing', p):
                same(mon, h[p][()], want, mech+':data', '%s %s' % (p, lab))


# ---- crashes
def spec(rs, tmp, i):
    fam = str(rs.choice(['FF', 'FF', 'CF', 'LF', 'FFF', 'FC']))
    d = os.path.join(tmp, 'run%d' % i)
    os.mkdir(d)
    return {'dir': d, 'name': str(rs.choice(['run', 'my.run', 'my run'])), 'every': int(rs.integers(1, 4)), 'n': int(rs.integers(4, 8)), 'log': 'log',
            'N': [int(q) for q in rs.integers(6, 24, len(fam))], 'fam': fam, 'real': bool(rs.random() < .6)}


def env(**kw):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_rmaps_base_oversubscribe='1',
             OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_hwloc_base_binding_policy='none')
    e.update(kw)
    return e


def shapes(sp):
    import shenfun as sf
    from mpi4py import MPI
    T, V = p14_drv.spaces(sp, MPI.COMM_SELF, sf)
    U, p = sf.Function(V), sf.Function(T)
    return {'U': (U.shape, U.dtype.char), 'phi': (p.shape, p.dtype.char)}


def which(fn, sh, n):
    """the step whose complete state the file holds, None if it holds none"""
    import h5py
    try:
        with h5py.File(fn, 'r') as h:
            i = int(h.attrs['tstep'])
            if float(h.attrs['t']) != i*.25:
                return None, 'time %r of step %d' % (h.attrs['t'], i)
            for nm, lev, k in (('U', 0, i), ('phi', 0, i), ('U', 1, i-1 if i else 1000)):
                if not np.array_equal(h['%s/%d' % (nm, lev)][()], p14_drv.state(nm, k, *sh[nm])):
                    return None, 'data %s/%d is not of step %d' % (nm, lev, i)
            return i, ''
    except Exception as e:
        return None, '%s %s' % (type(e).__name__, str(e)[:80])


def logof(sp):
    try:
        return [q.split() for q in open(os.path.join(sp['dir'], 'log')).read().splitlines()]
    except FileNotFoundError:
        return []


def crash(case, mon, tmp):
    rs = np.random.default_rng(case['s'])
    so = os.path.join(tmp, 'shim.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(HERE, 'p14_shim.c'), '-ldl'], check=True)
    proto = spec(rs, tmp, 0)
    sh = shapes(proto)
    total = None
    first = None
    if rs.random() < .5:
        # a run that continues an earlier one with a new checkpoint object
        first = dict(proto, dir=os.path.join(tmp, 'first'), n=int(rs.integers(1, 4)))
        os.mkdir(first['dir'])
        json.dump(first, open(os.path.join(first['dir'], 'spec.json'), 'w'))
        subprocess.run([sys.executable, os.path.join(HERE, 'p14_drv.py'), os.path.join(first['dir'], 'spec.json')], env=env(), capture_output=True)
        proto.update(resume=True, separate=True, n=first['n']+4)
        mon.event('continued run')
    for j in range(case['points']+1):
        sp = dict(proto, dir=os.path.join(tmp, 'c%d' % j))
        os.mkdir(sp['dir'])
        if first:
            for fn in os.listdir(first['dir']):
                if fn.endswith('.h5'):
                    shutil.copy(os.path.join(first['dir'], fn), sp['dir'])
        cf, sf_ = os.path.join(sp['dir'], 'count'), os.path.join(sp['dir'], 'spec.json')
        open(cf, 'wb').write(b'\0'*8)
        json.dump(sp, open(sf_, 'w'))
        at = -1 if total is None else int(rs.integers(1, total+1))
        mode = int(rs.integers(0, 3))
        p = subprocess.run([sys.executable, os.path.join(HERE, 'p14_drv.py'), sf_], env=env(LD_PRELOAD=so, CRASH_FILE=cf, CRASH_AT=str(at), CRASH_MODE=str(mode)),
                           capture_output=True, cwd=sp['dir'])
        lg = logof(sp)
        done = [int(q[1]) for q in lg if q[0] == 'done' and int(q[1]) % sp['every'] == 0]
        last = done[-1] if done else (first['n']-1)//sp['every']*sp['every'] if first else None
        fn = [os.path.join(sp['dir'], sp['name']+e) for e in ('.chk.h5', '.old.chk.h5')]
        got = [which(f, sh, sp['n']) for f in fn]
        if total is None:
            if p.returncode:
                return mon.fail('crash:driver', p.stderr.decode()[-300:])
            total = int.from_bytes(open(cf, 'rb').read(), 'little')
            mon.event('writes in a run', total)
            mon.check(got[0][0] == last, 'checkpoint of a finished run', '%s' % (got,))
            if total < 2:
                return mon.fail('crash:no writes observed', '')
            continue
        if p.returncode == 0:
            mon.event('crash point not reached')
        else:
            mon.event('killed mode %d' % mode)
            cur = [int(q[1]) for q in lg if q[0] == 'start'][-1:] or [-1]
            mon.event('torn current file' if got[0][0] is None else 'complete current file')
            mon.seen('crash', at*20//total, mode, got[0][0] is None, got[1][0] is None)
            if last is not None:
                ok = any(g[0] is not None and g[0] >= last for g in got)
                mon.check(ok, 'no complete checkpoint after a crash', 'killed at write %d of %d (mode %d) during step %s, last finished checkpoint %s; files: %s' % (
                    at, total, mode, cur, last, got))
        # recover: restart from the complete file and run on
        if last is not None and rs.random() < .4:
            good = [k for k in (0, 1) if got[k][0] is not None]
            if not good:
                continue
            g = max(good, key=lambda k: got[k][0])
            if g == 1:
                shutil.copy(fn[1], fn[0])
            sp2 = dict(sp, resume=True, separate=False, n=sp['n']+2, log='log2')
            json.dump(sp2, open(sf_, 'w'))
            p = subprocess.run([sys.executable, os.path.join(HERE, 'p14_drv.py'), sf_], env=env(), capture_output=True, cwd=sp['dir'])
            lg = open(os.path.join(sp['dir'], 'log2')).read() if os.path.exists(os.path.join(sp['dir'], 'log2')) else ''
            mon.check(p.returncode == 0 and ('resumed %d %r True' % (got[g][0], got[g][0]*.25)) in lg, 'restart after a crash', '%s %s' % (lg[:60], p.stderr.decode()[-200:]))
            mon.event('resumed')
            end = ((sp2['n']-1)//sp['every'])*sp['every']
            if end > got[g][0]:
                w = which(fn[0], sh, sp2['n'])
                mon.check(w[0] == end, 'checkpoint after restart', '%s expected %d' % (w, end))


def mpi(case, mon, tmp):
    rs = np.random.default_rng(case['s'])
    sp = spec(rs, tmp, 0)
    sp['N'] = [n+8 for n in sp['N']]
    if rs.random() < .5:
        sp['kill'] = [int(rs.integers(1, sp['n']))]
    sh = shapes(sp)
    f = os.path.join(sp['dir'], 'spec.json')
    json.dump(sp, open(f, 'w'))
    cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(case['np']), sys.executable, os.path.join(HERE, 'p14_drv.py'), f]
    try:
        p = subprocess.run(cmd, env=env(TMPDIR=tmp), capture_output=True, cwd=sp['dir'], timeout=200)
    except subprocess.TimeoutExpired:
        return mon.fail('mpi:hang', '%s' % sp)
    lg = logof(sp)
    if not lg:
        mon.event('not started')
        return mon.skip('mpirun did not start '+p.stderr.decode()[-200:])
    end = [int(q[1]) for q in lg if q[0] in ('done', 'killed')]
    kill = sp.get('kill', [None])[0]
    mon.check((end[-1] if end else None) == (kill if kill is not None else sp['n']-1) and (kill is not None) == (lg[-1][0] == 'killed'), 'mpi:run',
              '%s %s' % (lg[-1], p.stderr.decode()[-300:]))
    done = [q for q in end if q % sp['every'] == 0 or q == kill]
    fn = [os.path.join(sp['dir'], sp['name']+e) for e in ('.chk.h5', '.old.chk.h5')]
    got = [which(q, sh, sp['n']) for q in fn]
    mon.check(got[0][0] == done[-1], 'mpi:checkpoint', '%s expected %s np=%d' % (got, done, case['np']))
    if len(done) > 1:
        mon.check(got[1][0] == done[-2], 'mpi:previous checkpoint', '%s expected %s np=%d' % (got, done, case['np']))
    mon.event('mpi checkpoints', len(done))
    mon.seen('mpi', case['np'], sp['fam'], kill is not None)
    # restart on another number of processes
    n2 = int(rs.integers(1, 4))
    sp2 = dict(sp, resume=True, separate=False, n=sp['n']+2, log='log2', kill=[])
    json.dump(sp2, open(f, 'w'))
    cmd[4] = str(n2)
    p = subprocess.run(cmd, env=env(TMPDIR=tmp), capture_output=True, cwd=sp['dir'], timeout=200)
    l2 = os.path.join(sp['dir'], 'log2')
    if not os.path.exists(l2):
        return mon.skip('mpirun did not start')
    if got[0][0] is not None:
        mon.check('resumed %d %r True' % (got[0][0], got[0][0]*.25) in open(l2).read(), 'mpi:restart', '%d -> %d processes %s' % (case['np'], n2, open(l2).read()[:80]))


def restart(case, mon, tmp):
    """a computation restarted from a checkpoint continues bit for bit"""
    import shenfun as sf
    from shenfun.io import Checkpoint
    rs = np.random.default_rng(case['s'])
    integ = str(rs.choice(['ETDRK4', 'RK4', 'ETD']))
    M = int(rs.choice([11, 13]))
    dim = 2
    dt = 0.01
    kn, kc = int(rs.integers(6, 12)), int(rs.integers(2, 5))
    s2 = int(rs.integers(0, 10**6))

    def setup():
        T = sf.TensorProductSpace(sf.comm, [sf.FunctionSpace(M, 'F', dtype='D'), sf.FunctionSpace(M, 'F', dtype='d')], dtype='d')
        K = T.local_wavenumbers(True, True, False)
        K2 = (K[0]*K[0]+K[1]*K[1]).astype(float)
        L = lambda *a, **k: -0.1*K2  # noqa: E731
        def N(self, u, uh, rhs, **kw):
            ub = uh.backward()
            return T.forward(sf.Array(T, buffer=np.asarray(ub)**2), rhs)
        I = getattr(sf, integ)(T, L=L, N=N, update=upd)
        I.setup(dt)
        return T, I

    st = {}

    def upd(self, u, uh, t, tstep, **kw):
        st['calls'] = st.get('calls', 0)+1
        if st.get('chk') is not None:
            st['chk'].update(t, tstep)
    T, I = setup()
    u, uh = sf.Array(T), sf.Function(T)
    u[...] = np.random.default_rng(s2).standard_normal(u.shape)
    uh = T.forward(u, uh)
    u0 = T.backward(uh).copy()
    uh0 = np.array(uh)
    uh = I.solve(u, uh, dt, (0, kn*dt))
    full = np.array(uh)
    T, I = setup()
    u, uh = sf.Array(T), sf.Function(T)
    u[...] = u0
    uh[...] = uh0
    st['chk'] = Checkpoint('rst', checkevery=kc, data={'0': {'U': [uh]}})
    uh = I.solve(u, uh, dt, (0, (kn-1)*dt))
    T, I = setup()
    chk = Checkpoint('rst')
    st['chk'] = None
    u, uh = sf.Array(T), sf.Function(T)
    chk.read(uh, 'U')
    chk.open()
    t0, n0 = float(chk.f.attrs['t']), int(chk.f.attrs['tstep'])
    chk.close()
    mon.check(n0 == (kn-1)//kc*kc and abs(t0-n0*dt) < 1e-12, 'restart:time', '%s: step %d t %r, every %d of %d' % (integ, n0, t0, kc, kn-1))
    u = T.backward(uh, u)
    uh = I.solve(u, uh, dt, (t0, kn*dt))
    err = np.max(np.abs(np.asarray(uh)-full))
    mon.event('restarted computation')
    mon.seen('restart', integ, dim)
    mon.check(err <= 1e-13*max(1, np.max(np.abs(full))), 'restart:continuation', '%s dim %d err %.1e of %.1e from step %d of %d' % (integ, dim, err, np.max(np.abs(full)), n0, kn))


if __name__ == '__main__':
    vh.main('P14', cases, run, RULE)
