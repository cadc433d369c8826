"""Child of p14: writes checkpoints whose contents follow from the step number.
argv: spec.json   (may run under mpirun, or be killed at any write)"""
import os
import sys
import json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import numpy as np          # noqa: E402


def state(name, i, shape, char):
    rs = np.random.default_rng([i, len(name), ord(name[0])])
    a = rs.standard_normal(shape)
    if char == 'D':
        a = a+1j*rs.standard_normal(shape)
    return a


def spaces(sp, comm, sf):
    bs = []
    nd = len(sp['N'])
    for ax, n in enumerate(sp['N']):
        if sp['fam'][ax] == 'F':
            bs.append(sf.FunctionSpace(n, 'F', dtype='d' if sp['real'] and ax == max(q for q in range(nd) if sp['fam'][q] == 'F') else 'D'))
        else:
            bs.append(sf.FunctionSpace(n, sp['fam'][ax], bc=(0, 0)))
    r = [q for q in range(nd) if sp['fam'][q] == 'F']
    axes = tuple([q for q in range(nd) if sp['fam'][q] != 'F']+r)
    T = sf.TensorProductSpace(comm, bs, axes=axes, dtype='d' if sp['real'] else 'D')
    return T, sf.VectorSpace(T)


def main():
    sp = json.load(open(sys.argv[1]))
    os.chdir(sp['dir'])
    os.environ['CRASH_PID'] = str(os.getpid())
    import vh
    vh.use_repo()
    import shenfun as sf
    T, V = spaces(sp, sf.comm, sf)
    U, U0, p = sf.Function(V), sf.Function(V), sf.Function(T)
    data = {'0': {'U': [U], 'phi': [p]}, '1': {'U': [U0]}}
    from shenfun.io import Checkpoint
    chk = Checkpoint(sp['name'], checkevery=sp['every'], data=data)
    log = open(sp['log'], 'a') if sf.comm.rank == 0 else None
    start = 0
    if sp.get('resume'):
        if sp.get('separate'):
            chk2, chk = chk, Checkpoint(sp['name'])
        chk.read(U, 'U')
        chk.read(p, 'phi')
        chk.read(U0, 'U', step=1)
        chk.open()
        start = int(chk.f.attrs['tstep'])+1
        t0 = float(chk.f.attrs['t'])
        chk.close()
        if sp.get('separate'):
            chk = chk2
        if log:
            log.write('resumed %d %r %r\n' % (start-1, t0, bool(np.all(U == state('U', start-1, U.global_shape, U.dtype.char)[U.local_slice()])))) or log.flush()
    for i in range(start, sp['n']):
        for a, nm, k in ((U, 'U', i), (p, 'phi', i), (U0, 'U', i-1 if i else 1000)):
            a[...] = state(nm, k, a.global_shape, a.dtype.char)[a.local_slice()]
        if i in sp.get('kill', []) and sf.comm.rank == 0:
            open('killshenfun', 'w').close()
        if sf.comm.rank == 0:
            log.write('start %d\n' % i)
            log.flush()
        sf.comm.barrier()
        try:
            chk.update(i*0.25, i)
        except SystemExit:
            if log:
                log.write('killed %d\n' % i)
                log.flush()
            raise
        if log:
            log.write('done %d\n' % i)
            log.flush()


if __name__ == '__main__':
    main()
