"""Turn plant specs (python files in a folder) into seeded/<id>/ folders.

usage: plant.py SPECDIR [ids...]   each spec defines prop, needs, breaks, edits=[(file, old, new)], demo (python text)
The edits are made in a scratch copy of /repo, the demonstration must pass without and fail with them.
"""
import os
import sys
import json
import glob
import shutil
import subprocess as sp

PY = '/opt/venv/bin/python'
SEED = '/verif/seeded'


def sh(cmd, cwd, env=None):
    e = dict(os.environ, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    r = sp.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=900)
    return r.returncode, (r.stdout+r.stderr)[-1500:]


def plant(path, base):
    pid = os.path.basename(path)[:-3]
    ns = {}
    exec(compile(open(path).read(), path, 'exec'), ns)
    c = '/tmp/pl/copy_'+pid
    shutil.rmtree(c, ignore_errors=True)
    sh(f'cp -a /repo {c}', '/')
    pyx = False
    for f, old, new in ns['edits']:
        p = os.path.join(c, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(pid, 'EDIT MATCHES', s.count(old), 'TIMES', f, repr(old[:60]))
            return
        open(p, 'w').write(s.replace(old, new))
        pyx |= f.endswith(('.pyx', '.cpp', '.c', '.h'))
    if pyx:
        r, o = sh('CFLAGS=-w '+PY+' setup.py build_ext --inplace -j 8', c)
        if r:
            print(pid, 'BUILD FAILS', o)
            return
    d = os.path.join(SEED, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d+'/demo.py', 'w').write(ns['demo'].lstrip('\n'))
    run = ns.get('run', '/opt/venv/bin/python "$here/demo.py"')
    open(d+'/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the behaviour is right; non-zero: it is broken\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                                  'export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'+run+'\n')
    r, diff = 0, sp.run(['git', 'diff'], cwd=c, capture_output=True, text=True).stdout
    open(d+'/patch.diff', 'w').write(diff)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d+'/meta.json', 'w'), indent=1)
    r0, o0 = sh(f'bash {d}/demo.sh', '/repo')
    r1, o1 = sh(f'bash {d}/demo.sh', c, {'PYTHONPATH': c})
    ok = r0 == 0 and r1 != 0 and diff
    print(pid, 'OK' if ok else 'BAD', 'clean', r0, 'patched', r1, o1.strip().splitlines()[-1:][:1] if ok else (o0[-600:], o1[-600:]))
    shutil.rmtree(c, ignore_errors=True)
    if not ok:
        shutil.rmtree(d, ignore_errors=True)


specs = sorted(glob.glob(sys.argv[1]+'/*.py'))
for s in specs:
    if len(sys.argv) == 2 or os.path.basename(s)[:-3] in sys.argv[2:]:
        plant(s, None)
