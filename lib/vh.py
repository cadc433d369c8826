"""Shared harness of the runtime-monitoring checks.

A check module defines ``cases(tier, rng)`` (a list of JSON-able dicts, fully
determined by tier and seed) and ``run(case, mon)`` (drives the real code from
/repo and reports every observation to the monitor ``mon``).  ``main`` executes
the cases in a pool of worker processes, gathers what the monitors saw, writes
/verif/evidence/<id>.json and decides the exit status:

  0  every observation was accepted by its oracle (listed known findings apart)
  1  an oracle rejected an observation (VIOLATION line), a case crashed the
     interpreter, raised where the specification promises a result, or hung
  2  inconclusive: the monitors observed (almost) nothing
"""
import argparse
import hashlib
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
FINDINGS = os.path.join(VERIF, 'known_findings.txt')

sys.path.insert(0, os.path.join(VERIF, 'lib'))


# --------------------------------------------------------------------------
# monitor
# --------------------------------------------------------------------------
class Skip(Exception):
    """Raised by a case when the configuration is outside the property."""


class Monitor:
    def __init__(self):
        self.ev = {}
        self.keys = set()
        self.viol = []
        self.skips = []
        self.maxerr = {}

    def event(self, kind, n=1):
        self.ev[kind] = self.ev.get(kind, 0)+n

    def seen(self, *key):
        self.keys.add('/'.join(str(k) for k in key))

    def fail(self, mech, msg):
        self.event('oracle')
        if len(self.viol) < 40:
            self.viol.append({'mech': mech, 'msg': str(msg)[:1500]})

    def check(self, cond, mech, msg=''):
        self.event('oracle')
        if not cond:
            if len(self.viol) < 40:
                self.viol.append({'mech': mech, 'msg': (msg() if callable(msg) else str(msg))[:1500]})
        return bool(cond)

    def close(self, got, ref, tol, mech, msg='', scale=None):
        """relative max-norm comparison; NaN/inf in `got` is a failure"""
        import numpy as np
        got = np.asarray(got)
        ref = np.asarray(ref)
        self.event('oracle')
        if got.shape != ref.shape:
            try:
                got, ref = np.broadcast_arrays(got, ref)
            except ValueError:
                self.viol.append({'mech': mech, 'msg': '%s shape %s vs %s' % (msg, got.shape, ref.shape)})
                return False
        if got.size == 0:
            return True
        if not np.all(np.isfinite(ref)):
            raise RuntimeError('reference is not finite: %s' % msg)
        s = scale if scale is not None else max(1e-300, float(np.max(np.abs(ref))))
        with np.errstate(all='ignore'):
            d = float(np.max(np.abs(got-ref)))
        err = d/s
        if not err <= self.maxerr.get(mech, -1):
            if np.isfinite(err):
                self.maxerr[mech] = err
        if not err <= tol:
            if len(self.viol) < 40:
                self.viol.append({'mech': mech, 'msg': ('%s relerr=%.3e tol=%.1e scale=%.3e' % (msg, err, tol, s))[:1500]})
            return False
        return True

    def skip(self, why):
        self.skips.append(why)

    def dump(self):
        return {'ev': self.ev, 'keys': sorted(self.keys), 'viol': self.viol, 'skips': self.skips,
                'maxerr': self.maxerr}


# --------------------------------------------------------------------------
# environment: run /repo's current python sources with extensions that
# correspond to /repo's current .pyx files
# --------------------------------------------------------------------------
EXTDIRS = ("shenfun/optimization/cython", "shenfun/legendre/fastgl")


def ext_state():
    """Same digest as /opt/vp/stamps.py: inputs of every extension."""
    import glob
    shared = ["setup.py"]
    r = lambda n: open(os.path.join(REPO, n), 'rb')
    cwd = os.getcwd()
    os.chdir(REPO)
    try:
        for d in EXTDIRS:
            shared += glob.glob(d+"/*.pxd")+glob.glob(d+"/*.pxi")+glob.glob(d+"/*.h")
            shared += [f for f in glob.glob(d+"/*.c")+glob.glob(d+"/*.cpp")
                       if b"Generated by Cython" not in open(f, "rb").readline()]
        common = b"".join(n.encode()+open(n, "rb").read() for n in sorted(shared) if os.path.exists(n))
        return {p: hashlib.sha256(common+open(p, "rb").read()).hexdigest()
                for d in EXTDIRS for p in sorted(glob.glob(d+"/*.pyx"))}
    finally:
        os.chdir(cwd)


CXX = ("transforms", "leg2chebm", "Matvec", "la", "evaluate", "fastgl_wrap")


def ensure_ext(sanitize=None):
    """Return directory holding extensions for those .pyx whose in-place .so
    does not correspond to the current source (all of them if sanitize)."""
    import glob
    import sysconfig
    import fcntl
    st = ext_state()
    try:
        old = json.load(open(os.path.join(REPO, 'build/stamps.json')))
    except (OSError, ValueError):
        old = {}
    need = []
    for p, dig in st.items():
        so = glob.glob(os.path.join(REPO, p[:-4]+'.cpython-*.so'))
        if sanitize or old.get(p) != dig or not so:
            need.append((p, dig))
    if not need:
        return ''
    tag = hashlib.sha256(repr((sorted(need), sanitize)).encode()).hexdigest()[:16]
    base = os.environ.get('VERIF_SCRATCH', '/tmp')
    out = os.path.join(base, 'vh-ext-%s' % tag)
    os.makedirs(base, exist_ok=True)
    lock = open(out+'.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, 'DONE')):
            return out
        os.makedirs(out, exist_ok=True)
        code = "import sysconfig,numpy;print('-I'+sysconfig.get_paths()['include'],'-I'+numpy.get_include())"
        inc = subprocess.run([PY, '-c', code], capture_output=True, text=True, check=True).stdout.split()
        suffix = subprocess.run([PY, '-c', "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                                capture_output=True, text=True, check=True).stdout.strip()
        cython = os.path.join(os.path.dirname(PY), 'cython')
        if sanitize:
            flags = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                     '-fno-sanitize-recover=undefined']
            if sanitize != 'asan-ubsan':
                raise ValueError(sanitize)
        else:
            flags = ['-O1']
        errs = []

        def build(p):
            name = os.path.basename(p)[:-4]
            cxx = name in CXX
            src = os.path.join(out, name+('.cpp' if cxx else '.c'))
            cy = [cython]
            if sanitize:
                # The directives in the sources switch the checks off; what is
                # sanitized is exactly the code that ships.
                pass
            r = subprocess.run(cy+(['--cplus'] if cxx else [])+[os.path.join(REPO, p), '-o', src],
                               capture_output=True, text=True, cwd=REPO)
            if r.returncode:
                errs.append((p, r.stdout+r.stderr))
                return
            cc = ['g++', '-std=c++11'] if cxx else ['gcc']
            extra = ['-I'+os.path.join(REPO, os.path.dirname(p))]
            so = os.path.join(out, name+suffix)
            r = subprocess.run(cc+flags+['-w', '-fPIC', '-shared', '-fwrapv',
                                         '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION']
                               + inc+extra+[src, '-o', so, '-lm'], capture_output=True, text=True)
            if r.returncode:
                errs.append((p, r.stderr))
        th = [threading.Thread(target=build, args=(p,)) for p, _ in need]
        [t.start() for t in th]
        [t.join() for t in th]
        if errs:
            raise RuntimeError('extension build failed: %s' % errs)
        open(os.path.join(out, 'DONE'), 'w').close()
        return out
    finally:
        lock.close()


def child_env(extdir='', extra=None):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_EXTDIR=extdir,
             PYTHONPATH=os.path.join(VERIF, 'lib'), HOME=os.environ.get('HOME', '/root'),
             VERIF_REPO=REPO, PYTHONWARNINGS='ignore')
    if extra:
        e.update(extra)
    return e


class _Finder:
    """Loads shenfun from REPO: python modules straight from source (no
    bytecode cache), extensions from VERIF_EXTDIR where present there."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        import importlib.util
        import importlib.machinery
        if name != 'shenfun' and not name.startswith('shenfun.'):
            return None
        rel = name.replace('.', '/')
        pkg = os.path.join(REPO, rel, '__init__.py')
        mod = os.path.join(REPO, rel+'.py')

        class L(importlib.machinery.SourceFileLoader):
            def get_code(self, fullname):
                p = self.get_filename(fullname)
                return self.source_to_code(self.get_data(p), p)
        if os.path.exists(pkg):
            return importlib.util.spec_from_file_location(name, pkg, loader=L(name, pkg),
                                                          submodule_search_locations=[os.path.dirname(pkg)])
        if os.path.exists(mod):
            return importlib.util.spec_from_file_location(name, mod, loader=L(name, mod))
        import glob
        ext = os.environ.get('VERIF_EXTDIR', '')
        if ext:
            so = glob.glob(os.path.join(ext, name.split('.')[-1]+'.cpython-*.so'))
            if so:
                return importlib.util.spec_from_file_location(
                    name, so[0], loader=importlib.machinery.ExtensionFileLoader(name, so[0]))
        so = glob.glob(os.path.join(REPO, rel+'.cpython-*.so'))
        if so:
            return importlib.util.spec_from_file_location(
                name, so[0], loader=importlib.machinery.ExtensionFileLoader(name, so[0]))
        return None


def use_repo():
    """Make ``import shenfun`` load /repo's current tree."""
    if not any(isinstance(f, type) and f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)


# --------------------------------------------------------------------------
# findings
# --------------------------------------------------------------------------
def load_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(2), m.group(3)))
    return out


def signature(v, case):
    return (v['mech']+'|'+json.dumps(case, sort_keys=True)).replace(' ', '')


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------
def worker_loop(cases, run):
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)     # prints of the code under test go to the log
    for line in sys.stdin:
        i = int(line)
        mon = Monitor()
        t0 = time.time()
        run_one(cases[i], run, mon)
        d = mon.dump()
        d.update(i=i, t=time.time()-t0)
        out.write(json.dumps(d)+'\n')
        out.flush()


def run_one(case, run, mon):
    try:
        run(case, mon)
    except Skip as e:
        mon.skip(str(e))
    except Exception as e:    # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in tb:
            if fr.filename.startswith(os.path.realpath(REPO)) or fr.filename.startswith(REPO):
                where = '%s:%s' % (os.path.relpath(fr.filename, REPO), fr.name)
        if not where:
            # never raised inside the code under test: the harness is at fault
            where = 'harness'
        mon.fail('exception:%s@%s' % (type(e).__name__, where),
                 '%s\n%s' % (e, ''.join(traceback.format_tb(e.__traceback__)[-4:])))


# --------------------------------------------------------------------------
# parent
# --------------------------------------------------------------------------
def main(pid, cases, run, rule, level='exploration', assumptions=(), workers=8, case_timeout=400,
         min_oracle=1, env=None, sanitize=None, batch_env=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--only', type=int, nargs='*')
    ap.add_argument('--grep')
    ap.add_argument('-j', type=int, default=workers)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    import random
    rng = random.Random('%s-%s-%d' % (pid, a.tier, a.seed))
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    if a.worker:
        use_repo()
        allc = cases(a.tier, rng) if not a.replay else [json.load(open(a.replay))['case']]
        return worker_loop(allc, run)

    t0 = time.time()
    try:
        extdir = ensure_ext(sanitize)
    except Exception as e:  # pylint: disable=broad-except
        print('INCONCLUSIVE property=%s could not build extensions: %s' % (pid, e))
        sys.exit(2)
    cenv = child_env(extdir, env(extdir) if callable(env) else env)
    cenv['VERIF_TIER'] = a.tier
    cenv['VERIF_SEED'] = str(a.seed)
    import tempfile
    scratch = tempfile.mkdtemp(prefix='vh-%s-' % pid)
    cenv['VERIF_CASEDIR'] = scratch
    cenv['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    cenv['TMPDIR'] = scratch
    # cases are derived identically in parent and workers
    if a.replay:
        allc = [json.load(open(a.replay))['case']]
        idx = [0]
    else:
        use_repo()
        allc = cases(a.tier, rng)
        idx = list(range(len(allc)))
        if a.only:
            idx = a.only
        if a.grep:
            idx = [i for i in idx if re.search(a.grep, json.dumps(allc[i], sort_keys=True).replace(' ', ''))]
    cost = lambda i: -allc[i].get('cost', 1)
    q = queue.Queue()
    for i in sorted(idx, key=cost):
        q.put(i)
    results = {}
    retry = {}
    lock = threading.Lock()
    argv = [PY, os.path.abspath(sys.argv[0]), '--worker', '--tier', a.tier, '--seed', str(a.seed)]
    if a.replay:
        argv += ['--replay', a.replay]

    def drive(wid):
        p = None
        log = open(os.path.join(scratch, 'log.%d' % wid), 'ab+')

        def start():
            return subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=log,
                                    env=cenv, cwd=scratch, start_new_session=True)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            if p is None:
                p = start()
            timer = threading.Timer(allc[i].get('timeout', case_timeout),
                                    lambda pp=p: (setattr(pp, 'hung', True), os.killpg(pp.pid, 9)))
            timer.start()
            try:
                pos = log.seek(0, 2)
                p.stdin.write(b'%d\n' % i)
                p.stdin.flush()
                line = p.stdout.readline()
            except BrokenPipeError:
                line = b''
            timer.cancel()
            if line:
                r = json.loads(line)
            else:
                rc = p.wait()
                log.flush()
                log.seek(pos)
                full = log.read()[-400000:].decode(errors='replace')
                tail = full[-3000:]
                if retry.get(i, 0) < 3 and not getattr(p, 'hung', False) and (
                        'likely to abort' in tail or 'MPI_INIT' in tail.upper() or rc == -9):
                    # the sandbox could not start MPI, or ended the worker: no observation was made
                    retry[i] = retry.get(i, 0)+1
                    q.put(i)
                    p = None
                    continue
                m = re.search(r'ERROR: AddressSanitizer:? *([^\n]*)|runtime error: ([^\n]*)', full)
                if getattr(p, 'hung', False):
                    mech = 'hang'
                elif m:
                    fr = re.search(r'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*/tmp/vh-ext', full[m.start():])
                    mech = 'sanitizer:%s:%s' % ((m.group(1) or m.group(2)).split(' ')[0], fr.group(1) if fr else '?')
                else:
                    mech = 'crash'
                msg = 'worker ended with status %s; %s\n%s' % (rc, m.group(0) if m else '', full[m.start():m.start()+2500] if m else tail[-1500:])
                r = {'i': i, 't': 0, 'ev': {'oracle': 1}, 'keys': [], 'skips': [], 'maxerr': {},
                     'viol': [{'mech': mech, 'msg': msg}]}
                if mech == 'hang' and allc[i].get('slow_ok'):
                    # symbolic construction of unusual spaces has no time bound
                    r.update(ev={}, viol=[], skips=['time limit of a case whose construction is symbolic'])
                p = None
            with lock:
                results[i] = r
                if a.v:
                    print('case %d %.1fs %s %s %s' % (i, r['t'], r['ev'].get('oracle', 0), json.dumps(allc[i]),
                                                   [v['mech'] for v in r['viol']]+r['skips']), flush=True)
        if p is not None:
            try:
                p.stdin.close()
                p.wait(60)
            except Exception:  # pylint: disable=broad-except
                os.killpg(p.pid, 9)
        log.close()
    nw = max(1, min(a.j, len(idx)))
    th = [threading.Thread(target=drive, args=(w,)) for w in range(nw)]
    [t.start() for t in th]
    [t.join() for t in th]

    if os.environ.get('VH_TIMES'):
        for r in sorted([r for r in results.values() if r] if isinstance(results, dict) else [r for r in results if r], key=lambda r: -r.get('t', 0))[:int(os.environ['VH_TIMES'])]:
            print('t=%.1f' % r.get('t', 0), json.dumps(allc[r['i']])[-220:])
    rc = conclude(pid, a.tier, a.seed, allc, results, rule, level, assumptions, time.time()-t0, min_oracle,
                  write=not (a.replay or a.only or a.grep))
    if not os.environ.get('VERIF_KEEP'):
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    if a.v:
        slow = sorted(results.values(), key=lambda r: -r['t'])[:12]
        print('slowest:', [(r['i'], round(r['t'], 1), allc[r['i']]) for r in slow])
    sys.exit(rc)


def conclude(pid, tier, seed, allc, results, rule, level, assumptions, wall, min_oracle=1, write=True):
    findings = load_findings(pid)
    ev, keys, skips, maxerr = {}, set(), {}, {}
    viols, known = [], {}
    for i, r in sorted(results.items()):
        for k, n in r['ev'].items():
            ev[k] = ev.get(k, 0)+n
        keys.update(r['keys'])
        for s in r['skips']:
            skips[s] = skips.get(s, 0)+1
        for k, v in r['maxerr'].items():
            maxerr[k] = max(v, maxerr.get(k, 0))
        for v in r['viol']:
            sig = signature(v, allc[i])
            for rx, pat, what in findings:
                if rx.search(sig):
                    known.setdefault(pat, (what, []))[1].append(i)
                    break
            else:
                viols.append((i, v))
    oracle = ev.get('oracle', 0)
    for rx, pat, what in findings:
        n = len(known.get(pat, (0, []))[1])
        if n:
            print('KNOWN-FINDING: property=%s %s (%d observation(s))' % (pid, what, n))
    rep = os.path.join(VERIF, 'evidence', 'replay')
    shown = {}
    if viols:
        os.makedirs(rep, exist_ok=True)
    for i, v in viols:
        k = v['mech']
        shown[k] = shown.get(k, 0)+1
        if shown[k] > 3:
            continue
        path = os.path.join(rep, '%s-%d-%s.json' % (pid, i, hashlib.sha1(k.encode()).hexdigest()[:6]))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'case': allc[i], 'violation': v}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('   mech=%s case=%s' % (k, json.dumps(allc[i], sort_keys=True)[:600]))
        print('   '+v['msg'].replace('\n', '\n   '))
    samples = []
    step = max(1, len(allc)//6)
    for i in list(sorted(results))[::step][:6]:
        samples.append({'case': allc[i], 'events': results[i]['ev'], 'keys': results[i]['keys'][:5]})
    evid = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': {'evaluations': oracle, 'distinct_nontrivial': len(keys), 'rule': rule,
                         'cases': len(results), 'events': ev, 'skipped': skips,
                         'largest_accepted_error': {k: float('%.3g' % v) for k, v in sorted(maxerr.items())[:60]},
                         'samples': samples, 'distinct_examples': sorted(keys)[::max(1, len(keys)//12)][:12]},
            'wall_s': round(wall, 2), 'violations': len(viols),
            'known_findings': {p: len(x[1]) for p, x in known.items()}}
    if assumptions:
        evid['assumptions'] = list(assumptions)
    if write:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid+'.json'), 'w') as f:
            json.dump(evid, f, indent=1)
    print('%s tier=%s seed=%d cases=%d oracle-evaluations=%d distinct=%d skipped=%d known=%d violations=%d wall=%.1fs'
          % (pid, tier, seed, len(results), oracle, len(keys), sum(skips.values()), len(known), len(viols), wall))
    if viols:
        return 1
    empty = [i for i, r in results.items() if not r['ev'].get('oracle') and not r['skips']]
    if oracle < min_oracle or len(empty) > 0.1*max(1, len(results)):
        print('INCONCLUSIVE property=%s monitors observed too little (oracle=%d, silent cases=%d)'
              % (pid, oracle, len(empty)))
        return 2
    return 0


if __name__ == '__main__':
    # setup: nothing to fetch; make sure stale extensions can be rebuilt
    print('extensions:', ensure_ext() or 'in-place build is current')
