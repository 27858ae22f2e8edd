"""Check driver: deterministic cases, one forked process per case, evidence,
violations with replay files, known findings."""
import argparse
import errno
import importlib
import json
import os
import pickle
import selectors
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Result(object):
    """what the monitors of one case observed"""

    def __init__(self):
        self.viols = []
        self.known = []
        self.counts = Counter()
        self.sigs = set()
        self.sample = None
        self.inconclusive = []

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def sig(self, *parts):
        """signature of a distinct, non-trivial thing that was judged"""
        self.sigs.add(zlib.crc32(repr(parts).encode()))

    def unit(self, *parts, **kw):
        """one evaluated case; with parts, a non-trivial one with that
        signature"""
        self.counts['units'] += 1
        if parts and kw.get('nontrivial', True):
            self.sig(*parts)

    def viol(self, msg):
        if len(self.viols) < 20:
            self.viols.append(str(msg)[:800])

    def found(self, key, msg):
        self.known.append((key, str(msg)[:400]))

    def check(self, ok, msg):
        self.count('assertions')
        if not ok:
            self.viol(msg() if callable(msg) else msg)
        return ok


def rng_for(seed, prop, *idx):
    import numpy as np
    return np.random.default_rng(
        [int(seed), zlib.crc32(prop.encode())] +
        [zlib.crc32(repr(i).encode()) for i in idx])


def known_keys(prop):
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.split()
            if len(w) >= 3 and w[0] == 'known:' and \
                    w[1] == 'property=' + prop and w[2].startswith('key='):
                r[w[2][4:]] = ' '.join(w[3:])
    return r


def warm(prop_mod):
    """import and compile everything once, before forking"""
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import logging
    import numpy as np
    from . import run
    run.import_metsim()
    if getattr(prop_mod, 'WARM', True):
        try:
            import metsim.physics as ph
            ph.solar_geom(np.float64(100.), np.float64(10.), 0.0065)
        except Exception:
            pass      # the cases will tell
        import scipy.interpolate, xarray, dask, pandas   # noqa


def preload(argv):
    """start again with the monitor of the NetCDF library interposed"""
    if os.environ.get('NCMON'):
        return
    import subprocess
    src = os.path.join(VERIF, 'mon', 'native', 'ncmon.c')
    d = os.path.join(VERIF, 'build')
    so = os.path.join(d, 'ncmon-%08x.so' % (zlib.crc32(b''.join(
        open(os.path.join(VERIF, 'mon', 'native', f), 'rb').read()
        for f in ('ncmon.c', 'ncmon_wrap.h')))))
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O1', '-g', '-shared', '-fPIC', '-w', '-o',
                        tmp, src, '-ldl', '-lpthread'], check=True)
        os.replace(tmp, so)
    env = dict(os.environ, NCMON=so, LD_PRELOAD=so)
    env.pop('NCMON_LOG', None)
    sys.stdout.flush()
    os.execve(sys.executable, [
        sys.executable, '-W', 'ignore', '-c',
        'import sys; from mon.core import main; sys.exit(main())'] + argv, env)


def ncmon():
    import ctypes
    lib = ctypes.CDLL(os.environ['NCMON'])
    lib.ncmon_start.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_uint]
    lib.ncmon_fail.argtypes = [ctypes.c_long, ctypes.c_int]
    for f in ('ncmon_calls', 'ncmon_overlaps', 'ncmon_threads', 'ncmon_ops'):
        getattr(lib, f).restype = ctypes.c_long
    lib.ncmon_failed.restype = lib.ncmon_op.restype = ctypes.c_char_p
    lib.ncmon_op.argtypes = [ctypes.c_long]
    return lib


def child(mod, spec, seed, tier, scratch, fd, prop=None):
    import warnings
    import logging
    try:
        os.setsid()
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        # keep whatever the code under test prints out of our own output
        log = os.open(os.path.join(scratch, 'stdio.log'),
                      os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(log, 1)
        os.dup2(log, 2)
        devnull = os.open('/dev/null', os.O_RDONLY)
        os.dup2(devnull, 0)
        os.chdir(scratch)
        os.environ['TMPDIR'] = scratch
        tempfile.tempdir = scratch
        warnings.simplefilter('ignore')
        res = Result()
        from .run import RunFailed
        try:
            mod.case(spec, rng_for(seed, mod.PROP, spec), scratch, res)
        except RunFailed as e:
            tb = ''.join(traceback.format_exception(
                type(e.exc), e.exc, e.exc.__traceback__)[-3:])
            res.viol('a valid simulation failed with %s | %s' % (
                e, ' '.join(tb.split())[-300:]))
        except (MemoryError, BrokenPipeError):
            raise
        except Exception as e:      # noqa
            if isinstance(e, OSError) and e.errno in (
                    errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.EMFILE,
                    errno.ENFILE):
                raise
            # what the run left behind could not be read or interpreted
            tb = traceback.extract_tb(e.__traceback__)
            res.viol('the output could not be judged: %s: %s (%s)' % (
                type(e).__name__, str(e)[:300], ' < '.join(
                    '%s:%d' % (os.path.basename(q.filename), q.lineno)
                    for q in tb[::-1][:4])))
        payload = pickle.dumps(('ok', res))
    except BaseException:
        payload = pickle.dumps(('error', traceback.format_exc()))
    try:
        with os.fdopen(fd, 'wb') as f:
            f.write(payload)
    finally:
        os._exit(0)


def run_cases(mod, specs, seed, tier, workers, timeout, root, deadline=None,
              stop=(False,)):
    """fork one process per case; yields (spec, kind, value)"""
    sel = selectors.DefaultSelector()
    todo = list(enumerate(specs))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < workers and not stop[0] and (
                deadline is None or time.time() < deadline):
            i, spec = todo.pop()
            scratch = os.path.join(root, 'case%d' % i)
            os.makedirs(scratch)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(mod, spec, seed, tier, scratch, w)
            os.close(w)
            lim = spec.get('timeout', timeout) if isinstance(spec, dict) \
                else timeout
            live[r] = [pid, spec, time.time() + lim, b'', scratch, None]
            sel.register(r, selectors.EVENT_READ)
        if not live:
            break
        for key, _ in sel.select(timeout=1.0):
            c = live[key.fd]
            data = os.read(key.fd, 1 << 20)
            if data:
                c[3] += data
                continue
            yield finish(sel, live, key.fd)
        now = time.time()
        for c in live.values():
            if c[5] is None:
                done, status = os.waitpid(c[0], os.WNOHANG)
                if done:        # processes it left may hold the pipe open
                    c[5] = status
                    try:
                        os.killpg(c[0], signal.SIGKILL)
                    except OSError:
                        pass
        for fd in [f for f, c in live.items() if now > c[2]]:
            c = live[fd]
            try:
                os.killpg(c[0], signal.SIGKILL)
            except OSError:
                if c[5] is None:
                    os.kill(c[0], signal.SIGKILL)
            yield finish(sel, live, fd, timed_out=True)
    for i, spec in todo:
        yield spec, 'skipped', None


def supervised(mod, specs, seed, tier, workers, timeout, root, deadline,
               first=False):
    """as run_cases; a case that did not end or died is run once more, alone,
    before it is believed, so that a loaded machine raises no alarm"""
    again = []
    stop = [False]
    for spec, kind, val in run_cases(mod, specs, seed, tier, workers, timeout,
                                     os.path.join(root, 'a'), deadline, stop):
        if kind in ('timeout', 'died'):
            again.append((spec, kind, val))
            if len(again) >= 4:
                stop[0] = True      # enough to tell; start no more
        else:
            if first and kind == 'ok' and val.viols:
                stop[0] = True
            yield spec, kind, val, 0
    for k, (spec, kind, val) in enumerate(again):
        if k >= 2:                  # two repetitions decide
            yield spec, 'skipped', None, 0
            continue
        for s, kd, v in run_cases(mod, [spec], seed, tier, 1, timeout,
                                  os.path.join(root, 'r%d' % k)):
            yield s, kd, v, 1


def finish(sel, live, fd, timed_out=False):
    pid, spec, _, buf, scratch, status = live.pop(fd)
    sel.unregister(fd)
    os.close(fd)
    if status is None:
        _, status = os.waitpid(pid, 0)
    try:                         # anything the case left running
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    tail = ''
    try:
        with open(os.path.join(scratch, 'stdio.log'), errors='replace') as f:
            tail = f.read()[-1500:]
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return spec, 'timeout', tail
    if not buf:
        return spec, 'died', 'status %d: %s' % (status, tail)
    kind, val = pickle.loads(buf)
    return spec, kind, val


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    ap.add_argument('--only', type=int, help='run just this case')
    ap.add_argument('--first', action='store_true',
                    help='start no more cases after the first violation')
    ap.add_argument('--workers', type=int, default=int(
        os.environ.get('VERIF_WORKERS', '8')))
    a = ap.parse_args(argv)
    mod = importlib.import_module('mon.checks.' + a.prop.lower())
    prop = mod.PROP
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(a.seed) if str(a.seed).isdigit() else zlib.crc32(
        str(a.seed).encode())
    t0 = time.time()
    if getattr(mod, 'PRELOAD', False):
        preload(sys.argv[1:] if argv is None else list(argv))
    warm(mod)
    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier, specs = rep['seed'], rep['tier'], [rep['spec']]
    else:
        specs = mod.plan(tier)
        if a.only is not None:
            specs = [specs[a.only]]
    root = tempfile.mkdtemp(prefix='msv_%s_' % prop)
    timeout = getattr(mod, 'TIMEOUT', 240)
    counts, sigs, samples = Counter(), set(), []
    viols, errors, known = [], [], {}
    ncases = skipped = retries = 0
    # generous watchdogs: a check has 900 s in all
    deadline = t0 + (float(os.environ.get('VERIF_DEADLINE', '600'))
                     if tier == 'quick' else 6 * 3600)
    try:
        for spec, kind, val, retry in supervised(
                mod, specs, seed, tier, a.workers, timeout, root, deadline,
                a.first):
            if kind == 'skipped':
                skipped += 1
                continue
            retries += retry
            ncases += 1
            if kind == 'ok':
                counts.update(val.counts)
                sigs |= val.sigs
                if val.sample is not None and len(samples) < 12:
                    samples.append(val.sample)
                for m in val.viols:
                    viols.append((spec, m))
                for k, m in val.known:
                    known.setdefault(k, []).append((spec, m))
            elif kind == 'timeout':
                viols.append((spec, 'the simulation did not end (stopped '
                              'after %s s) %s' % (spec.get(
                                  'timeout', timeout), val[-300:])))
            elif kind == 'died':
                viols.append((spec, 'the process running the simulation died: '
                              + ' '.join(val.split())[-500:]))
            else:
                errors.append((spec, val))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    listed = known_keys(prop)
    for k, occ in sorted(known.items()):
        if k in listed:
            print('KNOWN-FINDING: property=%s %s (seen in %d cases, e.g. %s)'
                  % (prop, listed[k], len(occ), occ[0][1]))
        else:
            viols.extend(occ)
    need = getattr(mod, 'REQUIRED', [])
    lacking = [] if (a.replay or a.only is not None) else [
        n for n in need if counts[n] == 0]
    wall = time.time() - t0
    status = 0
    if viols:
        status = 1
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        spec, msg = viols[0]
        path = os.path.join(rdir, '%s-%d-%s.json' % (
            prop, seed, zlib.crc32(repr(spec).encode())))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, spec=spec,
                           messages=[m for s, m in viols if s == spec],
                           replay='./check %s --replay %s' % (prop, path)),
                      f, indent=1)
        seen = Counter()
        for s, m in viols:
            if seen[repr(s)] < 2 and sum(seen.values()) < 12:
                print('  case %s: %s' % (json.dumps(s), m))
            seen[repr(s)] += 1
        print('%d violations in %d of %d cases' % (
            len(viols), len(seen), ncases))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    elif errors:
        status = 2
        print('ERROR of the check itself in %d cases, first:\n%s\n%s' % (
            len(errors), errors[0][0], errors[0][1]))
    elif lacking:
        status = 2
        print('INCONCLUSIVE: nothing observed for %s' % lacking)
    if not a.replay and a.only is None:
        write_evidence(mod, prop, tier, seed, specs, ncases, counts, sigs,
                       samples, viols, errors, known, wall, skipped, retries)
    print('%s %s seed=%d: %d cases, %d assertions, %d distinct, %.1f s -> %s' % (
        prop, tier, seed, ncases, counts['assertions'], len(sigs), wall,
        {0: 'held', 1: 'VIOLATED', 2: 'no verdict'}[status]))
    return status


def write_evidence(mod, prop, tier, seed, specs, ncases, counts, sigs, samples,
                   viols, errors, known, wall, skipped, retries):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    c = dict(counts)
    cov = dict(
        evaluations=int(c.pop('units', 0)),
        distinct_nontrivial=len(sigs),
        rule=mod.RULE,
        samples=samples[:12],
        cases=ncases,
        observed={k: int(v) for k, v in sorted(c.items())},
        known_findings_seen={k: len(v) for k, v in known.items()},
        check_errors=len(errors), cases_skipped_at_deadline=skipped,
        cases_repeated_alone=retries)
    ev = dict(property=prop, tier=tier, seed=seed,
              level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=len(viols))
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)
