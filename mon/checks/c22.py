import gc
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time

import netCDF4
import numpy as np

from .. import conf, core, run, scen
from .common import files_equal, fresh, sample

PROP = 'C22'
PRELOAD = True
LEVEL = 'fault_enumeration'
TIMEOUT = 260
RULE = ('runs in which one operation on a file (chosen by its number: open, '
        'create, read, define, write, close) fails, or before or after which '
        'the process is killed, or during which the file system is full or a '
        'worker dies, over an output directory that may hold earlier files; '
        'each followed by the same run without the fault, which is compared '
        'with an undisturbed one; distinct by operation, its number, what '
        'happened, scheduler and what was there before')
REQUIRED = ['faults', 'failed_operations', 'killed_before', 'killed_after',
            'reruns_equal', 'dirty_directories', 'inputs_checked',
            'disk_full', 'same_process_reruns', 'threads_faults',
            'worker_deaths', 'programs_killed', 'obstacles',
            'damaged_inputs', 'damaged_among_several', 'stragglers', 'late_opens', 'failed_nc_create',
            'failed_nc_put_vara', 'failed_nc_close', 'failed_nc_get_vara',
            'other_settings']
ASSUMPTIONS = ['faults are injected at the calls into the NetCDF library, '
               'and, for a full disk, below it by a file size limit',
               'a run that gives the complete output in spite of a worker '
               'that died may end normally']


def plan(tier):
    n = 36 if tier == 'quick' else 500
    r = []
    for i in range(2 if tier == 'quick' else 12):
        r.append(dict(i=i, pool='processes'))
        r.append(dict(i=i, pool='distributed'))
    r += [dict(i=i, points=16 if tier == 'quick' else 60) for i in range(n)]
    r += [dict(i=i, part=k, of=8, every=1) for i in range(
        0 if tier == 'quick' else 12) for k in range(8)]
    return r


UNITS = {'temp': ['K'], 't_min': ['K'], 't_max': ['K'], 'prec': ['mm s-1'],
         'vapor_pressure': ['hPa', 'kPa'], 'tskc': ['%'],
         'rel_humid': ['fraction'], 'pet': ['mm h-1'],
         'air_pressure': ['hPa', 'Pa']}


def checksums(d):
    r = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            x = os.path.join(base, f)
            r[x] = hashlib.md5(open(x, 'rb').read()).hexdigest()
    return r


def build(rng, small=False):
    s = scen.gen(rng, mask='mixed', nd=int(rng.integers(1, 4)),
                 nlat=int(rng.integers(1, 3)), nlon=int(rng.integers(1, 3)),
                 nhru=2 if small else 3,
                 time_step=int(rng.choice([60, 180, 360, 1440])))
    s.opt['out_vars'] = {v: s.opt['out_vars'][v] for v in list(
        s.opt['out_vars'])[:int(rng.integers(2, 5))]}
    if rng.random() < .5:
        s.opt['out_freq'] = str(rng.choice(['D', '2D', 'MS']))
    if rng.random() < .6:
        s.opt['chunks'] = {d: int(rng.integers(1, 3)) for d in s.dims}
    return s


def dirty(rng, out, s, names, undisturbed, res, p):
    """what may lie where the output goes"""
    os.makedirs(out, exist_ok=True)
    kind = str(rng.choice(['none', 'none', 'garbage', 'cut', 'other', 'other',
                           'empty', 'longer', 'readable', 'settings']))
    if kind == 'none':
        return kind
    if kind == 'settings':
        # an earlier run with other settings
        q = dict(p, out_vars={v: dict(e) for v, e in p['out_vars'].items()})
        what = str(rng.choice(['units', 'units', 'precision', 'step',
                               'tunables', 'chunks']))
        if what == 'units':
            for v, e in q['out_vars'].items():
                if v in UNITS:
                    e['units'] = str(rng.choice(UNITS[v]))
        elif what == 'precision':
            q['out_precision'] = 'f4'
        elif what == 'step' and s.ts < 1440:
            q['time_step'] = 120 if s.ts == 60 else 60
        elif what == 'chunks':
            q['chunks'] = {} if q.get('chunks') else {d: 1 for d in s.dims}
        else:
            q.update(rain_scalar=.1, prec_type='triangle', lw_type='tva',
                     tday_coef=.1)
        ok, v = fresh(lambda: run.simulate(q))
        res.check(ok, lambda: 'a valid run failed: %s' % v)
        res.count('dirty_directories')
        res.count('other_settings')
        return kind + ' ' + what
    for n in names:
        f = os.path.join(out, n)
        old = open(os.path.join(undisturbed, n), 'rb').read()
        if kind == 'garbage':
            open(f, 'wb').write(rng.bytes(3000))
        elif kind == 'cut':
            open(f, 'wb').write(old[:int(rng.integers(1, len(old)))])
        elif kind == 'empty':
            open(f, 'wb').close()
        elif kind == 'readable':
            # an earlier run of the same settings with other values
            open(f, 'wb').write(old)
            with netCDF4.Dataset(f, 'r+') as nc:
                for v in nc.variables.values():
                    if v.dimensions and v.dimensions[0] == 'time' and \
                            v.ndim > 1:
                        v[:] = -1234.5
        else:
            with netCDF4.Dataset(f, 'w') as nc:
                nc.createDimension('time', None)
                for d, z in zip(s.dims, s.shape):
                    nc.createDimension(d, z)
                nc.title = 'an earlier file'
                nc.note = 'left from before'
                for v in list(s.opt['out_vars']) + ['left_over']:
                    q = nc.createVariable(v, 'f8', ('time',) + s.dims)
                    q.remark = 'left'
                    q[:] = np.full((40 if kind == 'longer' else 1,) + s.shape,
                                   777.)
                q = nc.createVariable('time', 'i4', ('time',))
                q.units = 'days since 1800-01-01'
                q[:] = np.arange(40 if kind == 'longer' else 1)
    res.count('dirty_directories')
    return kind


def attempt(lib, p, k, act, limit=None, again=False):
    """run p with a fault; what came of it"""
    def go():
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if k:
            lib.ncmon_fail(k, act)
        err = None
        try:
            run.simulate(dict(p))
        except run.RunFailed as e:
            err = str(e)
        hit = lib.ncmon_failed().decode()
        lib.ncmon_fail(0, 0)
        if again and err is not None:
            gc.collect()
            try:
                run.simulate(dict(p))
            except run.RunFailed as e:
                raise RuntimeError('RunFailed %s after %s (%s)' % (
                    e, hit, err))
        return err, hit
    return fresh(go, 100)


def count_ops(lib, p):
    def go():
        lib.ncmon_fail(0, 0)
        run.simulate(dict(p))
        return [lib.ncmon_op(i).decode() for i in range(lib.ncmon_ops())]
    ok, ops = fresh(go)
    if not ok:
        raise RuntimeError(ops)
    return ops


# what is done to output files, or opens and closes any
RARE = ('nc_open', 'nc_create', 'nc_close', 'nc_put_var', 'nc_put_vara',
        'nc_sync', 'nc_enddef')


def choose(rng, ops, n):
    """n operations, those that matter most more often than their share"""
    rare = [k for k, o in enumerate(ops) if o in RARE]
    r = []
    for _ in range(n):
        if rare and rng.random() < .6:
            r.append(rare[int(rng.integers(len(rare)))] + 1)
        else:
            r.append(int(rng.integers(1, len(ops) + 1)))
    return r


def rerun(res, what, p, ref, sums, ind):
    """the same run once more, undisturbed"""
    def go():
        run.simulate(dict(p))
    ok, v = fresh(go)
    if not res.check(ok, lambda: '%s: running again fails: %s' % (what, v)):
        return
    out = run.Out(p['out_dir'])
    d = files_equal(ref, out)
    res.check(d is None, lambda: '%s: running again gives other output than '
              'an undisturbed run: %s' % (what, d))
    res.count('reruns_equal')
    unmodified(res, what, sums, ind)


def unmodified(res, what, sums, ind):
    now = checksums(ind)
    res.check(now == sums, lambda: '%s: input files were modified: %s' % (
        what, [os.path.basename(k) for k in set(now) | set(sums)
               if now.get(k) != sums.get(k)]))
    res.count('inputs_checked')


def case(spec, rng, scratch, res):
    if 'pool' in spec:
        return workers(spec, rng, scratch, res)
    lib = core.ncmon()
    if 'part' in spec:
        rng = core.rng_for(1000 + spec['i'], PROP, 'all', spec['i'])
    s = build(rng, 'part' in spec)
    ind = os.path.join(scratch, 'in')
    p = run.write_inputs(s, ind)
    p['out_dir'] = os.path.join(scratch, 'out')
    p['scheduler'] = 'threads' if rng.random() < .35 else 'sync'
    p['num_workers'] = int(rng.integers(1, 4))
    if 'part' in spec:
        p['scheduler'] = 'sync'
    ops = count_ops(lib, p)
    n = len(ops)
    sums = checksums(ind)
    ref = run.Out(p['out_dir'])
    res.check(n > 20 and bool(ref.files), 'nothing was written')
    # all runs write to the same place
    first = os.path.join(scratch, 'undisturbed')
    os.rename(p['out_dir'], first)
    if 'part' in spec:
        points = [(k, a) for k in range(1, n + 1) for a in (1, 2, 3)]
        points = points[spec['part']::spec['of']]
    else:
        points = [(k, int(rng.choice([1, 1, 2, 3])))
                  for k in choose(rng, ops, spec['points'])]
    for j, (k, act) in enumerate(points):
        q = dict(p)
        before = dirty(rng, q['out_dir'], s, ref.files, first, res, p)
        again = act == 1 and rng.random() < .3
        ok, v = attempt(lib, q, k, act, again=again)
        what = 'operation %d of %d %s (%s, %s, files there: %s)' % (
            k, n, {1: 'failing', 2: 'not reached by a killed process',
                   3: 'the last of a killed process'}[act], p['scheduler'],
            v[1] if ok else '-', before)
        if act == 1:
            if again and not ok and 'RunFailed' in v:
                res.viol('%s: running again in the same process fails: %s' % (
                    what, v))
                continue
            if not res.check(ok, lambda: '%s: %s' % (what, v)):
                continue
            err, hit = v
            if hit:
                res.check(err is not None, lambda: what + ': the run ended '
                          'normally')
                res.count('failed_operations')
                res.count('failed_' + hit)
                if hit == 'nc_open' and 'nc_create' in ops[:k]:
                    res.count('late_opens')
            else:
                res.check(err is None, lambda: what + ' not reached: %s' % err)
            if again and err is not None:
                d = files_equal(ref, run.Out(q['out_dir']))
                res.check(d is None, lambda: '%s: running again in the same '
                          'process gives other output: %s' % (what, d))
                res.count('same_process_reruns')
            sig = hit
        else:
            if ok and not v[1]:
                sig = 'end'
                res.check(v[0] is None, lambda: what + ': %s' % v[0])
            else:
                res.check(not ok and v == 'the process died',
                          lambda: '%s: %s' % (what, v))
                sig = ''
                res.count('killed_before' if act == 2 else 'killed_after')
        res.count('faults')
        if p['scheduler'] == 'threads':
            res.count('threads_faults')
        res.unit(k, act, sig, p['scheduler'], before, spec['i'])
        rerun(res, what, q, ref, sums, ind)
        shutil.rmtree(q['out_dir'])
    if 'part' in spec:
        return
    full(rng, scratch, res, lib, s, p, ref, sums, ind, first)
    obstacles(rng, scratch, res, s, p, ref, sums, ind)
    damaged(rng, scratch, res, s, p, ind)
    stragglers(rng, scratch, res, s, ind)
    if spec['i'] % 2 == 0:
        program(rng, scratch, res, s, p, n, ref, sums, ind)
    if spec['i'] % 6 == 0:
        res.sample = sample(s, operations=n, points=points[:6],
                            scheduler=p['scheduler'])


def full(rng, scratch, res, lib, s, p, ref, sums, ind, first):
    """no room for the output"""
    size = max(os.path.getsize(os.path.join(first, f))
               for f in ref.files)
    for j in range(2):
        q = dict(p)
        limit = int(rng.integers(1, size - 1))
        ok, v = attempt(lib, q, 0, 0, limit=limit)
        what = 'file size limited to %d of %d bytes' % (limit, size)
        died = not ok and v == 'the process died'
        if not died and res.check(ok, lambda: '%s: %s' % (what, v)):
            if v[0] is None:
                d = files_equal(ref, run.Out(q['out_dir']))
                res.check(d is None, lambda: what + ': the run ended normally '
                          'but its output is not complete: %s' % d)
        res.count('disk_full')
        res.unit('full', limit, p['scheduler'])
        rerun(res, what, q, ref, sums, ind)
        shutil.rmtree(q['out_dir'])


def stragglers(rng, scratch, res, s, ind):
    """a threaded run fails while others of its workers are busy; the next
    run of the same process writes to the same place"""
    s = s.copy()
    if len(s.cells()) < 2:
        s.mask[:] = 1
    if s.mask.size < 2:
        return
    s.opt['chunks'] = {d: 1 for d in s.dims}
    good = run.write_inputs(s, os.path.join(scratch, 'sg'))
    c = s.cells()
    c = c[int(rng.integers(len(c)))]
    t = s.copy()
    t.f['prec'][(0,) + c] = np.nan
    # other data, so that what they write shows
    t.f['wind'] = t.f['wind'] + 50
    t.f['t_max'] = t.f['t_max'] + 3
    bad = run.write_inputs(t, os.path.join(scratch, 'sb'))
    for q in (good, bad):
        q.update(out_dir=os.path.join(scratch, 'sout'), scheduler='threads',
                 num_workers=int(rng.integers(2, 6)))
    naps = rng.uniform(0, .25, 64)

    def first():
        run.simulate(dict(good))
    ok, v = fresh(first)
    res.check(ok, lambda: 'a valid run failed: %s' % v)
    ref = run.Out(good['out_dir'])

    def go():
        import metsim.metsim as m
        real, n = getattr(m, 'wrap_run_cell', None), [0]

        def slow(*a, **kw):
            n[0] += 1
            r = real(*a, **kw)
            time.sleep(naps[n[0] % 64])
            return r
        if real is not None:
            m.wrap_run_cell = slow
        err = None
        try:
            run.simulate(dict(bad))
        except run.RunFailed as e:
            err = str(e)
        if real is not None:
            m.wrap_run_cell = real
        run.simulate(dict(good))
        time.sleep(.3)
        return err
    ok, v = fresh(go)
    if res.check(ok, lambda: 'a run that follows a failed one in the same '
                 'process: %s' % v):
        res.check(v is not None, 'missing values were accepted')
        d = files_equal(ref, run.Out(good['out_dir']))
        res.check(d is None, lambda: 'workers of a failed run wrote into the '
                  'output of the next: %s' % d)
    res.count('stragglers')
    res.unit('stragglers', s.shape, good['num_workers'])


def obstacles(rng, scratch, res, s, p, ref, sums, ind):
    """the output cannot be opened"""
    out = p['out_dir']
    kind = str(rng.choice(['directory', 'file', 'dangling']))
    q = dict(p)
    name = ref.files[int(rng.integers(len(ref.files)))]
    if kind == 'directory':
        os.makedirs(os.path.join(out, name))
        at = os.path.join(out, name)
    elif kind == 'file':
        open(out, 'w').close()
        at = out
    else:
        os.makedirs(out)
        at = os.path.join(out, name)
        os.symlink('/nonexistent/x/y.nc', at)
    def go():
        run.simulate(dict(q))
    ok, v = fresh(go)
    res.check(not ok, lambda: 'the run ended normally although its output '
              'could not be opened (%s)' % kind)
    res.count('obstacles')
    res.unit('obstacle', kind)
    if kind == 'directory':
        os.rmdir(at)
    else:
        os.unlink(at)
    rerun(res, 'output not to be opened (%s)' % kind, q, ref, sums, ind)
    shutil.rmtree(out)


def damaged(rng, scratch, res, s, p, ind):
    """an input file cut short"""
    which = str(rng.choice(['forcing', 'state', 'domain']))
    data = open(p[which], 'rb').read()
    f = os.path.join(scratch, 'cut.nc')
    # an HDF5 file knows its length
    open(f, 'wb').write(data[:int(rng.integers(0, len(data) - 1))])
    q = dict(p, out_dir=os.path.join(scratch, 'dam'))
    q[which] = f
    ok, v = fresh(lambda: run.simulate(dict(q)))
    res.check(not ok, lambda: 'the run ended normally with a truncated %s '
              'file' % which)
    res.count('damaged_inputs')
    res.unit('cut', which)
    # one of several forcing files, of a period nobody stated
    d = os.path.join(scratch, 'several')
    os.makedirs(d)
    nd = len(s.days)
    which = int(rng.integers(nd))
    for i in range(nd):
        f = os.path.join(d, 'x_%d.nc' % i)
        run.write_nc(f, {k: v[i:i + 1] for k, v in s.f.items()}, s.dims,
                     run.coords_of(s), s.days[i:i + 1], s.calendar)
        if i == which:
            data = open(f, 'rb').read()
            open(f, 'wb').write(data[:int(rng.integers(0, len(data) - 1))])
    q = dict(p, out_dir=os.path.join(scratch, 'dam2'),
             forcing=os.path.join(d, 'x_*.nc'))
    q['forcing_vars'] = {k: k for k in s.f}
    for k in ('start', 'stop'):
        if rng.random() < .7:
            q.pop(k, None)
    ok, v = fresh(lambda: run.simulate(dict(q)))
    res.check(not ok, lambda: 'the run ended normally with one of %d forcing '
              'files truncated' % nd)
    res.count('damaged_among_several', nd > 1)
    res.unit('cut one of several', nd, which, 'start' in q, 'stop' in q)


def program(rng, scratch, res, s, p, n, ref, sums, ind):
    """the command line program"""
    d = os.path.join(scratch, 'prog')
    os.makedirs(d)
    q = dict({k: v for k, v in p.items() if k not in conf.NOTFILE},
             out_dir=os.path.join(d, 'out'))
    path = os.path.join(d, 'c.yaml')
    open(path, 'w').write(conf.yaml_text(q))
    w = os.path.join(os.path.dirname(sys.executable), 'ms')
    cmd = [w] if os.path.exists(w) and not os.environ.get('VERIF_REPO') else [
        sys.executable, '-W', 'ignore', '-c',
        'from metsim.cli.ms import main; main()']
    cmd += [path, '-s', 'sync']
    k, act = int(rng.integers(1, n + 1)), int(rng.choice([1, 2, 3]))
    env = dict(os.environ, NCMON_FAIL_AT=str(k), NCMON_FAIL_ACT=str(act),
               NCMON_LOG=os.path.join(d, 'log'))
    r = subprocess.run(cmd, env=env, capture_output=True, timeout=100)
    hit = 'FAULT' in open(env['NCMON_LOG']).read()
    what = 'the program with operation %d of %d %s' % (
        k, n, ['', 'failing', 'prevented by its end', 'its last'][act])
    if hit:
        res.check(r.returncode != 0, lambda: what + ' ended with status 0')
        res.count('programs_killed')
    else:
        res.check(r.returncode == 0, lambda: what + ' failed: %s' %
                  r.stderr[-200:])
    res.unit('program', k, act)
    env = {a: b for a, b in os.environ.items() if not a.startswith(
        'NCMON_')}
    r = subprocess.run(cmd, env=env, capture_output=True, timeout=100)
    if res.check(r.returncode == 0, lambda: '%s: running again failed: %s' % (
            what, r.stderr[-200:])):
        x = files_equal(ref, run.Out(q['out_dir']), skip=(
            'history', 'NCO', 'out_dir', 'scheduler', 'start', 'stop',
            'forcing', 'domain', 'state', 'verbose') + tuple(s.opt) + (
                'forcing_fmt', 'calendar'))
        res.check(x is None, lambda: '%s: running again gives other output: '
                  '%s' % (what, x))
    unmodified(res, what, sums, ind)


def workers(spec, rng, scratch, res):
    """a worker process dies, or an operation of it fails"""
    s = build(rng)
    s.opt['chunks'] = {d: 1 for d in s.dims}
    ind = os.path.join(scratch, 'in')
    p = run.write_inputs(s, ind)
    p['out_dir'] = os.path.join(scratch, 'out')
    sums = checksums(ind)
    lib = core.ncmon()
    n = len(count_ops(lib, p))
    ref = run.Out(p['out_dir'])
    for j, act in enumerate([int(rng.choice([2, 3])), 1]):
        shutil.rmtree(p['out_dir'])
        q = dict(p, scheduler=spec['pool'],
                 num_workers=int(rng.integers(1, 3)))
        k = int(rng.integers(1, max(n // 3, 2)))
        log = os.path.join(scratch, 'log%d' % j)

        def go():
            # seen by the processes it starts only
            os.environ.update(NCMON_FAIL_AT=str(k), NCMON_FAIL_ACT=str(act),
                              NCMON_LOG=log)
            try:
                run.simulate(dict(q))
            except run.RunFailed as e:
                return str(e)
            return None
        ok, v = fresh(go, 120)
        what = 'operation %d of a worker (%s) %s' % (k, spec['pool'], [
            '', 'failing', 'not reached by its kill', 'its last'][act])
        hit = os.path.exists(log) and 'FAULT' in open(log).read()
        if not res.check(ok, lambda: '%s: %s' % (what, v)):
            continue
        if v is None:
            d = files_equal(ref, run.Out(q['out_dir']), skip=(
                'history', 'NCO', 'out_dir', 'scheduler'))
            res.check(d is None, lambda: '%s: the run ended normally, but '
                      'its output is not complete: %s' % (what, d))
        if hit:
            res.count('worker_deaths')
        else:
            res.count('faults_not_reached')
        res.unit(spec['pool'], k, act, hit)
        rerun(res, what, dict(q, scheduler=p['scheduler']), ref, sums, ind)
