import copy
import datetime as dt
import os
import subprocess
import sys

import numpy as np

from .. import conf, run, scen
from .common import fresh, sample

PROP = 'C19'
RULE = ('a valid run of a random scenario, which must succeed, and the same '
        'run spoilt in one or two ways (settings, days, cells, files), which '
        'must end with an error or a non-zero exit status; failures of one '
        'chunk under every scheduler; distinct by kind of fault, value, '
        'place, form and scheduler')
REQUIRED = ['valid_runs', 'invalid_runs', 'cli_invalid', 'program_invalid',
            'chunk_failures', 'missing_value_runs', 'combined_faults',
            'bounds_accepted', 'worker_errors', 'threads_failures',
            'processes_failures', 'distributed_failures',
            'cell_files', 'listed_values']
ASSUMPTIONS = ['what counts as invalid is the list in the statement and '
               'files or variables that do not exist']
TIMEOUT = 300


def plan(tier):
    n = 64 if tier == 'quick' else 900
    return [dict(i=i) for i in range(n)] + [
        dict(i=i, sched=c) for i in range(3 if tier == 'quick' else 30)
        for c in ('threads', 'sync', 'processes', 'distributed')]


def a_cell(rng, s):
    c = s.cells()
    return c[int(rng.integers(len(c)))]


# ---- faults of the settings: name -> f(rng, s, p) changing p, returning a
# note, or None where it does not apply

def time_step(rng, s, p):
    v = [7, 11, 13, 14, 17, 25, 28, 50, 70, 100, 121, 200, 210, 275, 350, 361,
         370, 480, 720, 1439, 1441, 2880, 14400, 0, -60, -360]
    p['time_step'] = int(rng.choice(v))
    if rng.random() < .1:
        return p.pop('time_step') and 'omitted'
    return p['time_step']


def method(rng, s, p):
    p['method'] = str(rng.choice(['mtclm', 'foo', 'pass', 'default']))
    return p['method']


def named(key, values):
    def f(rng, s, p):
        p[key] = str(rng.choice(values))
        return p[key]
    return f


def out_var(rng, s, p):
    bad = ['foo', 'precip', 'Temp', 'tair', 'tdew', 'dtr']
    bad += ['temp', 'longwave', 'rel_humid', 'air_pressure', 'spec_humid'] \
        if s.ts == 1440 else ['t_min', 't_max', 'pet', 'daylength', 't_day']
    v = str(rng.choice(bad))
    o = dict(p['out_vars']) if rng.random() < .7 else {}
    o[v] = dict(out_name=v)
    p['out_vars'] = o
    return v


def no_forcing(rng, s, p):
    p['forcing'] = ''
    return True


def no_out(rng, s, p):
    p['out_vars'] = {}
    return True


def no_vars(rng, s, p):
    p['forcing_vars'] = {}
    return True


def no_required(rng, s, p):
    v = ['t_min', 't_max', 'prec']
    if s.opt['method'] == 'passthrough':
        v.append('shortwave')
    v = str(rng.choice(v))
    p['forcing_vars'] = {a: b for a, b in p['forcing_vars'].items() if b != v}
    return v


def empty(rng, s, p):
    k = str(rng.choice(['out_dir', 'forcing_fmt']))
    p[k] = ''
    return k


def no_such_var(rng, s, p):
    k = str(rng.choice(['forcing_vars', 'state_vars', 'domain_vars']))
    q = dict(p[k])
    old = str(rng.choice([x for x in q if x not in ('lat', 'lon')]))
    q = {('nn_' + a if a == old else a): b for a, b in q.items()}
    p[k] = q
    return k, old


def no_such_file(rng, s, p):
    k = str(rng.choice(['forcing', 'domain', 'state']))
    p[k] = p[k] + '.gone'
    return k


def early(rng, s, p):
    n = int(rng.choice([1, 1, 2, 30, 400]))
    p['start'] = p['start'] - dt.timedelta(days=s.pad[0] + n)
    if scen.noleap(s.calendar) and (p['start'].month, p['start'].day) == \
            (2, 29):
        p['start'] -= dt.timedelta(days=1)
    return n


def late(rng, s, p):
    n = int(rng.choice([1, 1, 2, 30, 400]))
    p['stop'] = p['stop'] + dt.timedelta(days=s.pad[1] + n)
    if scen.noleap(s.calendar) and (p['stop'].month, p['stop'].day) == (2, 29):
        p['stop'] += dt.timedelta(days=1)
    return n


def backwards(rng, s, p):
    if len(s.days) < 2:
        return None
    p['start'], p['stop'] = p['stop'], p['start']
    return True


SETTINGS = dict(
    time_step=time_step, method=method,
    out_precision=named('out_precision', ['f2', 'f16', 'double', 'i4', '']),
    prec_type=named('prec_type', ['normal', 'triangular', 'unifrom', 'none']),
    lw_type=named('lw_type', ['stefan', 'anders', 'cloud_deardorff', 'x']),
    lw_cloud=named('lw_cloud', ['deardorff', 'prata', 'clear', 'x']),
    forcing_fmt=named('forcing_fmt', ['csv', 'nc', 'hdf']),
    out_var=out_var, no_forcing=no_forcing, no_out=no_out, no_vars=no_vars,
    no_required=no_required, empty=empty, no_such_var=no_such_var,
    no_such_file=no_such_file, early=early, late=late, backwards=backwards)


# ---- faults of the data: f(rng, s) changing s, returning a note

def inverted(rng, s):
    i = a_cell(rng, s)
    d = int(rng.integers(len(s.days)))
    dx = float(rng.choice([1e-3, .5, 3., 20.]))
    s.f['t_max'][(d,) + i] = s.f['t_min'][(d,) + i] - dx
    return d == 0, d == len(s.days) - 1, dx


def nan_forcing(rng, s):
    i = a_cell(rng, s)
    v = ['t_min', 't_max', 'prec']
    if s.opt['method'] == 'passthrough':
        v.append('shortwave')
    v = str(rng.choice(v))
    d = int(rng.integers(len(s.days)))
    if rng.random() < .2:
        s.f[v][(slice(None),) + i] = np.nan
    else:
        s.f[v][(d,) + i] = np.nan
    return v, d == 0, d == len(s.days) - 1


def nan_state(rng, s):
    # needed for every day of the run; of the temperatures only the last 29
    # days (or all 90, where the run covers them) matter, so break those
    i = a_cell(rng, s)
    v = str(rng.choice(['t_min', 't_max', 'prec']))
    d = int(rng.integers(1, 90)) if v == 'prec' else \
        int(rng.integers(90 - 29, 90))
    s.s[v][(d,) + i] = np.nan
    return v, d == 89


def nan_elev(rng, s):
    s.elev[a_cell(rng, s)] = np.nan
    return True


def nan_storm(rng, s):
    if s.opt['prec_type'] == 'uniform' or s.ts == 1440:
        return None
    i = a_cell(rng, s)
    m = int(rng.choice(s.months)) - 1
    k = str(rng.choice(['t_pk', 'dur']))
    getattr(s, k)[(m,) + i] = np.nan
    return k


def short_state(rng, s):
    return True            # see spoil


DATA = dict(inverted=inverted, nan_forcing=nan_forcing, nan_state=nan_state,
            nan_elev=nan_elev, nan_storm=nan_storm, short_state=short_state)


def write_short(rng, s, p, scratch):
    """a state file that lacks days"""
    n = int(rng.choice([1, 1, 2, 30, 60, 89, 90]))
    kind = str(rng.choice(['first', 'last', 'middle', 'later']))
    k = np.arange(90)
    if kind == 'later' and n < 90:
        # 90 days, but not those before the start
        days = scen.day_list(s.sdays[-1], 2 + n, s.calendar)[1:]
        days = s.sdays[n:] + days[:n]
        k = np.arange(90)
        st = s.s
        sd = days
    else:
        if kind == 'first':
            k = k[n:]
        elif kind == 'last':
            k = k[:90 - n]
        else:
            a = int(rng.integers(0, 91 - n))
            k = np.r_[k[:a], k[a + n:]]
        if not len(k):
            k = np.arange(1)
        st = {v: x[k] for v, x in s.s.items()}
        sd = [s.sdays[q] for q in k]
    path = os.path.join(scratch, 'short%d.nc' % rng.integers(1 << 30))
    run.write_nc(path, st, s.dims, run.coords_of(s), sd, s.calendar)
    p['state'] = path
    return kind, n


ORDER = [('s', k) for k in SETTINGS] + [('d', k) for k in DATA] * 2 + [
    ('two', None)] * 3


def spoil(rng, s, kind, key, scratch, n):
    """(parameters, note) of the spoilt run or None"""
    t = s.copy()
    notes = []
    todo = [(kind, key)]
    if kind == 'two':
        k = [('s', x) for x in SETTINGS] + [('d', x) for x in DATA]
        todo = [k[int(q)] for q in rng.choice(len(k), 2, replace=False)]
        if {'early', 'late', 'backwards'} & {x for _, x in todo}:
            # together they may make valid settings
            if len({'early', 'late', 'backwards', 'short_state', 'nan_state',
                    'nan_forcing', 'nan_storm', 'inverted'} &
                   {x for _, x in todo}) > 1:
                return None
    for k, x in todo:
        if k == 'd':
            note = DATA[x](rng, t)
            if note is None:
                return None
            notes.append((x, note))
    p = run.write_inputs(t, os.path.join(scratch, 'bad%d' % n))
    for k, x in todo:
        if x == 'short_state':
            notes.append((x, write_short(rng, t, p, scratch)))
        if k == 's':
            note = SETTINGS[x](rng, t, p)
            if note is None:
                return None
            notes.append((x, note))
    return p, notes


FILES = ['missing', 'truncated', 'empty', 'words', 'columns', 'gap']


def cellfiles(rng, s, scratch, n, res):
    """forcing in a file per cell, one of which is spoilt: (parameters, note)
    of a valid and an invalid run"""
    fmt = str(rng.choice(['ascii', 'binary']))
    d = os.path.join(scratch, 'cell%d' % n)
    os.makedirs(d)
    p = run.write_inputs(s, os.path.join(scratch, 'cin%d' % n))
    names = [str(v) for v in rng.permutation(list(s.f))]
    L = {}
    for c in s.cells():
        L[c] = os.path.join(d, 'data_%r_%r' % (s.cell_lat(c), s.cell_lon(c)))
        if fmt == 'ascii':
            with open(L[c], 'w') as o:
                for k in range(len(s.days)):
                    o.write(' '.join('%.4f' % s.f[v][(k,) + c]
                                     for v in names) + '\n')
        else:
            x = np.array([[round(s.f[v][(k,) + c] * 100) for v in names]
                          for k in range(len(s.days))])
            np.clip(x, -32768, 32767).astype('<i2').tofile(L[c])
    p.update(forcing=list(L.values()), forcing_fmt=fmt, forcing_vars={
        v: v if fmt == 'ascii' else '100.0 signed' for v in names})
    ok = copy.deepcopy(p)
    bad = str(rng.choice(FILES if fmt == 'ascii' else FILES[:3]))
    c = a_cell(rng, s)
    data = open(L[c], 'rb').read()
    if bad == 'missing':
        os.rename(L[c], L[c] + '.away')
        q = dict(p, forcing=[x for x in p['forcing'] if x != L[c]])
        if len(q['forcing']) == 0 or rng.random() < .5:
            q = p
        return ok, q, (fmt, bad), lambda: os.rename(L[c] + '.away', L[c])
    if bad == 'truncated':
        cut = data[:-2] if fmt == 'binary' and rng.random() < .5 else \
            data[:-2 * len(names)] if fmt == 'binary' else \
            b'\n'.join(data.split(b'\n')[:-2] + [b''])
    elif bad == 'empty':
        cut = b''
    else:
        rows = data.decode().split('\n')[:-1]
        k = int(rng.integers(len(rows)))
        w = rows[k].split()
        j = names.index(str(rng.choice(['t_min', 't_max', 'prec'])))
        if bad == 'words':
            w[j] = 'abc'
        elif bad == 'gap':
            w[j] = 'NaN'
        else:
            # a whole column lacks
            rows = [' '.join(r.split()[:-1]) for r in rows]
        if bad != 'columns':
            rows[k] = ' '.join(w)
        cut = ('\n'.join(rows) + '\n').encode()

    def spoilt(x):
        open(L[c], 'wb').write(x)
    spoilt(cut)
    return ok, p, (fmt, bad), lambda: spoilt(data)


def attempt(p):
    def go():
        from metsim.metsim import MetSim
        ms = MetSim(p)
        ms.run()
        return 'ended without an error'
    ok, v = fresh(go, 100)
    if not ok and v.startswith(('did not end', 'the process died')):
        raise RuntimeError(v)
    return ok, v


def with_config(rng, scratch, p, n, program):
    """the same through a configuration file and the command line program"""
    d = os.path.join(scratch, 'conf%d' % n)
    os.makedirs(d)
    q = {k: v for k, v in p.items() if k not in conf.NOTFILE}
    path = os.path.join(d, 'c')
    if rng.random() < .5:
        text = conf.yaml_text(q)
    else:
        text = conf.ini_text(q)
    open(path, 'w').write(text)
    if program:
        way, cmd = conf.program(rng)
        r = subprocess.run(cmd + [path, '-s', 'sync'], capture_output=True,
                           text=True, timeout=100)
        return r.returncode == 0, 'exit status %d (started as %s)' % (
            r.returncode, way)

    def go():
        from metsim.cli import ms
        sys.argv = ['ms', path, '-s', str(rng.choice(['sync', 'threads']))]
        try:
            ms.main()
        except SystemExit as e:
            if e.code:
                raise
        return 'exit status 0'
    return fresh(go)


def case(spec, rng, scratch, res):
    if 'sched' in spec:
        return chunks(spec, rng, scratch, res)
    i = spec['i']
    s = scen.gen(rng, mask='mixed', nd=int(rng.integers(1, 6)),
                 nlat=int(rng.integers(1, 4)), nlon=int(rng.integers(1, 4)),
                 time_step=int(rng.choice([30, 60, 180, 360, 1440])),
                 calendar=str(rng.choice(['standard', 'standard', 'noleap'])))
    if rng.random() < .3:
        s.pad = tuple(int(x) for x in rng.integers(0, 4, 2))
        s.padseed = 3
    if rng.random() < .3:
        s.holes = True
    if rng.random() < .25:
        s.opt['method'] = 'passthrough'
        s.f['shortwave'] = rng.uniform(5, 300, s.f['prec'].shape)
    if rng.random() < .3:
        s.opt['chunks'] = {d: int(rng.integers(1, 3)) for d in s.dims}
    s.opt['prec_type'] = str(rng.choice(['uniform', 'triangle', 'mix']))
    bounds(rng, s, res)
    p = run.write_inputs(s, os.path.join(scratch, 'ok'))
    ok, v = attempt(copy.deepcopy(p))
    if not res.check(ok, lambda: 'valid settings were refused: %s' % v):
        return
    out = run.Out(p['out_dir'])
    res.count('valid_runs')
    act = s.cells()
    for k in s.opt['out_vars']:
        if k == 'wind' and 'wind' not in s.f:
            continue
        bad = [c for c in act if not np.isfinite(
            out.var[k][(slice(None),) + c]).all()]
        res.check(not bad, lambda: '%s is missing in %s' % (k, bad[:3]))
    if s.layout == 'grid' and rng.random() < .7:
        t = s.copy()
        t.pad, t.spad = (0, 0), 0
        for v in t.f:
            t.f[v] = np.round(np.clip(t.f[v], -300, 300), 2)
        t.f['t_max'] = np.maximum(t.f['t_max'], t.f['t_min'])
        ok, bad, note, mend = cellfiles(rng, t, scratch, 0, res)
        good, v = attempt(copy.deepcopy(bad))
        res.check(not good, lambda: 'a run with %s forcing of which one file '
                  'is %s ended normally' % note)
        mend()
        good, v = attempt(ok)
        res.check(good, lambda: 'valid %s forcing was refused: %s' % (
            note[0], v))
        res.count('cell_files')
        res.unit(note, t.shape)
    listed(rng, res, s, p, i)
    todo = [ORDER[(i * 5 + j) % len(ORDER)] for j in range(5)]
    for n, (kind, key) in enumerate(todo):
        r = None
        for _ in range(4):
            r = spoil(rng, s, kind, key, scratch, n)
            if r is not None:
                break
        if r is None:
            continue
        q, notes = r
        form = 'dict'
        if rng.random() < .3 and not {
                'no_out', 'empty', 'no_forcing'} & {x for x, _ in notes}:
            form = 'program' if (i + n) % 6 == 0 else 'cli'
        if form == 'dict':
            ok, v = attempt(copy.deepcopy(q))
        else:
            # names in a file have to be known to be written there
            try:
                ok, v = with_config(rng, scratch, q, n, form == 'program')
            except KeyError:
                ok, v = attempt(copy.deepcopy(q))
                form = 'dict'
        res.check(not ok, lambda: 'a run with invalid %s ended normally '
                  '(%s, %s)' % (notes, form, v))
        res.count('invalid_runs')
        if form != 'dict':
            res.count(form + '_invalid')
        if kind == 'two':
            res.count('combined_faults')
        if key and key.startswith('nan'):
            res.count('missing_value_runs')
        res.unit(tuple(sorted((a, repr(b)) for a, b in notes)), form,
                 s.opt['method'])
    if i % 8 == 0:
        res.sample = sample(s, faults=[str(t) for t in todo])


# every value that must be refused is tried by one of the cases
LIST = ([('time_step', v) for v in (
    361, 480, 720, 1439, 1441, 2880, 14400, 7, 11, 50, 100, 0, -60, -1)] +
    [('method', v) for v in ('mtclm', 'default', '')] +
    [('out_precision', v) for v in ('f2', 'i4', 'double', 'f16', '')] +
    [('prec_type', v) for v in ('triangular', 'normal', '')] +
    [('lw_type', v) for v in ('stefan', 'cloud_deardorff', '')] +
    [('lw_cloud', v) for v in ('deardorff', 'prata', 'tva', '')] +
    [('forcing_fmt', v) for v in ('nc', 'csv', '')] +
    [('out_vars', v) for v in ('foo', 'tdew', 't_min', 't_max', 'pet',
                               'daylength', 't_day', 'temp', 'longwave',
                               'rel_humid', 'air_pressure', 'spec_humid')])


def listed(rng, res, s, p, i):
    n = 2 * len(LIST) // 64 + 1
    for j in range(n):
        k, v = LIST[(i * n + j) % len(LIST)]
        q = copy.deepcopy(p)
        if k == 'out_vars':
            daily = v in ('t_min', 't_max', 'pet', 'daylength', 't_day')
            other = v in scen.SUBVARS and not daily
            if (daily and s.ts == 1440) or (other and s.ts < 1440):
                continue
            q[k] = {v: dict(out_name=v)}
        else:
            q[k] = v
            if k == 'time_step':
                # valid but for the step itself
                q['out_vars'] = {'prec': dict(out_name='prec')}
        ok, _ = attempt(q)
        res.check(not ok, lambda: '%s = %r was accepted (time step %d)' % (
            k, v, s.ts))
        res.count('listed_values')
        res.unit('listed', k, v)


def bounds(rng, s, res):
    """what is just still valid"""
    r = rng.random()
    if r < .25:
        c = a_cell(rng, s)
        d = int(rng.integers(len(s.days)))
        s.f['t_max'][(d,) + c] = s.f['t_min'][(d,) + c]
        res.count('bounds_accepted')
    elif r < .5:
        off = [c for c in s.cells(False) if c not in s.cells()]
        for c in off:
            v = str(rng.choice(['t_min', 't_max', 'prec']))
            s.f[v][(slice(None),) + c] = np.nan
            s.elev[c] = np.nan
        res.count('bounds_accepted', len(off))
    elif r < .75:
        s.opt['time_step'] = int(rng.choice([1, 2, 360, 1440]))
        if s.ts < 10:
            s.days = s.days[:1]
            s.f = {k: v[:1] for k, v in s.f.items()}
        s.opt['out_vars'] = {v: dict(out_name=v) for v in (
            scen.DAYVARS if s.ts == 1440 else scen.SUBVARS)}
        res.count('bounds_accepted')


ERRORS = [ValueError('planted'), KeyError('planted'), OSError('planted'),
          RuntimeError('planted'), IndexError('planted'),
          AttributeError('planted'), MemoryError('planted'),
          StopIteration('planted'), AssertionError('planted'),
          ZeroDivisionError('planted'), FileNotFoundError('planted'),
          TypeError('planted'), NotImplementedError('planted')]


def chunks(spec, rng, scratch, res):
    """one chunk cannot be computed"""
    c = spec['sched']
    s = scen.gen(rng, layout='grid', mask='all', nd=2,
                 nlat=int(rng.integers(2, 4)), nlon=int(rng.integers(2, 4)),
                 time_step=int(rng.choice([60, 180, 1440])))
    s.opt['chunks'] = dict(lat=int(rng.integers(1, 3)),
                           lon=int(rng.integers(1, 3)))
    if rng.random() < .5:
        s.opt['out_freq'] = 'D'
    base = s.copy()
    p = run.write_inputs(s, os.path.join(scratch, 'ok'))
    over = dict(scheduler=c, num_workers=int(rng.integers(1, 4)))
    p.update(over)
    ok, v = attempt(copy.deepcopy(p))
    res.check(ok, lambda: 'a valid run failed under %s: %s' % (c, v))
    res.count('valid_runs')
    cells = s.cells()
    pick = [cells[0], cells[-1], cells[int(rng.integers(len(cells)))]]
    if c in ('processes', 'distributed'):
        pick = [pick[int(rng.integers(3))]]
    for n, cell in enumerate(pick):
        s = base.copy()
        kind = str(rng.choice(['nan_forcing', 'nan_state', 'nan_elev']))
        if kind == 'nan_elev':
            s.elev[cell] = np.nan
        elif kind == 'nan_state':
            s.s['prec'][(50,) + cell] = np.nan
        else:
            s.f['t_min'][(1,) + cell] = np.nan
        p = run.write_inputs(s, os.path.join(scratch, 'bad%d' % n))
        p.update(over)
        ok, v = attempt(p)
        res.check(not ok, lambda: 'cell %s cannot be computed (%s), but the '
                  'run ended normally under %s' % (cell, kind, c))
        res.count('chunk_failures')
        res.count(c + '_failures')
        res.unit(c, kind, cell, s.opt['chunks']['lat'],
                 s.opt['chunks']['lon'], over['num_workers'])
    if c not in ('threads', 'sync'):
        return
    # whatever the error a worker meets, anywhere on its way
    for n in range(5):
        e = ERRORS[int(rng.integers(len(ERRORS)))]
        where = str(rng.choice(['solar_geom', 'disaggregate', 'method',
                                'write', 'read_state', 'read_met_data']))
        k = int(rng.integers(1, 4))
        p = run.settings(base, *[os.path.join(scratch, 'ok', x) for x in (
            'f.nc', 'd.nc', 's.nc')], out_dir=os.path.join(
                scratch, 'err%d' % n))
        p.update(over)

        def go():
            seen = plant(where, e, k)
            from metsim.metsim import MetSim
            err = None
            try:
                MetSim(p).run()
            except BaseException as x:      # noqa
                err = '%s: %s' % (type(x).__name__, x)
            return seen[0], err
        ok, v = fresh(go)
        if not res.check(ok, lambda: 'failed: %s' % v):
            continue
        hit, err = v
        if not hit:
            res.count('plants_not_reached')
            continue
        res.check(err is not None, lambda: 'a worker met %r at call %d of %s '
                  '(%s) and the run ended normally' % (e, k, where, c))
        res.count('worker_errors')
        res.unit(c, where, type(e).__name__, k)


def plant(where, e, k):
    """raise e at the k-th use, by a worker, of a part of the program"""
    import metsim.io
    import metsim.metsim as m
    seen = [0, 0]

    def wrap(f):
        def g(*a, **kw):
            seen[1] += 1
            if seen[1] == k + skip:
                seen[0] = 1
                raise e
            return f(*a, **kw)
        return g
    skip = 0

    def put(obj, name):
        f = getattr(obj, name, None)
        if f is not None:       # where the program has it no more: not reached
            setattr(obj, name, wrap(f))
    if where == 'solar_geom':
        put(m, 'solar_geom')
    elif where == 'disaggregate':
        put(m, 'disaggregate')
    elif where == 'method':
        for mod in ('mtclim', 'passthrough'):
            put(getattr(m, mod, None), 'run')
    elif where == 'read_state':
        put(metsim.io, 'read_state')
    elif where == 'read_met_data':
        skip = 1            # the first is read before the workers start
        put(metsim.io, 'read_met_data')
    elif where == 'write':
        put(m.MetSim, 'write_chunk')
    return seen
