import copy
import hashlib
import os
import shutil
from collections import OrderedDict

import numpy as np

from .. import conf, run, scen
from . import c17
from .common import files_equal, fresh, sample

PROP = 'C23'
RULE = ('settings and in-memory data of every kind used for a sequence of '
        'simulations (constructed, run, failing, in several schedulers), with '
        'a deep comparison of everything that was handed over, and of the '
        'input files, after every single operation; one evaluation per '
        'operation, distinct by input, operation and what came before')
REQUIRED = ['operations', 'runs_compared', 'failed_runs', 'dataset_snapshots',
            'settings_snapshots', 'file_snapshots', 'lazy_datasets',
            'reused_settings', 'unit_less_out_vars', 'constant_runs',
            'threaded_runs', 'renamed_datasets', 'read_only_data',
            'config_objects', 'default_outputs', 'odd_values']
TIMEOUT = 300


def plan(tier):
    n = 96 if tier == 'quick' else 1600
    kinds = ['netcdf', 'data', 'data', 'lazy', 'data', 'vic', 'config',
             'dask']
    return [dict(i=i, k=kinds[i % len(kinds)],
                 par=tier != 'quick' and i % 16 == 5 or i == 5)
            for i in range(n)]


# ---------------------------------------------------------------- snapshots
def snap(x, where=''):
    """a deep description of an object, as {path: (kind, value)}"""
    import xarray as xr
    r = OrderedDict()
    if isinstance(x, dict):
        r[where] = (type(x).__name__, id(x), [repr(k) for k in x])
        for k in x:
            r.update(snap(x[k], '%s[%r]' % (where, k)))
    elif isinstance(x, (list, tuple)):
        r[where] = (type(x).__name__, len(x))
        for i, v in enumerate(x):
            r.update(snap(v, '%s[%d]' % (where, i)))
    elif isinstance(x, xr.Dataset):
        r[where] = ('dataset', id(x))
        r[where + ' variables'] = sorted(map(str, x.variables))
        r[where + ' data variables'] = sorted(map(str, x.data_vars))
        r[where + ' coordinates'] = sorted(map(str, x.coords))
        r[where + ' sizes'] = sorted((str(k), v) for k, v in x.sizes.items())
        r[where + ' attributes'] = sorted((k, repr(v)) for k, v in
                                          x.attrs.items())
        for k, v in x.variables.items():
            w = '%s variable %s' % (where, k)
            r[w + ' dimensions'] = v.dims
            r[w + ' type'] = str(v.dtype)
            r[w + ' attributes'] = sorted((a, repr(b)) for a, b in
                                          v.attrs.items())
            a = np.asarray(v.values)
            r[w + ' values'] = digest(a)
    elif isinstance(x, np.ndarray):
        r[where] = ('array', digest(x))
    else:
        r[where] = (type(x).__name__, repr(x))
    return r


def digest(a):
    if a.dtype == object:
        b = repr(a.tolist()).encode()
    else:
        b = np.ascontiguousarray(a).tobytes()
    return '%s %s %s' % (a.dtype, a.shape, hashlib.sha1(b).hexdigest()[:16])


def changes(a, b):
    d = ['%s is gone' % k for k in a if k not in b] + \
        ['%s appeared' % k for k in b if k not in a] + \
        ['%s was %s, is %s' % (k, str(a[k])[:150], str(b[k])[:150])
         for k in a if k in b and a[k] != b[k]]
    return d


def hashes(root, skip):
    r = {}
    for d, sub, fs in os.walk(root):
        sub[:] = [q for q in sub if os.path.join(d, q) not in skip]
        for f in fs:
            p = os.path.join(d, f)
            if f == 'stdio.log':
                continue
            r[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return r


# -------------------------------------------------------------------- cases
UNITS = {'temp': 'K', 'prec': 'mm s-1', 'vapor_pressure': 'hPa', 't_min': 'K',
         't_max': 'K', 'rel_humid': 'fraction', 'tskc': '%'}
BAD = [dict(prec_type='never'), dict(time_step=7), dict(out_vars={}),
       dict(state='/nonexistent/state.nc'), dict(method='none'),
       dict(out_vars={'nothing': dict(out_name='x')}),
       dict(lw_cloud='unknown'), dict(stop='2200/01/01'),
       dict(forcing_vars={'nowhere': 't_min'}), dict(chunks={'nowhere': 1}),
       dict(out_vars={'temp': {}}), dict(tdew_tol='often'),
       dict(domain='/nonexistent/domain.nc'), dict(out_precision='f3')]


def odd(rng, s):
    """values somebody may want to tidy up"""
    for d in (s.f, s.s):
        x = d['prec']
        x[(x <= 1e-3) & (rng.random(x.shape) < .6)] = float(rng.choice(
            [-1e-9, -0., 1e-12]))
        x.flat[int(rng.integers(x.size))] = -1e-9
        if rng.random() < .3:
            i = rng.random(x.shape) < .3
            d['t_max'][i] = d['t_min'][i]
    if 'wind' in s.f and rng.random() < .5:
        s.f['wind'].flat[0] = -1e-9
    if 'shortwave' in s.f and rng.random() < .5:
        s.f['shortwave'].flat[0] = -1e-9


def build(spec, rng, scratch, res):
    k = spec['k']
    grid = k == 'vic' or rng.random() < .6
    s = scen.gen(rng, layout='grid' if grid else 'hru', mask='mixed',
                 nd=int(rng.integers(1, 4)), nlat=2, nlon=2, nhru=3,
                 time_step=int(rng.choice([60, 180, 360, 1440])),
                 calendar=str(rng.choice(['standard'] * 3 + ['noleap'])))
    if rng.random() < .4:
        s.opt['method'] = 'passthrough'
        s.f['shortwave'] = rng.uniform(5, 380, s.f['t_min'].shape)
    if k != 'vic' and rng.random() < .4:
        odd(rng, s)
        res.count('odd_values')
    if k == 'vic':
        for d in (s.f, s.s):
            for v in d:
                d[v] = np.round(d[v], 2)
            d['t_max'] = np.maximum(d['t_max'], d['t_min'])
    p = run.write_inputs(s, os.path.join(scratch, 'in'))
    note = []
    if k == 'vic':
        fmt = str(rng.choice(['ascii', 'binary']))
        p, note, _ = getattr(c17, fmt)(rng, scratch, res, s, p, 0)
    elif k in ('netcdf', 'config'):
        if rng.random() < .5:
            p, note, _ = c17.netcdf(rng, scratch, res, s, p, 0)
    else:
        p, note = in_memory(rng, res, s, p, k)
    settings(rng, res, s, p, any('more days' in x for x in note))
    p['out_dir'] = os.path.join(scratch, 'out')
    return s, p, note


def in_memory(rng, res, s, p, k):
    import xarray as xr
    # without a cache the caller's data stays in the file
    ds = xr.open_dataset(p['forcing'], cache=k != 'lazy' or
                         rng.random() < .3)
    note = [k]
    if k != 'lazy':
        ds = ds.load()
    if k == 'dask':
        ds = ds.chunk({s.dims[0]: 1})
    if k == 'lazy':
        res.count('lazy_datasets')
    if k == 'data' and s.calendar == 'noleap' and rng.random() < .5:
        ds['time'] = ds.indexes['time'].to_datetimeindex()
        p['calendar'] = 'noleap'
    if rng.random() < .5:
        ds.attrs['title'] = 'the data of the caller'
        ds['t_min'].attrs['units'] = 'degrees'
        ds['prec'].attrs.update(long_name='rain', cell_methods='time: sum')
        ds['time'].attrs['long_name'] = 'time of the caller'
        note.append('attributes')
    if rng.random() < .5:
        names = c17.sub(s.f, rng)
        ds = ds.rename({a: b for a, b in names.items() if a != b})
        p['forcing_vars'] = {b: a for a, b in names.items()}
        if any(a != b for a, b in names.items()):
            res.count('renamed_datasets')
            note.append('names')
    elif rng.random() < .3:
        p.pop('forcing_vars')
        p['forcing_vars'] = {v: v for v in s.f}
    if rng.random() < .4:
        ds['extra'] = ds[list(p['forcing_vars'])[0]] * 2
        note.append('extra')
    if rng.random() < .4:
        ds = ds.transpose(*[str(q) for q in rng.permutation(
            list(ds.sizes))])
        note.append('order')
    if k == 'data' and rng.random() < .3:
        # noon stamps are relabelled for the run, not for the caller
        if hasattr(ds.indexes['time'], 'shift'):
            ds['time'] = ds.indexes['time'] + np.timedelta64(12, 'h').astype(
                object)
            note.append('noon')
    if k == 'data' and rng.random() < .4:
        # writing into the data in place is an error then
        for v in ds.data_vars.values():
            v.values.setflags(write=False)
        res.count('read_only_data')
        note.append('read only')
    p['forcing'] = ds
    p['forcing_fmt'] = 'data'
    return p, note


def settings(rng, res, s, p, longer):
    """further settings of all kinds"""
    names = list(p['out_vars'])
    names = [str(v) for v in rng.permutation(names)[
        :int(rng.integers(1, len(names) + 1))]]
    cls = OrderedDict if rng.random() < .4 else dict
    ov = cls()
    for v in names:
        e = dict(out_name=v if rng.random() < .5 else 'my_' + v)
        u = rng.random()
        if u < .4:
            e['units'] = UNITS.get(v) or DEFAULT[v]
        elif u < .5:
            e['units'] = 'furlongs'
        else:
            res.count('unit_less_out_vars')
        ov[v] = e
    p['out_vars'] = ov
    if s.ts < 1440 and rng.random() < .2:
        del p['out_vars']
        res.count('default_outputs')
    if rng.random() < .4:
        p['constant_vars'] = cls({'wind': float(rng.integers(1, 9))
                                  if rng.random() < .5 else
                                  str(rng.integers(1, 9))})
        res.count('constant_runs')
    if rng.random() < .5:
        p['chunks'] = cls({s.dims[0]: int(rng.integers(1, 3))})
    if rng.random() < .3:
        p['out_freq'] = str(rng.choice(['D', 'M']))
    if rng.random() < .3:
        p['utc_offset'] = True
    if rng.random() < .3 and s.ts < 1440:
        p['period_ending'] = True
    if rng.random() < .3 and p['method'] == 'passthrough':
        p['sw_averaging'] = 'daylight'
    form = rng.random()
    if form < .3:
        for k in ('start', 'stop'):
            p[k] = p[k].strftime('%Y/%m/%d')
    elif form < .5 and p['forcing_fmt'] in ('netcdf', 'data') and not longer:
        for k in ('start', 'stop'):
            p.pop(k)
    if rng.random() < .3:
        # numbers as a configuration file would give them
        for k in ('time_step', 'lapse_rate', 'tdew_tol', 'rain_scalar'):
            if k in p:
                p[k] = str(p[k])
    if rng.random() < .4:
        p['forcing_vars'] = OrderedDict(p['forcing_vars'])
        p['domain_vars'] = OrderedDict(p['domain_vars'])


DEFAULT = {'pet': 'mm timestep-1', 'shortwave': 'W m-2', 'longwave': 'W m-2',
           't_day': 'C', 'air_pressure': 'kPa', 'daylength': 's',
           'spec_humid': 'g g-1', 'wind': 'm s-1'}


def go(p):
    os.makedirs(p['out_dir'], exist_ok=True)
    run.simulate(p)
    return run.Out(p['out_dir'], p.get('out_prefix', 'forcing'))


def clone(p):
    """copy of the settings that shares nothing with them"""
    r = {}
    for k, v in p.items():
        r[k] = v.copy(deep=True) if k == 'forcing' and hasattr(
            v, 'data_vars') else copy.deepcopy(v)
    return r


def case(spec, rng, scratch, res):
    s, p, note = build(spec, rng, scratch, res)
    if spec['k'] == 'config':
        return config(spec, rng, scratch, res, s, p, note)
    out = p['out_dir']
    files = hashes(scratch, (out,))
    before = snap(p, 'settings')
    ref = clone(p)
    ref['out_dir'] = out
    ok, want = fresh(lambda: go(ref))
    if not res.check(ok, lambda: 'a valid simulation failed: %s' % want):
        return
    res.check(want.files and want.var, 'nothing was written')
    shutil.rmtree(out)
    hist, alive = [], []
    ops = [str(q) for q in rng.choice(['run', 'run', 'new', 'fail', 'failrun',
                                       'share'], 4)]
    ops.insert(int(rng.integers(0, 5)), 'run')
    if spec['par']:
        ops = ['par', 'run', 'new']
    for op in ops:
        q = p
        if op == 'new':
            # what is constructed and never run
            try:
                alive.append(run.import_metsim().MetSim(p))
            except Exception as e:     # noqa
                raise run.RunFailed(e)
        elif op == 'fail':
            bad = BAD[int(rng.integers(len(BAD)))]
            q = dict(p)
            q.update(copy.deepcopy(bad))
            q['out_dir'] = os.path.join(scratch, 'bad')
            try:
                run.simulate(q)
            except run.RunFailed:
                res.count('failed_runs')
        elif op == 'failrun':
            failing(rng, scratch, res, s, p)
        else:
            undo = {}
            if op == 'share':
                # other settings that share the nested ones
                q = dict(p, scheduler='threads', num_workers=3)
                res.count('threaded_runs')
            elif op == 'par':
                q = dict(p, scheduler=str(rng.choice(
                    ['processes', 'distributed'])), num_workers=2)
            shutil.rmtree(out, ignore_errors=True)
            o = go(q)
            d = files_equal(want, o, skip=('history', 'scheduler'))
            res.check(d is None, lambda: '%s after %s with the same settings '
                      'object: %s' % (op, hist, d))
            res.count('runs_compared')
            if 'run' in hist:
                res.count('reused_settings')
        now = snap(p, 'settings')
        d = changes(before, now)
        res.check(not d, lambda: '%s (%s) changed what the caller holds: %s'
                  % (op, note, '; '.join(d[:4])))
        res.count('settings_snapshots')
        if p['forcing_fmt'] == 'data':
            res.count('dataset_snapshots')
        h = hashes(scratch, (out, os.path.join(scratch, 'bad')))
        d = [k for k in files if h.get(k) != files[k]]
        res.check(not d, lambda: '%s changed the input files %s' % (op, d))
        res.count('file_snapshots', len(files))
        res.count('operations')
        res.unit(spec['k'], op, tuple(sorted(hist)), tuple(note))
        hist.append(op)
        if d:
            return
    if spec['i'] % 8 == 0:
        res.sample = sample(s, note=note, operations=hist)


def failing(rng, scratch, res, s, p):
    """a run that fails while it computes or writes"""
    q = dict(p, out_dir=os.path.join(scratch, 'bad'))
    how = int(rng.integers(3))
    if how == 0:
        # a file in the place of the directory
        open(os.path.join(scratch, 'obstacle'), 'w').close()
        q['out_dir'] = os.path.join(scratch, 'obstacle')
    elif how == 1:
        t = s.copy()
        t.s['t_min'] = t.s['t_min'] * np.nan
        path = os.path.join(scratch, 'nostate.nc')
        if not os.path.exists(path):
            run.write_nc(path, t.s, s.dims, run.coords_of(s), s.sdays,
                         s.calendar)
        q['state'] = path
        q['state_vars'] = {v: v for v in s.s}
    else:
        t = s.copy()
        t.elev = t.elev * np.nan
        path = os.path.join(scratch, 'noelev.nc')
        if not os.path.exists(path):
            run.write_domain(t, path)
        q['domain'] = path
        q['domain_vars'] = {v: v for v in ('lat', 'lon', 'mask', 'elev',
                                           't_pk', 'dur')}
    try:
        run.simulate(q)
    except run.RunFailed:
        res.count('failed_runs')
    for n in ('obstacle', 'nostate.nc', 'noelev.nc'):
        if os.path.exists(os.path.join(scratch, n)):
            os.unlink(os.path.join(scratch, n))


def config(spec, rng, scratch, res, s, p, note):
    """settings as they are read from a configuration file"""
    path = os.path.join(scratch, 'c.conf')
    yaml = rng.random() < .5
    if 'out_vars' in p and not yaml:
        for v in p['out_vars'].values():
            v.pop('units', None)
    open(path, 'w').write(conf.yaml_text(p) if yaml else conf.ini_text(p))
    files = hashes(scratch, (p['out_dir'],))
    ok, want = fresh(lambda: go(conf.read(path)))
    if not res.check(ok, lambda: 'a valid simulation failed: %s' % want):
        return
    q = conf.read(path)
    before = snap(q, 'settings')
    for n in range(3):
        shutil.rmtree(p['out_dir'], ignore_errors=True)
        o = go(q)
        d = files_equal(want, o)
        res.check(d is None, lambda: 'run %d with settings read from a file: '
                  '%s' % (n + 1, d))
        d = changes(before, snap(q, 'settings'))
        res.check(not d, lambda: 'a run changed the settings read from a '
                  'configuration file: %s' % '; '.join(d[:4]))
        res.count('runs_compared')
        res.count('settings_snapshots')
        res.count('operations')
        res.unit('config', yaml, n, tuple(note))
        if n:
            res.count('reused_settings')
        if rng.random() < .5:
            failing(rng, scratch, res, s, q)
    h = hashes(scratch, (p['out_dir'], os.path.join(scratch, 'bad')))
    d = [k for k in files if h.get(k) != files[k]]
    res.check(not d, lambda: 'the files %s changed' % d)
    res.count('file_snapshots', len(files))
    res.count('config_objects')
