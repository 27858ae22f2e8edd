import copy
import datetime as dt
import os
import re
import subprocess
import sys

import numpy as np
import pandas as pd

from .. import conf, run, scen
from .common import files_equal, fresh, sample

PROP = 'C18'
RULE = ('random settings, each with its reference (a Python dictionary with '
        'every option spelled plainly) and as a YAML file, INI files with '
        'both forms of out_vars, a dictionary spelled otherwise and through '
        'the command line program; distinct by form, options given, and '
        'spelling')
REQUIRED = ['yaml_runs', 'ini_runs', 'inilist_runs', 'dict_runs', 'ms_runs',
            'program_runs', 'omitted_options', 'created_directories',
            'effects_seen', 'edge_values', 'glob_forcing', 'ascii_forcing',
            'binary_forcing', 'passthrough_runs', 'united_runs',
            'integer_zeros']
DEFAULTS = dict(out_prefix='forcing', method='mtclim', sw_prec_thresh=0.0,
                rain_scalar=0.75, utc_offset=False,
                lw_cloud='cloud_deardorff', lw_type='prata', tdew_tol=1e-6,
                tmax_daylength_fraction=0.67, tday_coef=0.45,
                lapse_rate=0.0065, prec_type='uniform', period_ending=False,
                calendar='standard')
OUT6 = ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid']


def plan(tier):
    n = 72 if tier == 'quick' else 1100
    return [dict(i=i, prog=i % 9 == 0) for i in range(n)]


def values(rng, s):
    """an option value other than the default"""
    return dict(out_prefix='run_%d' % rng.integers(9), method='mtclim',
                sw_prec_thresh=round(float(rng.uniform(.1, 5)), 2),
                rain_scalar=round(float(rng.uniform(.3, .9)), 3),
                utc_offset=True,
                lw_cloud='default',
                lw_type=str(rng.choice(['default', 'tva', 'anderson',
                                        'brutsaert', 'satterlund', 'idso'])),
                tdew_tol=float(rng.choice([1e-3, 1e-8, 0.5])),
                tmax_daylength_fraction=round(float(rng.uniform(.4, .9)), 3),
                tday_coef=round(float(rng.uniform(.1, .9)), 3),
                lapse_rate=round(float(rng.uniform(.003, .0095)), 5),
                prec_type=str(rng.choice(['triangle', 'mix'])),
                period_ending=True, calendar='gregorian')


UN = {'temp': ['K'], 't_min': ['K'], 't_max': ['K'], 't_day': ['K'],
      'prec': ['mm s-1', 'mm h-1'], 'vapor_pressure': ['hPa', 'kPa'],
      'tskc': ['%'], 'rel_humid': ['fraction'], 'pet': ['mm h-1'],
      'air_pressure': ['hPa', 'Pa']}


def edges(rng, val):
    """values at which an option that is set may be taken for one that is
    not"""
    num = int if rng.random() < .7 else float      # '0' or '0.0' in a file
    val.update(rain_scalar=num(rng.choice([0., 0., 1.])),
               tday_coef=num(rng.choice([0., 1.])),
               tmax_daylength_fraction=float(rng.choice([.1, .9, .5])),
               sw_prec_thresh=float(rng.choice([100., 1e-3])))


def cell_files(rng, s, d, fmt):
    """forcing in a directory with a file for each cell"""
    os.makedirs(d)
    names = [str(v) for v in rng.permutation(list(s.f))]
    L = []
    for v in names:
        s.f[v] = np.round(np.clip(s.f[v], -300, 300), 2)
    s.f['t_max'] = np.maximum(s.f['t_max'], s.f['t_min'])
    for c in s.cells():
        L.append(os.path.join(d, 'data_%r_%r' % (s.cell_lat(c),
                                                 s.cell_lon(c))))
        x = np.stack([s.f[v][(slice(None),) + c] for v in names], 1)
        if fmt == 'ascii':
            np.savetxt(L[-1], x, '%.2f')
        else:
            np.round(x * 100).astype('<i2').tofile(L[-1])
    open(os.path.join(d, 'README'), 'w').write('not a forcing file')
    return L, {v: v if fmt == 'ascii' else '100.0 signed' for v in names}


def case(spec, rng, scratch, res):
    s = scen.gen(rng, mask='mixed', nd=int(rng.integers(2, 5)),
                 nlat=int(rng.integers(1, 3)), nlon=int(rng.integers(1, 3)),
                 nhru=3, tunables=False, opt=dict(),
                 time_step=int(rng.choice([60, 120, 180, 360, 1440])))
    source = str(rng.choice(['netcdf', 'netcdf', 'glob', 'ascii', 'binary']))
    if s.layout != 'grid' and source in ('ascii', 'binary'):
        source = 'netcdf'
    passing = rng.random() < .3
    if passing:
        s.f['shortwave'] = rng.uniform(5, 300, s.f['prec'].shape)
    if source in ('ascii', 'binary'):
        L, fv = cell_files(rng, s, os.path.join(scratch, 'cells'), source)
    base = run.write_inputs(s, os.path.join(scratch, 'in'))
    if source == 'glob':
        k = int(rng.integers(1, len(s.days)))
        for n, q in enumerate((slice(0, k), slice(k, None))):
            run.write_nc(os.path.join(scratch, 'in', 'part%d.nc' % n),
                         {v: x[q] for v, x in s.f.items()}, s.dims,
                         run.coords_of(s), s.days[q], s.calendar)
        base['forcing'] = os.path.join(scratch, 'in', 'part*.nc')
    if source in ('ascii', 'binary'):
        base.update(forcing=L, forcing_fmt=source, forcing_vars=fv)
    full = {k: base[k] for k in ('forcing', 'domain', 'state', 'forcing_fmt',
                                 'forcing_vars', 'state_vars', 'domain_vars',
                                 'time_step', 'start', 'stop')}
    full.update(scheduler='sync', num_workers=1)
    given, omitted = {}, []
    val = values(rng, s)
    if rng.random() < .5:
        edges(rng, val)
        res.count('edge_values')
    if passing:
        val['method'] = 'passthrough'
    for k, d in DEFAULTS.items():
        r = rng.random()
        if s.ts == 1440 and k == 'period_ending':
            r = .99
        full[k] = d
        if r < .45:
            full[k] = given[k] = val[k]
        elif r < .65:
            given[k] = d
        else:
            omitted.append(k)
    for k in ('start', 'stop'):
        if rng.random() < .25 and source in ('netcdf', 'glob'):
            omitted.append(k)
        else:
            given[k] = full[k]
    full['out_precision'] = str(rng.choice(['f4', 'f8']))
    given['out_precision'] = full['out_precision']
    if full['out_precision'] == 'f4' and rng.random() < .5:
        omitted.append('out_precision')
        given.pop('out_precision')
    if rng.random() < .3:
        full['out_freq'] = given['out_freq'] = str(rng.choice(['D', '2D',
                                                               'MS']))
    if rng.random() < .4:
        full['constant_vars'] = given['constant_vars'] = {
            'wind': float(rng.integers(0, 8)) / 2}
    full['chunks'] = {d: int(rng.integers(1, 4)) for d in s.dims}
    if rng.random() < .3:
        full['chunks'] = {}
        omitted.append('chunks')
    else:
        given['chunks'] = full['chunks']
    names = scen.DAYVARS if s.ts == 1440 else scen.SUBVARS
    if s.ts < 1440 and rng.random() < .3:
        full['out_vars'] = {v: dict(out_name=v) for v in OUT6}
        omitted.append('out_vars')
    else:
        pick = [str(v) for v in rng.permutation(names)[
            :int(rng.integers(1, len(names) + 1))]]
        full['out_vars'] = {v: dict(out_name=v if rng.random() < .6 else
                                    'o_' + v) for v in pick}
        given['out_vars'] = full['out_vars']
        if rng.random() < .3:
            # INI files have no units
            for v, e in full['out_vars'].items():
                if v in UN and rng.random() < .7:
                    e['units'] = str(rng.choice(UN[v]))
    united = any('units' in e for e in full['out_vars'].values())
    if full['method'] == 'passthrough' and rng.random() < .4:
        full['sw_averaging'] = given['sw_averaging'] = 'daylight'
    for k in ('forcing', 'domain', 'state', 'forcing_fmt', 'forcing_vars',
              'state_vars', 'domain_vars', 'time_step'):
        given[k] = full[k]
    res.count(source + '_forcing')
    res.count(full['method'] + '_runs')
    res.count('omitted_options', len(omitted))
    res.count('integer_zeros', sum(given.get(k) == 0 and isinstance(
        given[k], int) for k in ('rain_scalar', 'tday_coef')))
    # the reference: a dictionary with every option spelled out, in a process
    # of its own
    out = os.path.join(scratch, 'ref')
    os.makedirs(out)
    full = copy.deepcopy(full)
    ref = reader(full, out)
    ok, a = fresh(ref)
    if not res.check(ok, lambda: 'a valid dictionary failed: %s' % a):
        return
    res.check(bool(a.files), 'nothing was written')
    forms = ['yaml', 'ini', 'dict', 'ms']
    if united:
        forms.remove('ini')
        res.count('united_runs')
    elif all(v['out_name'] == k for k, v in full['out_vars'].items()):
        forms.append('inilist')
    if spec['prog']:
        forms.append('program')
    for form in forms:
        q = given
        if isinstance(q['forcing'], list) and form != 'dict':
            q = dict(q, forcing=os.path.join(scratch, 'cells'))
        one(rng, scratch, res, s, form, q, full, a, united)
    effects(rng, scratch, res, given, full, a)
    if spec['i'] % 9 == 0:
        res.sample = dict(given={k: str(v) for k, v in given.items()
                                 if k in DEFAULTS}, omitted=omitted)


def reader(p, out):
    def go():
        q = dict(p, out_dir=out)
        run.simulate(q)
        return run.Out(out, q.get('out_prefix', 'forcing'))
    return go


def one(rng, scratch, res, s, form, given, full, a, united=False):
    d = os.path.join(scratch, 'f_' + form)
    os.makedirs(d)
    out = os.path.join(d, 'out')
    rel = rng.random() < .3
    if rng.random() < .5:
        out = os.path.join(d, 'new', 'deep', 'out')
        res.count('created_directories')
    elif rng.random() < .5:
        os.makedirs(out)
    g = copy.deepcopy(given)
    g['out_dir'] = os.path.relpath(out, d) if rel else out
    path = os.path.join(d, str(rng.choice(['c.yaml', 'c.conf', 'config'])))
    text = None
    if form == 'yaml' or (form in ('ms', 'program') and (
            united or rng.random() < .5)):
        if 'out_vars' in g:
            for v, e in g['out_vars'].items():
                if rng.random() < .3:
                    e.setdefault('units', run_default(v))
        text = conf.yaml_text(g, rng)
        if 'tdew_tol' in g and rng.random() < .5:
            text = re.sub(r'(tdew_tol"?\s*:\s*)[^\s,#]+',
                          r'\g<1>%e' % g['tdew_tol'], text)
    elif form in ('ini', 'inilist', 'ms', 'program'):
        text = conf.ini_text(g, rng, 'list' if form == 'inilist' else
                             'section')
    prefix = full['out_prefix']
    way, start = conf.program(rng)

    def go():
        os.chdir(d)
        if form == 'dict':
            q = respell(rng, dict(g, scheduler='sync'))
            run.simulate(q)
        elif form in ('yaml', 'ini', 'inilist'):
            run.simulate(conf.read(path))
        elif form == 'ms':
            from metsim.cli import ms
            av = [path, '-s', str(rng.choice(['sync', 'threads']))]
            if rng.random() < .3:
                av = ['--scheduler=sync', '-n', '2', path]
            if rng.random() < .3:
                av.append('-v')
            sys.argv = ['ms'] + av
            try:
                ms.main()
            except SystemExit as e:
                if e.code:
                    raise
        else:
            cmd = start + [path, '-s', 'single-threaded']
            r = subprocess.run(cmd, capture_output=True, text=True,
                               timeout=200)
            if r.returncode:
                raise RuntimeError('exit status %d: %s' % (
                    r.returncode, r.stderr[-300:]))
        return run.Out(out, prefix)
    if text is not None:
        open(path, 'w').write(text)
    ok, b = fresh(go)
    if not res.check(ok, lambda: 'valid settings failed as %s (%s): %s | %s' %
                     (form, path, b, text)):
        return
    diff = files_equal(a, b, skip=(
        'history', 'NCO', 'out_dir', 'chunks', 'scheduler', 'out_freq',
        'start', 'stop') + tuple(DEFAULTS) + ('time_step', 'forcing_fmt',
                                               'forcing', 'sw_averaging'))
    res.check(diff is None, lambda: '%s gives other output than the '
              'dictionary: %s | %s' % (form, diff, text or g))
    res.count(form + '_runs')
    if form == 'program':
        res.count('started_as_' + way)
    res.unit(form, tuple(sorted(g)), s.ts, full['prec_type'],
             full['utc_offset'])


def run_default(v):
    from .c13 import DEF
    return DEF[v]


def respell(rng, q):
    """other spellings a dictionary may have"""
    q = dict(q)
    for k in conf.NAMED:
        if k in q:
            q[k] = conf.recase(rng, q[k])
    for k in ('start', 'stop'):
        if k in q:
            d = q[k]
            q[k] = [d, pd.Timestamp(d), '%d/%d/%d' % (d.year, d.month, d.day),
                    '%04d-%02d-%02d' % (d.year, d.month, d.day)][
                        int(rng.integers(4))]
    for k in ('time_step', 'rain_scalar', 'lapse_rate', 'tdew_tol',
              'tday_coef', 'sw_prec_thresh', 'tmax_daylength_fraction'):
        if k in q and rng.random() < .3:
            q[k] = str(q[k])
    return q


def effects(rng, scratch, res, given, full, a):
    """leaving out an option that was set to something else shows"""
    opts = [k for k in ('prec_type', 'lw_type', 'rain_scalar', 'tday_coef',
                        'utc_offset', 'period_ending', 'lw_cloud')
            if k in given and given[k] != DEFAULTS[k]]
    if not opts:
        return
    k = str(rng.choice(opts))
    show = {'prec_type': 'prec', 'lw_type': 'longwave',
            'lw_cloud': 'longwave', 'rain_scalar': 'shortwave'}.get(k)
    if show and full['out_vars'].get(show, {}).get('out_name') not in a.var:
        return
    if k in ('rain_scalar', 'tday_coef') or k == 'prec_type':
        return
    if k.startswith('lw') and full.get('rain_scalar', .75) < .3:
        return      # overcast all the time: the sky is black, whatever it is
    q = dict(full)
    q[k] = DEFAULTS[k]
    ok, b = fresh(reader(q, os.path.join(scratch, 'eff')))
    if not res.check(ok, lambda: 'run failed: %s' % b):
        return
    same = run.same(a, b, 0, 0) is None
    if k == 'period_ending' or k.startswith('lw'):
        res.check(not same, '%s = %r has no effect' % (k, given[k]))
        res.count('effects_seen')
