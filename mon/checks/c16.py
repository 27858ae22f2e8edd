import copy
import os
import shutil

import numpy as np

from .. import conf, run, scen
from .common import files_equal, fresh, sample

PROP = 'C16'
RULE = ('random histories (construct, run, fail, read a configuration, run '
        'again) over 3-4 simulations with different settings in one process; '
        'every run is compared, values and metadata, with the run of the same '
        'settings in a process that did nothing else; one evaluation per run '
        'in a history, distinct by the operations before it')
REQUIRED = ['runs_compared', 'failed_runs', 'constructed', 'ini_read',
            'yaml_read', 'interleaved_runs', 'repeated_runs',
            'shared_inputs', 'twins', 'in_memory',
            'shared_places']
TIMEOUT = 300
BAD = [dict(prec_type='sometimes'), dict(time_step=7), dict(out_vars={}),
       dict(forcing='/nonexistent/forcing.nc'), dict(lw_type='unknown'),
       dict(method='unknown'), dict(out_precision='f2'),
       dict(stop='2200/01/01'), dict(state='/nonexistent/state.nc'),
       dict(out_vars={'nothing': dict(out_name='nothing')}),
       dict(chunks={'nowhere': 2})]


def plan(tier):
    return [dict(i=i) for i in range(56 if tier == 'quick' else 900)]


# what no conversion is known for; the same words in many simulations
NONE = ['furlong', 'fathom']
UN = {'temp': ['C', 'K'], 'prec': ['mm timestep-1', 'mm h-1', 'mm s-1'],
      'vapor_pressure': ['Pa', 'hPa', 'kPa'],
      'air_pressure': ['kPa', 'hPa', 'Pa'], 'tskc': ['fraction', '%'],
      'rel_humid': ['%', 'fraction'], 't_min': ['C', 'K'],
      't_max': ['C', 'K'], 'pet': ['mm timestep-1', 'mm h-1']}


def inputs(s, d, rng):
    """input files whose variables exist in two versions"""
    p = run.write_inputs(s, d)
    t = s.copy()
    t.elev = s.elev[::-1] * .7 + 150
    t.t_pk, t.dur = 1400 - s.t_pk * .9, s.dur * .5 + 40
    t.f = {k: v[::-1] for k, v in s.f.items()}
    t.s = {k: v[::-1] for k, v in s.s.items()}
    run.write_nc(p['forcing'], {**s.f, **{k + '_b': v for k, v in
                                          t.f.items()}},
                 s.dims, run.coords_of(s), s.days, s.calendar)
    run.write_nc(p['state'], {**s.s, **{k + '_b': v for k, v in t.s.items()}},
                 s.dims, run.coords_of(s), s.sdays, s.calendar)
    run.write_domain(s, p['domain'], more=dict(
        elev_b=t.elev, t_pk_b=t.t_pk, dur_b=t.dur, mask_b=np.where(
            np.arange(s.mask.size).reshape(s.shape) % 2, s.mask, 1.)))
    return p


def other_version(rng, p):
    for sec, names in (('forcing_vars', ['t_min', 't_max', 'prec']),
                       ('state_vars', ['t_min', 't_max', 'prec']),
                       ('domain_vars', ['elev']), ('domain_vars', ['mask']),
                       ('domain_vars', ['t_pk', 'dur'])):
        if rng.random() < .4:
            if sec != 'domain_vars':
                # minimum and maximum belong together
                names = names[:2] if rng.random() < .5 else names[2:]
            p[sec] = {k + '_b' if v in names else k: v
                      for k, v in p[sec].items()}


def same_dates(s):
    """the same first and last day in the other calendar"""
    cal = 'standard' if s.calendar == 'noleap' else 'noleap'
    days = scen.day_list(s.days[0], len(s.days) + 2, cal)
    last = [i for i, d in enumerate(days) if d == s.days[-1]]
    if not last or s.days[0][1:] == (2, 29):
        return {}
    return dict(start=s.days[0], nd=last[0] + 1, calendar=cal,
                time_step=s.ts, opt={k: s.opt[k] for k in (
                    'period_ending', 'utc_offset')})


def make(rng, scratch, n, sims=(), twins=False):
    """a simulation with settings of its own, many left to their defaults;
    it may use the input files of another one"""
    if sims and not (twins and n == 1) and rng.random() < .6:
        was = sims[int(rng.integers(len(sims)))]
        s = was['s'].copy()
        t = scen.gen(rng, nd=1, tunables=rng.random() < .8)
        keep = {k: s.opt[k] for k in ('method', 'time_step', 'out_vars')}
        s.opt = dict(t.opt, **keep)
        p = run.settings(s, was['forcing'], was['p']['domain'],
                         was['p']['state'], '')
        if rng.random() < .6:
            other_version(rng, p)
        place = was if rng.random() < .5 else None
        if rng.random() < (.7 if place else .3) and len(s.days) > 1:
            p['stop'] = p['start']
        d = os.path.join(scratch, 'sim%d' % n)
        p['out_dir'] = os.path.join(d, 'out')
        os.makedirs(d)
        return vary(rng, s, p, d, n, True, place)
    near = {}
    if sims and ((twins and n == 1) or rng.random() < .6):
        near = same_dates(sims[int(rng.integers(len(sims)))]['s'])
    s = scen.gen(rng, **{**dict(
                 nd=int(rng.integers(5, 8) if twins else rng.integers(1, 4)),
                 mask='mixed', nlat=int(rng.integers(1, 3)),
                 nlon=int(rng.integers(1, 3)), nhru=3, time_step=int(rng.choice([60, 180, 360, 1440])),
                 calendar=str(rng.choice(['standard', 'standard', 'noleap'])),
                 start_kind='leapfeb' if twins or rng.random() < .3
                 else None), **near})
    if near:
        # nothing but the calendar and the domain tells them apart
        for k in ('period_ending', 'utc_offset'):
            s.opt[k] = near['opt'][k]
    if rng.random() < .4:
        s.opt['method'] = 'passthrough'
        s.f['shortwave'] = rng.uniform(5, 380, s.f['t_min'].shape)
    d = os.path.join(scratch, 'sim%d' % n)
    return vary(rng, s, inputs(s, d, rng), d, n, False)


def vary(rng, s, p, d, n, shared, place=None):
    for k in ('utc_offset', 'period_ending', 'prec_type', 'lw_type',
              'lw_cloud', 'rain_scalar', 'tday_coef', 'lapse_rate',
              'sw_prec_thresh', 'tmax_daylength_fraction', 'out_precision',
              'calendar', 'start', 'stop'):
        if k in p and rng.random() < .5:
            if k == 'calendar' and s.calendar == 'noleap':
                continue
            if shared and k in ('start', 'stop'):
                continue
            del p[k]
    if rng.random() < .3:
        p['utc_offset'] = True
    if rng.random() < .3 and s.ts < 1440:
        p['period_ending'] = True
    if rng.random() < .5:
        p['chunks'] = {s.dims[0]: 1}
    if rng.random() < .3:
        p['out_freq'] = str(rng.choice(['D', 'M', '2D']))
    if rng.random() < .3:
        p['out_prefix'] = 'p%d' % n
    if place:
        # the same directory and prefix; what is there is removed in between
        p['out_dir'], p['out_prefix'] = place['out'], place['prefix']
    if rng.random() < .3:
        p['constant_vars'] = {'wind': float(rng.integers(1, 9))}
    if rng.random() < .3 and p['method'] == 'passthrough':
        p['sw_averaging'] = 'daylight'
    if s.ts < 1440 and rng.random() < .3:
        del p['out_vars']
    else:
        names = list(p['out_vars'])
        names = [str(v) for v in rng.permutation(names)[
            :int(rng.integers(1, len(names) + 1))]]
        ov = {}
        for v in names:
            e = dict(out_name=v if rng.random() < .6 else '%s_%d' % (v, n))
            if v in UN and rng.random() < .5:
                e['units'] = str(rng.choice(UN[v] + NONE))
            ov[v] = e
        p['out_vars'] = ov
    kind = str(rng.choice(['dict', 'dict', 'ini', 'inilist', 'yaml', 'data']))
    forcing = p['forcing']
    if kind == 'data' and s.calendar == 'noleap':
        kind = 'dict'
    if kind == 'data':
        # in memory, without a word on the calendar
        import xarray as xr
        with xr.open_dataset(forcing) as ds:
            p['forcing'] = ds.load()
        p['forcing']['time'].encoding = {}
        p['forcing_fmt'] = 'data'
        if rng.random() < .5:
            p.pop('calendar', None)
    cf = os.path.join(d, 'c.conf')
    if kind.startswith('ini'):
        open(cf, 'w').write(conf.ini_text(p, rng, 'list' if kind == 'inilist'
                                          else 'section'))
    elif kind == 'yaml':
        open(cf, 'w').write(conf.yaml_text(p, rng))
    return dict(s=s, p=p, kind=kind, conf=cf, n=n, forcing=forcing,
                prefix=p.get('out_prefix', 'forcing'), out=p['out_dir'],
                shared=shared)


def params(sim, res=None):
    if sim['kind'] in ('dict', 'data'):
        q = copy.deepcopy({k: v for k, v in sim['p'].items()
                           if k != 'forcing'})
        q['forcing'] = sim['p']['forcing']
        if res is not None:
            res.count('in_memory', sim['kind'] == 'data')
        return q
    if res is not None:
        res.count('ini_read' if sim['kind'].startswith('ini') else
                  'yaml_read')
    return conf.read(sim['conf'])


def construct(p):
    try:
        return run.import_metsim().MetSim(p)
    except Exception as e:     # noqa
        raise run.RunFailed(e)


def go(ms):
    try:
        ms.run()
    except Exception as e:     # noqa
        raise run.RunFailed(e)


def alone(sim):
    os.makedirs(sim['out'], exist_ok=True)
    go(construct(params(sim)))
    return run.Out(sim['out'], sim['prefix'])


def frozen(ms):
    """what can be seen of the settings of a simulation object"""
    return repr(sorted((k, repr(v)) for k, v in ms.params.items()))


def case(spec, rng, scratch, res):
    sims = []
    # two simulations told apart by the calendar only, over a leap day
    twins = spec['i'] % 4 == 1
    for n in range(int(rng.integers(3, 5))):
        sims.append(make(rng, scratch, n, sims, twins))
    res.count('shared_inputs', sum(q['shared'] for q in sims))
    res.count('shared_places', len(sims) - len({q['out'] for q in sims}))
    ref = []
    for sim in sims:
        ok, v = fresh(lambda: alone(sim))
        if not res.check(ok, lambda: 'a valid simulation failed: %s' % v):
            return
        res.check(v.files, 'nothing was written')
        ref.append(v)
        shutil.rmtree(sim['out'])
    hist, objs = [], []
    nrun = 0
    while nrun < 6 and len(hist) < 24:
        op = str(rng.choice(['run', 'run', 'new', 'new', 'later', 'later',
                             'fail', 'read']))
        k = int(rng.integers(len(sims)))
        if twins and nrun < 2:
            op, k = 'run', nrun
        sim = sims[k]
        if op == 'later' and not objs:
            op = 'new'
        before = [(o, frozen(o[1])) for o in objs]
        if op == 'read':
            params(sim, res)
        elif op == 'new':
            objs.append((k, construct(params(sim, res))))
            res.count('constructed')
        elif op == 'fail':
            q = dict(params(sim), out_dir=os.path.join(scratch, 'bad'))
            bad = BAD[int(rng.integers(len(BAD)))]
            q.update(copy.deepcopy(bad))
            try:
                construct(q).run()
            except Exception:      # noqa
                res.count('failed_runs')
        else:
            if op == 'later':
                k, ms = objs.pop(int(rng.integers(len(objs))))
                sim = sims[k]
                before = [b for b in before if b[0][1] is not ms]
                res.count('interleaved_runs')
            else:
                ms = construct(params(sim, res))
            shutil.rmtree(sim['out'], ignore_errors=True)
            go(ms)
            o = run.Out(sim['out'], sim['prefix'])
            d = files_equal(ref[k], o)
            res.check(d is None, lambda: 'simulation %d (%s) after %s: %s' % (
                k, sim['kind'], hist, d))
            res.count('runs_compared')
            if any(h[0] in ('run', 'later') and h[1] == k for h in hist):
                res.count('repeated_runs')
            if hist:
                res.unit(tuple(hist), k)
            nrun += 1
            if twins and nrun == 2:
                res.count('twins', sims[0]['s'].calendar !=
                          sims[1]['s'].calendar)
        for (j, o), was in before:
            res.check(frozen(o) == was, lambda: 'the settings of simulation '
                      '%d changed when %s was done with simulation %d' % (
                          j, op, k))
        hist.append((op, k))
    # rerunning the same object is a run like any other
    if spec['i'] % 6 == 0:
        res.sample = dict(history=hist, sims=[
            sample(q['s'], kind=q['kind']) for q in sims])
