import numpy as np

from .. import judge, ref, run, scen
from .common import again, sample, same_attrs

PROP = 'C13'
RULE = ('random subsets of the output variables, each with a random name, a '
        'random supported or unknown unit and either precision, at random '
        'steps, compared with a plain run on the same inputs; one evaluation '
        'per written variable, distinct by variable, unit, step, precision, '
        'and whether renamed')
REQUIRED = ['variables', 'converted', 'renamed', 'unknown_unit', 'f4',
            'coordinates', 'hru_runs', 'labels']
DEF = {'pet': 'mm timestep-1', 'prec': 'mm timestep-1', 'shortwave': 'W m-2',
       'longwave': 'W m-2', 't_max': 'C', 't_min': 'C', 't_day': 'C',
       'temp': 'C', 'vapor_pressure': 'Pa', 'air_pressure': 'kPa',
       'tskc': 'fraction', 'rel_humid': '%', 'spec_humid': 'g g-1',
       'wind': 'm s-1', 'daylength': 's'}
RATE = {'mm timestep-1': lambda x, m: x, 'mm h-1': lambda x, m: x * 60. / m,
        'mm s-1': lambda x, m: x / 60. / m}
TEMP = {'C': lambda x, m: x, 'K': lambda x, m: x + 273.15}
CONV = {'pet': RATE, 'prec': RATE, 'temp': TEMP, 't_min': TEMP, 't_max': TEMP,
        't_day': TEMP,
        'vapor_pressure': {'Pa': lambda x, m: x, 'hPa': lambda x, m: x / 100,
                           'kPa': lambda x, m: x / 1000},
        'air_pressure': {'kPa': lambda x, m: x, 'hPa': lambda x, m: x * 10,
                         'Pa': lambda x, m: x * 1000},
        'tskc': {'fraction': lambda x, m: x, '%': lambda x, m: x * 100},
        'rel_humid': {'%': lambda x, m: x, 'fraction': lambda x, m: x / 100}}
UNKNOWN = ['furlongs', 'W m-3', '', 'c', 'PA', 'mm', 'degC']
STD = {'pet': 'water_potential_evaporation_flux', 'prec': 'precipitation_flux',
       'shortwave': 'surface_downwelling_shortwave_flux',
       'longwave': 'surface_downwelling_longwave_flux',
       'temp': 'air_temperature', 'vapor_pressure': 'vapor_pressure',
       'air_pressure': 'air_pressure', 'tskc': 'cloud_fraction',
       'rel_humid': 'relative_humidity', 'spec_humid': 'specific_humidity',
       'wind': 'wind_speed'}


def plan(tier):
    n = 140 if tier == 'quick' else 2400
    kinds = ['sub', 'daily', 'sub', 'all', 'swap', 'sub', 'dailyall']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    kw = dict(mask='mixed', nd=int(rng.integers(1, 5)), ambient=True)
    opt = dict(out_precision='f8')
    if k.startswith('daily'):
        kw['time_step'] = 1440
    if rng.random() < .3:
        opt['utc_offset'] = True
    s = scen.gen(rng, opt=opt, **kw)
    if s.layout == 'hru' and rng.random() < .8:
        s.ids = labels(rng, len(s.lat))
        res.count('labels')
    p = run.write_inputs(s, scratch)
    base = run.run(s, scratch, params=p)
    every = list(s.opt['out_vars'])
    if not judge.need(res, s, base, every):
        return
    absolute(res, s, base)
    names = list(every)
    rng.shuffle(names)
    if k not in ('all', 'dailyall', 'swap'):
        names = names[:int(rng.integers(1, len(names) + 1))]
    ov, want = {}, {}
    for v in names:
        d = dict(out_name=v)
        if rng.random() < .4:
            d['out_name'] = '%s_%d' % (rng.choice(['x', 'Tair', 'my-var',
                                                   v.upper()]), len(ov))
            res.count('renamed')
        units = list(CONV.get(v, {DEF[v]: 0}))
        u = None
        if rng.random() < .75:
            u = str(rng.choice(units + ([rng.choice(UNKNOWN)]
                                        if rng.random() < .3 else [])))
            d['units'] = u
        ov[v] = d
        if u is not None and u not in units:
            res.count('unknown_unit')
            u = None
        want[v] = u or DEF[v]
    if k == 'swap' and len(names) > 1:     # names of other variables
        a, b = names[:2]
        ov[a]['out_name'], ov[b]['out_name'] = b, a
        for v in names[2:]:
            if ov[v]['out_name'] in (a, b):
                ov[v]['out_name'] = v
    prec = str(rng.choice(['f4', 'f8']))
    over = dict(out_vars=ov, out_precision=prec)
    if rng.random() < .3:
        over['out_prefix'] = 'other'
    o = again(s, scratch, 'conv', p, **over)
    expect = {ov[v]['out_name'] for v in names}
    res.check(set(o.var) == expect, lambda: 'written variables %s, requested '
              '%s' % (sorted(o.var), sorted(expect)))
    res.check(o.stamps == base.stamps, 'time axis changes with the variables')
    for v in names:
        n = ov[v]['out_name']
        if n not in o.var:
            continue
        f = CONV.get(v, {}).get(want[v], lambda x, m: x)
        x = f(base.var[v], s.ts)
        wh = '%s as %r in %r' % (v, n, ov[v].get('units'))
        d = run.differ(o.var[n], x, 3e-7 if prec == 'f4' else 1e-10,
                       1e-30 if want[v] == 'mm s-1' else 1e-14)
        res.check(d is None, lambda: '%s: not the default value converted: %s'
                  % (wh, d))
        res.check(o.units[n] == want[v], '%s: declares units %r, expected %r'
                  % (wh, o.units[n], want[v]))
        res.check(o.dtype[n] == ('float32' if prec == 'f4' else 'float64'),
                  '%s: precision %s requested as %s' % (wh, o.dtype[n], prec))
        res.check(o.dims[n] == ('time',) + s.dims, '%s: dimensions %s' % (
            wh, o.dims[n]))
        if v in STD:
            res.check(o.vattrs[n].get('standard_name') == STD[v],
                      '%s: standard_name %r' % (
                          wh, o.vattrs[n].get('standard_name')))
        rest = {a: b for a, b in o.vattrs[n].items() if a != 'units'}
        rest0 = {a: b for a, b in base.vattrs[v].items() if a != 'units'}
        res.check(same_attrs(rest, rest0), '%s: metadata changed' % wh)
        res.count('variables')
        res.count('converted', want[v] != DEF[v])
        res.count('f4', prec == 'f4')
        res.unit(v, want[v], s.ts, prec, n != v)
    coords(res, s, o)
    res.check(all(a.get('out_prefix', '') == over.get('out_prefix', 'forcing')
                  for a in o.attrs) or not any('out_prefix' in a
                                               for a in o.attrs),
              'global attributes name another prefix')
    # the order in which variables are asked for does not matter
    ov2 = {v: dict(ov[v]) for v in names[::-1]}
    o2 = again(s, scratch, 'conv2', p, **dict(over, out_vars=ov2))
    d = run.same(o, o2, 0, 0)
    res.check(d is None, lambda: 'reversing the list of variables changes the '
              'output: %s' % d)
    res.check(o.units == o2.units, 'reversing the list of variables changes '
              'declared units')
    if spec['i'] % 11 == 0:
        res.sample = sample(s, requested=ov, declared=o.units)


def labels(rng, n):
    """what units may be called"""
    t = str(rng.choice(['i2', 'i4', 'i8', 'i8', 'u2', 'u4', 'u8', 'f4', 'f8',
                        'str']))
    if t == 'str':
        return np.array(['basin %s' % chr(65 + int(i)) * int(i % 3 + 1)
                         for i in rng.permutation(26)[:n]], object)
    if t[0] == 'f':
        return (rng.permutation(1000)[:n] / 10 + (
            17e10 if t == 'f8' else 0)).astype(t)
    lo, hi = {'i2': (-3e4, 3e4), 'i4': (-2e9, 2e9), 'i8': (1e11, 9e15),
              'u2': (4e4, 6.5e4), 'u4': (3e9, 4.29e9), 'u8': (1e11, 9e15)}[t]
    return np.unique(rng.integers(int(lo), int(hi), 4 * n)).astype(t)[
        rng.permutation(n)]


def absolute(res, s, o):
    """default units against the reference, to a per mille"""
    c = s.cells()[0]
    n = 1440 // s.ts
    for v in o.var:
        res.check(o.units[v] == DEF[v], '%s declares %r by default' % (
            v, o.units[v]))
    if s.ts == 1440:
        dy = judge.ref_daily(s, c)
        dy['wind'] = s.cell(c)[0]['wind']
        r = {v: dy[v] for v in o.var}
    else:
        _, r, _ = judge.refs(s, c)
    for v in o.var:
        x = judge.col(o, v, c)
        i = np.ones(len(x), bool)
        if s.opt['utc_offset']:
            continue
        m, w = np.abs(x).mean(), np.abs(r[v]).mean()
        if w < 1e-3:
            continue
        if v == 'vapor_pressure' and s.ts < 1440 and abs(
                m / w * 1000 - 1) < .002:
            res.found('vp-kpa', 'declared Pa, values a thousandth of it')
            continue
        res.check(abs(m / w - 1) < .002, lambda: '%s is not in its default '
                  'unit %s: mean %.6g, reference %.6g' % (v, DEF[v], m, w))


def coords(res, s, o):
    import netCDF4
    if s.layout == 'grid':
        for k, want in (('lat', s.lat), ('lon', s.lon)):
            if res.check(k in o.coord, 'coordinate %s missing' % k):
                res.check(np.array_equal(o.coord[k], want),
                          'coordinate %s is %s, the domain has %s' % (
                              k, o.coord[k], want))
    else:
        if res.check('hru' in o.coord, 'coordinate hru missing'):
            res.check(np.array_equal(o.coord['hru'],
                                     run.coords_of(s)['hru'][1]),
                      lambda: 'coordinate hru is %s, the domain has %s' % (
                          o.coord['hru'], run.coords_of(s)['hru'][1]))
        res.count('hru_runs')
    res.count('coordinates')
