import numpy as np

from .. import judge, run, scen
from .common import sample, simulate

PROP = 'C08'
RULE = ('random simulations, local and UTC, of wind and cloud fraction that '
        'change every day, and simulations with constants for wind or another '
        'forcing variable; one evaluation per written cell series, distinct by'
        ' variable, step, time convention, longitude and length, non-trivial '
        'when the daily values differ')
REQUIRED = ['local_series', 'utc_series', 'constant_series']


def plan(tier):
    n = 140 if tier == 'quick' else 2400
    kinds = ['local', 'utc', 'const', 'utc', 'local', 'const', 'one']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    opt = dict(utc_offset=k == 'utc' or (k != 'local' and rng.random() < .3))
    kw = dict(ambient=True, mask='mixed')
    if k == 'one':
        kw['nd'] = int(rng.choice([1, 2]))
    s = scen.gen(rng, opt=opt, **kw)
    if rng.random() < .3:
        s.f['wind'] = s.f['wind'] * 0 + rng.choice([0., 1e-3, 45.],
                                                   s.f['wind'].shape)
    if k != 'const':
        out = simulate(s, scratch)
        judge.constant_in_day(res, s, out)
    else:
        const(s, rng, scratch, res)
        return
    if spec['i'] % 13 == 0:
        c = s.cells()[0]
        res.sample = sample(s, wind=s.cell(c)[0]['wind'][:3].tolist(),
                            written=judge.col(out, 'wind', c)[:4].tolist())


def const(s, rng, scratch, res):
    given = {}
    wind = float(rng.choice([0., 2., 3.3333333, 17.25]))
    given['wind'] = rng.choice([0, 1]) and str(wind) or wind
    drop = rng.random() < .5
    if rng.random() < .4:
        given['t_min'] = -60.
    if rng.random() < .3:
        given['prec'] = float(rng.choice([0., 4.8]))
    full = s.copy()
    for v, x in given.items():
        full.f[v] = np.full_like(full.f[v], float(x))
    if drop:
        s.f.pop('wind', None)
    d = scratch
    p = run.write_inputs(s, d)
    p['constant_vars'] = dict(given)
    out = run.run(s, d, params=p)
    judge.constant_in_day(res, full, out)
    if 'wind' in out.var:
        for c in s.cells():
            res.check((np.abs(judge.col(out, 'wind', c) - wind) <= 1e-6 * wind
                       + 1e-12).all(), 'constant wind %s is written as %s' % (
                           given['wind'], judge.col(out, 'wind', c)[:3]))
            res.count('constant_series')
    if 'prec' in given:
        judge.prec_totals(res, full, out)
    if 't_min' in given:
        judge.temp_curve(res, full, out)
