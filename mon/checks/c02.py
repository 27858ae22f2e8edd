import numpy as np

from .. import judge, scen
from .common import sample, simulate

PROP = 'C02'
RULE = ('random local-time simulations whose storm peak and duration differ '
        'in every month and cell, over records that cross months, years and '
        'the freezing point; one evaluation per wet day of a cell, whose '
        'shares per time step are judged (support, rise, fall, centre, and the'
        ' reference hyetograph); distinct by method, month, step, duration '
        'and peak class; plus UTC runs compared with the shifted hyetograph')
REQUIRED = ['wet_days_triangle', 'wet_days_uniform', 'values_compared']


def plan(tier):
    n = 150 if tier == 'quick' else 2600
    kinds = ['tri', 'mix', 'uni', 'months', 'mix0', 'fine', 'tri', 'utc',
             'noleap']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    kw = dict(ambient=True, out_vars=['prec'], mask='mixed')
    opt = {'prec_type': {'uni': 'uniform', 'mix': 'mix', 'mix0': 'mix'}.get(
        k, 'triangle')}
    if rng.random() < .2:
        opt['prec_type'] = opt['prec_type'].upper()
    if k in ('mix', 'mix0'):
        kw['climate'] = 'freezing'
    if k == 'utc':
        opt['utc_offset'] = True
        opt['prec_type'] = str(rng.choice(['mix', 'triangle', 'uniform']))
    if k == 'noleap':
        kw['calendar'] = 'noleap'
    if k == 'months':
        kw.update(nd=int(rng.integers(30, 64)), nlat=1, nlon=2,
                  climate='tropical')
    else:
        kw.update(nd=int(rng.integers(2, 9)))
    if k == 'fine':
        kw['time_step'] = int(rng.choice([1, 2, 3, 5]))
    s = scen.gen(rng, opt=opt, **kw)
    if k == 'mix0':
        # minimum exactly at, and next to, the freezing point
        p = rng.choice([0.0, -1e-6, 1e-6, -0.01, 0.01, -0.0],
                       s.f['t_min'].shape)
        s.f['t_max'] += p - s.f['t_min']
        s.f['t_min'] = p
    if rng.random() < .5:
        s.t_pk, s.dur = np.round(s.t_pk), np.round(s.dur)
    out = simulate(s, scratch)
    if s.opt['utc_offset']:
        if judge.need(res, s, out, ['prec']):
            judge.prec_shifted(res, s, out)
            res.unit('utc', s.ts, s.opt['prec_type'], len(s.days))
    else:
        judge.prec_shape(res, s, out)
    if spec['i'] % 13 == 0:
        res.sample = sample(s, t_pk=s.t_pk[:, 0].ravel()[:3].tolist(),
                            dur=s.dur[:, 0].ravel()[:3].tolist())
