from .. import judge, scen
from .common import sample, simulate

PROP = 'C01'
RULE = ('random simulations (grid or list domains, all dates, climates, time '
        'steps, distribution methods, storm peaks 0..1439 and durations 1..'
        '1440 min per month, local and UTC time) run through the public '
        'interface; one evaluation per processed cell, whose written '
        'precipitation is compared day by day with its input; distinct by '
        'method, step, time convention, wet months, climate and length, '
        'non-trivial when it rains')
REQUIRED = ['day_totals', 'utc_series', 'values_compared']


def plan(tier):
    n = 150 if tier == 'quick' else 2600
    kinds = ['tri', 'tri', 'mix', 'any', 'utc', 'utc', 'short', 'edge', 'long']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    opt = {}
    kw = dict(ambient=True, out_vars=['prec'], mask='mixed')
    if k in ('tri', 'short', 'edge', 'long'):
        opt['prec_type'] = str(rng.choice(['triangle', 'Triangle', 'mix']))
    if k == 'mix':
        opt['prec_type'] = 'mix'
        kw['climate'] = str(rng.choice(['freezing', 'alpine']))
    if k == 'utc':
        opt['utc_offset'] = True
    if k == 'long':
        kw.update(nd=int(rng.integers(28, 75)), nlat=1, nlon=2)
    s = scen.gen(rng, opt=opt, **kw)
    sh = s.t_pk.shape
    if k == 'short':
        s.dur = rng.uniform(.1, 12, sh)
        s.t_pk = rng.choice([0., .5, 1., 719.5, 1438.6, 1439., 300.], sh)
    if k == 'edge':
        s.t_pk = rng.choice([0., 2., 15., 1425., 1439., 700.], sh)
        s.dur = rng.choice([1., 2., 7., 60., 719., 1440.], sh)
    if k in ('tri', 'utc') and rng.random() < .4:
        s.t_pk = np_round(s.t_pk)
        s.dur = np_round(s.dur)
    out = simulate(s, scratch)
    judge.prec_totals(res, s, out)
    if s.opt['utc_offset'] and 'prec' in out.var:
        judge.prec_shifted(res, s, out)
    if spec['i'] % 13 == 0:
        c = s.cells()[0]
        res.sample = sample(s, first_cell=dict(
            days_in=s.cell(c)[0]['prec'][:4].tolist(),
            written=judge.col(out, 'prec', c).reshape(
                len(s.days), -1).sum(axis=1)[:4].tolist()))


def np_round(x):
    import numpy as np
    return np.round(x)
