from .. import judge, scen
from .common import sample, simulate

PROP = 'C06'
RULE = ('random simulations in all climates, elevations, lapse rates, steps '
        'and record lengths from one day, local and UTC; every written step '
        'of a cell is judged against the written temperature and against the '
        'reference interpolation; one evaluation per cell, distinct by step, '
        'climate, elevation, latitude, whether saturation limits, length and '
        'time convention')
REQUIRED = ['steps', 'saturated_steps', 'interpolated_steps',
            'values_compared']
ASSUMPTIONS = ['dewpoint iteration converged to the configured tolerance']


def plan(tier):
    n = 140 if tier == 'quick' else 2400
    kinds = ['any', 'wet', 'cold', 'one', 'utc', 'high', 'coarse', 'dry']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    opt = {}
    kw = dict(ambient=True, mask='mixed')
    if k == 'wet':
        kw['climate'] = str(rng.choice(['wet', 'tropical', 'flat']))
    if k == 'cold':
        kw['climate'] = str(rng.choice(['arctic', 'freezing', 'extreme']))
    if k == 'dry':
        kw['climate'] = 'desert'
    if k == 'one':
        kw['nd'] = int(rng.choice([1, 2]))
    if k == 'utc':
        opt['utc_offset'] = True
    if k == 'coarse':
        kw['time_step'] = int(rng.choice([180, 240, 360]))
    s = scen.gen(rng, opt=opt, **kw)
    if k == 'high':
        s.elev = rng.uniform(2500, 6000, s.elev.shape)
    out = simulate(s, scratch)
    judge.humidity(res, s, out)
    if spec['i'] % 13 == 0 and 'rel_humid' in out.var:
        c = s.cells()[0]
        res.sample = sample(s, first_steps={
            v: judge.col(out, v, c)[:3].tolist() for v in (
                'temp', 'vapor_pressure', 'rel_humid', 'spec_humid',
                'air_pressure')})
