from .. import judge, scen
from .common import sample, simulate

PROP = 'C05'
RULE = ('random simulations (all latitudes, dates, steps, daylength '
        'fractions, jumps of tens of degrees between days, zero ranges, '
        'records from one day); per cell the written temperature is compared '
        'with the monotone cubic through the extremes, its bounds and its '
        'monotony between knots; one evaluation per cell and month, distinct '
        'by step, latitude, month, climate and time convention')
REQUIRED = ['intervals', 'knots', 'values_compared']


def plan(tier):
    n = 150 if tier == 'quick' else 2600
    kinds = ['any', 'extreme', 'polar', 'one', 'utc', 'frac', 'fine', 'yearend', 'frac']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    opt = {}
    kw = dict(ambient=True, out_vars=['temp'], mask='mixed')
    if k == 'extreme':
        kw['climate'] = str(rng.choice(['extreme', 'flat']))
    if k == 'polar':
        kw['lat_kind'] = str(rng.choice(['polar', 'spole']))
    if k == 'one':
        kw['nd'] = int(rng.choice([1, 2]))
    if k == 'utc':
        opt['utc_offset'] = True
    if k == 'frac':
        opt['tmax_daylength_fraction'] = float(rng.choice(
            [.05, .2, .5, .8, .92, .95, .97]))
    if k == 'fine':
        kw.update(time_step=int(rng.choice([1, 3, 5, 6])), nlat=1, nlon=2)
    if k == 'yearend':
        kw['start_kind'] = str(rng.choice(['leapend', 'yearend', 'leapfeb',
                                           'newyear']))
    s = scen.gen(rng, opt=opt, **kw)
    out = simulate(s, scratch)
    judge.temp_curve(res, s, out)
    if spec['i'] % 13 == 0:
        c = s.cells()[0]
        res.sample = sample(s, t_min=s.cell(c)[0]['t_min'][:2].tolist(),
                            t_max=s.cell(c)[0]['t_max'][:2].tolist(),
                            written=judge.col(out, 'temp', c)[:6].tolist())
