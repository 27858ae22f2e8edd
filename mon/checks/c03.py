import numpy as np

from .. import judge, run, scen
from .common import again, sample

PROP = 'C03'
RULE = ('random local-time simulations at all latitudes and dates (polar day '
        'and night, equinoxes, day 366), each run at a sub-daily and at the '
        'daily step on the same files; per cell and day the sub-daily mean is '
        'compared with the daily output and the course of the day with the '
        'cosine of the zenith angle; one evaluation per cell-day, distinct by '
        'step, latitude (5 degrees) and season (10 days)')
REQUIRED = ['days', 'dark_steps', 'values_compared']


def plan(tier):
    n = 96 if tier == 'quick' else 1600
    kinds = ['any', 'polar', 'leap', 'tropic', 'fine', 'noleap', 'any',
             'round']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    kw = dict(ambient=True, out_vars=['shortwave'], nlat=3, nlon=1,
              nd=int(rng.integers(2, 8)))
    if k == 'polar':
        kw['lat_kind'] = str(rng.choice(['polar', 'spole']))
        kw['start_kind'] = str(rng.choice(['solstice', 'any', 'equinox']))
    if k == 'leap':
        kw['start_kind'] = str(rng.choice(['leapend', 'leapfeb']))
    if k == 'tropic':
        kw['lat_kind'] = 'tropic'
    if k == 'round':
        kw['lat_kind'] = 'round'
    if k == 'noleap':
        kw['calendar'] = 'noleap'
    if k == 'fine':
        kw.update(time_step=int(rng.choice([1, 2, 3, 5])), nlat=2)
    if rng.random() < .2:
        kw['nd'] = 1
    s = scen.gen(rng, **kw)
    p = run.write_inputs(s, scratch)
    out = run.run(s, scratch, params=p)
    dv = {v: dict(out_name=v) for v in ('shortwave', 'daylength')}
    day = again(s, scratch, 'day', p, time_step=1440, out_vars=dv)
    if not res.check('shortwave' in day.var and len(day.var['shortwave']) ==
                     len(s.days), 'daily output incomplete'):
        return
    judge.sw_energy(res, s, out, day.var['shortwave'])
    if spec['i'] % 9 == 0:
        c = s.cells()[0]
        res.sample = sample(s, daily=day.var['shortwave'][(slice(None),) + c]
                            [:3].tolist(), mean_of_steps=judge.col(
            out, 'shortwave', c).reshape(len(s.days), -1).mean(
                axis=1)[:3].tolist())
