import numpy as np

from .. import judge, ref, run, scen
from .common import sample

PROP = 'C09'
RULE = ('random daily simulations (climates from arid to flooded, polar, '
        'frozen; coefficients over their ranges; tolerances 1e-3..1e-9; state '
        'files longer than needed) compared with an independent solution of '
        'the published equations, plus hostile hot inputs that must end; one '
        'evaluation per cell, distinct by climate, latitude, elevation, '
        'coefficients varied and length')
REQUIRED = ['cell_days', 'values_compared', 'floor_season', 'iterating_cells',
            'hostile_runs']
OUTV = ['tskc', 'shortwave', 'vapor_pressure', 'pet', 't_min', 't_max',
        'prec', 't_day', 'daylength', 'wind']


def plan(tier):
    n = 144 if tier == 'quick' else 2500
    kinds = ['any', 'coef', 'desert', 'long', 'wet', 'coef', 'polar',
             'hostile', 'history', 'cloud', 'leap', 'threshold']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    if k == 'hostile':
        return hostile(rng, scratch, res)
    kw = dict(ambient=True, time_step=1440, out_vars=OUTV, mask='mixed')
    opt = {}
    if k == 'coef':
        kw['tunables'] = True
    if k == 'desert':
        kw['climate'] = 'desert'
    if k == 'wet':
        kw['climate'] = str(rng.choice(['wet', 'tropical']))
    if k in ('long', 'history'):
        kw.update(nd=int(rng.choice([35, 95, 130])), nlat=1, nlon=2)
    if k == 'polar':
        kw['lat_kind'] = str(rng.choice(['polar', 'spole']))
    if k == 'cloud':
        opt['lw_cloud'] = str(rng.choice(['default', 'cloud_deardorff',
                                          'CLOUD_DEARDORFF', 'Default']))
    if k == 'leap':
        kw['start_kind'] = str(rng.choice(['leapfeb', 'leapend', 'newyear']))
    tol = 1e-6
    if rng.random() < .3:
        tol = float(rng.choice([1e-3, 1e-4, 1e-8, 1e-9]))
        opt['tdew_tol'] = tol
    s = scen.gen(rng, opt=opt, **kw)
    if k == 'history':      # state and run of very different weather
        o = scen.series(rng, str(rng.choice(['desert', 'wet', 'arctic'])), 90,
                        s.shape)
        s.s = {v: o[v] for v in s.s}
        i = int(rng.integers(90))
        s.s['prec'][i] += 300.
        s.s['t_max'][(i + 45) % 90] += 10.
    if k == 'threshold':
        th = float(rng.choice([0., .5, 2.]))
        s.opt['sw_prec_thresh'] = th
        s.f['prec'] = rng.choice([0., th, th + 1e-9, th * .5, th + 1.],
                                 s.f['prec'].shape)
    out = run.run(s, scratch)
    judge_daily(res, s, out, tol)
    if spec['i'] % 13 == 0:
        c = s.cells()[0]
        res.sample = sample(s, written={v: judge.col(out, v, c)[:2].tolist()
                                        for v in OUTV[:4]})


def judge_daily(res, s, out, tol):
    if not judge.need(res, s, out, OUTV):
        return
    e = judge.eps(out)
    for c in s.cells():
        f, _ = s.cell(c)
        dy = judge.ref_daily(s, c)
        w = judge.where_cell(s, c)
        g = {v: judge.col(out, v, c) for v in OUTV}
        if not res.check(all(np.isfinite(x).all() for x in g.values()), lambda:
                         w + ': %s not finite' % [
                             v for v, x in g.items()
                             if not np.isfinite(x).all()]):
            continue
        for v in ('t_min', 't_max', 'prec', 'wind'):
            judge.close(res, g[v], f[v], 4 * e * np.abs(f[v]) + 1e-12, w + ' '
                        + v)
        # how far from the solution an iteration that met the tolerance may be
        n = len(f['t_min'])
        td = dy['tdew_err'] * tol * np.sqrt(n) * 2 + 1e-9
        res.count('iterating_cells', int(dy['tdew_iter'] > 3))
        vp = dy['vapor_pressure']
        dvp = td * np.abs(ref.svp(dy['tdew'] + .01) - vp) / .01
        judge.close(res, g['vapor_pressure'], vp, dvp + vp * (1e-8 + 4 * e),
                    w + ' vapor pressure')
        dsw = dy['pot'] * dy['tf'] * 6.1e-5 * dvp
        frac = dy['daylength'] / 86400.
        judge.close(res, g['shortwave'], dy['shortwave'], dsw * frac +
                    dy['shortwave'] * (1e-8 + 4 * e) + 1e-10, w + ' shortwave')
        sw = np.maximum(dy['sw_daylight'], 1e-9)
        judge.close(res, g['pet'], dy['pet'], np.abs(dy['pet']) * (
            dsw / sw + 1e-7 + 4 * e) + 1e-10, w + ' pet')
        judge.close(res, g['tskc'], dy['tskc'], 2e-8 + 4 * e, w + ' tskc')
        judge.close(res, g['t_day'], dy['t_day'], (np.abs(dy['t_day']) + 1) *
                    (4 * e + 1e-10), w + ' t_day')
        if s.opt['lw_cloud'].lower() == 'cloud_deardorff':
            res.check(((g['tskc'] >= -1e-12) & (g['tskc'] <= 1)).all(),
                      w + ': cloud fraction outside 0..1')
        for v in ('shortwave', 'vapor_pressure', 'pet'):
            res.check((g[v] >= 0).all(), w + ': negative ' + v)
        res.count('cell_days', n)
        res.count('floor_season', (dy['season'] < 80).sum())
        res.unit(s.climate, int(s.cell_lat(c) // 10), int(s.elev[c] // 500),
                 n, tuple(sorted(x for x in ref.DEFAULTS if x in s.opt)))


def hostile(rng, scratch, res):
    """inputs on which the iteration oscillates must still end: with an error
    or with a solution"""
    s = scen.gen(rng, layout='grid', nlat=1, nlon=2, nd=8, time_step=1440,
                 out_vars=OUTV, lat_kind='mid', tunables=False,
                 opt=dict(tdew_tol=float(rng.choice([1e-6, 1e-12, 0.]))))
    kind = int(rng.integers(3))
    if kind == 0:
        s.f['t_min'] = rng.uniform(44, 50, s.f['t_min'].shape)
        s.f['t_max'] = s.f['t_min'] + rng.uniform(15, 35, s.f['t_min'].shape)
        s.s['prec'][:] = rng.uniform(.2, .8)
        s.f['prec'] *= .05
    elif kind == 1:
        s.f['t_min'] += 273.15
        s.f['t_max'] += 273.15
    else:
        s.f['t_max'] = s.f['t_min'].copy()
    try:
        out = run.run(s, scratch)
        res.check(all(np.isfinite(out.var[v]).all() for v in OUTV),
                  'a run on hot inputs ended with missing values')
    except run.RunFailed:
        pass
    res.count('hostile_runs')
    res.unit('hostile', kind, s.opt['tdew_tol'])
