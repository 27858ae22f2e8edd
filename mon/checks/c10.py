import numpy as np

from .. import judge, ref, run, scen
from .common import again, sample, simulate

PROP = 'C10'
RULE = ('passthrough simulations with random subsets of supplied variables '
        '(shortwave always; longwave, vapor pressure, cloud fraction, wind), '
        'both averaging conventions, sub-daily and daily, all latitudes; and '
        'round trips that feed a default run\'s daily output back; one '
        'evaluation per cell, distinct by supplied set, averaging, step, '
        'climate and latitude')
REQUIRED = ['sw_days', 'lw_days', 'vp_supplied', 'tskc_supplied',
            'vp_estimated', 'tskc_estimated', 'daily_cells', 'round_trips', 'tiny_vapor_pressures',
            'short_days']
DAILYV = ['shortwave', 'tskc', 'pet', 'vapor_pressure', 't_min', 'prec']


def plan(tier):
    n = 130 if tier == 'quick' else 2200
    kinds = ['sub', 'sub', 'daily', 'trip', 'utc']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    if k == 'trip':
        return trip(rng, scratch, res, spec)
    sup = ['shortwave'] + [v for v in ('longwave', 'vapor_pressure', 'tskc')
                           if rng.random() < .5]
    if rng.random() < .3:
        sup.append('drop_wind')
    opt = dict(method='passthrough')
    kw = dict(ambient=True, mask='mixed', tunables=False)
    if rng.random() < .4:
        opt['sw_averaging'] = 'daylight'
    if k == 'daily':
        kw.update(time_step=1440, out_vars=DAILYV)
    if k == 'utc':
        opt['utc_offset'] = True
    r = rng.random()
    if r < .5:
        kw['lat_kind'] = str(rng.choice(['mid', 'south', 'tropic']))
    elif r < .75:
        kw.update(lat_kind='circle', start_kind='solstice')
    if rng.random() < .2:
        kw['nd'] = 1
    s = scen.gen(rng, opt=opt, **kw)
    sh = s.f['t_min'].shape
    s.f['shortwave'] = rng.uniform(5, 380, sh) * (rng.random(sh) > .05)
    s.f['longwave'] = rng.uniform(90, 480, sh)
    s.f['vapor_pressure'] = rng.uniform(30, 4500, sh)
    if rng.random() < .2:      # polar cold
        s.f['vapor_pressure'] = np.exp(rng.uniform(-1, 2.2, sh))
        res.count('tiny_vapor_pressures', 'vapor_pressure' in sup)
    s.f['tskc'] = rng.choice([0., .25, .6, 1.], sh)
    for v in ('longwave', 'vapor_pressure', 'tskc'):
        if v not in sup:
            del s.f[v]
    out_vars = None
    if 'drop_wind' in sup:
        s.f.pop('wind', None)
        s.opt['out_vars'].pop('wind', None)
    out = simulate(s, scratch)
    daylight = opt.get('sw_averaging') == 'daylight'
    for c in s.cells():
        (daily if k == 'daily' else subdaily)(res, s, out, c, sup, daylight)
        res.unit(tuple(sup), daylight, s.ts, s.climate, int(s.cell_lat(c) //
                 15), k)
    if spec['i'] % 11 == 0:
        c = s.cells()[0]
        res.sample = sample(s, supplied={v: s.cell(c)[0][v][:2].tolist()
                                         for v in s.f})


def expected(s, c, daylight):
    """daily values of a passthrough run"""
    f, st = s.cell(c)
    dy = judge.ref_daily(s, c)
    dl = dy['daylength']
    mean = f['shortwave'] * (dl / 86400. if daylight else 1.)
    lit = np.divide(mean * 86400, dl, out=np.zeros_like(dl), where=dl > 0)
    pa = ref.press_std(float(s.elev[c]), float(s.opt.get('lapse_rate', .0065)))
    pet = ref.pet(lit, dy['t_day'], dl, pa)
    td = ref.tdew(pet, f['t_min'], dy['season'], dy['dtr'])
    r = dict(dy, shortwave=mean, pet=pet, tdew=td,
             vapor_pressure=f.get('vapor_pressure', ref.svp(td)),
             tskc=f.get('tskc', dy['tskc']), daylength=dl)
    return r


def daily(res, s, out, c, sup, daylight):
    if not judge.need(res, s, out, DAILYV):
        return
    e = judge.eps(out)
    dy = expected(s, c, daylight)
    f, _ = s.cell(c)
    w = '%s supplied %s%s' % (judge.where_cell(s, c), sup,
                              ' (daylight)' if daylight else '')
    for v in DAILYV:
        want = dy[v] if v not in ('t_min', 'prec') else f[v]
        judge.close(res, judge.col(out, v, c), want, (1e-8 + 4 * e) * np.abs(
            want) + 1e-9, '%s daily %s' % (w, v))
    res.count('daily_cells')
    res.count('sw_days', len(f['t_min']))


def subdaily(res, s, out, c, sup, daylight):
    names = [v for v in scen.SUBVARS if v in s.opt['out_vars']]
    if not judge.need(res, s, out, names):
        return
    e = judge.eps(out)
    n = 1440 // s.ts
    utc = s.opt['utc_offset']
    f, _ = s.cell(c)
    w = '%s supplied %s%s' % (judge.where_cell(s, c), sup,
                              ' (daylight)' if daylight else '')
    dy = expected(s, c, daylight)
    dy, r, tol = judge.refs(s, c, dy)
    dl = dy['daylength']
    x = {v: judge.col(out, v, c) for v in names}
    if not res.check(all(np.isfinite(y).all() for y in x.values()),
                     w + ': values are missing'):
        return
    if not utc:
        m = x['shortwave'].reshape(-1, n).mean(axis=1)
        lit = dl > 600
        judge.close(res, m, dy['shortwave'], np.where(dl > 86300, 1e-3, 5e-8)
                    * dy['shortwave'] + 1e-9 + 4 * e * dy['shortwave'],
                    w + ' mean shortwave', lit)
        res.count('sw_days', lit.sum())
        res.count('short_days', (lit & (dl < 4 * 3600)).sum())
        if 'longwave' in sup:
            judge.close(res, x['longwave'].reshape(-1, n).mean(axis=1),
                        f['longwave'], (1e-9 + 4 * e) * f['longwave'],
                        w + ' mean longwave')
            res.count('lw_days', len(m))
            raw = r['longwave'].reshape(-1, n)
            raw = raw * (f['longwave'] / raw.mean(axis=1))[:, None]
            judge.close(res, x['longwave'], raw.ravel(), 1e-4 * raw.ravel() +
                        10 * tol['longwave'], w + ' longwave through the day')
        else:
            judge.close(res, x['longwave'], r['longwave'], tol['longwave'] +
                        10 * e * r['longwave'], w + ' longwave')
    vp = x['vapor_pressure']
    if np.median(vp / r['vapor_pressure']) < .02:
        vp = vp * 1000      # see C06
    i = interior(s, utc, c)
    judge.close(res, vp, r['vapor_pressure'], tol['vapor_pressure'] + 10 * e *
                r['vapor_pressure'], w + ' vapor pressure', i)
    res.count('vp_supplied' if 'vapor_pressure' in sup else 'vp_estimated')
    res.count('tskc_supplied' if 'tskc' in sup else 'tskc_estimated')
    if not utc:
        judge.close(res, x['tskc'], r['tskc'], 1e-8 + 4 * e, w + ' tskc')
    for v in ('temp', 'prec', 'rel_humid', 'air_pressure', 'wind',
              'shortwave'):
        if v in x and (v != 'shortwave' or not (dl > 86300).any()):
            judge.close(res, x[v], r[v], tol[v] + 10 * e * np.abs(r[v]) + (
                1e-6 * r[v].max() if v == 'shortwave' else 1e-7),
                w + ' ' + v, i)


def interior(s, utc, c):
    n = 1440 // s.ts
    i = np.ones(len(s.days) * n, bool)
    if utc:
        i[:n] = False
        i[-n:] = False
        for d in range(len(s.days)):     # the last and first day of a year
            if s.days[d][1:] in ((12, 31), (1, 1)):
                i[d * n:(d + 1) * n] = False
    return i


def trip(rng, scratch, res, spec):
    """a default run's own daily results fed back"""
    s = scen.gen(rng, ambient=True, mask='mixed')
    s.opt['out_precision'] = 'f8'
    s.opt['tdew_tol'] = 1e-9
    p = run.write_inputs(s, scratch)
    whole = run.run(s, scratch, params=p)
    dv = {v: dict(out_name=v) for v in ('shortwave', 'vapor_pressure', 'tskc')}
    day = again(s, scratch, 'day', p, time_step=1440, out_vars=dv,
                period_ending=False)
    sup = ['shortwave'] + [v for v in ('vapor_pressure', 'tskc')
                           if rng.random() < .6]
    t = s.copy()
    t.pad = (0, 0)
    for v in sup:
        t.f[v] = day.var[v]
    t.opt['method'] = 'passthrough'
    back = run.run(t, scratch + '/back')
    for c in s.cells():
        w = '%s round trip with %s' % (judge.where_cell(s, c), sup)
        dl = judge.ref_daily(s, c)['daylength']
        n = 1440 // s.ts
        for v in scen.SUBVARS:
            a, b = judge.col(whole, v, c), judge.col(back, v, c)
            sc = np.abs(a).max() if v in ('shortwave', 'prec') else np.abs(a)
            judge.close(res, b, a, 1e-6 * sc + 1e-9, w + ' ' + v)
        res.unit('trip', tuple(sup), s.ts, s.climate, int(s.cell_lat(c) // 15))
    res.count('round_trips')
