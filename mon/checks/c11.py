import numpy as np

from .. import judge, ref, run, scen
from .common import again, sample

PROP = 'C11'
RULE = ('pairs of runs on the same inputs with and without UTC offset: '
        'longitudes whose shift is a whole number of steps compared step by '
        'step, all other longitudes with the shifted reference; the same '
        'meridian written as lon and lon+-360; longitude zero; one cell alone '
        'against the same cell in a domain; longitude changes without UTC '
        'offset; one evaluation per cell and relation, distinct by relation, '
        'longitude (5 degrees), step, sign and season')
REQUIRED = ['exact_shift', 'any_shift', 'same_meridian', 'zero', 'alone',
            'local_ignores_lon', 'noon']


def plan(tier):
    n = 130 if tier == 'quick' else 2200
    kinds = ['exact', 'any', 'merid', 'zero', 'alone', 'local', 'exact',
             'any']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    globals()[spec['k'] + '_'](rng, scratch, res, spec)


def setlons(s, rng, vals):
    n = len(s.lon)
    if s.layout == 'grid':
        s.lon = np.sort(rng.choice(np.unique(vals), n, replace=False))
        if rng.random() < .15 and 180. in vals and 180. not in s.lon:
            s.lon[int(rng.integers(n))] = 180.
            s.lon.sort()
    else:
        s.lon = np.asarray(rng.choice(vals, n))


def gen(rng, utc, **kw):
    kw.setdefault('nd', int(rng.integers(4, 8)))
    kw.setdefault('ambient', True)
    return scen.gen(rng, opt=dict(utc_offset=utc), mask='mixed', **kw)


def days_ok(s):
    """days around which the sun's course is not taken from the next year"""
    ok = np.ones(len(s.days), bool)
    for d, x in enumerate(s.days):
        if x[1:] in ((12, 31), (1, 1), (12, 30)):
            ok[d] = False
    return ok


def exact_(rng, scratch, res, spec):
    s = gen(rng, False, time_step=int(rng.choice(
        [1, 4, 5, 10, 15, 20, 30, 60, 120, 180, 240, 360])), nlat=2)
    step = s.ts / 4.
    ks = np.arange(np.ceil(-180 / step), 360 / step + 1e-9) * step
    ks = ks[(ks >= -180) & (ks <= 360)]
    if s.ts == 1:
        s.lon, s.lat = s.lon[:2], s.lat[:2]
        s = scen.gen(rng, opt=dict(utc_offset=False), time_step=1, nlat=1,
                     nlon=1, nd=4, layout='grid')
    setlons(s, rng, ks)
    p = run.write_inputs(s, scratch)
    loc = run.run(s, scratch, params=p)
    utc = again(s, scratch, 'utc', p, utc_offset=True)
    if not judge.need(res, s, loc, scen.SUBVARS) or not judge.need(
            res, s, utc, scen.SUBVARS):
        return
    res.check(loc.stamps == utc.stamps, 'time axes of local and UTC run differ')
    n = 1440 // s.ts
    e = judge.eps(loc)
    for c in s.cells():
        x = s.cell_lon(c)
        # 180 and -180 are the same meridian and may shift either way
        cand = [ref.wrap_lon(x)]
        if abs(cand[0]) == 180:
            cand = [180., -180.]
        w = judge.where_cell(s, c)
        N = len(s.days) * n
        okd = np.repeat(days_ok(s), n)
        for v in scen.SUBVARS:
            a, b = judge.col(loc, v, c), judge.col(utc, v, c)
            best = None
            for lo in cand:
                k = int(round(lo * 4 / s.ts))
                i = np.arange(n, N - n)
                j = i + k
                want, got = a[j], b[i]
                keep = okd[i] & okd[j] if v == 'shortwave' else np.ones(
                    len(i), bool)
                sc = np.abs(a).max() if v in ('shortwave', 'prec', 'tskc',
                                              'wind') else np.abs(want)
                bad = (~(np.abs(got - want) <= (1e-8 + 10 * e) * sc + 1e-9)
                       ) & keep
                if best is None or bad.sum() < best[0]:
                    best = (bad.sum(), i[bad.argmax()] if bad.any() else 0, k,
                            keep.sum())
            res.check(best[0] == 0, '%s %s: UTC is not the local series %d '
                      'steps earlier (%d of %d differ, first step %d)' % (
                          w, v, best[2], best[0], best[3], best[1]))
            res.count('values_compared', best[3])
        res.count('exact_shift')
        res.unit('exact', int(x // 5), s.ts, s.days[0][1])
        noon(res, s, utc, c)
    if spec['i'] % 9 == 0:
        res.sample = sample(s)


def noon(res, s, utc, c):
    """the middle of the day's radiation"""
    la = s.cell_lat(c)
    if abs(la) > 55 or s.ts > 60:
        return
    x = judge.col(utc, 'shortwave', c)
    n = 1440 // s.ts
    want = (720 - 4 * ref.wrap_lon(s.cell_lon(c))) % 1440
    t = (np.arange(len(x)) + .5) * s.ts
    for d in range(1, len(s.days) - 1):
        m0 = d * 1440 + want
        i = (t > m0 - 720) & (t < m0 + 720)
        if m0 - 720 < 0 or m0 + 720 > len(x) * s.ts or x[i].sum() <= 0:
            continue
        # days differ in level: weigh only by the sun's own day
        cen = (x[i] * t[i]).sum() / x[i].sum()
        res.check(abs(cen - m0) < 2 + s.ts, '%s: noon of day %d at %.1f UTC '
                  'min instead of %.1f' % (judge.where_cell(s, c), d,
                                           cen % 1440, want))
        res.count('noon')


def any_(rng, scratch, res, spec):
    s = gen(rng, True)
    out = run.run(s, scratch)
    if not judge.need(res, s, out, scen.SUBVARS):
        return
    n = 1440 // s.ts
    e = judge.eps(out)
    judge.prec_shifted(res, s, out)
    judge.constant_in_day(res, s, out)
    okd = np.repeat(days_ok(s), n)
    for c in s.cells():
        dy, r, tol = judge.refs(s, c)
        w = judge.where_cell(s, c)
        for v in ('temp', 'vapor_pressure', 'rel_humid', 'air_pressure',
                  'longwave', 'shortwave'):
            x = judge.col(out, v, c)
            t = tol[v] + 20 * e * np.abs(r[v]) + 1e-7
            if v == 'vapor_pressure' and np.median(x / r[v]) < .02:
                x = x * 1000
            i = np.ones(len(x), bool)
            i[:n] = i[-n:] = False
            if v == 'shortwave':
                i &= okd
                t = t + 1e-6 * r[v].max()
                if (dy['daylength'] > 86300).any():
                    t = t + 2e-3 * r[v].max()
            judge.close(res, x, r[v], t, '%s UTC %s' % (w, v), i)
        noon(res, s, out, c)
        res.count('any_shift')
        res.unit('any', int(s.cell_lon(c) // 5), s.ts, s.days[0][1])


def merid_(rng, scratch, res, spec):
    s = gen(rng, True)
    n = len(s.lon)
    # binary fractions, so that adding 360 is exact
    v = np.round(rng.uniform(-180, 0, n) * 64) / 64
    s.lon = np.sort(v) if s.layout == 'grid' else v
    if len(set(s.lon)) < n:
        s.lon = -100. + np.arange(n) * 10
    t = s.copy()
    t.lon = s.lon + 360.
    if s.layout == 'hru':
        t.lon = np.where(rng.random(n) < .5, s.lon, t.lon)
    a, b = run.run(s, scratch + '/a'), run.run(t, scratch + '/b')
    d = run.same(a, b)
    res.check(d is None, lambda: 'longitudes %s and %s differ: %s' % (
        s.lon.tolist(), t.lon.tolist(), d))
    res.count('same_meridian', len(s.cells()))
    res.unit('merid', s.ts, int(s.lon[0] // 5))


def zero_(rng, scratch, res, spec):
    s = gen(rng, True, layout='hru')
    s.lon = np.zeros(len(s.lon))
    if rng.random() < .4:
        s.lon[:] = 360.
    p = run.write_inputs(s, scratch)
    a = run.run(s, scratch, params=p)
    b = again(s, scratch, 'loc', p, utc_offset=False)
    d = run.same(a, b)
    res.check(d is None, lambda: 'UTC at longitude %g is not local time: %s' % (
        s.lon[0], d))
    res.count('zero', len(s.cells()))
    res.unit('zero', s.ts, len(s.days), s.lon[0])


def alone_(rng, scratch, res, spec):
    s = gen(rng, True, layout='hru', nhru=int(rng.integers(2, 6)))
    a = run.run(s, scratch + '/a')
    c = s.cells()[int(rng.integers(len(s.cells())))]
    t = s.copy()
    t.lat, t.lon = s.lat[[c[0]]], s.lon[[c[0]]]
    for k in ('mask', 'elev'):
        setattr(t, k, getattr(s, k)[[c[0]]])
    t.t_pk, t.dur = s.t_pk[:, [c[0]]], s.dur[:, [c[0]]]
    t.f = {k: v[:, [c[0]]] for k, v in s.f.items()}
    t.s = {k: v[:, [c[0]]] for k, v in s.s.items()}
    t.opt.pop('chunks', None)
    b = run.run(t, scratch + '/b')
    for v in a.var:
        d = run.differ(judge.col(a, v, c), b.var[v][:, 0], 0, 0)
        res.check(d is None, lambda: '%s %s depends on the other cells: %s' % (
            judge.where_cell(s, c), v, d))
    res.count('alone')
    res.unit('alone', s.ts, int(s.cell_lon(c) // 5))


def local_(rng, scratch, res, spec):
    s = gen(rng, False)
    t = s.copy()
    t.lon = np.sort(rng.uniform(-180, 360, len(s.lon)))
    a, b = run.run(s, scratch + '/a'), run.run(t, scratch + '/b')
    d = run.same(a, b, 0, 0)
    res.check(d is None, lambda: 'longitudes %s and %s differ in local time: %s'
              % (s.lon.tolist(), t.lon.tolist(), d))
    res.count('local_ignores_lon', len(s.cells()))
    res.unit('local', s.ts, int(s.lon[0] // 5))
