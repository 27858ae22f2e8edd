import numpy as np

from .. import ref, run, scen
from .common import again, sample

PROP = 'C04'
RULE = ('random daily simulations on grids of mirrored latitudes whose columns'
        ' share the weather but differ in longitude and elevation, repeated '
        'with other weather; per cell-day the day length is compared with the '
        'declination formula, the radiation with the top of the atmosphere, '
        'and columns with each other; one evaluation per cell-day, distinct '
        'by latitude (3 degrees) and day of year (6 days)')
REQUIRED = ['cell_days', 'polar_day', 'polar_night', 'mirror_pairs',
            'elevation_pairs', 'day366']


def plan(tier):
    n = 64 if tier == 'quick' else 1100
    kinds = ['any', 'polar', 'round', 'leap', 'long', 'tropic', 'noleap',
             'any']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    lats = {'polar': rng.uniform(60, 90, 2), 'round': rng.choice(
        [90, 66.5, 66.56, 67, 60, 45, 30, 23.45, 1, .01], 2, replace=False),
        'tropic': rng.uniform(0, 24, 2)}.get(k, rng.uniform(0, 90, 2))
    lats = np.sort(np.round(lats, 4))
    lat = np.concatenate([-lats[::-1], [0.] if rng.random() < .3 else [],
                          lats])
    kw = dict(layout='grid', lat=lat, nlon=3, time_step=1440, ambient=True,
              out_vars=['daylength', 'shortwave', 'tskc', 'vapor_pressure'])
    if k == 'leap':
        kw['start_kind'] = 'leapend'
        kw['nd'] = 6
    if k == 'long':
        kw['nd'] = int(rng.choice([100, 366, 367]))
    if k == 'noleap':
        kw['calendar'] = 'noleap'
    if k == 'polar':
        kw['start_kind'] = str(rng.choice(['solstice', 'any', 'equinox']))
    s = scen.gen(rng, **kw)
    for d in (s.f, s.s):
        for v in d:       # one weather for every column of a row
            d[v] = np.repeat(d[v][:, :, :1], 3, axis=2)
    s.elev[:] = np.sort(rng.choice([-80., 0., 10., 500., 1500., 3000., 5500.],
                                   s.elev.shape), axis=1)
    if rng.random() < .3:
        s.elev[:] = s.elev[:, :1]
    p = run.write_inputs(s, scratch)
    out = run.run(s, scratch, params=p)
    nd = len(s.days)
    for v in ('daylength', 'shortwave'):
        if not res.check(v in out.var and out.var[v].shape == (nd,) + s.shape,
                         'daily %s missing or of wrong shape' % v):
            return
    dl, sw = out.var['daylength'], out.var['shortwave']
    res.check(np.isfinite(dl).all() and np.isfinite(sw).all(), 'not finite')
    f4 = out.dtype['daylength'] == 'float32'
    yd = s.yday
    for i, la in enumerate(s.lat):
        want = ref.daylength(la)[yd]
        w = 'lat %.4f' % la
        for j in range(3):
            d = np.abs(dl[:, i, j] - want)
            res.check((d <= 1.).all(), lambda: '%s day %s: day length %.3f s '
                      'instead of %.3f' % (w, s.days[d.argmax()],
                                           dl[d.argmax(), i, j],
                                           want[d.argmax()]))
        res.check(((dl[:, i] >= 0) & (dl[:, i] <= 86400)).all(),
                  w + ': day length outside 0..86400')
        res.check((np.ptp(dl[:, i], axis=1) <= (.01 if f4 else 1e-6)).all(),
                  w + ': day length differs between longitudes or elevations')
        decl, hss, _, cc, ss, beam = ref._sun(float(la))
        toa = beam * (hss * ss + np.sin(hss) * cc) / np.pi
        top = toa[yd][:, None]
        res.check((sw[:, i] <= top * 1.001 + .05).all(), lambda:
                  '%s: shortwave %.3f above the %.3f arriving at the top' % (
                      w, sw[:, i].max(), top.max()))
        res.check((sw[:, i] >= 0).all(), w + ': negative shortwave')
        night = want <= 0
        res.check(not sw[night, i].any(), w + ': radiation in polar night')
        res.count('polar_night', night.sum())
        res.count('polar_day', (want >= 86399).sum())
        res.count('cell_days', nd)
        res.count('day366', (yd == 365).sum())
        for j in (0, 1):
            if s.elev[i, j + 1] > s.elev[i, j]:
                res.check((sw[:, i, j + 1] >= sw[:, i, j] * (1 - 1e-6)).all(),
                          lambda: '%s: %.4f at %.0f m but %.4f at %.0f m' % (
                              w, sw[:, i, j].max(), s.elev[i, j],
                              sw[:, i, j + 1].max(), s.elev[i, j + 1]))
                res.count('elevation_pairs')
            else:
                res.check(np.allclose(sw[:, i, j], sw[:, i, j + 1], rtol=1e-6,
                                      atol=1e-9), w + ': shortwave depends on '
                          'longitude')
        m = len(s.lat) - 1 - i
        if m != i:
            pair = dl[:, i, 0] + dl[:, m, 0]
            res.check((np.abs(pair - 86400) <= 2).all(), lambda: 'lat %.4f and'
                      ' %.4f: day lengths add to %.2f' % (
                          la, s.lat[m], pair[np.abs(pair - 86400).argmax()]))
            res.count('mirror_pairs')
        for y in np.unique(yd // 6):
            res.unit(int(la // 3), int(y))
    # other weather, same day length
    t = s.copy()
    o = scen.series(rng, str(rng.choice(scen.CLIMATES)), 90 + nd, s.shape)
    t.f = {v: o[v][90:] for v in s.f}
    t.s = {v: o[v][:90] for v in s.s}
    p2 = run.write_inputs(t, scratch + '/b')
    out2 = run.run(t, scratch, params=p2)
    res.check(np.array_equal(out2.var['daylength'], dl),
              'day length depends on the weather')
    if spec['i'] % 7 == 0:
        res.sample = sample(s, daylength=dl[0, :, 0].tolist(),
                            shortwave=sw[0, 0].tolist())
