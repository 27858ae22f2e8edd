import os

import numpy as np

from .. import judge, run, scen
from .common import fresh, sample, supply

PROP = 'C14'
RULE = ('pairs of runs that must agree bit for bit in the cells they share: '
        'other masks, other data in other cells (hot, wet, missing), reordered'
        ', reversed, transposed, flattened or reduced domains; and masked '
        'cells that must hold missing values only; one evaluation per cell and'
        ' relation, distinct by relation, layout, shape, step and mask')
REQUIRED = ['masked_cells', 'active_cells', 'mask', 'neighbours', 'flatten',
            'reverse', 'transpose', 'subset', 'permute', 'nearly_equal_cells',
            'turned', 'relabel', 'own_orders', 'passthrough_runs', 'twins',
            'twin_state', 'twin_forcing', 'twin_place', 'curved']


def plan(tier):
    n = 143 if tier == 'quick' else 2000
    kinds = ['mask', 'neighbours', 'flatten', 'reverse', 'transpose',
             'subset', 'permute', 'mask', 'dims', 'turned', 'relabel',
             'twins', 'curved']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def alone(s, d, **kw):
    """a run in a process of its own, so that nothing it keeps is there for
    the one that it is compared with"""
    ok, v = fresh(lambda: run.run(s, d, **kw))
    if not ok:
        raise run.RunFailed(RuntimeError(v))
    return v


def alike(rng, s):
    """cells that are nearly the same as others"""
    e = s.elev.ravel()
    for k in range(1, e.size):
        if rng.random() < .7:
            e[k] = e[int(rng.integers(k))] + rng.choice(
                [0, 0, 1e-4, -.3, .4, 2.5, -4.])
    s.elev = np.round(e, 4).reshape(s.shape)
    if rng.random() < .6:
        # neighbours some metres apart
        for a in ((s.lat, s.lon) if s.layout == 'grid' else (s.lat,)):
            a[:] = np.round(a[0] + np.sign(a[-1] - a[0] or 1) * float(
                rng.choice([1e-4, .003, .02, .3])) * np.arange(len(a)), 5)
        if s.layout != 'grid' and rng.random() < .5:
            s.lat[:] = s.lat[0]
        s.lat[:] = np.clip(s.lat, -90, 90)
    if rng.random() < .5:
        # the same weather but for the last digits
        for d in (s.f, s.s):
            for v in d:
                x = d[v].reshape(len(d[v]), -1)
                x[:] = x[:, :1] * (1 + 1e-5 * np.arange(x.shape[1]))


def take(s, idx):
    """the scenario restricted to / reordered by index arrays per dimension"""
    t = s.copy()
    ix = np.ix_(*idx)

    def cut(a, lead):
        return a[(slice(None),) * lead + ix]
    t.mask, t.elev = cut(s.mask, 0), cut(s.elev, 0)
    t.t_pk, t.dur = cut(s.t_pk, 1), cut(s.dur, 1)
    t.f = {k: cut(v, 1) for k, v in s.f.items()}
    t.s = {k: cut(v, 1) for k, v in s.s.items()}
    if s.layout == 'grid':
        t.lat, t.lon = s.lat[idx[0]], s.lon[idx[1]]
    else:
        t.lat, t.lon = s.lat[idx[0]], s.lon[idx[0]]
    return t


def masked(res, s, o):
    for c in np.ndindex(*s.shape):
        on = np.isfinite(s.mask[c]) and s.mask[c] > 0
        for v in s.opt['out_vars']:
            if not res.check(v in o.var and o.var[v].shape[1:] == s.shape,
                             '%s missing or of wrong shape' % v):
                return
            x = judge.col(o, v, c)
            res.check(np.isfinite(x).all() if on else np.isnan(x).all(),
                      lambda: '%s mask %s: %s has %d of %d values' % (
                          judge.where_cell(s, c), s.mask[c], v,
                          np.isfinite(x).sum(), len(x)))
        res.count('active_cells' if on else 'masked_cells')


def equal(res, what, s, a, ca, b, cb):
    for v in s.opt['out_vars']:
        if v not in a.var or v not in b.var:
            res.viol('%s: %s missing' % (what, v))
            continue
        d = run.differ(judge.col(b, v, cb), judge.col(a, v, ca), 0, 0)
        res.check(d is None, lambda: '%s: %s of %s changes: %s' % (
            what, v, judge.where_cell(s, ca), d))
        res.count('series_compared')


def case(spec, rng, scratch, res):
    k = spec['k']
    kw = dict(ambient=True, nd=int(rng.integers(1, 5)), mask='mixed',
              nlat=int(rng.integers(1, 5)), nlon=int(rng.integers(2, 5)))
    if k in ('flatten', 'transpose', 'reverse', 'turned', 'curved'):
        kw['layout'] = 'grid'
    if k in ('permute', 'relabel', 'twins'):
        kw['layout'] = 'hru'
    if k == 'twins':
        kw['nlat'], kw['nlon'], kw['mask'] = 3, 3, 'all'
    if rng.random() < .3:
        kw['time_step'] = 1440
    opt = {}
    if rng.random() < .4:
        opt['utc_offset'] = True
    s = scen.gen(rng, opt=opt, **kw)
    if s.mask.size > 9:      # keep runs short
        s = take(s, [np.arange(min(n, 3)) for n in s.shape])
    if not len(s.cells()):
        s.mask.flat[0] = 1.
    supply(rng, s, res)
    if len(s.cells()) < 2 and s.mask.size > 1:
        s.mask.flat[-1] = 1.
        s.mask.flat[0] = 1.
    if k == 'twins':
        twin(rng, s, res)
    elif rng.random() < .4:
        alike(rng, s)
        res.count('nearly_equal_cells')
    a = alone(s, os.path.join(scratch, 'a'))
    masked(res, s, a)
    globals()[k](rng, scratch, res, s, a)
    for c in s.cells():
        res.unit(k, s.layout, s.shape, s.ts, c, int((s.mask > 0).sum()))
    res.count(k)
    if spec['i'] % 9 == 0:
        res.sample = sample(s, mask=np.nan_to_num(s.mask, nan=-9).tolist())


def twin(rng, s, res):
    """every unit is the one before it but for a single input"""
    kinds = ['elev', 'lat', 'lon', 't_pk', 'dur', 'f', 'f', 's', 's', 's',
             'shift']
    n = len(s.lat)
    todo = [kinds[int(i)] for i in rng.permutation(len(kinds))]
    if 'shift' not in todo[:n - 1]:
        todo[int(rng.integers(n - 1))] = 'shift'
    for i in range(1, n):
        for x in (s.lat, s.lon, s.elev):
            x[i] = x[i - 1]
        for x in [s.t_pk, s.dur] + list(s.f.values()) + list(s.s.values()):
            x[:, i] = x[:, i - 1]
        k = todo[i - 1]
        if k in ('lat', 'lon'):
            x = getattr(s, k)
            x[i] += (.7 if x[i] < 45 else -.7) if k == 'lat' else 9.
        elif k == 'elev':
            s.elev[i] += 55.
        elif k in ('t_pk', 'dur'):
            x = getattr(s, k)
            x[s.days[0][1] - 1, i] = x[s.days[0][1] - 1, i] / 2 + 5
        elif k == 'shift':        # the state changes, its day range does not
            j = -1 if rng.random() < .7 else int(rng.integers(90))
            for v in ('t_min', 't_max'):
                s.s[v][j, i] += 1.5
        else:
            d = s.f if k == 'f' else s.s
            v = str(rng.choice([x for x in d if x in (
                't_min', 't_max', 'prec', 'wind')]))
            j = int(rng.integers(len(d[v])))
            d[v][j, i] += {'t_min': -1.5, 't_max': 1.5, 'prec': 4.,
                           'wind': 1.}[v]
        res.count('twin_' + {'f': 'forcing', 's': 'state', 'shift': 'state'
                             }.get(k, 'place'))


def twins(rng, scratch, res, s, a):
    idx = [np.arange(len(s.lat))[::-1]]
    b = alone(take(s, idx), os.path.join(scratch, 'b'))
    for i in range(len(s.lat)):
        equal(res, 'the same units in reverse order', s, a, (i,), b,
              (len(s.lat) - 1 - i,))


def mask(rng, scratch, res, s, a):
    t = s.copy()
    t.mask = np.where(rng.random(s.shape) < .5, s.mask,
                      rng.choice([1., 0., np.nan, 3., -2., .01], s.shape))
    if not len(t.cells()):
        t.mask.flat[int(rng.integers(t.mask.size))] = 1.
    # data of every cell must be there now
    t.holes = False
    b = alone(t, os.path.join(scratch, 'b'))
    masked(res, t, b)
    for c in set(s.cells()) & set(t.cells()):
        equal(res, 'another mask', s, a, c, b, c)


def neighbours(rng, scratch, res, s, a):
    t = s.copy()
    keep = s.cells()[int(rng.integers(len(s.cells())))]
    o = scen.series(rng, str(rng.choice(scen.CLIMATES)), 90 + len(s.days),
                    s.shape)
    for d, n0 in ((t.f, slice(90, None)), (t.s, slice(0, 90))):
        for v in d:
            new = o[v][n0].copy() if v in o else d[v][::-1] * .8
            new[(slice(None),) + keep] = d[v][(slice(None),) + keep]
            d[v] = new
    for n in ('elev', 't_pk', 'dur'):
        x = getattr(t, n)
        new = rng.permutation(x.ravel()).reshape(x.shape)
        lead = (slice(None),) * (x.ndim - len(s.shape))
        new[lead + keep] = x[lead + keep]
        setattr(t, n, new)
    b = alone(t, os.path.join(scratch, 'b'))
    masked(res, t, b)
    equal(res, 'other data in the other cells', s, a, keep, b, keep)


def curved(rng, scratch, res, s, a):
    """a grid whose rows and columns are no parallels and meridians, against
    the list of its cells"""
    i, j = np.indices(s.shape)
    lat = np.clip(np.round(s.lat[i] + rng.uniform(-.8, .8) * j, 4), -90, 90)
    lon = np.round(s.lon[j] + rng.uniform(-.8, .8) * i, 4)
    t, idx = unit_list(s, lat, lon, rng.permutation(s.mask.size))
    b = alone(t, os.path.join(scratch, 'b'))
    d = os.path.join(scratch, 'c')
    p = run.write_inputs(s, d)
    dims = ('y', 'x') if rng.random() < .7 else ('south_north', 'west_east')
    c = {'_shape': [s.shape], 'lat': (dims, lat), 'lon': (dims, lon)}
    if rng.random() < .6:
        for n, k in zip(s.shape, dims):
            c[k] = ((k,), 500. * np.arange(n) + 7)
    fd, f, sd, st = run.padded(s)
    run.write_nc(p['forcing'], f, dims, c, fd, s.calendar)
    run.write_nc(p['state'], st, dims, c, sd, s.calendar)
    run.write_nc(p['domain'], dict(mask=s.mask, elev=s.elev, t_pk=s.t_pk,
                                   dur=s.dur), dims, c)
    p['chunks'] = {k: int(rng.integers(1, 3)) for k in dims
                   if rng.random() < .5}
    e = alone(s, d, params=p)
    masked(res, s, e)
    for n, q in enumerate(idx):
        if q in s.cells():
            equal(res, 'in a curvilinear grid', t, b, (n,), e, q)


def unit_list(s, lat, lon, order):
    """the cells of a grid as a list of units"""
    t = s.copy()
    t.layout = 'hru'
    idx = list(np.ndindex(*s.shape))
    idx = [idx[i] for i in order]
    t.lat = np.array([lat[q] for q in idx])
    t.lon = np.array([lon[q] for q in idx])

    def flat(x, lead):
        return np.stack([x[(slice(None),) * lead + i] for i in idx], axis=lead)
    t.mask, t.elev = flat(s.mask, 0), flat(s.elev, 0)
    t.t_pk, t.dur = flat(s.t_pk, 1), flat(s.dur, 1)
    t.f = {k: flat(v, 1) for k, v in s.f.items()}
    t.s = {k: flat(v, 1) for k, v in s.s.items()}
    t.opt.pop('chunks', None)
    return t, idx


def flatten(rng, scratch, res, s, a):
    i, j = np.indices(s.shape)
    t, idx = unit_list(s, s.lat[i], s.lon[j], rng.permutation(s.mask.size))
    b = alone(t, os.path.join(scratch, 'b'))
    masked(res, t, b)
    for n, i in enumerate(idx):
        if i in s.cells():
            equal(res, 'as a list of units', s, a, i, b, (n,))


def reverse(rng, scratch, res, s, a):
    idx = [np.arange(n)[::-1] if rng.random() < .7 or d == 0 else np.arange(n)
           for d, n in enumerate(s.shape)]
    t = take(s, idx)
    b = alone(t, os.path.join(scratch, 'b'))
    masked(res, t, b)
    for c in np.ndindex(*s.shape):
        o = tuple(int(idx[d][c[d]]) for d in range(len(c)))
        if o in s.cells():
            equal(res, 'reversed coordinates', s, a, o, b, c)


def permute(rng, scratch, res, s, a):
    idx = [rng.permutation(n) for n in s.shape]
    t = take(s, idx)
    b = alone(t, os.path.join(scratch, 'b'))
    masked(res, t, b)
    for c in np.ndindex(*s.shape):
        o = tuple(int(idx[d][c[d]]) for d in range(len(c)))
        if o in s.cells():
            equal(res, 'units in another order', s, a, o, b, c)


def subset(rng, scratch, res, s, a):
    idx = [np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
           for n in s.shape]
    t = take(s, idx)
    if not len(t.cells()):
        idx = [np.array([i]) for i in s.cells()[0]]
        t = take(s, idx)
    t.opt.pop('chunks', None)
    b = alone(t, os.path.join(scratch, 'b'))
    masked(res, t, b)
    for c in np.ndindex(*t.shape):
        o = tuple(int(idx[d][c[d]]) for d in range(len(c)))
        if o in s.cells():
            equal(res, 'a part of the domain', s, a, o, b, c)


def transpose(rng, scratch, res, s, a):
    """the same grid stored with its dimensions in other orders"""
    d = os.path.join(scratch, 'b')
    p = run.write_inputs(s, d)
    c = run.coords_of(s)
    fd, f, sd, st = run.padded(s)
    o3 = [('time', 'lon', 'lat'), ('lat', 'lon', 'time'),
          ('lon', 'lat', 'time'), ('lat', 'time', 'lon')]
    which = rng.integers(1, 8)
    if which & 1:
        run.write_nc(p['forcing'], f, s.dims, c, fd, s.calendar,
                     order=o3[int(rng.integers(4))])
    if which & 2:
        run.write_nc(p['state'], st, s.dims, c, sd, s.calendar,
                     order=o3[int(rng.integers(4))])
    if which & 4:
        # each variable of the domain in an order of its own
        od = {}
        for k in ('elev', 't_pk', 'dur'):
            if rng.random() < .7:
                od[k] = ['lon', 'lat']
                if k != 'elev':
                    od[k].insert(int(rng.integers(3)), 'month')
        run.write_domain(s, p['domain'], order=od)
        res.count('own_orders', len(od))
    b = alone(s, d, params=p)
    masked(res, s, b)
    for q in s.cells():
        equal(res, 'transposed input files', s, a, q, b, q)


def turned(rng, scratch, res, s, a):
    """the domain with its dimensions the other way round"""
    d = os.path.join(scratch, 'b')
    p = run.write_inputs(s, d)
    o = ['lon', 'lat']
    o.insert(int(rng.integers(3)), 'month')
    run.write_domain(s, p['domain'], order=tuple(o))
    if p.get('chunks') and rng.random() < .5:
        p['chunks'] = dict(list(p['chunks'].items())[::-1])
    b = alone(s, d, params=p)
    for v in s.opt['out_vars']:
        if not res.check(v in b.var and set(b.dims[v]) == {
                'time', 'lat', 'lon'}, '%s missing, or its dimensions' % v):
            return
        res.check(b.dims[v] == ('time', 'lon', 'lat'), lambda: 'the output '
                  'has dimensions %s, the domain lon, lat' % (b.dims[v],))
        if b.dims[v][1] == 'lon':
            b.var[v] = np.swapaxes(b.var[v], 1, 2)
    masked(res, s, b)
    for q in s.cells():
        equal(res, 'a domain given as lon x lat', s, a, q, b, q)


def relabel(rng, scratch, res, s, a):
    """a list of units without coordinate, or under another name"""
    import netCDF4
    d = os.path.join(scratch, 'b')
    p = run.write_inputs(s, d)
    name = str(rng.choice(['hru', 'gru', 'cell', 'n']))
    bare = rng.random() < .6
    labels = rng.permutation(1000)[:len(s.lat)].astype('i4')
    for k in ('forcing', 'domain', 'state'):
        old = p[k] + '.old'
        os.rename(p[k], old)
        with netCDF4.Dataset(old) as x, netCDF4.Dataset(p[k], 'w') as y:
            x.set_auto_maskandscale(False)
            for n, q in x.dimensions.items():
                y.createDimension(name if n == 'hru' else n, len(q))
            for n, v in x.variables.items():
                if n == 'hru' and bare:
                    continue
                at = {q: v.getncattr(q) for q in v.ncattrs()}
                w = y.createVariable(
                    name if n == 'hru' else n, v.dtype, tuple(
                        name if q == 'hru' else q for q in v.dimensions),
                    fill_value=at.pop('_FillValue', None))
                w.setncatts(at)
                w[:] = labels if n == 'hru' else v[:]
    if p.get('chunks'):
        p['chunks'] = {name: q for q in p['chunks'].values()}
    b = alone(s, d, params=p)
    if not bare:
        res.check(name in b.coord and np.array_equal(b.coord[name], labels),
                  lambda: 'the labels %s of the units were written as %s' % (
                      labels, b.coord.get(name)))
    masked(res, s, b)
    for q in s.cells():
        equal(res, 'units %s' % ('without labels' if bare else
                                 'with other labels'), s, a, q, b, q)


def dims(rng, scratch, res, s, a):
    """the same simulation twice: nothing but the input decides"""
    b = alone(s, os.path.join(scratch, 'b'))
    for q in s.cells():
        equal(res, 'a repeated run', s, a, q, b, q)
