import os
import struct

import numpy as np

from .. import conf, run, scen
from .common import again, sample, supply

PROP = 'C17'
RULE = ('the same daily data written in every input format with irrelevant '
        'differences (names, order of columns, cells, dimensions and files, '
        'scale, signedness, stamps, units of time, additional cells, days, '
        'columns, variables and files), each run compared with a plain NetCDF '
        'run; distinct by format and differences')
REQUIRED = ['netcdf_runs', 'multi_runs', 'data_runs', 'ascii_runs',
            'binary_runs', 'noon_stamps', 'unsigned_above_32767',
            'negative_signed', 'fractional_scales', 'extra_columns', 'via_config', 'extra_cells',
            'reordered_cells', 'many_digits', 'decoys',
            'passthrough_runs']
ASSUMPTIONS = ['ASCII text of at most 4 decimals is read back to 1 unit in '
               'the last place']


def plan(tier):
    n = 84 if tier == 'quick' else 1400
    return [dict(i=i, k=['files', 'files', 'data'][i % 3]) for i in range(n)]


class Fmt(object):
    pass


def sub(names, rng):
    """names as they may be called in a file"""
    return {k: k if rng.random() < .4 else '%s_%s' % (
        rng.choice(['X', 'in', k.upper()]), k) for k in names}


def case(spec, rng, scratch, res):
    grid = spec['k'] == 'files' or rng.random() < .6
    s = scen.gen(rng, layout='grid' if grid else 'hru', mask='mixed',
                 nd=int(rng.integers(2, 6)), nlat=int(rng.integers(1, 4)),
                 nlon=int(rng.integers(1, 4)), ambient=True,
                 time_step=int(rng.choice([60, 180, 360, 1440])),
                 calendar=str(rng.choice(['standard'] * 3 + ['noleap'])),
                 opt=dict(tdew_tol=1e-9))
    s.pad, s.spad, s.holes = (0, 0), 0, False
    supply(rng, s, res)
    if rng.random() < .3:
        s.opt['utc_offset'] = True
    if grid and rng.random() < .4:
        # centres of cells of a fine grid, with more than 4 decimals
        y, x = np.floor(s.lat * 32) / 32, np.floor(s.lon * 32) / 32
        off = float(rng.choice([1 / 32, 1 / 64]))
        if len(set(y)) == len(y) and len(set(x)) == len(x):
            s.lat, s.lon = y + off, x + off
            res.count('many_digits')
    # values every format can hold
    s.grain = float(rng.choice([100., 100., 4., 12.5]))
    for d in (s.f, s.s):
        for v in d:
            d[v] = np.round(d[v] * s.grain) / s.grain
        d['t_max'] = np.maximum(d['t_max'], d['t_min'])
    if rng.random() < .3:
        s.f['prec'] = s.f['prec'] + np.where(s.f['prec'] > 0, 300., 0)
    p = run.write_inputs(s, os.path.join(scratch, 'in'))
    a = again(s, scratch, 'ref', p)
    kinds = (['netcdf', 'multi', 'ascii', 'binary'] if spec['k'] == 'files'
             else ['netcdf', 'data', 'data'])
    for n, k in enumerate(kinds):
        q, note, exact = globals()[k](rng, scratch, res, s, dict(p), n)
        q['out_dir'] = os.path.join(scratch, 'o%d' % n)
        if k != 'data' and rng.random() < .4:
            q, note = config(rng, scratch, res, q, note, n)
        b = run.run(s, scratch, params=q)
        tol = 0 if exact else 1e-7
        d = run.same(a, b, tol, tol)
        res.check(d is None, lambda: '%s input (%s): %s' % (k, note, d))
        res.count((k if k == 'multi' else q['forcing_fmt']) + '_runs')
        res.count('values_compared', sum(v.size for v in a.var.values()))
        res.unit(k, tuple(sorted(note)), s.layout, s.calendar, s.ts)
    if spec['i'] % 8 == 0:
        res.sample = sample(s, last=note)


def config(rng, scratch, res, q, note, n):
    """through a configuration file, directories included"""
    p = os.path.join(scratch, 'c%d.conf' % n)
    if q['forcing_fmt'] in ('ascii', 'binary'):
        q['forcing'] = os.path.dirname(q['forcing'][0])
    if rng.random() < .5:
        open(p, 'w').write(conf.yaml_text(q))
    else:
        for v in q['out_vars'].values():
            v.pop('units', None)
        open(p, 'w').write(conf.ini_text(q))
    res.count('via_config')
    return conf.read(p), note + ['config']


def stateful(rng, scratch, res, s, q, n):
    """state and domain files with other names, orders and days"""
    note = []
    if rng.random() < .5:
        t = s.copy()
        names = sub(s.s, rng)
        if rng.random() < .5:
            t.spad, t.padseed = int(rng.integers(1, 20)), int(
                rng.integers(1 << 30))
            note.append('longer state')
        _, _, sd, st = run.padded(t)
        path = os.path.join(scratch, 's%d.nc' % n)
        hour = float(rng.choice([0, 6, 12, 18, 23.5]))
        st, sd, c, dims = rearrange(rng, res, s, st, sd, note)
        w = {names[k]: v for k, v in st.items()}
        if rng.random() < .4:
            w = {**{k: v[::-1] for k, v in st.items()}, **w}
            note.append('decoys in the state')
        run.write_nc(path, w, dims, c, sd, s.calendar, hour=hour)
        q['state'] = path
        q['state_vars'] = {names[k]: k for k in s.s}
    if rng.random() < .5:
        dn = sub(['mask', 'elev', 't_pk', 'dur'], rng)
        path = os.path.join(scratch, 'd%d.nc' % n)
        more = {'slope': s.elev * 2}
        if rng.random() < .4:
            more.update({k: v for k, v in (
                ('mask', np.ones(s.shape)), ('elev', s.elev * .5 + 10),
                ('t_pk', 1439 - s.t_pk)) if dn[k] != k})
            note.append('decoys in the domain')
        run.write_domain(s, path, dn, more=more,
                         order=None if rng.random() < .5 else
                         s.dims + ('month',))
        q['domain'] = path
        q['domain_vars'] = dict({'lat': 'lat', 'lon': 'lon'},
                                **{dn[k]: k for k in dn})
        note.append('domain names')
    return note


def rearrange(rng, res, s, data, days, note, cells=True):
    """the same values with cells in another order or more cells"""
    c = run.coords_of(s)
    if not cells or rng.random() < .5:
        return data, days, c, s.dims
    t = s.copy()
    kind = str(rng.choice(['reverse', 'extra', 'both']))
    if kind in ('extra', 'both'):
        # a further row (or unit) with other data
        new = {}
        for k, v in data.items():
            row = v[:, :1].copy()
            row = row + 3. if k != 'prec' else row * 0 + 7.
            new[k] = np.concatenate([v, row], axis=1)
        data = new
        if s.layout == 'grid':
            t.lat = np.append(s.lat, s.lat.max() + 1.5 if s.lat.max() < 88
                              else s.lat.min() - 1.5)
        else:
            t.lat, t.lon = np.append(s.lat, 1.), np.append(s.lon, 1.)
        t.mask = np.ones((s.shape[0] + 1,) + s.shape[1:])
        res.count('extra_cells')
        note.append('extra cells')
    c = run.coords_of(t)
    if kind in ('reverse', 'both'):
        data = {k: v[:, ::-1] for k, v in data.items()}
        if s.layout == 'grid':
            c['lat'] = (('lat',), t.lat[::-1])
        else:
            for k in ('hru', 'lat', 'lon'):
                c[k] = (('hru',), c[k][1][::-1])
        res.count('reordered_cells')
        note.append('reordered cells')
    return data, days, c, s.dims


def longer(rng, s, note, before=True):
    t = s.copy()
    if rng.random() < .6:
        t.pad = (int(rng.integers(0, 5)) if before else 0,
                 int(rng.integers(1, 5)))
        t.padseed = int(rng.integers(1 << 30))
        note.append('more days %s' % (t.pad,))
    fd, f, _, _ = run.padded(t)
    return fd, f


def netcdf(rng, scratch, res, s, q, n, path=None, multi=False):
    note = stateful(rng, scratch, res, s, q, n)
    fd, f = longer(rng, s, note)
    names = sub(f, rng)
    f, fd, c, dims = rearrange(rng, res, s, f, fd, note)
    if rng.random() < .4:
        f = dict(f, other=f['prec'] * 5 + 1)
        names['other'] = 'other'
        note.append('other variable')
    if rng.random() < .4:
        # others that already have the names these will get
        for k in list(s.f):
            if names[k] != k and k not in names.values():
                f = {**f, 'decoy_' + k: f[k] * .5 + 1}
                names['decoy_' + k] = k
                res.count('decoys')
        note.append('decoys')
    kw = dict(hour=float(rng.choice([0, 0, 3, 12, 12, 21, 23.75])))
    if kw['hour']:
        res.count('noon_stamps')
        note.append('stamps at %g h' % kw['hour'])
    kw['units'] = str(rng.choice([
        'days since 1900-01-01', 'hours since 1900-01-01 00:00:00',
        'days since 1850-01-01 00:00', 'seconds since 1970-01-01',
        'minutes since 2000-01-01']))
    if kw['hour'] == 0 and kw['units'].startswith('days') and \
            rng.random() < .5:
        kw['tdtype'] = 'i4'
    if s.calendar == 'standard':
        kw['caltext'] = str(rng.choice(['standard', 'gregorian',
                                        'proleptic_gregorian']))
        q['calendar'] = str(rng.choice(['standard', 'gregorian']))
    elif rng.random() < .5:
        q['calendar'] = 'noleap'
        kw['caltext'] = '365_day' if rng.random() < .5 else None
    if rng.random() < .4:
        o = list(rng.permutation(('time',) + s.dims))
        kw['order'] = tuple(str(x) for x in o)
        note.append('dimensions %s' % '/'.join(kw['order']))
    w = {names[k]: v for k, v in f.items()}
    keys = list(w)
    rng.shuffle(keys)
    w = {k: w[k] for k in keys}
    d = os.path.join(scratch, 'n%d' % n)
    os.makedirs(d)
    q['forcing_vars'] = {names[k]: k for k in s.f}
    if not multi:
        q['forcing'] = os.path.join(d, 'x.nc')
        run.write_nc(q['forcing'], w, dims, c, fd, s.calendar, **kw)
    else:
        parts = multi(rng, w, fd, note)
        for i, (ww, ff) in enumerate(parts):
            run.write_nc(os.path.join(d, 'part%02d.nc' % i), ww, dims, c, ff,
                         s.calendar, **kw)
        q['forcing'] = os.path.join(d, 'part*.nc')
    return q, note + [kw['units'].split()[0]], True


def parts_of(rng, w, fd, note):
    if rng.random() < .3 and len(w) > 1:
        note.append('a file per variable')
        return [({k: v}, fd) for k, v in w.items()]
    cut = sorted(set(int(x) for x in rng.integers(1, len(fd), 3))) \
        if len(fd) > 1 else []
    b = [0] + cut + [len(fd)]
    note.append('%d files' % (len(b) - 1))
    return [({k: v[x:y] for k, v in w.items()}, fd[x:y])
            for x, y in zip(b, b[1:])]


def multi(rng, scratch, res, s, q, n):
    return netcdf(rng, scratch, res, s, q, n, multi=parts_of)


def data(rng, scratch, res, s, q, n):
    """in memory"""
    import xarray as xr
    q, note, _ = netcdf(rng, scratch, res, s, q, n)
    with xr.open_dataset(q['forcing']) as ds:
        ds = ds.load()
    if s.calendar == 'noleap' and rng.random() < .5:
        ds['time'] = ds.indexes['time'].to_datetimeindex() if hasattr(
            ds.indexes['time'], 'to_datetimeindex') else ds['time']
        q['calendar'] = 'noleap'
    q['forcing'] = ds
    q['forcing_fmt'] = 'data'
    return q, note, True


def text(x):
    return repr(float(x))


def cellfiles(rng, scratch, res, s, n, note, write):
    """one file per processed cell, and files that are none of our business"""
    d = os.path.join(scratch, 'v%d' % n)
    os.makedirs(d)
    pre = str(rng.choice(['data', 'full_data', 'x_y_z']))
    fd, f = longer(rng, s, note, before=False)
    L = []
    for c in np.ndindex(*s.shape):
        on = s.mask[c] > 0
        if not on and rng.random() < .5:
            continue
        p = os.path.join(d, '%s_%s_%s' % (pre, text(s.cell_lat(c)),
                                          text(s.cell_lon(c))))
        write(p, {k: v[(slice(None),) + c] * (1 if on else 0) for k, v in
                  f.items()})
        L.append(p)
    if rng.random() < .5:
        for name in ('README', '%s_%s_%s' % (pre, '1.25', '2.5'),
                     '%s_abc_def' % pre):
            p = os.path.join(d, name)
            write(p, {k: v[(slice(None),) + (0,) * len(s.shape)] + 1 for k, v
                      in f.items()})
            L.append(p)
        note.append('other files')
    rng.shuffle(L)
    return L


def ascii(rng, scratch, res, s, q, n):
    note = stateful(rng, scratch, res, s, q, n)
    names = list(s.f)
    rng.shuffle(names)
    extra = rng.random() < .5
    sep = str(rng.choice(['\t', ' ', '   ', ' \t ']))
    if extra:
        res.count('extra_columns')
        note.append('extra columns')

    def write(p, f):
        with open(p, 'w') as o:
            for i in range(len(f['prec'])):
                row = ['%.4f' % f[v][i] for v in names]
                if extra:
                    row += ['%.2f' % (99 + i), '-1']
                o.write(('  ' if i % 2 else '') + sep.join(row) + '\n')
    q['forcing'] = cellfiles(rng, scratch, res, s, n, note, write)
    q['forcing_vars'] = {v: v for v in names}
    q['forcing_fmt'] = 'ascii'
    return q, note + ['columns ' + ','.join(names)], False


def binary(rng, scratch, res, s, q, n):
    note = stateful(rng, scratch, res, s, q, n)
    names = list(s.f)
    rng.shuffle(names)
    act = [c for c in s.cells()]
    fv = {}
    raw = {}
    for v in names:
        x = np.concatenate([s.f[v][(slice(None),) + c] for c in act])
        big = max(np.abs(x).max(), .5)
        uns = v not in ('t_min', 't_max') and rng.random() < .7
        top = 65000 if uns else 32000
        all_ = [12.5, 37.5, 62.5, 112.5, 25., 100.] if s.grain == 12.5 else [
            100., 200., 400., 1000., 2000.]
        sc = [z for z in all_ if z * (big + 4) < top]
        sc = float(rng.choice(sc)) if sc else all_[0]
        if sc * big >= top:
            return netcdf(rng, scratch, res, s, q, n)
        raw[v] = (sc, uns)
        res.count('fractional_scales', sc % 1 > 0)
        fv[v] = '%s %s' % (sc, 'unsigned' if uns else 'signed')
        if uns and (x * sc).max() > 32767:
            res.count('unsigned_above_32767')
        if not uns and x.min() < 0:
            res.count('negative_signed')

    def write(p, f):
        with open(p, 'wb') as o:
            for i in range(len(f['prec'])):
                for v in names:
                    sc, uns = raw[v]
                    z = int(np.clip(np.round(f[v][i] * sc),
                                    0 if uns else -32768,
                                    65535 if uns else 32767))
                    o.write(struct.pack('<H' if uns else '<h', z))
    q['forcing'] = cellfiles(rng, scratch, res, s, n, note, write)
    q['forcing_vars'] = fv
    q['forcing_fmt'] = 'binary'
    return q, note + ['columns ' + ','.join('%s %s' % x for x in
                                            fv.items())], False
