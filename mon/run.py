"""Write inputs, run the real MetSim on them, read its output files."""
import copy
import glob
import os
import sys
import warnings

import cftime
import netCDF4
import numpy as np
import pandas as pd

from . import scen as S

REPO = os.environ.get('VERIF_REPO', '/repo')


class RunFailed(Exception):
    """the code under test raised an error"""

    def __init__(self, exc):
        Exception.__init__(self, '%s: %s' % (type(exc).__name__,
                                             str(exc)[:400]))
        self.exc = exc


def nums(days, calendar, units='days since 1900-01-01', hour=0.0):
    per = {'days': 1., 'hours': 24., 'minutes': 1440., 'seconds': 86400.}[
        units.split()[0]]
    return np.array([cftime.date2num(
        cftime.datetime(*d, calendar=calendar), units, calendar=calendar)
        for d in days], float) + hour / 24.0 * per


def write_nc(path, data, dims, coords, days=None, calendar='standard',
             hour=0.0, dtype='f8', order=None, tdtype='f8',
             units='days since 1900-01-01', caltext=None):
    """data: name -> array with leading time (days given) or month dim"""
    with netCDF4.Dataset(path, 'w') as nc:
        lead = 'time' if days is not None else 'month'
        sizes = dict(zip(dims, next(iter(coords['_shape']))))
        for d in dims:
            nc.createDimension(d, sizes[d])
        if days is not None:
            nc.createDimension('time', len(days))
            v = nc.createVariable('time', tdtype, ('time',))
            v.units = units
            v.calendar = caltext or calendar
            v[:] = np.round(nums(days, calendar, units, hour), 6)
        elif any(a.ndim == len(dims) + 1 for a in data.values()):
            nc.createDimension('month', 12)
        for c, cdv in coords.items():
            if c == '_shape':
                continue
            cd, cv = cdv
            cv = np.asarray(cv)
            v = nc.createVariable(c, 'f8' if c != 'hru' else cv.dtype
                                  if cv.dtype.kind in 'iuf' else str, cd)
            v[:] = cv
        for k, a in data.items():
            full = ((lead,) if a.ndim == len(dims) + 1 else ()) + tuple(dims)
            od = (order.get(k) if isinstance(order, dict) else order) or full
            od = tuple(d for d in od if d in full)
            v = nc.createVariable(k, dtype, od, fill_value=np.nan
                                  if dtype in ('f4', 'f8') else None)
            v[:] = np.transpose(a, [full.index(d) for d in od])


def coords_of(s):
    c = {'_shape': [s.shape]}
    if s.layout == 'grid':
        c['lat'] = (('lat',), s.lat)
        c['lon'] = (('lon',), s.lon)
    else:
        c['hru'] = (('hru',), np.arange(1, len(s.lat) + 1, dtype='i4')
                    if s.ids is None else s.ids)
        c['lat'] = (('hru',), s.lat)
        c['lon'] = (('hru',), s.lon)
    return c


def write_domain(s, path, names=None, more=None, order=None):
    names = names or {}
    d = dict(mask=s.mask, elev=s.elev, t_pk=s.t_pk, dur=s.dur)
    write_nc(path, dict(more or {}, **{names.get(k, k): v for k, v in
                                       d.items()}), s.dims,
             coords_of(s), order=order)


def padded(s):
    """forcing and state with the additional days the scenario asks for; what
    they hold differs from the data of the run"""
    a, b = s.pad
    fd, f, sd, st = s.days, s.f, s.sdays, s.s
    rng = np.random.default_rng(s.padseed)

    def more(v, k, lo, hi):
        n = v[:1].repeat(lo, axis=0), v[:1].repeat(hi, axis=0)
        r = []
        for x in n:
            if k == 'prec':
                x = rng.uniform(0, 30, x.shape)
            elif k in ('t_min', 't_max'):
                x = rng.uniform(0, 3, x.shape) + (-15. if k == 't_min'
                                                  else 25.)
            else:
                x = x * 0 + rng.uniform(.2, .9, x.shape)
            r.append(x)
        return np.concatenate([r[0], v, r[1]])
    if a or b:
        fd = S.day_list(s.days[0], a, s.calendar, back=True) + s.days + \
            S.day_list(s.days[-1], b + 1, s.calendar)[1:]
        f = {k: more(v, k, a, b) for k, v in s.f.items()}
    if s.spad:
        sd = S.day_list(s.sdays[0], s.spad, s.calendar, back=True) + s.sdays
        st = {k: more(v, k, s.spad, 0) for k, v in s.s.items()}
    if s.holes:
        off = ~(np.nan_to_num(s.mask, nan=0.) > 0)
        f = {k: np.where(off, np.nan, v) for k, v in f.items()}
        st = {k: np.where(off, np.nan, v) for k, v in st.items()}
    return fd, f, sd, st


def write_inputs(s, d, forcing='f.nc', state='s.nc', domain='d.nc'):
    """write the three files for a NetCDF run; returns the settings"""
    os.makedirs(d, exist_ok=True)
    p = [os.path.join(d, x) for x in (forcing, domain, state)]
    c = coords_of(s)
    fd, f, sd, st = padded(s)
    write_nc(p[0], f, s.dims, c, fd, s.calendar)
    write_domain(s, p[1])
    write_nc(p[2], st, s.dims, c, sd, s.calendar)
    return settings(s, p[0], p[1], p[2], os.path.join(d, 'out'))


def settings(s, forcing, domain, state, out_dir):
    import datetime as dt
    r = dict(start=dt.datetime(*s.days[0]), stop=dt.datetime(*s.days[-1]),
             forcing=forcing, domain=domain, state=state, out_dir=out_dir,
             forcing_fmt='netcdf', calendar=s.calendar,
             forcing_vars={k: k for k in s.f},
             state_vars={k: k for k in s.s},
             domain_vars={k: k for k in ['lat', 'lon', 'mask', 'elev', 't_pk',
                                         'dur']})
    r.update(copy.deepcopy(s.opt))
    return r


def import_metsim():
    import metsim.metsim as m
    want = os.path.realpath(REPO) + os.sep
    if not os.path.realpath(m.__file__).startswith(want):
        raise SystemExit('metsim imported from %s, not %s' % (m.__file__, want))
    return m


def simulate(params, keep=False):
    """run MetSim through its Python interface"""
    m = import_metsim()
    try:
        ms = m.MetSim(params)
        ms.run()
    except Exception as e:       # noqa
        raise RunFailed(e)
    return ms if keep else None


class Out(object):
    """what a run left in its output directory"""

    def __init__(self, out_dir, prefix='forcing'):
        self.files = []
        self.var, self.units, self.dtype, self.dims = {}, {}, {}, {}
        self.attrs, self.vattrs, self.coord, self.tattrs = [], {}, {}, {}
        parts = []
        for fn in sorted(glob.glob(os.path.join(out_dir, prefix + '_*.nc'))):
            with netCDF4.Dataset(fn) as nc:
                nc.set_auto_mask(False)
                t = nc.variables['time']
                self.tattrs = {k: t.getncattr(k) for k in t.ncattrs()}
                tv = np.ma.filled(t[:].astype('f8'), np.nan)
                d = {}
                for k, v in nc.variables.items():
                    if k == 'time':
                        continue
                    if v.dtype is str or v.dtype.kind not in 'iuf':
                        self.coord[k] = np.asarray(v[:])
                        continue
                    if k in v.dimensions and v.dtype.kind in 'iu':
                        self.coord[k] = np.asarray(v[:])
                        continue
                    # missing is what the file declares to be, as for xarray
                    a = v[:].astype('f8')
                    for q in ('_FillValue', 'missing_value'):
                        if q in v.ncattrs():
                            a[np.isin(v[:], v.getncattr(q))] = np.nan
                    if 'time' in v.dimensions:
                        d[k] = np.moveaxis(a, v.dimensions.index('time'), 0)
                        self.units[k] = getattr(v, 'units', None)
                        self.dtype[k] = str(v.dtype)
                        self.dims[k] = v.dimensions
                        self.vattrs[k] = {x: v.getncattr(x)
                                          for x in v.ncattrs()}
                    else:
                        self.coord[k] = a
                self.attrs.append({x: nc.getncattr(x) for x in nc.ncattrs()})
                parts.append((tv, d, os.path.basename(fn)))
        parts.sort(key=lambda q: (q[0][0] if len(q[0]) else np.inf))
        self.files = [p[2] for p in parts]
        self.file_times = [p[0] for p in parts]
        if parts:
            self.tnum = np.concatenate([p[0] for p in parts])
            for k in parts[0][1]:
                self.var[k] = np.concatenate([p[1][k] for p in parts if k in
                                              p[1]])
        else:
            self.tnum = np.zeros(0)
        self._stamps = None

    @property
    def stamps(self):
        if self._stamps is None:
            x = cftime.num2date(self.tnum, self.tattrs['units'],
                                self.tattrs.get('calendar', 'standard'))
            self._stamps = [(q.year, q.month, q.day, q.hour, q.minute,
                             q.second) for q in x]
        return self._stamps


def run(s, d, over=None, params=None):
    """write inputs into d (unless settings are given), simulate, read"""
    p = params if params is not None else write_inputs(s, d)
    if over:
        p.update(over)
    os.makedirs(p['out_dir'], exist_ok=True)
    simulate(p)
    return Out(p['out_dir'], p.get('out_prefix', 'forcing'))


def expected_stamps(s):
    """the regular output axis of a scenario"""
    ts = s.ts
    shift = ts if s.opt.get('period_ending') else 0
    r = []
    n = 1440 // ts
    allday = s.days + S.day_list(s.days[-1], 2, s.calendar)[1:]
    for d in range(len(s.days)):
        for j in range(n):
            mins = j * ts + shift
            q = allday[d + mins // 1440]
            mm = mins % 1440
            r.append(q + (mm // 60, mm % 60, 0))
    return r


def same(a, b, rtol=1e-12, atol=1e-12):
    """first difference between two outputs, or None"""
    if set(a.var) != set(b.var):
        return 'variables %s vs %s' % (sorted(a.var), sorted(b.var))
    if len(a.tnum) != len(b.tnum) or a.stamps != b.stamps:
        return 'time axes differ (%d vs %d steps)' % (len(a.tnum), len(b.tnum))
    for k in a.var:
        x, y = a.var[k], b.var[k]
        if x.shape != y.shape:
            return '%s: shapes %s vs %s' % (k, x.shape, y.shape)
        w = differ(x, y, rtol, atol)
        if w:
            return '%s: %s' % (k, w)
    return None


def differ(x, y, rtol=1e-12, atol=1e-12):
    bad = ~((np.abs(x - y) <= atol + rtol * np.abs(y)) |
            (np.isnan(x) & np.isnan(y)))
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        return '%d of %d differ, first at %s: %.10g vs %.10g' % (
            bad.sum(), bad.size, i, x[i], y[i])
    return None
