"""Deterministic random simulation scenarios (inputs and settings)."""
import copy
import datetime as dt
import numpy as np
import pandas as pd

STEPS = [1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 32, 36, 40,
         45, 48, 60, 72, 80, 90, 96, 120, 144, 160, 180, 240, 288, 360]
COMMON = [10, 15, 30, 60, 60, 60, 120, 180, 180, 240, 360]
SUBVARS = ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure',
           'rel_humid', 'air_pressure', 'spec_humid', 'tskc', 'wind']
DAYVARS = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc',
           'pet', 'wind', 'daylength', 't_day']
LW = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'prata']
CLOUD = ['default', 'cloud_deardorff']


class Scn(object):
    """one scenario; everything needed to write the input files and run"""
    pad = (0, 0)       # days in the forcing before and after the run
    spad = 0           # days in the state before the last 90
    padseed = 0
    holes = False      # missing data in cells that are not processed
    base = None
    ids = None         # labels of the units of a list
    grain = 100.       # forcing is given in multiples of 1 / grain

    def copy(self):
        return copy.deepcopy(self)

    @property
    def shape(self):
        return self.mask.shape

    @property
    def dims(self):
        return ('lat', 'lon') if self.layout == 'grid' else ('hru',)

    def cells(self, active=True):
        m = self.mask
        return [i for i in np.ndindex(*m.shape)
                if not active or (np.isfinite(m[i]) and m[i] > 0)]

    def cell_lat(self, i):
        return float(self.lat[i[0]])

    def cell_lon(self, i):
        return float(self.lon[i[-1]])

    def cell(self, i):
        """(f, s) dicts of one cell's series"""
        f = {k: v[(slice(None),) + i] for k, v in self.f.items()}
        s = {k: v[(slice(None),) + i] for k, v in self.s.items()}
        return f, s

    @property
    def yday(self):
        return np.array([pd.Timestamp(*d).dayofyear for d in self.days]) - 1

    @property
    def months(self):
        return np.array([d[1] for d in self.days])

    @property
    def ts(self):
        return int(self.opt['time_step'])

    def describe(self):
        o = {k: v for k, v in self.opt.items() if k != 'out_vars'}
        return dict(layout=self.layout, shape=list(self.shape),
                    start='%04d-%02d-%02d' % self.days[0], nd=len(self.days),
                    lat=[round(float(x), 3) for x in self.lat[:4]],
                    lon=[round(float(x), 3) for x in self.lon[:4]],
                    climate=self.climate, calendar=self.calendar, opt=o,
                    pad=list(self.pad) + [self.spad],
                    inactive=int(self.mask.size - len(self.cells())))


def is_leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def noleap(calendar):
    return calendar in ('noleap', '365_day')


def day_list(start, n, calendar='standard', back=False):
    """n dates (y, m, d) from start on, or the n before start"""
    d = dt.date(*start)
    one = dt.timedelta(days=1)
    r = []
    if back:
        d = d - one
    while len(r) < n:
        if not (noleap(calendar) and d.month == 2 and d.day == 29):
            r.append((d.year, d.month, d.day))
        d = d - one if back else d + one
    return r[::-1] if back else r


def pick_start(rng, kind=None):
    kind = kind or rng.choice(
        ['any', 'any', 'leapfeb', 'feb', 'leapend', 'yearend', 'newyear',
         'solstice', 'equinox', 'monthend'])
    leap = int(rng.choice([1752, 1904, 1952, 1996, 2000, 2004, 2016, 2024,
                           2048, 2248]))
    com = int(rng.choice([1699, 1800, 1901, 1950, 1999, 2001, 2013, 2023,
                          2100, 2200]))
    if kind == 'leapfeb':
        return (leap, 2, int(rng.integers(24, 30)))
    if kind == 'feb':
        return (com, 2, int(rng.integers(24, 29)))
    if kind == 'leapend':
        return (leap, 12, int(rng.integers(27, 32)))
    if kind == 'yearend':
        return (com, 12, int(rng.integers(27, 32)))
    if kind == 'newyear':
        return (int(rng.choice([leap, com])), 1, int(rng.integers(1, 3)))
    if kind == 'solstice':
        return (com, int(rng.choice([6, 12])), int(rng.integers(18, 23)))
    if kind == 'equinox':
        return (com, int(rng.choice([3, 9])), int(rng.integers(18, 23)))
    if kind == 'monthend':
        return (com, int(rng.integers(1, 13)), int(rng.integers(26, 29)))
    lo, hi = (1900, 2090) if rng.random() < .7 else (1680, 2260)
    d = dt.date(int(rng.integers(lo, hi)), 1, 1) + dt.timedelta(
        days=int(rng.integers(0, 365)))
    return (d.year, d.month, d.day)


CLIMATES = ['temperate', 'arctic', 'desert', 'tropical', 'alpine', 'extreme',
            'freezing', 'flat', 'wet', 'hot', 'deluge', 'frigid']


def series(rng, climate, n, shape):
    """t_min, t_max, prec, wind with a persistent-weather structure"""
    sh = (n,) + shape
    base, spread, dmin, dmax, wet, amt = {
        'temperate': (8, 5, 2, 16, .4, 6), 'arctic': (-30, 8, 1, 12, .3, 2),
        'desert': (22, 4, 8, 25, .05, 3), 'tropical': (23, 2, 3, 10, .7, 15),
        'alpine': (-4, 5, 2, 18, .5, 8), 'extreme': (0, 18, 0.01, 35, .4, 30),
        'freezing': (-1, 2.5, .5, 8, .5, 5), 'flat': (5, 6, 0, .3, .5, 4),
        'wet': (12, 4, 1, 9, .97, 25), 'hot': (33, 3, 4, 16, .1, 8),
        'deluge': (21, 2, 2, 9, .8, 350),
        'frigid': (-60, 8, 1, 14, .3, 1)}[climate]
    walk = rng.normal(0, spread / 2, sh)
    t = np.zeros(sh)
    cur = rng.normal(0, spread, shape)
    for k in range(n):
        cur = .7 * cur + walk[k]
        t[k] = cur
    tmin = base + t
    dtr = rng.uniform(dmin, dmax, sh)
    if climate in ('flat', 'extreme'):
        dtr = np.where(rng.random(sh) < .15, 0.0, dtr)
    p = np.where(rng.random(sh) < wet, rng.exponential(amt, sh), 0.0)
    p = np.where(rng.random(sh) < .05, p * 1e-3, p)
    p = np.where((p > 0) & (p < 1e-6), 0.0, p)
    w = rng.uniform(0, 12, sh)
    return dict(t_min=tmin, t_max=tmin + dtr, prec=p, wind=w)


def lats(rng, n, kind=None):
    kind = kind or rng.choice(['mid', 'mid', 'south', 'tropic', 'polar',
                               'spole', 'mixed', 'round'])
    if kind == 'mixed':
        c = rng.uniform(-89, 89, n)
    elif kind == 'round':
        c = rng.choice([-90, -66.5, -60, -45, -23.5, 0, 23.5, 30, 45, 60,
                        66.5, 75, 90], n, replace=False).astype(float)
    elif kind == 'circle':     # short or long days, no polar night
        c = rng.choice([-1, 1]) * rng.uniform(60.5, 66, n)
    else:
        lo, hi = {'mid': (25, 60), 'south': (-60, -15), 'tropic': (-23, 23),
                  'polar': (60, 90), 'spole': (-90, -60)}[kind]
        c = rng.uniform(lo, hi, n)
    # keep the order ascending or descending as domain files do
    c = np.sort(np.round(c, 4))
    if rng.random() < .3:
        c = c[::-1]
    return c.copy()


def lons(rng, n, kind=None):
    kind = kind or rng.choice(['w', 'e', '360', 'near0', 'dateline'])
    lo, hi = {'w': (-170, -60), 'e': (5, 170), '360': (190, 350),
              'near0': (-8, 8), 'dateline': (165, 195)}[kind]
    c = np.sort(np.round(rng.uniform(lo, hi, n), 4))
    return c.copy()


def gen(rng, **kw):
    """A random scenario; keywords fix parts of it:
    layout, nlat, nlon, lat, lon, nd, start, start_kind, climate, calendar,
    mask ('all', 'mixed' or array), time_step, out_vars, opt (dict)"""
    s = Scn()
    s.layout = kw.get('layout') or str(rng.choice(['grid', 'grid', 'hru']))
    nlat = kw.get('nlat') or int(rng.integers(1, 4))
    nlon = kw.get('nlon') or int(rng.integers(1, 4))
    if s.layout == 'hru':
        nlat = nlon = kw.get('nhru') or max(nlat * nlon, 2)
        if nlat > 8:
            nlat = nlon = 8
    lat = kw.get('lat')
    s.lat = np.asarray(lat, float) if lat is not None else lats(
        rng, nlat, kw.get('lat_kind'))
    lon = kw.get('lon')
    s.lon = np.asarray(lon, float) if lon is not None else lons(
        rng, nlon, kw.get('lon_kind'))
    if s.layout == 'grid':
        shape = (len(s.lat), len(s.lon))
    else:
        n = min(len(s.lat), len(s.lon))
        s.lat, s.lon = s.lat[:n], s.lon[:n]
        if lon is None:
            s.lon = rng.permutation(s.lon)
        shape = (n,)
    m = kw.get('mask', 'all')
    if isinstance(m, str):
        mask = np.ones(shape)
        if m == 'mixed':
            mask = rng.choice([1., 1., 1., 2., 0.5, 0., np.nan, -1.], shape)
            if not (mask > 0).any():
                mask.flat[int(rng.integers(mask.size))] = 1.
    else:
        mask = np.asarray(m, float)
    s.mask = mask
    s.elev = np.round(rng.uniform(-50, 4500, shape)
                      if rng.random() < .3 else rng.uniform(0, 2500, shape), 2)
    if rng.random() < .1:
        s.elev = np.round(rng.choice([-430., 0., 5200., 8800.], shape) +
                          rng.uniform(0, 20, shape), 2)
    s.t_pk = rng.uniform(0, 1439, (12,) + shape)
    s.dur = np.where(rng.random((12,) + shape) < .15,
                     rng.uniform(1, 60, (12,) + shape),
                     rng.uniform(30, 900, (12,) + shape))
    s.calendar = kw.get('calendar', 'standard')
    s.start = kw.get('start') or pick_start(rng, kw.get('start_kind'))
    if noleap(s.calendar) and s.start[1:] == (2, 29):
        s.start = (s.start[0], 3, 1)
    nd = kw.get('nd') or int(rng.choice([1, 2, 3, 5, 8, 12],
                                        p=[.05, .1, .25, .3, .2, .1]))
    s.days = day_list(s.start, nd, s.calendar)
    s.sdays = day_list(s.start, 90, s.calendar, back=True)
    s.climate = kw.get('climate') or str(rng.choice(CLIMATES))
    allf = series(rng, s.climate, 90 + nd, shape)
    s.f = {k: v[90:] for k, v in allf.items()}
    s.s = {k: allf[k][:90] for k in ('t_min', 't_max', 'prec')}
    o = dict(method='mtclim', scheduler='sync', out_precision='f8')
    ts = kw.get('time_step')
    o['time_step'] = int(ts) if ts else int(
        rng.choice(COMMON) if rng.random() < .6 else rng.choice(STEPS[2:]))
    o['prec_type'] = str(rng.choice(['uniform', 'triangle', 'mix']))
    o['utc_offset'] = False
    o['period_ending'] = False
    o['lw_type'] = str(rng.choice(LW))
    o['lw_cloud'] = str(rng.choice(CLOUD))
    if kw.get('tunables', rng.random() < .5):
        o['rain_scalar'] = round(float(rng.uniform(.3, 1)), 3)
        o['tday_coef'] = round(float(rng.uniform(.1, .9)), 3)
        o['lapse_rate'] = round(float(rng.uniform(.003, .0095)), 5)
        o['sw_prec_thresh'] = round(float(rng.choice([0, .5, 3.])), 3)
        o['tmax_daylength_fraction'] = round(float(rng.uniform(.4, .9)), 3)
    o.update(kw.get('opt', {}))
    s.opt = o
    if kw.get('ambient'):
        # things that must not matter, present in some of the runs
        if rng.random() < .2 and 'period_ending' not in kw.get('opt', {}):
            o['period_ending'] = bool(o['time_step'] < 1440)
        if rng.random() < .25:
            o['out_freq'] = str(rng.choice(['D', '2D', 'M', 'MS', 'A', '3D']))
        if rng.random() < .3:
            s.pad = tuple(int(x) for x in rng.integers(0, 6, 2))
        if rng.random() < .3:
            s.spad = int(rng.integers(1, 40))
        if rng.random() < .15:
            o['chunks'] = {d: int(rng.integers(1, 4)) for d in s.dims}
        s.padseed = int(rng.integers(1 << 30))
        if rng.random() < .3:
            s.holes = True
    names = kw.get('out_vars')
    if names is None:
        names = DAYVARS if o['time_step'] == 1440 else SUBVARS
    o['out_vars'] = {v: dict(out_name=v) for v in names}
    if kw.get('ambient') and 'wind' not in names and rng.random() < .25:
        del s.f['wind']      # not needed then
    return s
