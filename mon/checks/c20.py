import copy
import os

import numpy as np

from .. import run, scen
from .common import files_equal, sample

PROP = 'C20'
RULE = ('one simulation of a whole period and simulations of its parts, each '
        'started from a state that holds the 90 days before it (from the '
        'original state and the forcing of the parts before), with state '
        'files that also hold older, later or other data; distinct by split '
        'point, time step, how the parts and the state are stored')
REQUIRED = ['restarts', 'daily_restarts', 'subdaily_restarts',
            'chained_restarts', 'leap_splits', 'year_splits',
            'state_from_forcing_only', 'longer_states', 'state_is_history',
            'older_history_changed', 'passthrough_restarts', 'noleap_restarts',
            'steps_compared', 'shifted_histories']
ASSUMPTIONS = ['values that depend on humidity are compared to the dewpoint '
               'tolerance (1e-9 or 1e-6 C here), all others bit for bit']


def plan(tier):
    n = 88 if tier == 'quick' else 1400
    return [dict(i=i) for i in range(n)]


EXACT = {'prec', 'temp', 'wind', 't_min', 't_max', 'daylength', 't_day',
         'air_pressure'}


def close(a, b, k, tol):
    """first difference of two series"""
    if k in EXACT:
        # the windows may be summed in another order, nothing else
        return run.differ(a, b, 1e-12, 1e-10)
    return run.differ(a, b, tol, tol)


def build(rng):
    kind = str(rng.choice(['short', 'mid', 'long'], p=[.5, .3, .2]))
    nd = {'short': rng.integers(6, 25), 'mid': rng.integers(25, 80),
          'long': rng.integers(95, 135)}[kind]
    daily = rng.random() < .4
    ts = 1440 if daily else int(rng.choice([60, 120, 180, 360]
                                           if nd > 30 else
                                           [15, 30, 60, 90, 180, 360]))
    s = scen.gen(rng, mask='mixed', nd=int(nd), time_step=ts, nlat=2, nlon=2,
                 nhru=3, calendar=str(rng.choice(
                     ['standard', 'standard', 'gregorian', 'noleap'])),
                 start_kind=str(rng.choice(['any', 'leapfeb', 'yearend',
                                            'feb', 'monthend', 'newyear'])))
    s.opt['tdew_tol'] = float(rng.choice([1e-9, 1e-9, 1e-6]))
    if not daily:
        s.opt['utc_offset'] = bool(rng.random() < .3)
        s.opt['period_ending'] = bool(rng.random() < .2)
    if rng.random() < .2:
        s.opt['method'] = 'passthrough'
        s.f['shortwave'] = rng.uniform(5, 300, s.f['prec'].shape)
    return s


def tail(s, k):
    """the scenario that starts with day k"""
    t = s.copy()
    t.days = s.days[k:]
    t.f = {v: x[k:] for v, x in s.f.items()}
    al = s.sdays + s.days
    t.sdays = al[k:k + 90]
    t.s = {v: np.concatenate([s.s[v], s.f[v]])[k:k + 90] for v in s.s}
    return t


def case(spec, rng, scratch, res):
    s = build(rng)
    n = len(s.days)
    tol = 2e-6 if s.opt['tdew_tol'] < 1e-8 else 2e-4
    if rng.random() < .3:
        # runs of any year: put a split on a remarkable date if there is one
        s.opt['out_freq'] = 'MS'
    p = run.write_inputs(s, os.path.join(scratch, 'whole'))
    whole = run.run(s, scratch, params=dict(p))
    splits = [int(k) for k in sorted(rng.choice(
        np.arange(1, n - 2), size=min(3, n - 3), replace=False))]
    dates = {d[1:]: k for k, d in enumerate(s.days) if 0 < k < n - 2}
    for md in ((2, 29), (3, 1), (1, 1), (12, 31), (2, 28)):
        if md in dates and rng.random() < .6:
            splits.append(dates[md])
    for j, k in enumerate(splits):
        part(spec, rng, scratch, res, s, p, whole, k, j, tol)
    if spec['i'] % 12 == 0:
        res.sample = sample(s, splits=splits)
    moved(rng, scratch, res, s, p, whole)


def part(spec, rng, scratch, res, s, p, whole, k, j, tol):
    n = len(s.days)
    t = tail(s, k)
    note = [k]
    d = os.path.join(scratch, 'part%d' % j)
    end = n
    # the part may also be a run that ends before the whole does
    if n - k > 4 and rng.random() < .3:
        end = int(rng.integers(k + 3, n))
        note.append('ends early')
    cut = rng.random() < .5
    u = t.copy()
    u.days = t.days[:end - k]
    if cut:
        u.f = {v: x[:end - k] for v, x in t.f.items()}
        note.append('own forcing file')
        q = run.write_inputs(u, d)
    else:
        q = run.write_inputs(t, d)
        q['forcing'] = p['forcing']
        q['stop'] = run.settings(u, '', '', '', '')['stop']
        note.append('window of the forcing')
    # the state: just the 90 days, or within a longer history
    how = str(rng.choice(['plain', 'older', 'other', 'history']))
    note.append(how)
    al = s.sdays + s.days
    full = {v: np.concatenate([s.s[v], s.f[v]]) for v in s.s}
    path = os.path.join(d, 'state2.nc')
    c = run.coords_of(s)
    if how == 'older':
        m = int(rng.integers(1, 60))
        sd = scen.day_list(t.sdays[0], m, s.calendar, back=True) + t.sdays
        st = {v: np.concatenate([rng.uniform(-5, 5, (m,) + s.shape) + (
            {'t_min': 0, 't_max': 20, 'prec': 10}[v]), x])
            for v, x in t.s.items()}
        res.count('longer_states')
    elif how == 'other':
        # days after the start are none of the state's business
        m = int(rng.integers(1, 40))
        sd = t.sdays + scen.day_list(t.sdays[-1], m + 1, s.calendar)[1:]
        st = {v: np.concatenate([x, np.full((m,) + s.shape, -50. if
                                            v == 't_min' else 50.)])
              for v, x in t.s.items()}
        res.count('longer_states')
    elif how == 'history':
        sd, st = al, full
        res.count('state_is_history')
    if how != 'plain':
        run.write_nc(path, st, s.dims, c, sd, s.calendar,
                     hour=float(rng.choice([0, 12])))
        q['state'] = path
    out = run.run(u, d, params=q)
    compare(res, s, u, whole, out, k, end, tol, note)
    res.count('restarts')
    res.count('daily_restarts' if s.ts == 1440 else 'subdaily_restarts')
    if s.opt['method'] == 'passthrough':
        res.count('passthrough_restarts')
    if scen.noleap(s.calendar):
        res.count('noleap_restarts')
    if k >= 90:
        res.count('state_from_forcing_only')
    if s.days[k][1:] in ((2, 29), (3, 1), (2, 28)):
        res.count('leap_splits')
    if s.days[k][1:] in ((1, 1), (12, 31)):
        res.count('year_splits')
    if j > 0:
        res.count('chained_restarts')
    res.unit(s.days[k][1:], s.ts, how, cut, end == n, s.opt['method'])


def compare(res, s, u, whole, out, k, end, tol, note):
    per = 1440 // s.ts
    utc = s.opt.get('utc_offset')
    # first and last day of a sub-daily part differ in how they are continued
    lo, hi = (0, end - k) if s.ts == 1440 else (
        (1, end - k - 1) if not utc else (2, end - k - 2))
    if not res.check(len(out.stamps) == (end - k) * per, lambda: '%d steps in '
                     'a part of %d days' % (len(out.stamps), end - k)):
        return
    if hi <= lo:
        return
    a = slice((k + lo) * per, (k + hi) * per)
    b = slice(lo * per, hi * per)
    res.check(whole.stamps[a] == out.stamps[b], lambda: 'times differ: %s vs '
              '%s' % (whole.stamps[a][:2], out.stamps[b][:2]))
    for v in whole.var:
        w = close(out.var[v][b], whole.var[v][a], v, tol)
        res.check(w is None, lambda: 'restarted on %04d-%02d-%02d (day %d of '
                  '%d, %s): %s differs from the uninterrupted run: %s' % (
                      s.days[k] + (k, len(s.days), note, v, w)))
    res.count('steps_compared', (hi - lo) * per)


def moved(rng, scratch, res, s, p, whole):
    """history older than 90 days, and what the history is called"""
    q = dict(p)
    t = s.copy()
    m = int(rng.integers(1, 400))
    sd = scen.day_list(s.sdays[0], m, s.calendar, back=True) + s.sdays
    st = {v: np.concatenate([rng.uniform(0, 1, (m,) + s.shape) + (
        {'t_min': -40, 't_max': 40, 'prec': 100}[v]), x])
        for v, x in s.s.items()}
    path = os.path.join(scratch, 'older.nc')
    run.write_nc(path, st, s.dims, run.coords_of(s), sd, s.calendar)
    q['state'] = path
    q['out_dir'] = os.path.join(scratch, 'older')
    b = run.run(t, scratch, params=q)
    d = run.same(whole, b, 0, 0)
    res.check(d is None, lambda: '%d older days in the state change the '
              'output: %s' % (m, d))
    res.count('older_history_changed')
    # the same weather, history and day of the year in another year of the
    # same kind
    days = s.sdays + s.days
    if rng.random() < .6:
        y = int(rng.choice([4, 8, -4, 28]))
        mv = [(a + y, b, c) for a, b, c in days]
        if all(scen.is_leap(a[0]) == scen.is_leap(b[0])
               for a, b in zip(days, mv)):
            t = s.copy()
            t.days, t.sdays = mv[90:], mv[:90]
            t.opt.pop('out_freq', None)
            b = run.run(t, os.path.join(scratch, 'moved'))
            for v in whole.var:
                w = run.differ(b.var[v], whole.var[v], 0, 0)
                res.check(w is None, lambda: '%s changes when the whole '
                          'history happens %d years later: %s' % (v, y, w))
            res.count('shifted_histories')
