import copy
import os

import numpy as np

from .. import run, scen
from .common import sample

PROP = 'C21'
RULE = ('pairs of runs whose inputs differ in one variable on one day of one '
        'cell (forcing or state), or in the length of the record; one '
        'evaluation per pair, distinct by variable, day, method, time step')
REQUIRED = ['pairs', 'prec_pairs', 'wind_pairs', 't_min_pairs', 't_max_pairs',
            'state_pairs', 'longer_pairs', 'first_days', 'last_days',
            'past_the_month', 'past_the_season', 'other_cells', 'seen_effects',
            'leap_days', 'passthrough_pairs', 'around_freezing']
ASSUMPTIONS = ['knots of temperature lie one time step early, so the day '
               'before may begin one time step early, too',
               'where only the joint iteration of all days can reach, values '
               'are compared to the dewpoint tolerance (1e-9 C)']

TOL = 2e-6
ONLY = {'prec': {'prec'}, 'wind': {'wind'}}


def plan(tier):
    n = 72 if tier == 'quick' else 1200
    return [dict(i=i) for i in range(n)]


def build(rng, long):
    if long:
        nd, ts = int(rng.integers(95, 125)), int(rng.choice([180, 360, 1440]))
    else:
        nd = int(rng.integers(1, 60) if rng.random() < .4 else
                 rng.integers(2, 12))
        ts = int(rng.choice([15, 30, 60, 120, 180, 240, 360, 1440] if nd < 12
                            else [60, 180, 360, 1440]))
    s = scen.gen(rng, mask='mixed', nd=nd, time_step=ts, nlat=2, nlon=2,
                 nhru=3, calendar=str(rng.choice(['standard'] * 4 +
                                                 ['noleap'])),
                 start_kind='leapfeb' if rng.random() < .25 else None)
    s.opt['tdew_tol'] = 1e-9
    if rng.random() < .2 and ts < 1440:
        s.opt['period_ending'] = True
    if rng.random() < .2:
        s.opt['method'] = 'passthrough'
        s.f['shortwave'] = rng.uniform(5, 300, s.f['prec'].shape)
    return s


def case(spec, rng, scratch, res):
    i = spec['i']
    s = build(rng, i % 6 == 0)
    n = len(s.days)
    if i % 3 == 2:
        # rain and its windows: warm enough for both branches of 'mix'
        s.opt['prec_type'] = ['triangle', 'mix', 'mix', 'uniform'][
            (i // 3) % 4]
        if s.opt['prec_type'] == 'mix':
            # rain on most days, minima on either side of the freezing point
            x = s.f
            dtr = x['t_max'] - x['t_min']
            x['t_min'] = rng.choice([-.7, -.1, .1, .3, .8], dtr.shape) + \
                rng.uniform(0, .09, dtr.shape)
            x['t_max'] = x['t_min'] + dtr
            x['prec'] = np.where(rng.random(dtr.shape) < .8,
                                 rng.uniform(.5, 20, dtr.shape), 0.)
            res.count('around_freezing')
    a = run.run(s, os.path.join(scratch, 'a'))
    k = 3 if i % 6 == 0 else 5
    for j in range(k):
        pair(rng, scratch, res, s, a, i % 6 == 0, j)
    if s.ts < 1440 or n > 1:
        longer(rng, scratch, res, s, a)
    if i % 10 == 0:
        res.sample = sample(s)


def disturb(rng, t, v, d, c, where):
    x = where[v]
    q = (d,) + c
    if v == 'prec':
        x[q] = float(rng.choice([0., 1e-3, 2., 40., 500.])) if \
            rng.random() < .5 else x[q] + float(rng.uniform(.1, 20))
    elif v == 't_min':
        hi = where['t_max'][q]
        x[q] = hi - float(rng.choice([0., .5, 3., 20.]))
        if abs(float(x[q])) < 40 and rng.random() < .3 and hi > .1:
            x[q] = float(rng.choice([-1., -.01, 0., .01]))
    elif v == 't_max':
        lo = where['t_min'][q]
        x[q] = lo + float(rng.choice([0., .5, 3., 20.]))
    else:
        x[q] = x[q] + float(rng.uniform(.5, 20))


def pair(rng, scratch, res, s, a, long, j):
    n = len(s.days)
    t = s.copy()
    act = s.cells()
    c = act[int(rng.integers(len(act)))]
    state = rng.random() < .2
    if state:
        v = str(rng.choice(['t_min', 't_max', 'prec']))
        d = int(rng.choice([0, 89, 88, 60, 61, rng.integers(90)]))
        before = t.s[v][(d,) + c]
        disturb(rng, t, v, d, c, t.s)
        same = t.s[v][(d,) + c] == before
        d -= 90
    else:
        v = str(rng.choice([x for x in s.f]))
        d = int(rng.choice([0, n - 1, rng.integers(n), rng.integers(n)]))
        if j < 2 and s.opt['prec_type'] == 'mix':
            v = 't_min'
            d = int(rng.integers(max(n - 1, 1)))
        if long:
            d = int(rng.integers(0, 10)) if rng.random() < .7 else d
        before = t.f[v][(d,) + c]
        disturb(rng, t, v, d, c, t.f)
        if j < 2 and s.opt['prec_type'] == 'mix' and \
                abs(before) < 1 < t.f['t_max'][(d,) + c]:
            # to the other side of the freezing point
            t.f[v][(d,) + c] = -.4 if before >= 0 else .4
        same = t.f[v][(d,) + c] == before
    if same:
        return
    b = run.run(t, os.path.join(scratch, 'b%d' % j))
    if not res.check(a.stamps == b.stamps, 'other times'):
        return
    judge(res, s, a, b, c, v, d, state)
    res.count('pairs')
    res.count('state_pairs' if state else v + '_pairs')
    if s.opt['method'] == 'passthrough':
        res.count('passthrough_pairs')
    if d == 0:
        res.count('first_days')
    if d == n - 1:
        res.count('last_days')
    if not state and s.days[d][1:] in ((2, 29), (3, 1)):
        res.count('leap_days')
    res.unit(v, state, s.ts, s.opt['prec_type'], s.opt['method'],
             min(d, 3), n - 1 - d < 2, s.days[d][1:] if d >= 0 else d)


def judge(res, s, a, b, c, v, d, state):
    n = len(s.days)
    per = 1440 // s.ts
    what = '%s of the %s on day %d of %d in cell %s' % (
        v, 'state' if state else 'forcing', d, n, c)
    for k in a.var:
        x, y = a.var[k], b.var[k]
        other = np.ones(x.shape[1:], bool)
        other[c] = False
        w = run.differ(x[:, other], y[:, other], 0, 0)
        res.check(w is None, lambda: '%s changes %s in another cell: %s' % (
            what, k, w))
        if other.any():
            res.count('other_cells')
        x, y = x[(slice(None),) + c], y[(slice(None),) + c]
        if np.array_equal(x, y, equal_nan=True):
            continue
        res.count('seen_effects')
        lo, hi, exact = window(s, k, v, d, n, per, state)
        for p, q in ((0, lo), (hi, n * per)):
            p, q = max(p, 0), min(q, n * per)
            if q <= p:
                continue
            if exact:
                w = run.differ(y[p:q], x[p:q], 0, 0)
            else:
                w = run.differ(y[p:q], x[p:q], TOL, TOL)
            res.check(w is None, lambda: '%s changes %s %s: %s' % (
                what, k, 'before its neighbourhood (%d..%d steps)' % (lo, hi)
                if p == 0 else 'after step %d' % p, w))
            if p and not exact:
                res.count('past_the_month' if v != 'prec'
                          else 'past_the_season')


def window(s, k, v, d, n, per, state):
    """first and last step (of the run) that day d's v may touch in k, and
    whether nothing outside may change at all"""
    none = (n * per, n * per, True)
    day = s.ts == 1440
    temps = ('t_min', 't_max')
    own = (d * per, (d + 1) * per, True)
    if k == 'daylength':
        return none
    if k == 'wind':
        return own if v == 'wind' else none
    if v == 'wind':
        return none
    if k in temps or k == 't_day':
        return own if k == v or (k == 't_day' and v in temps) else none
    if k == 'prec':
        if v == 'prec':
            return own
        # the minimum temperature selects the method of 'mix'
        if v == 't_min' and s.opt['prec_type'] == 'mix' and not day:
            return own
        return none
    if k in ('temp', 'air_pressure'):
        if v not in temps:
            return none
        if state and d != -1:
            return none
        return ((d - 1) * per - 1, (d + 3) * per, True)
    if k == 'tskc':
        # the day's own range and rain, and the 30-day mean of the range
        if v not in temps + ('prec',):
            return none
        if v == 'prec':
            return own if not state else none
        return (d * per, (d + 30) * per, False)
    # vapor pressure, radiation and what follows from them
    m = 90 if v == 'prec' else 30
    lo = d * per if day else (d - 1) * per - 1
    return (lo, (d + m + (0 if day else 1)) * per, False)


def longer(rng, scratch, res, s, a):
    """more days at the end"""
    n = len(s.days)
    m = int(rng.choice([1, 2, 5, 40]))
    t = s.copy()
    t.days = s.days + scen.day_list(s.days[-1], m + 1, s.calendar)[1:]
    ser = scen.series(rng, s.climate, m, s.shape)
    t.f = {v: np.concatenate([x, ser[v] if v in ser else
                              rng.uniform(5, 300, (m,) + s.shape)])
           for v, x in s.f.items()}
    b = run.run(t, os.path.join(scratch, 'l'))
    per = 1440 // s.ts
    for k in a.var:
        x, y = a.var[k], b.var[k][:n * per]
        if s.ts == 1440 or k in ('prec', 'wind', 'tskc', 'shortwave'):
            q = n * per
        else:
            q = max(n - 2, 0) * per
        exact = k in ('prec', 'wind', 't_min', 't_max', 'daylength', 't_day',
                      'temp', 'air_pressure')
        w = run.differ(y[:q], x[:q], 0 if exact else TOL, 0 if exact else TOL)
        res.check(w is None, lambda: '%d more days change %s before the last '
                  'two of %d days: %s' % (m, k, n, w))
    res.check(b.stamps[:n * per] == a.stamps, 'more days change the times')
    res.count('longer_pairs')
    res.unit('longer', m, s.ts, min(n, 5))
