import os

import numpy as np

from .. import judge, ref, run, scen
from . import c12, c17
from .common import again, sample

PROP = 'C24'
RULE = ('runs around month, year and leap-day boundaries in every calendar: '
        'the same data in all calendars, every start within 90 days of a '
        'leap day, records that end on 28 February, whole leap years, settings'
        ' that leave the calendar to the forcing; stamps, their encoding, '
        'month parameters, day-of-year geometry and history are judged; one '
        'evaluation per run, distinct by calendar, start date, length, step')
REQUIRED = ['runs', 'same_data_pairs', 'leap_day_runs', 'noleap_leap_years',
            'starts_after_leap_day', 'noleap_starts_after_leap_day',
            'ends_on_feb_28', 'undeclared_noleap', 'month_changes',
            'day366', 'stamps', 'vic_runs', 'day_lengths', 'windows',
            'first_history_day']
STD = ['standard', 'gregorian', 'proleptic_gregorian']
NOL = ['noleap', '365_day']
LEAP = [1904, 1996, 2000, 2004, 2016, 2024]
COMMON = [1900, 1950, 1999, 2001, 2013, 2100]
DAILY = ['t_min', 't_max', 'prec', 'shortwave', 'tskc', 'vapor_pressure',
         'daylength', 'pet', 'wind', 't_day']


def plan(tier):
    n = 112 if tier == 'quick' else 2000
    kinds = ['equal', 'feb', 'state', 'ending', 'declared', 'feb', 'state',
             'year', 'vic', 'window', 'equal', 'monthend']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def back(start, k, cal='standard'):
    """the date k days before"""
    return scen.day_list(start, k, cal, back=True)[0] if k else start


def case(spec, rng, scratch, res):
    note = globals()[spec['k']](spec, rng, scratch, res)
    if spec['i'] % 9 == 0 and note is not None:
        res.sample = sample(note, kind=spec['k'])


def gen(rng, **kw):
    kw.setdefault('nlat', 2)
    kw.setdefault('nlon', 2)
    kw.setdefault('nhru', 2)
    opt = dict(tdew_tol=1e-9)
    opt.update(kw.pop('opt', {}))
    s = scen.gen(rng, mask='mixed', opt=opt, **kw)
    # storms that tell the months apart
    m = np.arange(12).reshape((12,) + (1,) * len(s.shape))
    s.t_pk = np.round(60. + 110. * ((m * 5) % 12) + rng.uniform(
        0, 50, s.t_pk.shape))
    s.dur = np.round(rng.uniform(40, 110, s.dur.shape))
    s.f['prec'] = np.maximum(s.f['prec'], .5)
    return s


def judge_run(res, s, o, what):
    """times, month parameters, geometry and history of one run"""
    c12.cover(res, s, o, what)
    if len(o.tnum):
        num = o.tnum
        res.check((np.diff(num) == s.ts).all(), lambda: '%s: the encoded times'
                  ' are not one step (%d min) apart, but up to %g; calendar %s'
                  % (what, s.ts, np.diff(num).max(), o.tattrs.get(
                      'calendar')))
        cal = o.tattrs.get('calendar')
        res.check((cal in NOL) == scen.noleap(s.calendar), lambda: '%s: file '
                  'declares calendar %s for %s data' % (what, cal, s.calendar))
    res.count('runs')
    res.count('leap_day_runs', (2, 29) in [d[1:] for d in s.days])
    res.count('noleap_leap_years', scen.noleap(s.calendar) and any(
        scen.is_leap(d[0]) for d in s.days))
    ml = set(d[:2] for d in s.days)
    res.count('month_changes', len(ml) - 1)
    al = s.sdays + s.days
    leap = [d[0] for d in al[:90] if scen.is_leap(d[0]) and d[1:] <= (3, 1)]
    if leap and (leap[0], 3, 1) <= s.days[0] <= (leap[0], 5, 29):
        res.count('noleap_starts_after_leap_day' if scen.noleap(s.calendar)
                  else 'starts_after_leap_day')
    if s.ts == 1440:
        daily(res, s, o, what)
    else:
        if 'prec' in o.var and not s.opt.get('utc_offset'):
            judge.prec_shape(res, s, o)
        subdaily(res, s, o, what)
    res.unit(s.calendar, s.days[0], len(s.days), s.ts,
             bool(s.opt.get('period_ending')))


def daily(res, s, o, what):
    e = judge.eps(o)
    for c in s.cells():
        w = '%s: %s' % (what, judge.where_cell(s, c))
        dy = judge.ref_daily(s, c)
        if 'daylength' in o.var:
            judge.close(res, judge.col(o, 'daylength', c), dy['daylength'],
                        1.5, w + ' day length')
            res.count('day_lengths', len(s.days))
            res.count('day366', (s.yday == 365).sum())
        for v in ('tskc', 'shortwave', 'vapor_pressure', 'pet'):
            if v not in o.var:
                continue
            x = judge.col(o, v, c)
            # the dewpoint is known to its tolerance (1e-9 C) only
            judge.close(res, x, dy[v], 4e-6 * np.abs(dy[v]) * dy['tdew_err'] +
                        (4 * e + 3e-8) * (1 + np.abs(dy[v])), '%s %s' % (w, v))


def subdaily(res, s, o, what):
    for c in s.cells():
        _, r, tol = judge.refs(s, c)
        for v in ('temp', 'tskc', 'wind', 'shortwave', 'prec'):
            if v not in o.var:
                continue
            if s.opt.get('utc_offset') and v != 'temp':
                continue
            x = judge.col(o, v, c)
            lo = np.abs(r[v]).max()
            t = 2e-3 * lo + 1e-9 if v == 'shortwave' else 1e-6 * (1 + lo)
            judge.close(res, x, r[v], tol[v] + t, '%s: %s %s' % (
                what, judge.where_cell(s, c), v))


# ---------------------------------------------------------------- kinds
def equal(spec, rng, scratch, res):
    """the same data on dates that exist in all calendars"""
    # from the first of the 90 days of history on without a leap day
    y = int(rng.choice(LEAP + COMMON))
    nd = int(rng.choice([1, 3, 8, 30]))
    if rng.random() < .5:
        y0, d = y, dict(m=int(rng.integers(6, 11)))
        start = (y0, d['m'], int(rng.integers(1, 29)))
    else:
        # across the new year, ending in February
        y = int(rng.choice([1996, 2000, 2001, 2004, 2100, 1950]))
        start = (y - 1, 12, int(rng.integers(10, 32)))
    s = gen(rng, start=start, nd=nd,
            time_step=int(rng.choice([30, 60, 180, 360, 1440])))
    if any(d[1:] == (2, 29) for d in s.sdays + s.days + scen.day_list(
            s.days[-1], 3)):
        return None
    outs = {}
    cals = ['standard', 'noleap'] + [str(x) for x in rng.choice(
        ['gregorian', 'proleptic_gregorian', '365_day'], 1)]
    s.opt['period_ending'] = bool(s.ts < 1440 and rng.random() < .4)
    if rng.random() < .4:
        s.opt['out_freq'] = str(rng.choice(['D', 'M', 'MS', 'A']))
    if rng.random() < .3:
        s.opt['utc_offset'] = True
    for cal in cals:
        t = s.copy()
        t.calendar = cal
        outs[cal] = run.run(t, os.path.join(scratch, cal))
        judge_run(res, t, outs[cal], cal)
    a = outs['standard']
    for cal in cals[1:]:
        b = outs[cal]
        d = run.same(a, b, 0, 0)
        res.check(d is None, lambda: 'the same data from %s on, %d days: '
                  'calendars standard and %s differ: %s' % (
                      start, nd, cal, d))
        res.check(a.files == b.files, lambda: 'file names %s in calendar '
                  'standard, %s in %s' % (a.files, b.files, cal))
        res.count('same_data_pairs')
    return s


def feb(spec, rng, scratch, res):
    """records that cross the end of February"""
    cal = str(rng.choice(STD[:1] * 2 + STD[1:] + NOL))
    y = int(rng.choice(LEAP if rng.random() < .7 else COMMON))
    start = back((y, 3, 1), int(rng.integers(0, 5)), cal)
    s = gen(rng, start=start, nd=int(rng.integers(2, 8)), calendar=cal,
            time_step=int(rng.choice([15, 60, 60, 180, 360, 1440])),
            opt=dict(prec_type=str(rng.choice(['triangle', 'mix']))),
            out_vars=None)
    pe = bool(s.ts < 1440 and rng.random() < .4)
    s.opt['period_ending'] = pe
    if rng.random() < .5:
        s.opt['out_freq'] = str(rng.choice(['D', 'M', 'MS', '2D', 'W']))
    if rng.random() < .2:
        s.pad = (int(rng.integers(0, 4)), int(rng.integers(0, 4)))
    if rng.random() < .2:
        s.opt['utc_offset'] = True
    o = run.run(s, scratch)
    judge_run(res, s, o, 'February in %s' % cal)
    return s


def state(spec, rng, scratch, res):
    """every start within 90 days after the end of February"""
    cal = str(rng.choice(['standard', 'noleap', 'standard', 'noleap',
                          'gregorian', '365_day', 'proleptic_gregorian']))
    y = int(rng.choice(LEAP))
    k = int(rng.choice([1, 2, 29, 30, 31, 58, 59, 60, 88, 89, 90, 91, 92]
                       if rng.random() < .5 else range(1, 93)))
    start = scen.day_list((y, 2, 28), k + 1, cal)[-1]
    s = gen(rng, start=start, nd=int(rng.integers(1, 6)), calendar=cal,
            time_step=1440 if rng.random() < .7 else 180,
            climate=str(rng.choice(['temperate', 'desert', 'tropical'])))
    # the days at the edges of the windows decide
    s.s['prec'][0] = rng.uniform(50, 200, s.shape)
    s.s['t_max'][60] = s.s['t_min'][60] + 40.
    res.count('first_history_day')
    if rng.random() < .6:
        s.spad = int(rng.integers(1, 60))
        s.padseed = int(rng.integers(1 << 30))
    d = os.path.join(scratch, 'w')
    p = run.write_inputs(s, d)
    if rng.random() < .3:
        # the calendar of the settings is only a fallback
        p.pop('calendar')
    o = run.run(s, d, params=p)
    judge_run(res, s, o, 'start %d days after 28 February in %s' % (k, cal))
    return s


def ending(spec, rng, scratch, res):
    """records that end with February or with the year"""
    cal = str(rng.choice(NOL + STD[:1]))
    y = int(rng.choice(LEAP + COMMON[:2]))
    last = [(y, 2, 28), (y, 12, 31), (y, 2, 29)][int(rng.choice(
        [0, 1, 2], p=[.6, .15, .25]))]
    if last[2] == 29 and (scen.noleap(cal) or not scen.is_leap(y)):
        last = (y, 2, 28)
    nd = int(rng.integers(1, 6))
    s = gen(rng, start=back(last, nd - 1, cal), nd=nd, calendar=cal,
            time_step=int(rng.choice([30, 60, 180, 360])),
            opt=dict(period_ending=bool(rng.random() < .75)))
    assert s.days[-1] == last
    if rng.random() < .6:
        s.opt['out_freq'] = str(rng.choice(['D', 'M', 'MS', '2D', 'A', '12H',
                                            '6H']))
    if rng.random() < .3:
        s.pad = (0, int(rng.integers(1, 5)))
    if rng.random() < .3:
        s.opt['utc_offset'] = True
    o = run.run(s, scratch)
    judge_run(res, s, o, 'record to %04d-%02d-%02d in %s' % (last + (cal,)))
    res.count('ends_on_feb_28', last[1:] == (2, 28))
    return s


def declared(spec, rng, scratch, res):
    """the calendar of the forcing decides"""
    cal = str(rng.choice(NOL))
    y = int(rng.choice(LEAP))
    s = gen(rng, start=back((y, 3, 1), int(rng.integers(0, 4)), cal),
            nd=int(rng.integers(2, 6)), calendar=cal,
            time_step=int(rng.choice([60, 180, 1440])))
    p = run.write_inputs(s, scratch)
    a = run.run(s, scratch, params=dict(p))
    judge_run(res, s, a, 'calendar %s declared' % cal)
    q = dict(p)
    how = str(rng.choice(['omitted', 'standard', 'gregorian', 'whole']))
    if how == 'omitted':
        q.pop('calendar')
    elif how == 'whole':
        # nothing but the forcing says when
        for k in ('start', 'stop', 'calendar'):
            q.pop(k)
    else:
        q['calendar'] = how
    q['out_dir'] = os.path.join(scratch, 'out2')
    b = run.run(s, scratch, params=q)
    judge_run(res, s, b, 'calendar of %s forcing %s' % (cal, how))
    d = run.same(a, b, 0, 0)
    res.check(d is None, lambda: 'calendar of the forcing %s, settings %s: %s'
              % (cal, how, d))
    if rng.random() < .5:
        # in memory, as decoded by xarray
        import xarray as xr
        with xr.open_dataset(p['forcing']) as ds:
            q['forcing'] = ds.load()
        q['forcing_fmt'] = 'data'
        q['out_dir'] = os.path.join(scratch, 'out3')
        b = run.run(s, scratch, params=q)
        judge_run(res, s, b, '%s data in memory' % cal)
        d = run.same(a, b, 0, 0)
        res.check(d is None, lambda: '%s data in memory: %s' % (cal, d))
    res.count('undeclared_noleap')
    return s


def year(spec, rng, scratch, res):
    """whole years: every date its own geometry"""
    cal = str(rng.choice(STD + NOL))
    y = int(rng.choice(LEAP + COMMON[:3]))
    nd = int(rng.choice([364, 365, 366, 367, 400]))
    m = int(rng.choice([1, 1, 2, 3, 7, 12]))
    s = gen(rng, start=(y, m, 1), nd=nd, calendar=cal, layout='hru', nhru=2,
            time_step=1440, out_vars=DAILY)
    s.lat[:] = rng.uniform(-66, 66, 2)
    if rng.random() < .6:
        s.opt['out_freq'] = str(rng.choice(['M', 'MS', 'A', 'AS', 'Q', '10D']))
    o = run.run(s, scratch)
    judge_run(res, s, o, '%d days from %s in %s' % (nd, s.days[0], cal))
    return s


def monthend(spec, rng, scratch, res):
    """the parameters of the month, at every end of a month"""
    cal = str(rng.choice(STD + NOL))
    s = gen(rng, calendar=cal, start_kind=str(rng.choice(
        ['monthend', 'yearend', 'leapend', 'newyear'])),
        nd=int(rng.integers(3, 9)),
        time_step=int(rng.choice([15, 30, 60])),
        opt=dict(prec_type='triangle'), out_vars=['prec', 'temp'])
    if rng.random() < .4:
        s.opt['out_freq'] = str(rng.choice(['D', 'M']))
    o = run.run(s, scratch)
    judge_run(res, s, o, 'end of month in %s' % cal)
    return s


def vic(spec, rng, scratch, res):
    """text and binary records have one line per day of the calendar"""
    cal = str(rng.choice(['noleap', 'noleap', '365_day', 'standard']))
    y = int(rng.choice(LEAP))
    s = gen(rng, layout='grid', start=back((y, 3, 1), int(rng.integers(
        0, 4)), cal), nd=int(rng.integers(2, 7)), calendar=cal,
        time_step=int(rng.choice([60, 180, 1440])),
        opt=dict(prec_type='triangle'))
    for d in (s.f, s.s):
        for v in d:
            d[v] = np.round(d[v], 2)
        d['t_max'] = np.maximum(d['t_max'], d['t_min'])
    p = run.write_inputs(s, os.path.join(scratch, 'in'))
    a = again(s, scratch, 'ref', p)
    fmt = str(rng.choice(['ascii', 'binary']))
    q, note, _ = getattr(c17, fmt)(rng, scratch, res, s, dict(p), 0)
    if q['forcing_fmt'] == 'netcdf':
        fmt = 'netcdf'
    q['calendar'] = cal
    q['out_dir'] = os.path.join(scratch, 'o')
    b = run.run(s, scratch, params=q)
    judge_run(res, s, b, '%s files in %s' % (fmt, cal))
    d = run.same(a, b, 1e-7, 1e-7)
    res.check(d is None, lambda: '%s files in %s: %s' % (fmt, cal, d))
    res.count('vic_runs')
    return s


def window(spec, rng, scratch, res):
    """a run of some of the days of the forcing, given in any form"""
    cal = str(rng.choice(STD + NOL))
    y = int(rng.choice(LEAP))
    edge = str(rng.choice(['first', 'last', 'inside']))
    leap = (y, 2, 28) if scen.noleap(cal) else (y, 2, 29)
    nd = int(rng.integers(1, 5))
    start = {'first': leap, 'last': back(leap, nd - 1, cal),
             'inside': back(leap, 1, cal)}[edge]
    s = gen(rng, start=start, nd=nd, calendar=cal,
            time_step=int(rng.choice([60, 180, 1440])))
    s.pad = tuple(int(x) for x in rng.integers(0, 6, 2))
    s.padseed = int(rng.integers(1 << 30))
    s.spad = int(rng.integers(0, 40))
    p = run.write_inputs(s, scratch)
    form = str(rng.choice(['%Y/%m/%d', '%Y-%m-%d', '', 'pandas']))
    for k in ('start', 'stop'):
        if form == 'pandas':
            import pandas as pd
            p[k] = pd.Timestamp(p[k])
        elif form:
            p[k] = p[k].strftime(form)
    o = run.run(s, scratch, params=p)
    judge_run(res, s, o, 'window %s around the leap day in %s, dates as %r' % (
        edge, cal, form))
    res.count('windows')
    return s
