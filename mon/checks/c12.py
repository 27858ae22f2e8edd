import os

import numpy as np

from .. import judge, run, scen
from .common import sample, same_attrs, supply

PROP = 'C12'
RULE = ('random runs written once unsplit and then split by random '
        'frequencies (minutes of hours to years), period-beginning and '
        '-ending, in all calendars and time steps; the joined files are '
        'compared stamp by stamp with the expected axis and bit by bit with '
        'the unsplit output; one evaluation per run, distinct by frequency, '
        'step, convention, calendar, start month and length')
REQUIRED = ['files', 'stamps', 'split_runs', 'period_ending_runs',
            'one_day_runs', 'crosses_year', 'daily_runs',
            'passthrough_runs', 'reopened']
FREQS = ['D', '2D', '3D', '7D', 'W', 'M', 'MS', '2M', 'Q', 'QS', 'A', 'AS',
         'Y', 'H', '2H', '6H', '12H', '36H', '90T', 'SM', 'W-MON', '10D']


def plan(tier):
    n = 110 if tier == 'quick' else 1900
    kinds = ['sub', 'sub', 'daily', 'noleap', 'boundary', 'one', 'long']
    return [dict(i=i, k=kinds[i % len(kinds)]) for i in range(n)]


def case(spec, rng, scratch, res):
    k = spec['k']
    kw = dict(mask='mixed', nlat=2, nlon=2)
    if k == 'daily':
        kw['time_step'] = 1440
        kw['nd'] = int(rng.choice([2, 9, 40]))
    if k == 'noleap':
        kw['calendar'] = str(rng.choice(['noleap', '365_day']))
        kw['start_kind'] = str(rng.choice(['leapfeb', 'feb', 'any']))
        if rng.random() < .3:     # ends where a leap day could follow
            n = int(rng.integers(1, 6))
            kw.update(nd=n, start=scen.day_list((int(rng.choice(
                [2000, 2004, 2013])), 3, 1), n, 'noleap', back=True)[0])
    elif rng.random() < .3:
        kw['calendar'] = str(rng.choice(['gregorian', 'proleptic_gregorian']))
    if k == 'boundary':
        kw['start_kind'] = str(rng.choice(['leapfeb', 'yearend', 'leapend',
                                           'monthend', 'newyear']))
    if k == 'one':
        kw['nd'] = 1
    if k == 'long':
        kw.update(nd=int(rng.choice([33, 70, 366])), nlat=1, nlon=1,
                  time_step=int(rng.choice([60, 180, 360])))
    if k in ('sub', 'one') and rng.random() < .3:
        kw['time_step'] = int(rng.choice(scen.STEPS[:10]))
    opt = {}
    if rng.random() < .25:
        opt['utc_offset'] = True
    if rng.random() < .3:
        opt['out_precision'] = 'f4'
    s = scen.gen(rng, opt=opt, **kw)
    supply(rng, s, res)
    if rng.random() < .4:
        s.pad = tuple(int(x) for x in rng.integers(0, 4, 2))
    names = list(s.opt['out_vars'])
    rng.shuffle(names)
    s.opt['out_vars'] = {v: dict(out_name=v) for v in
                         names[:int(rng.integers(1, len(names) + 1))]}
    p = run.write_inputs(s, scratch)
    base = run.run(s, scratch, params=p)
    cover(res, s, base, 'unsplit')
    res.check(len(base.files) == 1, 'unsplit output is in %s' % base.files)
    todo = [(str(rng.choice(FREQS)), bool(rng.random() < .4))
            for _ in range(2)]
    if rng.random() < .3:
        todo.append(('', True))
    for n, (freq, ending) in enumerate(todo):
        if freq in ('H', '90T', '2H') and len(s.days) > 3:
            freq = '12H'
        if freq in ('D',) and len(s.days) > 40:
            freq = 'W'
        q = dict(p, out_freq=freq, period_ending=ending,
                 out_dir=os.path.join(scratch, 'o%d' % n))
        ms = run.simulate(q, keep=True)
        o = run.Out(q['out_dir'])
        t = s.copy()
        t.opt['period_ending'] = ending
        what = 'out_freq %r%s' % (freq, ' period-ending' if ending else '')
        cover(res, t, o, what)
        if o.var and set(o.var) == set(base.var) and \
                len(o.tnum) == len(base.tnum):
            for v in base.var:
                res.check(np.array_equal(o.var[v], base.var[v],
                                         equal_nan=True), lambda: '%s: %s '
                          'differs from the unsplit output: %s' % (
                              what, v, run.differ(o.var[v], base.var[v])))
                res.check(same_attrs(o.vattrs[v], base.vattrs[v]),
                          what + ': attributes of %s differ' % v)
        else:
            res.viol('%s: variables or length differ from the unsplit output'
                     % what)
        if n == 0:
            reopen(res, ms, o, what)
        if freq:
            res.count('split_runs')
            if freq in ('D', 'M', 'MS', 'A', 'AS', 'H', '12H', '2D'):
                want = groups(t, freq)
                got = [len(x) for x in o.file_times]
                res.check(got == want, lambda: '%s: files hold %s steps, '
                          'expected %s' % (what, got[:8], want[:8]))
        if ending:
            res.count('period_ending_runs')
        res.unit(freq, s.ts, ending, s.calendar, s.days[0][1], len(s.days))
    res.count('one_day_runs', len(s.days) == 1)
    res.count('crosses_year', s.days[0][0] != s.days[-1][0])
    res.count('daily_runs', s.ts == 1440)
    if spec['i'] % 9 == 0:
        res.sample = sample(s, freqs=todo, files=o.files[:5])


def reopen(res, ms, o, what):
    """the output as the simulation object gives it"""
    try:
        ds = ms.open_output().load()
    except Exception as e:     # noqa
        res.viol('%s: the output can not be opened: %s' % (what, e))
        return
    same = sorted(ds.data_vars) == sorted(o.var) and all(
        np.array_equal(ds[v].values, o.var[v].astype(ds[v].dtype),
                       equal_nan=True) for v in o.var)
    stamps = [tuple(int(x) for x in (t.year, t.month, t.day, t.hour, t.minute,
                                     t.second)) for t in ds.indexes['time']]
    ds.close()
    res.check(same and stamps == o.stamps, what + ': open_output gives other '
              'values or times than the files hold')
    res.count('reopened')


def groups(s, freq):
    """number of steps per file, from the expected stamps alone"""
    st = run.expected_stamps(s)
    if freq == '2D':
        base = scen.dt.date(*st[0][:3]).toordinal()
        if scen.noleap(s.calendar):
            return [len(x) for x in chunk2(st, s)]
        key = [(scen.dt.date(*x[:3]).toordinal() - base) // 2 for x in st]
    else:
        key = [{'D': x[:3], 'M': x[:2], 'MS': x[:2], 'A': x[:1], 'AS': x[:1],
                'H': x[:4], '12H': x[:3] + (x[3] // 12,)}[freq] for x in st]
    r, last = [], None
    for q in key:
        if q != last:
            r.append(0)
            last = q
        r[-1] += 1
    return r


def chunk2(st, s):
    """two-day groups counted on the standard calendar, empty ones left out"""
    base = scen.dt.date(*st[0][:3]).toordinal()
    d = {}
    for x in st:
        d.setdefault((scen.dt.date(*x[:3]).toordinal() - base) // 2,
                     []).append(x)
    return [d[k] for k in sorted(d)]


def cover(res, s, o, what):
    want = run.expected_stamps(s)
    got = o.stamps if len(o.tnum) else []
    res.count('files', len(o.files))
    res.count('stamps', len(got))

    def msg():
        g, w = set(got), set(want)
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        return ('%s: %d stamps instead of %d (%d missing, %d unexpected, %d '
                'repeated), first difference at %d: %s instead of %s; files %s'
                % (what, len(got), len(want), len(w - g), len(g - w),
                   len(got) - len(g), i, got[i:i + 1], want[i:i + 1],
                   o.files[:4]))
    if not res.check(got == want, msg):
        return
    for t in o.file_times:
        res.check(len(t) > 0 and (np.diff(t) > 0).all(),
                  what + ': a file is empty or out of order')
    for v in s.opt['out_vars']:
        if not res.check(v in o.var, what + ': %s missing' % v):
            continue
        for c in np.ndindex(*s.shape):
            x = judge.col(o, v, c)
            if np.isfinite(s.mask[c]) and s.mask[c] > 0:
                res.check(np.isfinite(x).all(), lambda: '%s: %s of %s has no '
                          'value at %s' % (what, v, judge.where_cell(s, c),
                                           got[int(np.isnan(x).argmax())]))
