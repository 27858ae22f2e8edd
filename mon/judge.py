"""Oracles over the output files of one run, one function per property.  Each
takes (res, s, out): the scenario and what the run wrote."""
import numpy as np

from . import ref, run


def eps(out):
    """relative tolerance of the output precision"""
    return 4e-7 if any(v == 'float32' for v in out.dtype.values()) else 1e-9


def col(out, name, c):
    return out.var[name][(slice(None),) + c]


def need(res, s, out, names):
    """the output covers the run; without it nothing else can be judged"""
    for n in names:
        if not res.check(n in out.var, lambda: '%s is missing from the output'
                         ' (has %s)' % (n, sorted(out.var))):
            return False
        nt = len(s.days) * (1440 // s.ts)
        if not res.check(out.var[n].shape == (nt,) + s.shape, lambda: '%s has '
                         'shape %s, expected %s' % (n, out.var[n].shape,
                                                    (nt,) + s.shape)):
            return False
    return True


def close(res, got, want, tol, what, where=None):
    """|got - want| <= tol wherever where holds; NaN never passes"""
    bad = ~(np.abs(got - want) <= tol)
    if where is not None:
        bad &= where
    res.count('values_compared', bad.size if where is None else where.sum())

    def msg():
        i = int(np.argmax(bad))
        w = want if np.ndim(want) == 0 else want[i]
        return '%s: %d of %d wrong, first at step %d: %.9g instead of %.9g' % (
            what, bad.sum(), bad.size, i, got[i], w)
    return res.check(not bad.any(), msg)


def ref_daily(s, c):
    f, st = s.cell(c)
    return ref.daily(f, st, s.elev[c], s.cell_lat(c), s.yday, s.opt)


def refs(s, c, dy=None):
    """reference daily and sub-daily series of one cell, with tolerances"""
    f, st = s.cell(c)
    dy = dy or ref_daily(s, c)
    r, tol = ref.subdaily_tol(
        dy, f, st, s.elev[c], s.cell_lat(c), s.cell_lon(c), s.yday, s.months,
        s.opt, s.ts, s.t_pk[(slice(None),) + c], s.dur[(slice(None),) + c])
    return dy, r, tol


def shifts(s, c, per_day):
    """the shift (in units of 1/per_day day) a UTC run applies: the exact one
    rounded either way"""
    x = ref.wrap_lon(s.cell_lon(c)) / 360.0 * per_day
    return sorted({int(np.floor(x)), int(np.ceil(x))})


def where_cell(s, c):
    return 'cell %s (lat %.4f lon %.4f)' % (c, s.cell_lat(c), s.cell_lon(c))


# ---------------------------------------------------------------- C01

def prec_totals(res, s, out, name='prec'):
    if not need(res, s, out, [name]):
        return
    e = eps(out)
    n = 1440 // s.ts
    utc = s.opt.get('utc_offset')
    for c in s.cells():
        x = col(out, name, c)
        p = s.cell(c)[0]['prec']
        w = where_cell(s, c)
        res.check(np.isfinite(x).all(), w + ': precipitation not finite')
        res.check((x >= 0).all(), lambda: '%s: negative precipitation %.6g' % (
            w, x.min()))
        res.count('day_totals', len(p))
        if not utc:
            tot = x.reshape(-1, n).sum(axis=1)
            close(res, tot, p, e * p * 4 + 1e-13, w + ' daily totals')
            res.check(not (x.reshape(-1, n)[p == 0] != 0).any(),
                      w + ': precipitation on a dry day')
        else:
            res.check(abs(x.sum() - p.sum()) <= 10 * e * p.sum() + 1e-13,
                      lambda: '%s: %.9g mm written, %.9g mm given' % (
                          w, x.sum(), p.sum()))
        wet = p > 0
        res.unit(s.opt['prec_type'], s.ts, bool(utc), tuple(sorted(set(
            s.months[wet].tolist()))), s.climate, len(p),
            nontrivial=bool(wet.any()))


def prec_shifted(res, s, out, name='prec'):
    """UTC: what has fallen by any moment is what had fallen at the local time"""
    e = eps(out)
    for c in s.cells():
        f, _ = s.cell(c)
        m = ref.minute_prec(f['prec'], f['t_min'], s.months,
                            s.opt['prec_type'].lower(),
                            s.t_pk[(slice(None),) + c],
                            s.dur[(slice(None),) + c])
        x = col(out, name, c)
        ok = False
        for sh in shifts(s, c, 1440):
            want = np.roll(m, -sh).reshape(len(x), s.ts).sum(axis=1)
            ok = ok or bool((np.abs(x - want) <= 10 * e * max(
                f['prec'].max(), 1e-6) + 1e-12).all())
        res.check(ok, where_cell(s, c) + ': UTC precipitation is not the local'
                  ' precipitation shifted by the longitude')
        res.count('utc_series')


# ---------------------------------------------------------------- C02

def prec_shape(res, s, out, name='prec'):
    if not need(res, s, out, [name]):
        return
    e = eps(out)
    n = 1440 // s.ts
    kind = s.opt['prec_type'].lower()
    for c in s.cells():
        f, _ = s.cell(c)
        pk, du = s.t_pk[(slice(None),) + c], s.dur[(slice(None),) + c]
        p = f['prec']
        want = ref.minute_prec(p, f['t_min'], s.months, kind, pk, du)
        want = want.reshape(len(p), n, s.ts).sum(axis=2)
        x = col(out, name, c).reshape(len(p), n)
        for d in range(len(p)):
            if p[d] <= 0:
                continue
            tri = kind == 'triangle' or (kind == 'mix' and f['t_min'][d] >= 0)
            m = s.months[d] - 1
            wh = '%s day %s (%s, t_min %.2f, peak %.1f, duration %.1f)' % (
                where_cell(s, c), s.days[d], 'triangle' if tri else 'uniform',
                f['t_min'][d], pk[m], du[m])
            y = x[d] / p[d]
            if not tri:
                close(res, y, 1. / n, 4 * e, wh + ' share of each step')
            else:
                a, b = pk[m] - du[m] / 2, pk[m] + du[m] / 2
                t0 = np.arange(n) * s.ts
                out_ = (t0 + s.ts - 1 < a - 1) | (t0 > b + 1)
                res.check(not (y[out_] > 0).any(),
                          wh + ': rain outside the storm')
                up = y[t0 + s.ts - 1 <= pk[m]]
                dn = y[t0 >= pk[m]]
                if du[m] > 4:
                    res.check((np.diff(up) >= -1e-6).all(),
                              wh + ': does not rise to the peak')
                    res.check((np.diff(dn) <= 1e-6).all(),
                              wh + ': does not fall after the peak')
                if a >= 1 and b <= 1438 and du[m] > 30:
                    cent = (y * (t0 + (s.ts - 1) / 2.)).sum()
                    res.check(abs(cent - pk[m]) <= 1.5 + s.ts / 2.,
                              wh + ': centred at minute %.1f' % cent)
                close(res, y, want[d] / p[d], 1e-6 + 4 * e, wh + ' shape')
            res.count('wet_days_' + ('triangle' if tri else 'uniform'))
            res.unit(kind, tri, m, s.ts, int(du[m] // 60), int(pk[m] // 120))


# ---------------------------------------------------------------- C03

def sw_energy(res, s, out, daily):
    """daily: array (days, cells...) of daily-mean shortwave from a daily run"""
    if not need(res, s, out, ['shortwave']):
        return
    e = eps(out)
    n = 1440 // s.ts
    for c in s.cells():
        x = col(out, 'shortwave', c).reshape(-1, n)
        d = daily[(slice(None),) + c]
        w = where_cell(s, c)
        g = ref.geometry(s.cell_lat(c), float(s.elev[c]),
                         float(s.opt.get('lapse_rate', 0.0065)))
        polar = g['dl'][s.yday] > 86300
        res.check(np.isfinite(x).all(), w + ': shortwave not finite')
        res.check((x >= 0).all(), w + ': negative shortwave')
        # in polar day the 30 s bins overlap by one of 2880
        tol = np.where(polar, 1e-3, 5e-8 + 4 * e) * np.abs(d) + 1e-9
        close(res, x.mean(axis=1), d, tol, w + ' daily mean shortwave')
        fr = g['frac'][s.yday].reshape(len(d), n, -1).sum(axis=2) * n
        sc = np.maximum(d, 1e-9)
        for k in range(len(d)):
            res.count('days')
            y = x[k]
            close(res, y, d[k] * fr[k], (2e-3 if polar[k] else 1e-6 + 4 * e) *
                  max(x[k].max(), 1e-9) + 1e-9,
                  '%s day %s shortwave through the day' % (w, s.days[k]))
            # geometry from the sun alone
            h = g['hss'][s.yday[k]]
            noon = 720.0
            half = h * ref.SPR / 60.0
            t0 = np.arange(n) * float(s.ts)
            dark = (t0 + s.ts <= noon - half - 1) | (t0 >= noon + half + 1)
            res.check(not (y[dark] > 0).any(),
                      '%s day %s: radiation in the dark' % (w, s.days[k]))
            res.count('dark_steps', dark.sum())
            if d[k] > 0 and half > 30:
                m = (np.arange(1440 * 4) + .5) / 4.
                cz = np.maximum(g['cc'][s.yday[k]] * np.cos(
                    (m - 720) * 60. / ref.SPR) + g['ss'][s.yday[k]], 0)
                a = cz.reshape(n, -1).mean(axis=1)
                a = a / a.mean()
                close(res, y / sc[k], a, .006 * a.max() + 8. / half *
                      a.max() * (s.ts < 5) + 3. / half, '%s day %s sun-shaped'
                      % (w, s.days[k]))
                res.check(np.abs(y - y[::-1]).max() <= (
                    .02 + 1.5 / half + .6 / s.ts) * y.max(),
                    '%s day %s: not symmetric about noon' % (w, s.days[k]))
            res.unit(s.ts, int(s.cell_lat(c) // 5), int(s.yday[k] // 10),
                     nontrivial=d[k] > 0 or g['dl'][s.yday[k]] == 0)


# ---------------------------------------------------------------- C05

def temp_curve(res, s, out):
    if not need(res, s, out, ['temp']):
        return
    e = eps(out)
    for c in s.cells():
        x = col(out, 'temp', c)
        f, st = s.cell(c)
        w = where_cell(s, c)
        res.check(np.isfinite(x).all(), w + ': temperature not finite')
        utc = s.opt.get('utc_offset')
        dy = dict(vapor_pressure=np.ones(len(f['t_min'])),
                  shortwave=np.zeros(len(f['t_min'])),
                  tskc=np.zeros(len(f['t_min'])))
        _, r, tol = refs(s, c, dy)
        scale = 4 * e * (np.abs(x) + 1) + 1e-7
        close(res, x, r['temp'], tol['temp'] + scale, w + ' temperature')
        k, v = r['_k'], r['_v']
        t = s.ts * np.arange(len(x), dtype=float)
        # bounds from the extremes of the day and its neighbours
        ext_lo = np.concatenate([[st['t_min'][-1]], f['t_min'],
                                 [f['t_min'][-1]]])
        ext_hi = np.concatenate([[st['t_max'][-1]], f['t_max'],
                                 [f['t_max'][-1]]])
        d = np.arange(len(x)) * s.ts // 1440 + 1
        lo = np.minimum(np.minimum(ext_lo[d - 1], ext_lo[d]), ext_lo[
            np.minimum(d + 1, len(ext_lo) - 1)])
        hi = np.maximum(np.maximum(ext_hi[d - 1], ext_hi[d]), ext_hi[
            np.minimum(d + 1, len(ext_hi) - 1)])
        res.check((x >= lo - scale).all() and (x <= hi + scale).all(),
                  w + ': temperature outside the extremes of adjacent days')
        # between two knots: within them and monotone
        if utc and not float(ref.wrap_lon(s.cell_lon(c)) * 4).is_integer():
            slack = 2.5
        else:
            slack = 1.5
        for a, b, p, q in zip(k, k[1:], v, v[1:]):
            i = (t >= a + slack) & (t <= b - slack)
            if not i.any():
                continue
            y = x[i]
            res.check((y >= min(p, q) - scale[i]).all() and
                      (y <= max(p, q) + scale[i]).all(),
                      lambda: '%s: between %.3f and %.3f the temperature '
                      'reaches %.4f..%.4f' % (w, p, q, y.min(), y.max()))
            dd = np.diff(y)
            res.check((dd >= -scale[i][1:]).all() if q >= p else
                      (dd <= scale[i][1:]).all(),
                      w + ': not monotone between successive extremes')
            res.count('intervals')
        # the extremes themselves, where a step falls on them
        res.count('knots', len(k) - 4)
        lc = int(s.cell_lat(c) // 10)
        for m in sorted(set(s.months.tolist())):
            res.unit(s.ts, lc, m, s.climate, bool(utc))


# ---------------------------------------------------------------- C06

def humidity(res, s, out, full=True):
    names = ['temp', 'vapor_pressure', 'rel_humid', 'spec_humid',
             'air_pressure']
    if not need(res, s, out, names):
        return
    e = eps(out)
    lr = float(s.opt.get('lapse_rate', 0.0065))
    declared = {k: out.units.get(k) for k in names}
    res.check(declared['vapor_pressure'] == 'Pa' and
              declared['air_pressure'] == 'kPa' and
              declared['rel_humid'] == '%' and declared['temp'] == 'C',
              'declared units %s' % declared)
    for c in s.cells():
        w = where_cell(s, c)
        t, vp, rh, q, pr = [col(out, n, c) for n in names]
        if not res.check(all(np.isfinite(v).all() for v in (t, vp, rh, q, pr)),
                         w + ': humidity or pressure not finite'):
            continue
        dy, r, tol = refs(s, c)
        sat = ref.svp(t)
        # the unit the values are in
        ratio = float(np.median(vp / r['vapor_pressure']))
        if abs(ratio * 1000 - 1) < .2:
            res.found('vp-kpa', 'sub-daily vapor_pressure declared Pa, values '
                      'are a thousandth of it')
            vp = vp * 1000
        res.check((vp > 0).all(), w + ': vapor pressure not positive')
        res.check((vp <= sat * (1 + 10 * e)).all(),
                  lambda: '%s: vapor pressure above saturation by a factor '
                  '%.9g at step %d' % (w, (vp / sat).max(), np.argmax(vp / sat)))
        rel = 10 * e
        if full:
            close(res, vp, r['vapor_pressure'], tol['vapor_pressure'] +
                  rel * r['vapor_pressure'] + vp_slack(s, dy, r),
                  w + ' vapor pressure')
        res.check(((rh >= 0) & (rh <= 100)).all(), w + ': relative humidity '
                  'outside 0..100')
        close(res, rh, np.minimum(100 * vp / sat, 100), 100 * rel,
              w + ' relative humidity')
        res.check(((q >= 0) & (q <= 1)).all(), w + ': specific humidity '
                  'outside 0..1')
        close(res, pr, ref.air_pressure(t, s.elev[c], lr), rel * 200,
              w + ' air pressure')
        close(res, q, ref.spec_humid(vp / 1000, pr), rel * np.abs(q) + 1e-12,
              w + ' specific humidity')
        sat_lim = r['vapor_pressure'] < r['_vp_lin']
        res.count('steps', len(t))
        res.count('saturated_steps', sat_lim.sum())
        res.count('interpolated_steps', (~sat_lim).sum())
        res.unit(s.ts, s.climate, int(s.elev[c] // 500), int(s.cell_lat(c) //
                 20), bool(sat_lim.any()), len(s.days),
                 bool(s.opt.get('utc_offset')))


def vp_slack(s, dy, r):
    """the dewpoint is known to the configured tolerance only (about 8 % of
    vapour pressure per degree)"""
    return .1 * 3 * float(s.opt.get('tdew_tol', 1e-6)) * r['vapor_pressure']


# ---------------------------------------------------------------- C07

def longwave(res, s, out):
    names = ['temp', 'vapor_pressure', 'tskc', 'longwave']
    if not need(res, s, out, names):
        return
    e = eps(out)
    ty, cl = s.opt['lw_type'], s.opt['lw_cloud']
    for c in s.cells():
        w = '%s %s/%s' % (where_cell(s, c), ty, cl)
        t, vp, sk, lw = [col(out, n, c) for n in names]
        dy = ref_daily(s, c)
        if np.median(vp) < dy['vapor_pressure'].max() / 50.:
            vp = vp * 1000        # written in kPa; see C06
        want = ref.longwave(t, vp, sk, ty, cl)
        res.check((lw > 0).all(), w + ': longwave not positive')
        close(res, lw, want, 40 * e * want, w + ' longwave')
        bb = 5.669e-8 * (t + 273.15) ** 4
        clear = ref.emissivity(ty, vp / 100., t + 273.15)
        if cl.lower() == 'cloud_deardorff':
            i = clear <= 1
            res.check((lw[i] <= bb[i] * (1 + 10 * e)).all(),
                      w + ': longwave above the blackbody')
            res.check((lw[i] >= (bb * clear * (1 - 40 * e))[i]).all(),
                      w + ': clouds reduce longwave')
        else:
            res.check((lw >= bb * clear * (1 - 40 * e)).all(),
                      w + ': clouds reduce longwave')
        res.count('steps', len(t))
        for b in np.unique(np.digitize(sk, [.001, .2, .5, .9])):
            for h in np.unique(np.digitize(t, [-20, 0, 15])):
                res.unit(ty.lower(), cl.lower(), int(b), int(h), s.ts)


# ---------------------------------------------------------------- C08

def constant_in_day(res, s, out, names=('tskc', 'wind'), values=None):
    """values: name -> array (days, ...) of the daily values expected; by
    default the forcing and the reference cloud fraction"""
    if not need(res, s, out, names):
        return
    e = eps(out)
    n = 1440 // s.ts
    utc = s.opt.get('utc_offset')
    for c in s.cells():
        dy = ref_daily(s, c)
        f, _ = s.cell(c)
        for k in names:
            v = (values or {}).get(k)
            v = v[(slice(None),) + c] if v is not None else (
                dy['tskc'] if k == 'tskc' else f[k])
            x = col(out, k, c)
            tol = 10 * e * np.abs(v).max() + (2e-8 if k == 'tskc' else 1e-12)
            w = '%s %s' % (where_cell(s, c), k)
            if not utc:
                close(res, x, np.repeat(v, n), tol, w)
                res.check((np.ptp(x.reshape(-1, n), axis=1) <= 4 * e * (
                    np.abs(v) + 1e-6)).all(), w + ' varies within a local day')
            else:
                m = np.repeat(v, 1440)
                ok = any((np.abs(x - np.roll(m, -sh).reshape(-1, s.ts).mean(
                    axis=1)) <= tol).all() for sh in shifts(s, c, 1440))
                res.check(ok, w + ' is not the local series shifted by the '
                          'longitude')
            res.count('series')
            res.count('utc_series' if utc else 'local_series')
            res.unit(k, s.ts, bool(utc), int(s.cell_lon(c) // 20) if utc else
                     0, len(v), nontrivial=np.ptp(v) > 0)
