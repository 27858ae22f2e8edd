"""Independent reference for what MetSim is documented to compute.

Written from the published equations (Thornton and Running 1999, Kimball et al.
1997, Bohn et al. 2013, 2019) and MetSim's documentation; it shares no code with
/repo and imports nothing from it.  It works on one cell at a time, vectorised
over days, with all of the year's geometry built by array operations.
"""
import numpy as np
from functools import lru_cache
from scipy.interpolate import PchipInterpolator

SPR = 13750.9871
DEG = 0.01745329
BINS = 2880
BIN_S = 30.0
AIRMASS = np.array([2.90, 3.05, 3.21, 3.39, 3.69, 3.82, 4.07, 4.37, 4.72, 5.12,
                    5.60, 6.18, 6.88, 7.77, 8.90, 10.39, 12.44, 15.36, 19.79,
                    26.96, 30.00])


def svp(t):
    """saturation vapour pressure, Pa"""
    t = np.asarray(t, dtype=float)
    v = 610.78 * np.exp(17.269 * t / (237.3 + t))
    return np.where(t < 0, v * (1 + .00972 * t + .000042 * t * t), v)


def press_std(elev, lr):
    """standard-atmosphere pressure (Pa) used by the PET estimate"""
    return 101325.0 * (1 - lr * elev / 288.15) ** (
        9.80665 / (lr * (8.3143 / 28.9644e-3)))


@lru_cache(maxsize=512)
def _sun(lat):
    """declination, hour angle of sunset (rad) and day length (s), 366 days"""
    i = np.minimum(np.arange(366), 364)
    decl = -0.4092797 * np.cos((i + 11.25) * 0.017214)
    la = np.clip(lat * DEG, -np.pi / 2, np.pi / 2)
    cc, ss = np.cos(la) * np.cos(decl), np.sin(la) * np.sin(decl)
    hss = np.arccos(np.clip(-ss / cc, -1, 1))
    dl = np.minimum(2 * hss * SPR, 86400.0)
    beam = 1368.0 + 45.5 * np.sin(2 * np.pi * i / 365.25 + 1.7)
    return decl, hss, dl, cc, ss, beam


def daylength(lat):
    return _sun(float(lat))[2].copy()


@lru_cache(maxsize=512)
def geometry(lat, elev, lr):
    """dict of day length (s), potential radiation averaged over the day light
    (W m-2), transmittance of the dry clear sky, first and last lit 30 s bin"""
    decl, hss, dl, cc, ss, beam = _sun(lat)
    trans = 0.870 ** ((1 - lr * elev / 288.15) ** (
        9.80665 / (lr * (8.3143 / 28.9644e-3))))
    pot = np.zeros(366)
    tt = np.zeros(366)
    rise = np.full(366, -1)
    sets = np.full(366, -1)
    frac = np.zeros((366, BINS))
    for d in range(366):
        if dl[d] <= 0:
            continue
        h = np.arange(-hss[d], hss[d], BIN_S / SPR)
        cz = cc[d] * np.cos(h) + ss[d]
        up = cz > 0
        cz, h = cz[up], h[up]
        if not cz.size:
            continue
        flat = beam[d] * cz * BIN_S
        am = 1 / (cz + 1e-7)
        low = am > 2.9
        ix = np.clip((np.arccos(cz) / DEG).astype(int) - 69, 0, 20)
        am = np.where(low, AIRMASS[ix], am)
        tot = flat.sum()
        pot[d] = tot / dl[d]
        tt[d] = (trans ** am * flat).sum() / tot
        b = np.clip(((43200 + h * SPR) / BIN_S), 0, BINS - 1).astype(int)
        frac[d, b] = flat / tot
        lit = np.flatnonzero(frac[d] > 0)
        rise[d], sets[d] = lit[0], lit[-1]
    return dict(dl=dl, pot=pot, tt=tt, frac=frac, beam=beam, hss=hss, cc=cc,
                ss=ss, rise=rise, set=sets)


def pet(sw_daylight, tday, dl, pa):
    """potential evaporation, mm per day"""
    lh = 2.5023e6 - 2430.54 * tday
    gamma = 1010.0 * pa / (lh * 0.62196351)
    s = (svp(tday + .2) - svp(tday - .2)) / .4
    return 1.26 * s / (s + gamma) * sw_daylight * .72 * dl / lh


def tdew(pet_mm, tmin, season, dtr):
    r = pet_mm / np.maximum(season, 80.0)
    return (tmin + 273.15) * (-0.127 + 1.121 * (
        1.003 - 1.444 * r + 12.312 * r ** 2 - 32.766 * r ** 3)
        + 0.0006 * dtr) - 273.15


DEFAULTS = dict(lapse_rate=0.0065, sw_prec_thresh=0.0, rain_scalar=0.75,
                tday_coef=0.45, tdew_tol=1e-6, tmax_daylength_fraction=0.67,
                lw_cloud='cloud_deardorff', lw_type='prata')


def opts(o):
    r = dict(DEFAULTS)
    for k in r:
        if k in o:
            r[k] = float(o[k]) if k not in ('lw_cloud', 'lw_type') else o[k]
    return r


def trailing(state, cur, n):
    """mean over the n days ending on each day of cur, with history"""
    x = np.concatenate([state, cur])
    c = np.concatenate([[0.0], np.cumsum(x)])
    j = np.arange(len(state), len(x)) + 1
    return (c[j] - c[j - n]) / n


def daily(f, s, elev, lat, yday, o):
    """MTCLIM solution for one cell. f, s: dicts of t_min, t_max, prec for the
    run and the 90 days before; yday: 0-based day of year"""
    o = opts(o)
    g = geometry(float(lat), float(elev), o['lapse_rate'])
    dtr = f['t_max'] - f['t_min']
    sm = trailing(s['t_max'] - s['t_min'], dtr, 30)
    season = 365.25 * trailing(s['prec'], f['prec'], 90)
    b = 0.031 + 0.201 * np.exp(-0.185 * sm)
    tf = 1 - .9 * np.exp(-b * np.maximum(dtr, 0) ** 1.5)
    tf = np.where(f['prec'] > o['sw_prec_thresh'], tf * o['rain_scalar'], tf)
    tday = (f['t_max'] + f['t_min']) / 2 + o['tday_coef'] * dtr / 2
    dl, pot, tt = g['dl'][yday], g['pot'][yday], g['tt'][yday]
    pa = press_std(elev, o['lapse_rate'])

    def sw(vp):
        return pot * tf * np.maximum(tt - 6.1e-5 * vp, 0.0001)
    td = f['t_min'].astype(float)

    def step(td):
        return tdew(pet(sw(svp(td)), tday, dl, pa), f['t_min'], season, dtr)
    for it in range(3000):
        new = step(td)
        done = np.max(np.abs(new - td)) < 1e-11
        td = new
        if done:
            break
    # contraction of the iteration: a residual of x leaves an error of up to
    # x * q / (1 - q)
    q = np.minimum(np.abs(step(td + 1e-3) - step(td - 1e-3)) / 2e-3, .999)
    err = np.maximum(1., q / (1 - q))
    vp = svp(td)
    r = sw(vp)
    if o['lw_cloud'].upper() == 'CLOUD_DEARDORFF':
        sk = 1 - tf
    else:
        sk = np.sqrt((1 - tf) / .65)
    return dict(tdew=td, tdew_err=err, tdew_iter=it, vapor_pressure=vp, sw_daylight=r,
                shortwave=r * dl / 86400, pet=pet(r, tday, dl, pa), tskc=sk,
                daylength=dl, t_day=tday, dtr=dtr, season=season, tf=tf,
                t_min=f['t_min'], t_max=f['t_max'], prec=f['prec'], tt=tt,
                pot=pot, sm=sm)


def wrap_lon(lon):
    return float(lon - 360.0 * np.round(lon / 360.0))


def sun_minutes(g, yday, late=0):
    """minute (of the local day) of the last dark bin before sunrise and of the
    last lit bin; the conventional 4 h and 16 h where there is no such.  late=1
    takes the first lit bin, where the sun is within rounding of the horizon,
    as dark"""
    r, s = g['rise'][yday], g['set'][yday]
    r = np.where(r >= 0, r + late, r)
    rise = np.where(r > 0, (r - 1) * .5, 0.)
    sets = np.where((s >= 0) & (s < BINS - 1), s * .5, 0.)
    return np.where(rise == 0, 240., rise), np.where(sets == 0, 960., sets)


def knots(g, yday, ts, o, shift=0.0, late=0):
    rise, sets = sun_minutes(g, yday, late)
    off = 1440. * np.arange(len(yday)) - shift
    tmin = rise + off - ts
    tmax = o['tmax_daylength_fraction'] * (sets - rise) + rise + off - ts
    return tmin, tmax


def temperature(tmin, tmax, kmin, kmax, n, ts, before, after=None):
    k = np.column_stack([kmin, kmax]).ravel()
    v = np.column_stack([tmin, tmax]).ravel().astype(float)
    if after is None:
        after = v[-2:]
    k = np.concatenate([k[:2] - 1440, k, k[-2:] + 1440])
    v = np.concatenate([np.asarray(before, float), v, np.asarray(after, float)])
    return PchipInterpolator(k, v, extrapolate=True)(ts * np.arange(n)), k, v


def emissivity(name, e_mb, tk):
    n = name.upper()
    if n in ('DEFAULT', 'TVA'):
        return .74 + .0049 * e_mb
    if n == 'ANDERSON':
        return .68 + .036 * np.sqrt(e_mb)
    if n == 'BRUTSAERT':
        return 1.24 * (e_mb / tk) ** 0.14285714
    if n == 'SATTERLUND':
        return 1.08 * (1 - np.exp(-e_mb ** (tk / 2016)))
    if n == 'IDSO':
        return .7 + 5.95e-5 * e_mb * np.exp(1500 / tk)
    if n == 'PRATA':
        w = 46.5 * e_mb / tk
        return 1 - (1 + w) * np.exp(-np.sqrt(1.2 + 3 * w))
    raise KeyError(name)


def longwave(t_c, vp_pa, sky, lw_type, lw_cloud):
    tk = t_c + 273.15
    e = emissivity(lw_type, vp_pa / 100., tk)
    if lw_cloud.upper() == 'CLOUD_DEARDORFF':
        em = sky + (1 - sky) * e
    else:
        em = (1 + .17 * sky ** 2) * e
    return em * 5.669e-8 * tk ** 4


def air_pressure(t_c, elev, lr):
    """kPa"""
    tv = 273.15 + t_c - .5 * elev * lr
    return 101.325 * np.exp(-elev * 9.80665 / (287 * tv))


def spec_humid(vp, p):
    m = 0.62196351 * vp / (p - vp)
    return m / (1 + m)


def minute_prec(prec, tmin, months, kind, t_pk, dur):
    """mm per minute over the run in local time; t_pk, dur: 12 monthly values.
    Continuous isosceles triangle, sampled on minutes and rescaled."""
    out = np.zeros(len(prec) * 1440)
    m = np.arange(1440)
    for d, p in enumerate(prec):
        if kind == 'uniform' or (kind == 'mix' and tmin[d] < 0):
            w = np.ones(1440)
        else:
            pk, du = t_pk[months[d] - 1], dur[months[d] - 1]
            a, b = pk - du / 2, pk + du / 2
            up = m[(m <= pk) & (m >= a)]
            dn = m[(m >= pk) & (m <= b)]
            w = np.zeros(1440)
            if up.size:
                w[up] = np.linspace(0, 1, up.size)
            if dn.size:
                w[dn] = np.linspace(1, 0, dn.size)
            if not w.any():
                w[min(int(pk), 1439)] = 1
        out[d * 1440:(d + 1) * 1440] = p * w / w.sum()
    return out


def subdaily(dy, f, s, elev, lat, lon, yday, months, o, ts, t_pk=None,
             dur=None, after=None, late=0):
    """Every sub-daily variable for one cell, local time or UTC, from the daily
    solution dy.  vapour pressure in Pa.  With UTC the ends of the record are
    not meaningful beyond the shift."""
    utc = bool(o.get('utc_offset', False))
    oo = opts(o)
    g = geometry(float(lat), float(elev), oo['lapse_rate'])
    nd = len(yday)
    n = nd * 1440 // ts
    x = wrap_lon(lon)
    sh = int(x * 1440 / 360.0) if utc else 0
    r = {}
    # shortwave
    lit = g['frac'][yday].ravel() * np.repeat(dy['shortwave'], BINS) * BINS
    if utc:
        lit = np.roll(lit, -int(x * BINS / 360.0))
    r['shortwave'] = lit.reshape(n, -1).mean(axis=1)
    kmin, kmax = knots(g, yday, ts, oo, sh, late)
    before = [s['t_min'][-1], s['t_max'][-1]]
    r['temp'], r['_k'], r['_v'] = temperature(
        f['t_min'], f['t_max'], kmin, kmax, n, ts, before, after)
    vp = np.interp(ts * np.arange(n), kmin, dy['vapor_pressure'])
    r['_vp_lin'] = vp
    r['vapor_pressure'] = np.minimum(vp, svp(r['temp']))
    r['air_pressure'] = air_pressure(r['temp'], elev, oo['lapse_rate'])
    r['rel_humid'] = np.minimum(
        100 * r['vapor_pressure'] / svp(r['temp']), 100)
    r['spec_humid'] = spec_humid(r['vapor_pressure'] / 1000, r['air_pressure'])

    def const(v):
        return np.roll(np.repeat(np.asarray(v, float), 1440), -sh).reshape(
            n, ts).mean(axis=1)
    r['tskc'] = const(dy['tskc'])
    if 'wind' in f:
        r['wind'] = const(f['wind'])
    r['longwave'] = longwave(r['temp'], r['vapor_pressure'], r['tskc'],
                             oo['lw_type'], oo['lw_cloud'])
    pm = minute_prec(f['prec'], f['t_min'], months,
                     o.get('prec_type', 'uniform').lower(), t_pk, dur)
    r['prec'] = np.roll(pm, -sh).reshape(n, ts).sum(axis=1)
    return r


def spread(x, w):
    """maximum over the w samples on either side"""
    x = np.concatenate([np.zeros(w), x, np.zeros(w)])
    return np.max([x[i:len(x) - 2 * w + i] for i in range(2 * w + 1)], axis=0)


def subdaily_tol(*a, **kw):
    """(values, tolerances): the sun is within rounding of the horizon at the
    first radiation bin of a day, so sunrise is known to one bin only"""
    r = subdaily(*a, **kw)
    q = subdaily(*a, **dict(kw, late=1))
    ts = a[9]
    tol = {}
    for k in r:
        if k[0] == '_':
            continue
        d = np.abs(r[k] - q[k])
        tol[k] = 3 * spread(d, 1440 // ts) + 1e-6 * np.maximum(
            np.abs(r[k]), np.abs(r[k]).max() * .01) + 1e-12
    return r, tol
