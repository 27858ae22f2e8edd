"""Configuration files (YAML, INI) from settings given as a dictionary, in any
of the spellings the formats allow."""
import datetime as dt
import os
import sys

from . import run

SECTIONS = ['forcing_vars', 'state_vars', 'domain_vars', 'chunks',
            'constant_vars', 'out_vars']
BOOLS = ['utc_offset', 'period_ending']
NAMED = ['prec_type', 'lw_type', 'lw_cloud']
NOTFILE = ['scheduler', 'num_workers', 'verbose']


def invert(d):
    return {v: k for k, v in d.items()}


def recase(rng, v):
    if rng is None:
        return v
    k = rng.integers(4)
    return [v, v.upper(), v.capitalize(), ''.join(
        c.upper() if i % 2 else c for i, c in enumerate(v))][int(k)]


def noise(rng, lines, ini=False):
    """comments and blank lines where they may be"""
    if rng is None:
        return lines
    r = []
    for ln in lines:
        if rng.random() < .15:
            r.append('# %s' % rng.choice(['a comment', 'time_step = 7',
                                          'out_dir: nowhere', '']))
        if rng.random() < .1:
            r.append('')
        r.append(ln)
    return r


def date_text(rng, d, yaml):
    if isinstance(d, str):
        return d
    k = 0 if rng is None else int(rng.integers(5))
    y, m, q = d.year, d.month, d.day
    if yaml:
        return ['%04d/%02d/%02d' % (y, m, q), '%d/%d/%d' % (y, m, q),
                '%04d-%02d-%02d' % (y, m, q), "'%04d-%02d-%02d'" % (y, m, q),
                '"%04d/%02d/%02d"' % (y, m, q)][k]
    return ['%04d/%02d/%02d' % (y, m, q), '%d/%d/%d' % (y, m, q),
            '%04d-%02d-%02d' % (y, m, q), '%04d/%d/%02d' % (y, m, q),
            '%04d-%02d-%02d' % (y, m, q)][k]


def plain(k, v, rng, yaml):
    if isinstance(v, (dt.datetime, dt.date)) or k in ('start', 'stop'):
        return date_text(rng, v, yaml)
    if k in NAMED:
        v = recase(rng, v)
    if k in BOOLS:
        t = bool(v)
        if yaml:
            c = (['true', 'True', 'TRUE', 'yes', 'on'] if t else
                 ['false', 'False', 'FALSE', 'no', 'off'])
        else:
            c = (['True', 'true', 'TRUE', 'yes', 'on', '1'] if t else
                 ['False', 'false', 'FALSE', 'no', 'off', '0'])
        return c[0 if rng is None else int(rng.integers(len(c)))]
    if isinstance(v, str) and yaml and rng is not None and rng.random() < .5:
        return "'%s'" % v
    if isinstance(v, float) and yaml:
        t = repr(v)
        if 'e' in t and '.' not in t:       # YAML 1.1 wants a dot
            t = t.replace('e', '.0e')
        return t
    return str(v)


def shuffled(rng, items):
    items = list(items)
    if rng is not None:
        items = [items[i] for i in rng.permutation(len(items))]
    return items


def sections(p):
    r = {}
    for k in SECTIONS:
        if k in p:
            d = p[k]
            if k in ('state_vars', 'domain_vars') or (
                    k == 'forcing_vars' and p['forcing_fmt'] != 'binary'):
                d = invert(d)
            r[k] = d
    return r


def yaml_text(p, rng=None):
    L = noise(rng, ['MetSim:'])
    R = []
    body = ['    %s: %s' % (k, plain(k, v, rng, True)) for k, v in
            shuffled(rng, p.items()) if k not in SECTIONS + NOTFILE]
    if rng is not None:
        body = [b + ('   # note' if rng.random() < .15 else '') for b in body]
    L += noise(rng, body)
    keep = p['forcing_fmt'] in ('ascii', 'binary')
    for k, d in shuffled(rng, sections(p).items()):
        if not d and k == 'chunks':
            L.append('chunks: {}')
            continue
        if rng is not None and rng.random() < .08:
            R, L = R + L, []      # sections may come in any order
        L += noise(rng, ['', k + ':'])
        items = list(d.items())
        if k != 'out_vars' and not (keep and k == 'forcing_vars'):
            items = shuffled(rng, items)
        for a, b in items:
            if isinstance(b, dict):
                L.append('    %s:' % a)
                L += ['        %s: %s' % (x, quote(y)) for x, y in b.items()]
            else:
                L.append('    %s: %s' % (a, b if not isinstance(b, str) else
                                         "'%s'" % b))
    L = L + R
    if rng is not None and rng.random() < .1:
        L = ['---'] + L
    return '\n'.join(L) + '\n'


def quote(y):
    return "'%s'" % y if isinstance(y, str) else str(y)


def ini_text(p, rng=None, out='section'):
    """out: 'section' (names) or 'list' (names as in MetSim)"""
    L = noise(rng, ['[MetSim]'])
    R = []

    def kv(a, b):
        if rng is None:
            return '%s = %s' % (a, b)
        return '%s%s%s' % (a, ['=', ' = ', ' : ', ': '][
            int(rng.integers(4))], b)
    body = [kv(k, plain(k, v, rng, False)) for k, v in
            shuffled(rng, p.items()) if k not in SECTIONS + NOTFILE]
    if out == 'list' and 'out_vars' in p:
        q = "'" if rng is None or rng.random() < .7 else '"'
        body.append(kv('out_vars', '[' + ', '.join(
            q + v + q for v in p['out_vars']) + ']'))
    L += noise(rng, body)
    keep = p['forcing_fmt'] in ('ascii', 'binary')
    for k, d in shuffled(rng, sections(p).items()):
        if k == 'out_vars' and out == 'list':
            continue
        if rng is not None and rng.random() < .08:
            R, L = R + L, []
        L += noise(rng, ['', '[%s]' % k])
        items = list(d.items())
        if k != 'out_vars' and not (keep and k == 'forcing_vars'):
            items = shuffled(rng, items)
        for a, b in items:
            L.append(kv(a, b['out_name'] if isinstance(b, dict) else b))
    return '\n'.join(L + R) + '\n'


class Opts(object):
    """what the command line leaves to the reader"""

    def __init__(self, config, scheduler='sync', num_workers=1,
                 verbose=False):
        self.config, self.scheduler = config, scheduler
        self.num_workers, self.verbose = num_workers, verbose


def read(path, **kw):
    from .run import RunFailed
    from metsim import io
    try:
        return io.read_config(Opts(path, **kw))
    except Exception as e:     # noqa
        raise RunFailed(e)


def program(rng):
    """the command line program in the ways it is started"""
    w = os.path.join(os.path.dirname(sys.executable), 'ms')
    py = [sys.executable, '-W', 'ignore']
    k = int(rng.integers(4))
    if k == 0 and os.path.exists(w) and not os.environ.get('VERIF_REPO'):
        return 'script', [w]
    if k <= 1:
        return 'main', py + ['-c', 'from metsim.cli.ms import main; main()']
    f = os.path.join(run.REPO, 'metsim', 'cli', 'ms.py')
    if k == 2 or not os.path.exists(f):
        return 'module', py + ['-m', 'metsim.cli.ms']
    return 'file', py + [f]
