"""Shared parts of the check modules."""
import os
import select
import signal
import time

import numpy as np

from .. import run, scen


def sample(s, **kw):
    d = s.describe()
    d.update(kw)
    return d


def simulate(s, scratch, name='w', **over):
    d = os.path.join(scratch, name)
    return run.run(s, d, over=over or None)


def again(s, scratch, name, params, **over):
    """another run on the inputs already written for s"""
    p = dict(params)
    p.update(over)
    p['out_dir'] = os.path.join(scratch, name)
    return run.run(s, scratch, params=p)


def supply(rng, s, res, p=.25):
    """in some of the scenarios: the passthrough method"""
    if rng.random() > p or np.abs(s.lat).max() > 60:
        return
    sh = s.f['t_min'].shape
    s.opt['method'] = 'passthrough'
    s.f['shortwave'] = rng.uniform(20, 320, sh)
    for v, lo, hi in (('longwave', 150, 420), ('vapor_pressure', 100, 900),
                      ('tskc', 0, 1)):
        if rng.random() < .4:
            s.f[v] = rng.uniform(lo, hi, sh)
    if rng.random() < .4:
        s.opt['sw_averaging'] = 'daylight'
    res.count('passthrough_runs')


def same_attrs(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not np.array_equal(np.float64(x), np.float64(y), equal_nan=True):
            return False
    return True


def fresh(fn, timeout=200):
    """fn() in a forked process, i.e. in the state this process is in now;
    returns (True, value) or (False, error text)"""
    import pickle
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException as e:     # noqa
                out = (False, '%s: %s' % (type(e).__name__, str(e)[:300]) +
                       ' '.join(traceback.format_exc().split())[-300:])
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    # what the child started may hold the pipe open for longer than it lives
    data, end, ended = b'', time.time() + timeout, False
    while True:
        if select.select([r], [], [], 0 if ended else .2)[0]:
            b = os.read(r, 1 << 20)
            data += b
            if not b:
                break
        elif ended:
            break
        ended = ended or os.waitpid(pid, os.WNOHANG)[0] == pid
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return False, 'did not end within %d s' % timeout
    os.close(r)
    if not ended:
        os.waitpid(pid, 0)
    if not data:
        return False, 'the process died'
    return pickle.loads(data)


SKIP = ('history', 'NCO')


def files_equal(a, b, skip=SKIP):
    """first difference of two outputs, metadata included, or None"""
    if a.files != b.files:
        return 'files %s instead of %s' % (b.files, a.files)
    d = run.same(a, b, 0, 0)
    if d:
        return d
    for n in ('units', 'dtype', 'dims'):
        x, y = getattr(a, n), getattr(b, n)
        if x != y:
            k = [q for q in x if x[q] != y.get(q)][0]
            return '%s of %s: %r instead of %r' % (n, k, y.get(k), x[k])
    for k in a.vattrs:
        if not same_attrs(a.vattrs[k], b.vattrs[k]):
            return 'attributes of %s: %r instead of %r' % (
                k, b.vattrs[k], a.vattrs[k])
    if not same_attrs(a.tattrs, b.tattrs):
        return 'attributes of time: %r instead of %r' % (b.tattrs, a.tattrs)
    for k in a.coord:
        if k not in b.coord or not np.array_equal(a.coord[k], b.coord[k],
                                                  equal_nan=True):
            return 'coordinate %s differs' % k
    if set(a.coord) != set(b.coord):
        return 'coordinates %s' % sorted(b.coord)
    for i, (x, y) in enumerate(zip(a.attrs, b.attrs)):
        x = {k: v for k, v in x.items() if k not in skip}
        y = {k: v for k, v in y.items() if k not in skip}
        if not same_attrs(x, y):
            k = [q for q in sorted(set(x) | set(y))
                 if q not in x or q not in y or
                 not same_attrs({q: x[q]}, {q: y[q]})][0]
            return 'global attribute %s: %r instead of %r' % (
                k, y.get(k), x.get(k))
    return None
