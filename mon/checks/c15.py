import os
import random
import re
import shutil
import sys
import threading
import time

import numpy as np

from .. import core, judge, run, scen
from . import c17
from .common import again, sample, same_attrs, supply

PROP = 'C15'
PRELOAD = True
TIMEOUT = 170
RULE = ('runs compared bit for bit with the serial unchunked run of the same '
        'input, with every call into the NetCDF library monitored (overlaps '
        'of threads, output files open twice) and delayed at random; distinct '
        'by scheduler, workers, chunk sizes and the order in which the '
        'workers got at the output')
REQUIRED = ['sync_runs', 'threads_runs', 'processes_runs', 'distributed_runs',
            'library_calls', 'exclusive_openings', 'concurrent_threads',
            'cluster_runs', 'address_runs', 'scheduler_file_runs',
            'several_files', 'in_memory', 'cell_files', 'split_output',
            'forced_switches', 'long_runs', 'passthrough_runs']
ASSUMPTIONS = ['the interposed library functions are all through which '
               'netCDF4-python reaches the file library']


def plan(tier):
    n = 56 if tier == 'quick' else 700
    return [dict(i=i, pool=['threads', 'threads', 'threads', 'processes',
                            'threads', 'threads', 'cluster', 'distributed'][
                                i % 8]) for i in range(n)]


def source(spec, rng, scratch, res, s, p):
    """the forcing in one of the forms that is read in parts"""
    forms = ['netcdf', 'multi', 'data', 'multi'] + (
        ['ascii'] if s.layout == 'grid' and s.calendar == 'standard' else [])
    k = forms[(spec['i'] // 8 + spec['i']) % len(forms)]
    if k == 'netcdf':
        return p
    s.pad, s.spad, s.holes = (0, 0), 0, False
    for d in (s.f, s.s):
        for v in d:
            d[v] = np.round(d[v] * 4) / 4.
        d['t_max'] = np.maximum(d['t_max'], d['t_min'])
    p = run.write_inputs(s, os.path.join(scratch, 'plain'))
    q, note, _ = getattr(c17, k)(rng, scratch, res, s, p, 0)
    res.count({'multi': 'several_files', 'data': 'in_memory',
               'ascii': 'cell_files'}[k])
    return q


def chunks(rng, s):
    """divisions of the domain of every kind"""
    r = {}
    dims = list(s.dims)
    if len(dims) > 1 and rng.random() < .35:
        dims = [dims[int(rng.integers(2))]]          # name only one
    elif len(dims) > 1 and rng.random() < .3:
        dims = dims[::-1]
    for d in dims:
        n = s.shape[s.dims.index(d)]
        k = rng.integers(5)
        r[d] = int({0: 1, 1: n, 2: n + int(rng.integers(1, 4))}.get(
            int(k), rng.integers(1, n + 1)))
        if rng.random() < .2:
            r[d] = str(r[d])                         # as read from an INI file
    return r


def nchunks(s, ch):
    n = 1
    for d, c in ch.items():
        n *= -(-s.shape[s.dims.index(d)] // int(c))
    return n


def read_log(path):
    w, o, p = [], [], []
    if os.path.exists(path):
        for line in open(path):
            q = line.split()
            if q[0] == 'W':
                w.append((float(q[3]), float(q[4]), int(q[1]), int(q[2]),
                          line.split(None, 5)[5].strip()))
            elif q[0] == 'OVERLAP':
                o.append(line.strip())
    return sorted(w), o


def compare(res, what, a, b):
    d = run.same(a, b, 0, 0)
    res.check(d is None, lambda: '%s: the output differs from the serial run: '
              '%s' % (what, d))
    res.check(a.files == b.files, lambda: '%s: files %s instead of %s' % (
        what, b.files, a.files))
    res.check(all(same_attrs(a.vattrs[k], b.vattrs.get(k, {}))
                  for k in a.vattrs) and a.dims == b.dims and
              a.dtype == b.dtype, what + ': metadata differ')
    for k in a.coord:
        res.check(k in b.coord and np.array_equal(a.coord[k], b.coord[k]),
                  '%s: coordinate %s differs' % (what, k))
    res.count('values_compared', sum(v.size for v in a.var.values()))


class Jitter(object):
    """stalls threads after random lines of the code under test, and lets them
    start to compute together although they read one after another"""

    def __init__(self, seed, p):
        self.seed, self.p, self.n, self.met = seed, p, 0, 0
        # stalls while reading, one worker at a time, would keep the others
        # from computing at the same time
        self.skip = ('io.py', 'metsim.py') if seed % 4 else ()
        self.local = threading.local()
        self.gate = threading.Condition()
        self.waiting = self.round = 0

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if '/metsim/' not in f:
            return None
        if f.endswith('io.py'):
            # not while it reads: there it may hold a lock
            self.local.read = True
        elif not f.endswith(('metsim.py', 'datetime.py', 'units.py',
                             '__init__.py')) and getattr(
                self.local, 'read', False):
            self.local.read = False
            if self.p:
                self.meet()
        if f.endswith(self.skip):
            return None
        return self.line

    def meet(self):
        with self.gate:
            r = self.round
            self.waiting += 1
            if self.waiting > 1:
                self.round += 1
                self.waiting = 0
                self.met += 1
                self.gate.notify_all()
            elif not self.gate.wait_for(lambda: self.round > r, 2):
                if self.round == r:
                    self.waiting -= 1

    def line(self, frame, event, arg):
        r = getattr(self.local, 'r', None)
        if r is None:
            r = self.local.r = random.Random(
                '%d/%s' % (self.seed, threading.current_thread().name))
        if event == 'line' and r.random() < self.p:
            self.n += 1
            time.sleep(r.choice([0, 0, 1e-4, 1e-3, 1e-2]))
        return self.line

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *a):
        threading.settrace(None)


def simulate(res, p, opt, seed=0, jitter=0.):
    """in this process, with rapid thread switching"""
    q = dict(p)
    q.update(opt)
    os.makedirs(q['out_dir'], exist_ok=True)
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    try:
        with Jitter(seed, jitter) as j:
            run.simulate(q)
        res.count('forced_switches', j.n)
        res.count('met_workers', j.met)
    finally:
        sys.setswitchinterval(old)
    return run.Out(q['out_dir'])


def one(res, lib, s, a, p, scratch, k, opt, delay, seed, jitter=0.):
    what = '%s/%s workers, chunks %s' % (
        opt['scheduler'], opt['num_workers'], opt['chunks'])
    log = os.path.join(scratch, 'nc%d.log' % k)
    os.environ.update(NCMON_LOG=log, NCMON_DELAY=str(delay),
                      NCMON_SEED=str(seed))
    lib.ncmon_start(log.encode(), delay, seed)
    opt = dict(opt, out_dir=os.path.join(scratch, 'v%d' % k))
    b = simulate(res, p, opt, seed, jitter)
    calls, over, nt = lib.ncmon_calls(), lib.ncmon_overlaps(), \
        lib.ncmon_threads()
    lib.ncmon_start(b'/dev/null', 0, 0)
    w, o = read_log(log)
    res.count('library_calls', calls)
    res.count('concurrent_threads', nt if nt > 1 else 0)
    res.check(over == 0 and not o, lambda: '%s: two threads were inside the '
              'NetCDF library at once: %s' % (what, (o or ['?'])[0]))
    outs = [x for x in w if x[4].startswith(opt['out_dir'] + os.sep)]
    ins = [x for x in w if not x[4].startswith(opt['out_dir'] + os.sep)]
    res.check(not ins, lambda: '%s: %s opened for writing' % (what,
                                                              ins[0][4]))
    files = sorted({x[4] for x in outs})
    order = []
    for f in files:
        h = [x for x in outs if x[4] == f]
        for x, y in zip(h, h[1:]):
            res.check(y[0] >= x[1], lambda: '%s: %s was open for writing by '
                      'process %s thread %s and process %s thread %s at once'
                      % (what, os.path.basename(f), x[2], x[3], y[2], y[3]))
        res.count('exclusive_openings', len(h))
        ids = {}
        order.append(tuple(ids.setdefault(x[2:4], len(ids)) for x in h))
    compare(res, what, a, b)
    kind = {'sync': 'sync', 'single-threaded': 'sync', 'synchronous': 'sync',
            'threads': 'threads', 'threading': 'threads',
            'processes': 'processes', 'multiprocessing': 'processes'}.get(
                opt['scheduler'], 'distributed')
    res.count(kind + '_runs')
    res.count('chunks_run', nchunks(s, opt['chunks']))
    res.unit(kind, opt['num_workers'], sorted(opt['chunks'].items()), s.shape,
             tuple(order))


def cluster(rng, res, lib, s, a, p, scratch):
    """a cluster that is there already, given by address or by file"""
    import json
    from distributed import LocalCluster
    log = os.path.join(scratch, 'nc1.log')
    delay, seed = int(rng.choice([0, 20000])), int(rng.integers(1 << 30))
    os.environ.update(NCMON_LOG=log, NCMON_DELAY=str(delay),
                      NCMON_SEED=str(seed))
    nw, nt = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    c = LocalCluster(n_workers=nw, threads_per_worker=nt,
                     dashboard_address=None, local_directory=scratch,
                     silence_logs=50)
    at = c.scheduler_address
    f = os.path.join(scratch, 'scheduler.json')
    with open(f, 'w') as h:
        json.dump(dict(type='Scheduler', address=at), h)
    for k, where in enumerate((at, f)):
        ch = chunks(rng, s)
        if nchunks(s, ch) < 2:
            ch = {s.dims[-1]: 1}
        one(res, lib, s, a, p, scratch, 1, dict(
            scheduler=where, num_workers=nw, chunks=ch), delay, seed)
        shutil.rmtree(os.path.join(scratch, 'v1'))
        res.count('scheduler_file_runs' if k else 'address_runs')
    res.count('cluster_runs')


def case(spec, rng, scratch, res):
    lib = core.ncmon()
    lib.ncmon_start(b'/dev/null', 0, 0)
    nd = int(rng.integers(1, 4))
    if spec['pool'] == 'threads' and spec['i'] % 2:
        # the workers spend their time on computing
        nd = int(rng.integers(4, 12))
        res.count('long_runs')
    s = scen.gen(rng, ambient=True, nd=nd, mask='mixed',
                 nlat=int(rng.integers(2, 5)), nlon=int(rng.integers(2, 5)),
                 nhru=int(rng.integers(3, 9)),
                 time_step=int(rng.choice([60, 120, 180, 360, 1440])))
    s.opt.pop('chunks', None)
    if nd > 3 and rng.random() < .7:
        s.opt['prec_type'] = str(rng.choice(['triangle', 'mix']))
    supply(rng, s, res)
    if rng.random() < .4:
        s.opt['utc_offset'] = True
    d = os.path.join(scratch, 'in')
    p = run.write_inputs(s, d)
    p = source(spec, rng, scratch, res, s, p)
    res.count('split_output', bool(p.get('out_freq')))
    a = again(s, scratch, 'ref', p, scheduler='sync', chunks={})
    k = 0
    one(res, lib, s, a, p, scratch, k, dict(
        scheduler=str(rng.choice(['sync', 'synchronous', 'single-threaded'])),
        num_workers=1, chunks=chunks(rng, s)), 0, 1)
    if spec['pool'] == 'threads':
        for _ in range(3):
            k += 1
            if spec['i'] % 2:
                # small pieces of work, stalled now and then, so that
                # several workers compute at any time
                one(res, lib, s, a, p, scratch, k, dict(
                    scheduler='threads', chunks={d: 1 for d in s.dims},
                    num_workers=int(rng.choice([3, 4, 8]))), 0,
                    int(rng.integers(1 << 30)), float(rng.choice([.05, .2])))
                continue
            ch = chunks(rng, s)
            if nchunks(s, ch) < 2:
                ch = {s.dims[-1]: 1}
            one(res, lib, s, a, p, scratch, k, dict(
                scheduler=str(rng.choice(['threads', 'threading'])),
                num_workers=int(rng.choice([1, 2, 3, 4, 8])), chunks=ch),
                int(rng.choice([0, 2000, 20000])), int(rng.integers(1 << 30)),
                float(rng.choice([0, .02, .1])))
    elif spec['pool'] == 'cluster':
        cluster(rng, res, lib, s, a, p, scratch)
    else:
        k += 1
        name = spec['pool']
        if name == 'processes' and rng.random() < .5:
            name = 'multiprocessing'
        one(res, lib, s, a, p, scratch, k, dict(
            scheduler=name, num_workers=int(rng.integers(1, 5)),
            chunks=chunks(rng, s)), int(rng.choice([0, 20000])),
            int(rng.integers(1 << 30)))
    for c in np.ndindex(*s.shape):
        on = s.mask[c] > 0
        for v in a.var:
            x = judge.col(a, v, c)
            res.check(np.isfinite(x).all() if on else np.isnan(x).all(),
                      '%s at %s of the serial run is %s' % (
                          v, c, 'incomplete' if on else 'not missing'))
    if spec['i'] % 6 == 0:
        res.sample = sample(s, pool=spec['pool'])
