"""C11: process-wide settings come back exactly as they were."""
import csv
import ctypes
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import warnings

import cv2
import fsspec
import fsspec.config
import numpy as np
import tqdm
import tqdm.std
import yaml

from .. import faults as flt, jobs, simfs
from .c04 import gen_hazard
from .c05 import interrupter
from .c16 import fill, usable
from .util import err

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=60, thorough=1500)
NONTRIVIAL = 'two or more threads were runnable, or a fault was injected'
ASSUMPTIONS = [
    'library calls only: the command line, which is a process of its own, redirects warnings for '
    'good by design',
    'GDAL options are compared as a thread sees them (rasterio keeps those of the main thread '
    'globally and those of other threads locally); options set by the caller are set with '
    'rasterio.Env',
    'faults are failing raster, storage and metadata calls and an interrupt while waiting for '
    'workers; no fault hits the few lines that restore the settings',
]
FIXED = []
FILTERS = [dict(action='ignore', category='UserWarning'), dict(action='error', module='^nowhere$'),
           dict(action='always', message='x.*y'), dict(action='once', category='FutureWarning'),
           dict(action='ignore', category='NotGeoreferencedWarning', module='^other$')]


def gen(rng, tier, index):
    n = rng.choice([1, 1, 2, 2, 3])
    js = []
    for k in range(n):
        kinds = ('ortho',) * 4 + ('pan',) * 3 + ('read',) * 5 + ('fread', 'export', 'write', 'fit')
        j = jobs.gen(rng, kinds=kinds, forms=k == 0)
        js.append(j)
    mode = rng.choice(['none', 'none', 'fault', 'fault', 'fault', 'wait', 'exists'])
    c = dict(jobs=js, mode=mode, stream=rng.random() < .5, cpus=rng.choice([1, 2, 3, 4]),
             main=rng.random() < .5, limit=rng.choice([1, 1, 3]),
             env=rng.choice([None, None, dict(GDAL_NUM_THREADS='3', CPL_DEBUG='OFF'),
                             dict(GTIFF_FORCE_RGBA='NO', GDAL_TIFF_INTERNAL_MASK='NO',
                                  GDAL_CACHEMAX=64)]),
             filters=[f for f in FILTERS if rng.random() < .4], hook=rng.random() < .5,
             registry=rng.random() < .3)
    if mode == 'fault':
        while True:
            c['hazard'] = gen_hazard(rng, js[0]['kind'])
            if 'line' not in c['hazard']:
                break
    elif mode == 'wait':
        c['main'] = True
        c['hazard'] = dict(kbd=dict(p=rng.choice([.005, .02, .1]), kinds=['kbd'],
                                    skip=int(2 ** rng.uniform(0, 7))))
    return c


_lib = []


def gdal():
    if not _lib:
        with open('/proc/self/maps') as f:
            p = next(ln.split()[-1] for ln in f if 'libgdal' in ln)
        lib = ctypes.CDLL(p)
        for n in ('CPLGetConfigOptions', 'CPLGetThreadLocalConfigOptions'):
            getattr(lib, n).restype = ctypes.POINTER(ctypes.c_char_p)
        _lib.append(lib)
    return _lib[0]


def gdal_options():
    """The GDAL options this thread sees."""
    out = {}
    for n in ('CPLGetConfigOptions', 'CPLGetThreadLocalConfigOptions'):
        p = getattr(gdal(), n)()
        i = 0
        while p and p[i]:
            k, _, v = p[i].decode().partition('=')
            out[k] = v
            i += 1
    # where rasterio keeps its data files
    out.pop('GDAL_DATA', None)
    out.pop('PROJ_LIB', None)
    out.pop('PROJ_DATA', None)
    return out


def rio_env():
    from rasterio.env import getenv, hasenv
    return {k: str(v) for k, v in getenv().items() if k not in ('GDAL_DATA', 'PROJ_LIB',
                                                                'PROJ_DATA')} if hasenv() else None


LOGGERS = [None, 'orthority', 'rasterio', 'rasterio._env', 'fiona', 'fsspec', 'py.warnings',
           'concurrent.futures']


def loggers():
    out = {'disable': logging.root.manager.disable}
    for n in LOGGERS:
        g = logging.getLogger(n)
        out[str(n)] = (g.level, g.propagate, g.disabled, len(g.handlers), len(g.filters))
    return out


def umask():
    with open('/proc/self/status') as f:
        return next((ln for ln in f if ln.startswith('Umask')), None)


class CvThreads:
    """OpenCV's number of threads, as a setting only (the simulation itself turns them off)."""

    def __init__(self, n=6):
        self.n = n

    def __enter__(self):
        self.saved = cv2.getNumThreads, cv2.setNumThreads
        cv2.getNumThreads = lambda: self.n
        cv2.setNumThreads = lambda n: setattr(self, 'n', n)

    def __exit__(self, *a):
        cv2.getNumThreads, cv2.setNumThreads = self.saved


def state(gd=True):
    out = {'warning filters': [(f[0], getattr(f[1], 'pattern', f[1]), f[2].__name__,
                                getattr(f[3], 'pattern', f[3]),
                                f[4]) for f in warnings.filters],
           'showwarning': warnings.showwarning, 'formatwarning': warnings.formatwarning,
           '_showwarnmsg_impl': getattr(warnings, '_showwarnmsg_impl', None),
           'working directory': os.getcwd(), 'environment': dict(os.environ),
           'logging': loggers(), 'OpenCV threads': cv2.getNumThreads(),
           'OpenCV optimisation': cv2.useOptimized(), 'numpy error handling': np.geterr(),
           'numpy print options': np.get_printoptions(),
           'random numbers': hashlib.blake2b(
               repr((random.getstate(), np.random.get_state(legacy=False))).encode()).hexdigest(),
           'CSV field size': csv.field_size_limit(), 'CSV dialects': csv.list_dialects(),
           'socket timeout': socket.getdefaulttimeout(), 'excepthook': sys.excepthook,
           'signal handlers': [signal.getsignal(s) for s in (
               signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)],
           'recursion limit': sys.getrecursionlimit(), 'umask': umask(),
           'garbage collection': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
           'switch interval': sys.getswitchinterval(), 'locale': locale.setlocale(locale.LC_ALL),
           'decimal context': repr(decimal.getcontext()),
           'hooks': (threading.excepthook, sys.unraisablehook, sys.displayhook, sys.stdout,
                     sys.stderr, sys.gettrace(), threading.gettrace()),
           'fsspec configuration': repr(fsspec.config.conf), 'import path': list(sys.path),
           'YAML': [(len(x.yaml_representers), len(x.yaml_multi_representers))
                    for x in (yaml.SafeDumper, yaml.Dumper)] + [
                       len(x.yaml_constructors) for x in (yaml.SafeLoader, yaml.FullLoader)],
           'tqdm': (tqdm.std.tqdm.monitor_interval, tqdm.std.tqdm.mininterval
                    if hasattr(tqdm.std.tqdm, 'mininterval') else None),
           'priority': os.getpriority(os.PRIO_PROCESS, 0)}
    if gd:
        out['GDAL options'] = gdal_options()
        out['rasterio environment'] = rio_env()
    return out


def delta(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                d = {x: (a[k].get(x), b[k].get(x)) for x in sorted({*a[k], *b[k]})
                     if a[k].get(x) != b[k].get(x)}
                return f'{k} changed: {d}'
            if isinstance(a[k], list):
                return f'{k} changed: added {[x for x in b[k] if x not in a[k]]}, removed ' \
                       f'{[x for x in a[k] if x not in b[k]]}, {len(a[k])} to {len(b[k])} entries'
            return f'{k} changed from {a[k]} to {b[k]}'
    return None


def run(ctx, c):
    import _thread
    import rasterio as rio
    from rasterio.errors import NotGeoreferencedWarning
    simfs.STATE['stream'] = c['stream']
    cats = dict(UserWarning=UserWarning, FutureWarning=FutureWarning,
                NotGeoreferencedWarning=NotGeoreferencedWarning)
    js = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k, cfg in enumerate(c['jobs']):
            j = jobs.new(cfg, os.path.join(ctx.dir, f'j{k}'), tag=str(k))
            j.make()
            if not usable(ctx, j):
                return
            if c['mode'] == 'exists' and k == 0 and cfg['outf'] not in ('fobj', 'simfobj'):
                for p in j.outs():
                    fill(p, 'text')
            js.append(j)
        calls = [j.prepare() for j in js]
    for f in c['filters']:
        if f.get('category'):
            warnings.filterwarnings(f['action'], category=cats[f['category']],
                                    module=f.get('module', ''))
        else:
            warnings.filterwarnings(f['action'], message=f.get('message', ''),
                                    module=f.get('module', ''))
    if c['hook']:
        warnings.showwarning = lambda *a, **k: None
    with rio.Env():
        pass
    out = dict(excs=[None] * len(js), deltas=[])
    single = len(js) == 1

    def one(k):
        a = state()
        try:
            calls[k]()
        except BaseException as ex:
            out['excs'][k] = ex
        if single:
            d = delta(a, state())
            if d:
                out['deltas'].append(d)

    def work():
        ts = []
        first = 1 if c['main'] else 0
        for k in range(first, len(js)):
            ts.append(threading.Thread(target=one, args=(k,)))
        for t in ts:
            t.start()
        if first:
            one(0)
        for t in ts:
            t.join()

    def main():
        a = state()
        if c['env']:
            with rio.Env(**c['env']):
                b = state()
                work()
                d = delta(b, state())
        else:
            work()
            d = None
        d = d or delta(a, state())
        if d:
            out['deltas'].append(d)
    on_step = interrupter(_thread.get_ident()) if c['mode'] == 'wait' else None
    with CvThreads():
        before = state()
        r = ctx.simulate('main', main, cpus=c['cpus'], hazard=c.get('hazard'), limit=c['limit'],
                         on_step=on_step)
        after = state()
    for j in js:
        j.release()
    fired = r.faults.fired
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    if r.exc is not None and not flt.chain_has(r.exc, r.faults.injected):
        ctx.violation('unexpected-failure', err(r.exc))
        return
    ctx.nontrivial = bool(fired) or r.stats['live'] > 1
    what = ' + '.join(j['kind'] for j in c['jobs'])
    if fired:
        f = fired[-1]
        what += f", {f['kind']} at {f['site']} {f['what']} {f['where']}"
    for k, ex in enumerate(out['excs']):
        if ex is not None and not fired and c['mode'] != 'exists':
            ctx.violation('unexpected-failure', f'{what}: {err(ex)}')
            return
    ctx.evals += 1
    ctx.probe(f'callers:{len(js)}')
    if any(out['excs']):
        ctx.probe('raised')
    d = (out['deltas'] + [None])[0] or delta(before, after)
    ctx.check(d is None, 'not-restored', lambda: f'{what}: {d}')
