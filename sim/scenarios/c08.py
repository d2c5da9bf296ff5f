"""C08: batch readers give each file its own data, in file order, and name the failing file."""
import os

import numpy as np

from .. import faults as flt, jobs, params, simfs, world
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=60, thorough=1500)
NONTRIVIAL = 'the list has two or more files'
ASSUMPTIONS = [
    'the files of a list have different names, also without their extension; images with the same '
    'camera make, model and serial number have the same interior parameters',
    'which of several deficient EXIF files is the first is only decided among files with the same '
    'kind of deficiency (interior and exterior parameters are read one after the other)',
]
FIXED = []


def gen(rng, tier, index):
    what = rng.choice(['rpc', 'rpc', 'gcp', 'gcp', 'exif', 'exif', 'exif', 'exifcams', 'rpccams',
                       'gcprefine'])
    n = rng.choice([1, 2, 3, 3, 5, 8, 13])
    job = jobs.BatchRead.gen(rng, 'rpc' if what == 'gcprefine' else what, n)
    if rng.random() < .6:
        jobs.BatchRead.gen_forms(rng, job)
    names = job['c']['names']
    c = dict(job=job, what=what, stream=rng.random() < .5, cpus=rng.choice([1, 1, 2, 3, 4]),
             bad={}, fault=None, progress=rng.random() < .2, tup=rng.random() < .2)
    k = rng.random()
    if k < .5:
        pass
    elif k < .8:
        m = rng.choice([1, 1, 2, 3])
        sel = rng.sample(names, min(m, n))
        exif = what.startswith('exif')
        kinds = ['missing', 'corrupt', 'none'] if not exif else ['missing', 'corrupt']
        if exif and rng.random() < .6:
            kinds = [rng.choice(['nolla', 'norpy', 'nofocal', 'none'])]
        for nm in sel:
            c['bad'][nm] = rng.choice(kinds)
    else:
        op = rng.choice(['open', 'open', 'meta', 'meta', 'close', 'fs', 'fs'])
        c['fault'] = dict(name=rng.choice(names), op=op, kind=rng.choice(
            ['eio', 'eacces', 'timeout'] if op == 'fs' else ['rio', 'eio', 'mem', 'rt', 'val']))
        if op == 'fs':
            job['inf'][c['fault']['name']] = rng.choice([f for f in jobs.RIN if jobs.is_sim(f) and
                                                         not f.endswith('fobj')])
    return c


def harm(job, nm, kind):
    """Make one file unreadable or deficient.  Returns whether that worked."""
    c = job.c
    p = job.place(nm, job.cfg['inf'][nm])
    if job.cfg['inf'][nm] == 'ds' and kind in ('missing', 'corrupt'):
        job.cfg['inf'][nm] = 'path'
    if kind == 'missing':
        os.remove(p)
    elif kind == 'corrupt':
        with open(p, 'wb') as f:
            f.write(b'this is not an image file')
    elif kind == 'none':
        world.tiff(p, (np.arange(30 * 20).reshape(1, 20, 30) % 200 + 3).astype('uint8'))
    else:
        e = dict(c['exif'][nm])
        if kind == 'nofocal':
            e.update(focal=None, dewarp=None)
        else:
            e[dict(nolla='lla', norpy='rpy')[kind]] = None
        params.exif_image(p, e)


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()
    names = cfg['c']['names']
    for nm, kind in c['bad'].items():
        harm(job, nm, kind)
    what = c['what']
    ctx.nontrivial = len(names) > 1
    prog = dict(file=Null(), mininterval=0) if c['progress'] else False
    if what == 'gcprefine':
        call = refine_call(job, c)
    else:
        call = job.prepare(progress=prog)
    fired = []

    def listener(phase, ds, op, args, kwargs, thread):
        pass
    kw = {}
    f = c['fault']
    if f and f['op'] == 'fs':
        kw = dict(hazard=dict(fs=dict(p=1, kinds=[f['kind']], ops=['open', 'read'],
                                      where=f['name'])))
    elif f:
        ops = dict(open=['open'], meta=['tags', 'rpcs', 'gcps'], close=['close'])[f['op']]
        kw = dict(hazard=dict(io=dict(p=1, kinds=[f['kind']], ops=ops)),
                  io_filter=lambda tid, op, name, phase: name == f['name'])
    r = ctx.simulate('main', quiet(call), cpus=c['cpus'], **kw)
    job.release()
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    fired = r.faults.fired
    desc = f'{what} from {len(names)} files'
    ctx.probe('what:' + what)
    first = next((nm for nm in names if nm in c['bad']), None)
    if fired:
        desc += f", {fired[-1]['kind']} at {fired[-1]['what']} of {f['name']}"
        if f['op'] != 'close' or r.exc is not None:
            first = f['name']
    elif c['bad']:
        desc += f", {', '.join(f'{k} {v}' for k, v in c['bad'].items())}"
    if first is not None:
        ctx.probe('failing')
        if not ctx.check(r.exc is not None, 'failure-lost',
                         f'{desc}: the call returned normally'):
            return
        text = str(r.exc)
        ctx.check(first in text, 'wrong-file', lambda: f'{desc}: the error does not name the first '
                  f'failing file {first}: {err(r.exc)}')
        others = [nm for nm in c['bad'] if nm != first and nm in text and nm not in first]
        ctx.check(not others, 'wrong-file', lambda: f'{desc}: the error names {others}, not only '
                  f'the first failing file {first}: {err(r.exc)}')
        if fired:
            ctx.check(flt.chain_has(r.exc, r.faults.injected), 'cause-lost',
                      lambda: f'{desc}: {err(r.exc)}')
        elif c['bad'][first] == 'missing':
            ctx.check(isinstance(r.exc, FileNotFoundError), 'wrong-error',
                      lambda: f'{desc}: {err(r.exc)} for a missing file')
        return
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'{desc}: {err(r.exc)}')
        return
    for kind, text in job.truth() or []:
        ctx.check(False, kind, f'{desc}: {text}')
    ctx.evals += 1
    if what in ('exifcams', 'rpccams') or len(names) > 1 and c['cpus'] == 2 and \
            what != 'gcprefine':
        one_by_one(ctx, c, job, desc)


class Null:
    def write(self, s):
        pass

    def flush(self):
        pass


def refine_call(job, c):
    """RPC cameras refined with the GCP tags of the images."""
    from orthority.factory import RpcCameras
    rp = params.rpc_param(job.c['rpcs'])
    files = [job.supply(nm, job.cfg['inf'][nm]) for nm in job.c['names']]
    if c['tup']:
        files = tuple(files)
    # only GCP tags count here
    bad = {k: v for k, v in c['bad'].items()}

    def call():
        from orthority.fit import refine_rpc
        f = RpcCameras(rp)
        f.refine(files)
        job.res2 = {nm: f.get(nm).world_to_pixel(jobs._probe(job.c['rpcs'][nm]))
                    for nm in job.c['names']}
        want = params.rpc_param(job.c['rpcs'])
        from orthority.camera import create_camera
        gcps = params.gcp_dict(job.c['gcps'])
        for nm in job.c['names']:
            w = dict(want[nm], rpc=refine_rpc(want[nm]['rpc'], gcps[nm]))
            x = create_camera(**w).world_to_pixel(jobs._probe(job.c['rpcs'][nm]))
            if np.abs(x - job.res2[nm]).max() > 1e-3:
                job.wrong.append(nm)
    job.wrong = []
    job.res = None
    job.truth = lambda: [('mixed-up', f'refined with the GCPs of another image: {job.wrong}')] \
        if job.wrong else []
    del bad
    return call


def one_by_one(ctx, c, job, desc):
    """The same from one file at a time."""
    cfg = job.cfg
    got = job.collect()
    for nm in cfg['c']['names'][:3]:
        c1 = dict(cfg['c'], names=[nm])
        if c1['what'] == 'exif' or c1['what'] == 'exifcams':
            c1['crs'] = c1['crs'] or world.WORLD
        j1 = jobs.new(dict(cfg, c=c1, inf={nm: 'path' if cfg['inf'][nm] == 'ds' else
                                           cfg['inf'][nm]}), job.d)
        r = ctx.simulate(f'one-{nm}', quiet(j1.prepare()), cpus=1, policy='default')
        j1.release()
        if r.exc is not None:
            ctx.violation('unexpected-failure', f'{nm} alone: {err(r.exc)}')
            return
        one = j1.collect()
        if c1['what'] == 'exif':
            a, b = got['ext'][nm], one['ext'][nm]
        else:
            a, b = got[nm], one[nm]
        d = None if params.close(a, b, 1e-9) else f'{a} / {b}'
        ctx.check(d is None, 'mixed-up', lambda: f'{desc}: {nm} differs when read alone: {d}'[:900])
