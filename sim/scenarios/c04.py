"""C04: a failure anywhere in the work is raised, never a silent success."""
import os

from .. import faults as flt, jobs, panworld, world
from .c16 import plain, usable
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=120, thorough=1500)
NONTRIVIAL = 'at least one fault was injected'
ASSUMPTIONS = [
    'raster faults are raised at the rasterio call (before it, or after it had its effect); storage '
    'faults at the file-system call; failing allocations and computations at a source line of the '
    'library, in any thread',
    'a full local disk is simulated with a file size limit on the process',
]

IO_OPS = dict(read=['read', 'read_masks', 'dataset_mask', 'sample'], write=['write', 'write_mask'],
              ovw=['build_overviews'], open=['open'], meta=['tags', 'rpcs', 'gcps'],
              close=['close'], compute=['compute'],
              any=['read', 'read_masks', 'dataset_mask', 'write', 'write_mask', 'build_overviews',
                   'open', 'tags', 'rpcs', 'gcps', 'close', 'compute'])
FS_OPS = dict(out=['write', 'flush', 'close'], close=['close', 'flush'], open=['open'],
              read=['read'], any=['open', 'read', 'write', 'flush', 'close', 'rm', 'exists'])


def gen_hazard(rng, kind, line_kinds=('mem', 'rt'), cfg=None):
    """A seeded hazard for a job of this kind."""
    sites = dict(ortho=['io', 'io', 'io', 'line', 'fs'], pan=['io', 'io', 'io', 'line', 'fs'],
                 read=['io', 'io', 'line', 'fs'], write=['fs', 'fs', 'line'],
                 export=['fs', 'fs', 'line'], fread=['fs', 'fs', 'line'], fit=['io', 'line'])[kind]
    site = rng.choice(sites)
    if site == 'io':
        groups = ['read', 'write', 'write', 'ovw', 'open', 'close', 'any'] if kind in (
            'ortho', 'pan') else ['open', 'meta', 'meta', 'any']
        if kind == 'ortho':
            groups.append('compute')
        elif kind == 'fit':
            groups = ['compute']
        ops = IO_OPS[rng.choice(groups)]
        p = rng.choice([.5, .5, 1]) if len(ops) == 1 else rng.choice([.01, .04, .15, .5])
        kinds = ['rio', 'rio', 'eio', 'enospc', 'mem', 'rt', 'val']
        if ops == IO_OPS['compute']:
            p, kinds = rng.choice([.01, .04, .15, .5]), ['cv', 'mem', 'rt', 'val']
    elif site == 'fs':
        ops = FS_OPS[rng.choice(['out', 'close', 'open', 'any'] if kind in ('write', 'export')
                                else ['open', 'read', 'any'] if kind in ('read', 'fread')
                                else ['out', 'close', 'open', 'any', 'any'])]
        p = rng.choice([.1, .3, 1])
        kinds = ['eio', 'enospc', 'eacces', 'timeout']
        if kind == 'fread' and cfg and cfg['c'].get('prj') and cfg['c']['what'] == 'csv' and \
                rng.random() < .5:  # the file with the CRS, beside the one that was named
            return dict(fs=dict(p=1, kinds=kinds, ops=FS_OPS['any'], where='.prj'))
    else:
        ops = None
        p = rng.choice([.003, .01, .03, .1])
        kinds = list(line_kinds)
    h = dict(p=p, kinds=kinds)
    if ops:
        h['ops'] = ops
    if kind in ('ortho', 'pan', 'read') and site != 'fs':
        if rng.random() < (.5 if site == 'line' else .15):
            h['worker'] = True
        if rng.random() < .5:
            h['skip'] = int(2 ** rng.uniform(0, 9 if site == 'line' else 5))
    return {site: h}


FIXED = [dict(mode='diskfull', size=3000), dict(mode='diskfull', size=9000)]


def gen(rng, tier, index):
    kw = dict(pan=dict(multi=True)) if rng.random() < .04 else {}
    job = jobs.gen(rng, kinds=('ortho',) * 10 + ('pan',) * 6 + ('read',) * 6 + (
        'write', 'write', 'export', 'export', 'fread', 'fread', 'fit'), **kw)
    if job['kind'] == 'ortho' and rng.random() < .3:
        job['c']['ovw'] = True
    hazard = gen_hazard(rng, job['kind'], cfg=job)
    if job['kind'] in ('ortho', 'pan') and rng.random() < .03:
        # an output large enough for overviews, which cannot be built
        if job['kind'] == 'ortho':
            world.make_big(rng, job['c'])
        else:
            job['c'] = panworld.gen(rng, multi=False, simple=True, big=1)
        job['c']['ovw'] = True
        hazard = dict(io=dict(ops=IO_OPS['ovw'], p=1,
                              kinds=['rio', 'rio', 'eio', 'enospc', 'mem', 'rt', 'val']))
    return dict(mode='fault', job=job, hazard=hazard,
                limit=rng.choice([1, 1, 1, 2, 4]), stream=rng.random() < .5,
                over=rng.random() < .2, cpus=rng.choice([1, 2, 3, 4]))


def run(ctx, c):
    if c['mode'] == 'diskfull':
        return disk_full(ctx, c)
    from .. import simfs
    simfs.STATE['stream'] = c['stream']
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()
    if not usable(ctx, job):
        return
    if c['over']:
        from .c16 import fill
        for p in job.outs():
            fill(p, 'text')
    r = ctx.simulate('main', quiet(job.prepare(overwrite=c['over'])), cpus=c['cpus'],
                     hazard=c['hazard'], limit=c['limit'], io_filter=io_filter(job))
    job.release()
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    inj = r.faults.injected
    if not inj:
        if r.exc is not None:
            ctx.violation('unexpected-failure', err(r.exc))
        return
    ctx.nontrivial = True
    what = r.faults.fired[-1]
    desc = f"{cfg['kind']}: {what['kind']} at {what['site']} {what['what']} {what['where']} " \
           f"{what['phase']}#{what['k']} in thread {what['tid']}"
    if r.exc is not None:
        ctx.check(flt.chain_has(r.exc, inj, True), 'cause-lost', lambda: f'{desc}: raised {err(r.exc)}, '
                  f'whose cause chain does not hold the failure')
        return
    # it says that all is well: the output has to be that of an undisturbed run
    ref = jobs.new(plain(cfg), os.path.join(ctx.dir, 'ref'))
    ref.make()
    r2 = ctx.simulate('ref', quiet(ref.prepare()), cpus=1, policy='default')
    ref.release()
    if r2.exc is not None:
        ctx.violation('unexpected-failure', err(r2.exc))
        return
    want = ref.collect()
    try:
        got = job.collect()
        if cfg['kind'] in ('ortho', 'pan') and cfg['c']['driver'] == 'cog' and \
                jobs.is_sim(cfg['outf']):
            got[2].pop('colorinterp')
            want[2].pop('colorinterp')
        d = job.same(got, want)
    except Exception as ex:
        d = f'unreadable output: {err(ex)}'
    ctx.check(d is None, 'silent-success', lambda: f'{desc}: the call returned normally, but {d}')
    ctx.probe('tolerated')


def io_filter(job):
    if job.kind in ('ortho', 'pan'):
        ins = {'src.tif', 'dem.tif', 'pan.tif', 'ms.tif'}
        return lambda tid, op, name, phase: op != 'close' or name not in ins and 'vrt' not in \
            name.lower() and name.endswith('.tif') and not name.startswith('<')
    return lambda tid, op, name, phase: op != 'close'


def disk_full(ctx, c):
    """The local disk fills up while the ortho is written."""
    import random
    from ..jobs import OrthoJob
    rng = random.Random(5)
    while True:
        cfg = OrthoJob.gen(rng)
        cc = cfg['c']
        if cc['cam'] == 'pinhole' and cc['driver'] == 'gtiff':
            break
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()

    def body(x):
        r = x.simulate('main', quiet(job.prepare()), cpus=2)
        return r.exc is None
    ok = ctx.phase(body, rlimit_fsize=c['size'])
    ctx.nontrivial = True
    ctx.evals += 1
    if ok:
        try:
            bad = job.truth()
            bad = bad[0][1] if bad else None
        except Exception as ex:
            bad = f'unreadable output: {err(ex)}'
        if bad:
            ctx.violation('disk-full-silent', f'the disk is full after {c["size"]} bytes: the call '
                          f'returned normally, but {bad}')
