"""C02: a raster handle is never used by two threads at once, nor after closing."""
import os

from .. import jobs, panworld
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=80, thorough=1500)
NONTRIVIAL = 'two or more threads were runnable and at least four pixel operations were made'
ASSUMPTIONS = ['a WarpedVRT and the dataset under it count as one underlying dataset']
FIXED = []


def gen(rng, tier, index):
    kind = rng.choice(['ortho', 'ortho', 'pan', 'pan', 'self'])
    kw = dict(multi=True) if kind == 'pan' and rng.random() < .25 else {}
    cfg = jobs.KINDS['pan' if kind == 'self' else kind].gen(rng, **kw)
    if kind == 'ortho' and rng.random() < .4:
        cfg['c']['per_band'] = True
    if kind != 'self' and rng.random() < .6:
        for k in cfg['inf']:
            cfg['inf'][k] = rng.choice(['ds', 'ds', 'path', 'sim'])
        cfg['outf'] = rng.choice(['path', 'path', 'sim'])
        if cfg['c'].get('dem') == 'feet':
            cfg['inf']['dem'] = 'path'
    fault = rng.choice([None, None, 'read', 'write', 'any'])
    return dict(job=cfg, self=kind == 'self', fault=fault, p=rng.choice([.02, .1, .4]),
                cpus=rng.choice([2, 3, 4, 6, 8]))


def run(ctx, c):
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()
    if c['self']:
        from orthority.pan_sharp import PanSharpen
        ds = job.supply('ms.tif', 'ds')
        out = job.out_arg()
        opts = dict(panworld.options(cfg['c']), pan_index=1)
        call = lambda: PanSharpen(ds, ds).process(out, **opts)  # noqa
    else:
        call = job.prepare()
    hazard = None
    if c['fault']:
        ops = dict(read=['read'], write=['write', 'write_mask', 'build_overviews'],
                   any=['read', 'write', 'write_mask', 'build_overviews', 'close'])[c['fault']]
        hazard = dict(io=dict(p=c['p'], ops=ops, kinds=['rio', 'eio', 'mem']))
    r = ctx.simulate('main', quiet(call), cpus=c['cpus'], hazard=hazard, limit=2)
    # threads which outlive the call have run to their end by now
    for kind, text in r.mon.problems[:3]:
        ctx.violation(kind, text)
    n = sum(r.mon.ops.get(k, 0) for k in ('read', 'write', 'write_mask'))
    ctx.evals += sum(r.mon.ops.values())
    job.release()
    if r.exc is not None and not r.faults.fired and (job.kind == 'ortho' or (
            not c['self'] and job.usable())):
        ctx.violation('unexpected-failure', err(r.exc))
    ctx.nontrivial = r.stats['live'] > 1 and n >= 4
    ctx.probe('faulted', bool(r.faults.fired))
    if c['self']:
        ctx.probe('one dataset in two roles')
