"""C03: pan-sharpened pixels are right whatever order tiles complete in."""
import os

import numpy as np

from .. import panworld as pw, world
from .util import quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=120, thorough=1500)
NONTRIVIAL = 'the result was compared with the whole-image reference on at least 50 pixels while ' \
             'two or more threads were runnable'
ASSUMPTIONS = ['GDAL WarpedVRT resampling is trusted (the reference reads through it, in one '
               'piece); images in different reference systems are only compared between schedules',
               'no-data covers all bands of an image, but for one fixed case']
FIXED = [dict(mode='partial')]


def gen(rng, tier, index):
    c = pw.gen(rng, big=.04)
    c['cpus'] = rng.choice([1, 2, 3, 4, 6])
    return c


def partial(ctx, c):
    """A hole in one MS band leaves the rest of the image what a hole in all bands leaves."""
    import random
    from orthority.pan_sharp import PanSharpen
    q = pw.gen(random.Random(7), multi=False, simple=True)
    q.update(bands=3, ms_indexes=None, weights=[1, 2, 3], alpha=False, mcrs=None, off=[0, 0],
             mw=24, mh=22, pan_nodata=None, pan_hole=None, ms_nodata=True,
             ms_hole=[.1, .1, .4, .4], dtype='int16', pan_dtype='float32', odtype='float32',
             interp='nearest', driver='gtiff', layout=dict(tiled=False, blockysize=16),
             ovw=False, write_mask=False)
    res = []
    for k, bands in enumerate(([1], None)):
        p = [os.path.join(ctx.dir, f'{n}{k}.tif') for n in ('pan', 'ms', 'out')]
        pw.make(dict(q, ms_hole_bands=bands), *p[:2])
        r = ctx.simulate(f'p{k}', quiet(lambda: PanSharpen(*p[:2]).process(
            p[2], **pw.options(q))), cpus=2)
        if r.exc is not None:
            ctx.violation('unexpected-failure', f'{type(r.exc).__name__}: {r.exc}')
            return
        res.append(world.read_out(p[2])[0])
    ctx.nontrivial = True
    ok = ~np.isnan(res[1]).any(0)
    e = np.abs(res[0] - res[1]).max(0)[ok]
    ctx.check(not (e > 1e-2).any(), 'partial-nodata', lambda: f'a hole in one MS band changes '
              f'{int((e > 1e-2).sum())} of {e.size} pixels outside it, by up to {np.nanmax(e)}')


def run(ctx, c):
    from orthority.pan_sharp import PanSharpen
    if c.get('mode') == 'partial':
        return partial(ctx, c)
    d = ctx.dir
    pan, ms = os.path.join(d, 'pan.tif'), os.path.join(d, 'ms.tif')
    pw.make(c, pan, ms)
    out, out2 = os.path.join(d, 'a.tif'), os.path.join(d, 'b.tif')
    opts = pw.options(c)
    ref = pw.reference(c, pan, ms, None)
    if ref is None:
        ctx.probe('degenerate')
        return

    def go(path):
        @quiet
        def fn():
            PanSharpen(pan, ms).process(path, **opts)
        return fn
    r = ctx.simulate('main', go(out), cpus=c['cpus'])
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'{type(r.exc).__name__}: {r.exc}')
        return
    a, m, info = world.read_out(out)
    bad, n = pw.judge(c, a, m, info, ref)
    ctx.evals += n * a.shape[0]
    if not bad:
        bad = world.overviews(c, out, a, m, info, 'jpeg' in info['compress'].lower())
    for kind, text in bad:
        ctx.violation(kind, text)
    ctx.probe('stat_tiles>1', ref['stat_tiles'] > 1)
    ctx.probe(f"georef:{c['georef']}")
    if n >= 50 and r.stats['live'] > 1:
        ctx.nontrivial = True
    r2 = ctx.simulate('ref', go(out2), cpus=1, policy='default')
    if r2.exc is not None:
        ctx.violation('unexpected-failure', f'{type(r2.exc).__name__}: {r2.exc}')
        return
    a2, m2, info2 = world.read_out(out2)
    ctx.check(repr(info) == repr(info2), 'schedule-structure', lambda: f'{info} / {info2}')
    if a.shape == a2.shape:
        e = np.abs(a.astype('float64') - a2.astype('float64'))
        both = ~(np.isnan(a.astype('float64')) & np.isnan(a2.astype('float64')))
        tol = 1 if a.dtype.kind != 'f' else 1e-4 * np.nanmax(np.abs(a2), initial=1)
        if 'jpeg' in info['compress'].lower():
            tol = 12
        e = np.where(np.isnan(e), np.inf, e)
        ctx.check(not (both & (e > tol)).any(), 'schedule-pixels',
                  'pixels differ from those of the sequential run')
        ctx.check(np.array_equal(m, m2) or ref['values'] is None or not np.any(
            (m != m2) & _clear(c, ref)), 'schedule-mask',
            'mask differs from that of the sequential run')


def _clear(c, ref):
    nd = pw.nod(c['odtype'] or c['dtype'])
    if nd != nd:
        return np.ones(ref['shape'], bool)
    return ~(np.abs(ref['values'] - nd) <= 2).any(0) | ~ref['valid']
