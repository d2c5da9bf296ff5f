"""C01: ortho pixels are right under every schedule and layout."""
import os

import numpy as np
import rasterio

from .. import world

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=150, thorough=1500)
NONTRIVIAL = 'the ortho has at least two tiles and 50 checked pixels'
ASSUMPTIONS = []
FIXED = []


def gen(rng, tier, index):
    c = world.gen(rng, special=.45)
    c['cpus'] = rng.choice([1, 2, 3, 4, 6])
    c['crs_arg'] = rng.choice(['str', 'obj', 'none'])
    return c


def run(ctx, c):
    from orthority.ortho import Ortho
    d = ctx.dir
    src, dem = os.path.join(d, 'src.tif'), os.path.join(d, 'dem.tif')
    world.make_source(c, src)
    world.make_dem(c, dem)
    out = os.path.join(d, 'a.tif')
    out2 = os.path.join(d, 'b.tif')
    cam = world.make_camera(c)
    opts = world.options(c)

    def go(path):
        def fn():
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o = Ortho(src, dem, cam, crs=world.ortho_crs(c), dem_band=c['dem_band'])
                o.process(path, **opts)
        return fn

    r = ctx.simulate('main', go(out), cpus=c['cpus'])
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'{type(r.exc).__name__}: {r.exc}')
        return
    a, m, info = world.read_out(out)
    v = world.judge_arrays(c, a, m, info)
    ctx.evals += v.valid * c['bands'] + v.invalid
    for kind, text in v.bad:
        ctx.violation(kind, text)
    if not v.bad:
        ctx.evals += 1
        for kind, text in world.overviews(c, out, a, m, info, world.effective(c, info)[2]):
            ctx.violation(kind, text)
        if c['driver'] == 'gtiff' and not world.effective(c, info)[2]:
            with rasterio.open(src) as ds:
                want = [int(x) for x in ds.colorinterp]
            ctx.check(info['colorinterp'] == want, 'colour',
                      lambda: f"colour interpretation {info['colorinterp']} instead of {want}")
    ctx.notes.append(v.valid)
    ctx.probe(f"special:{c.get('special')}")
    tiles = info['shape']
    if v.valid >= 50 and r.stats['live'] > 1:
        ctx.nontrivial = True
    ctx.probe(f"cam:{c['cam']}")
    # the same work, one thread after the other
    r2 = ctx.simulate('ref', go(out2), cpus=1, policy='default')
    if r2.exc is not None:
        ctx.violation('unexpected-failure', f'{type(r2.exc).__name__}: {r2.exc}')
        return
    a2, m2, info2 = world.read_out(out2)
    ctx.check(repr(info) == repr(info2), 'schedule-structure', lambda: f'{info} / {info2}')
    same = a.shape == a2.shape and np.array_equal(a, a2, equal_nan=a.dtype.kind == 'f')
    ctx.check(same, 'schedule-pixels', 'pixels differ from those of the sequential run')
    ctx.check(np.array_equal(m, m2), 'schedule-mask', 'mask differs from that of the sequential '
              'run')
