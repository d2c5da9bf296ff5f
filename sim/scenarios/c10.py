"""C10: camera results depend only on the current settings, not on past or concurrent use."""
import copy
import math
import os
import threading

import numpy as np

from .. import params, simfs, world
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=90, thorough=1500)
NONTRIVIAL = 'the camera was used before, or by two or more threads at once'
ASSUMPTIONS = [
    'settings are not changed while another thread uses the camera',
    'a fill value for no-data is always given',
    'after a fault in the middle of a settings change the setting is made again before the camera '
    'is used',
]
FIXED = []
DTYPES = ['uint8', 'uint8', 'uint16', 'int16', 'float32', 'float64']


def gen(rng, tier, index):
    kind = rng.choice(['pinhole', 'brown', 'brown', 'opencv', 'opencv', 'fisheye', 'fisheye',
                       'rpc'])
    W, H = rng.randrange(24, 72), rng.randrange(20, 56)
    if kind != 'rpc' and H > W:
        W, H = H, W
    c = dict(kind=kind, W=W, H=H, cpus=rng.choice([1, 2, 4]), stream=rng.random() < .5)
    if kind == 'rpc':
        c['rpc'] = params.gen_rpc(rng, (W, H))
        c['crs'] = rng.choice([None, world.WORLD, 'EPSG:4326'])
    else:
        p = params.gen_int(rng, kind, (W, H))
        for k in p:
            if k[0] == 'k' and rng.random() < .6:
                p[k] = rng.uniform(-.12, .12) if k == 'k1' else rng.uniform(-.03, .03)
        c['int'] = p
        c['set'] = dict(distort=rng.random() < .5, alpha=rng.choice([0., .3, 1., 1.]))
        c['pose'] = gen_pose(rng) if rng.random() < .9 else None
    c['ims'] = [dict(dtype=rng.choice(DTYPES), count=rng.choice([1, 3, 4]))
                for _ in range(rng.choice([1, 2]))]
    n = rng.choice([3, 6, 10, 16])
    c['ops'] = [gen_op(rng, c, True) for _ in range(n)]
    c['threads'] = []
    if rng.random() < .7:
        c['threads'] = [[gen_op(rng, c, False) for _ in range(rng.choice([1, 2, 3]))]
                        for _ in range(rng.choice([2, 2, 3, 5]))]
        if rng.random() < .4:
            # the same first operation everywhere
            for t in c['threads']:
                t[0] = dict(c['threads'][0][0])
    c['post'] = [gen_op(rng, c, True) for _ in range(rng.choice([1, 3]))]
    k = rng.random()
    c['hazard'] = None
    if k < .2:
        c['hazard'] = dict(line=dict(p=rng.choice([.01, .05]), kinds=['mem', 'rt'],
                                     skip=int(2 ** rng.uniform(0, 9))))
    elif k < .35:
        c['hazard'] = dict(io=dict(p=.4, kinds=['rio', 'eio', 'mem'],
                                   ops=['read', 'open']))
    c['limit'] = rng.choice([1, 1, 3])
    return c


def gen_pose(rng):
    t = .15 if rng.random() < .8 else 1.3  # (some see the horizon, where boundaries are refused)
    return dict(xyz=[world.E0 + rng.uniform(-300, 300), world.N0 + rng.uniform(-300, 300),
                     rng.uniform(400, 900)],
                opk=[rng.uniform(-t, t), rng.uniform(-t, t), rng.uniform(-3.1, 3.1)])


def gen_op(rng, c, settings):
    k = rng.random()
    frame = c['kind'] != 'rpc'
    if settings and frame and k < .4:
        w = rng.choice(['update', 'distort', 'alpha', 'alpha'])
        if w == 'update':
            return dict(op=w, pose=gen_pose(rng))
        if w == 'distort':
            return dict(op=w, v=rng.random() < .4)
        return dict(op=w, v=rng.choice([0., .3, .6, 1., 1.2]))
    op = rng.choice(['read', 'read', 'read', 'remap', 'remap', 'w2p', 'p2w', 'pbound', 'wbound',
                     'wsurf'])
    o = dict(op=op, seed=rng.randrange(10 ** 6), scribble=rng.random() < .4,
             im=rng.randrange(len(c['ims'])), interp=rng.choice(
                 ['nearest', 'bilinear', 'cubic', 'lanczos']),
             nodata=rng.choice([0, 0, 7, 'nan']))
    if op == 'read':
        n = c['ims'][o['im']]['count']
        o['indexes'] = rng.choice([None, None, 1, [1], [n], list(range(n, 0, -1))])
        o['dtype'] = rng.choice([None, None, 'float32', 'uint16'])
        o['form'] = rng.choice(['path', 'path', 'sim', 'ofile'])
    elif op == 'remap':
        o['kernel'] = rng.choice([[3, 3], [1, 1], [5, 3]])
        o['size'] = [rng.randrange(1, 30), rng.randrange(1, 30)]
        o['holes'] = rng.random() < .5
    elif op in ('w2p', 'p2w'):
        o['n'] = rng.choice([1, 2, 9])
        o['holes'] = rng.random() < .3
        o['zs'] = rng.choice(['scalar', 'array', 'one'])
    elif op in ('pbound', 'wbound', 'wsurf'):
        o['n'] = rng.choice([None, 8, 20])
        o['z'] = rng.uniform(60, 200) if rng.random() < .9 else 950.
        o['clip'] = rng.random() < .7
    return o


class World:
    def __init__(self, ctx, c):
        self.c = c
        self.paths = []
        for k, im in enumerate(c['ims']):
            rng = np.random.default_rng(7 + k)
            a = rng.integers(20, 200, (im['count'], c['H'], c['W'])).astype(im['dtype'])
            for p in (os.path.join(ctx.dir, f'im{k}.tif'),
                      os.path.join(simfs.STATE['root'], f'im{k}.tif')):
                world.tiff(p, a)
            self.paths.append(os.path.join(ctx.dir, f'im{k}.tif'))
            self.arrays = getattr(self, 'arrays', []) + [a]

    def new(self, st):
        """A new camera with the settings ``st``."""
        from orthority.camera import create_camera
        c = self.c
        if c['kind'] == 'rpc':
            return create_camera('rpc', (c['W'], c['H']), copy.deepcopy(c['rpc']), crs=c['crs'])
        p = params.int_param(dict(x=c['int']))['x']
        p.pop('cam_type')
        pose = st['pose'] or {}
        return create_camera(c['kind'], **p, distort=st['distort'], alpha=st['alpha'],
                             **{k: tuple(v) for k, v in pose.items()})

    def centre(self, st):
        c = self.c
        if c['kind'] != 'rpc':
            p = st['pose'] or dict(xyz=[world.E0, world.N0, 500.])
            x, y, z = p['xyz']
            ext = .5 * (z - 100)
            return x, y, ext, ext
        r = c['rpc']
        if c['crs'] == world.WORLD:
            from rasterio.warp import transform
            (x,), (y,) = transform('EPSG:4979', world.WORLD, [r['long_off']], [r['lat_off']])[:2]
            return x, y, 300., 300.
        return r['long_off'], r['lat_off'], r['long_scale'] * .7, r['lat_scale'] * .7


def apply(w, cam, o, st):
    """Run one operation; returns (list of results, problem or None)."""
    c = w.c
    rng = np.random.default_rng(o['seed'])
    x0, y0, ex, ey = w.centre(st)
    nodata = math.nan if o['nodata'] == 'nan' else o['nodata']
    from orthority.enums import Interp
    op = o['op']
    ins = []
    if op == 'read':
        kw = dict(indexes=o['indexes'], dtype=o['dtype'], interp=o['interp'])
        dt = o['dtype'] or c['ims'][o['im']]['dtype']
        kw['nodata'] = nodata if dt.startswith('float') or o['nodata'] != 'nan' else 0
        p = w.paths[o['im']]
        if o['form'] == 'sim':
            p = f"sim://im{o['im']}.tif"
        elif o['form'] == 'ofile':
            import fsspec
            p = fsspec.open(p, 'rb')
        if isinstance(o['indexes'], list):
            kw['indexes'] = list(o['indexes'])
            ins = [np.array(o['indexes'])]
        res = [cam.read(p, **kw)]
        if ins and kw['indexes'] != o['indexes']:
            return res, 'indexes'
        return res, None
    if op == 'remap':
        im = w.arrays[o['im']].copy()
        h, wd = o['size']
        y, x = np.meshgrid(np.linspace(y0 + ey, y0 - ey, h), np.linspace(x0 - ex, x0 + ex, wd),
                           indexing='ij')
        z = rng.uniform(80, 120, x.shape)
        if o['holes']:
            z[rng.random(z.shape) < .1] = np.nan
        if im.dtype.kind != 'f' and o['nodata'] == 'nan':
            nodata = 0
        ins = [im, x, y, z]
        kw = dict(nodata=nodata, interp=o['interp'])
        if c['kind'] != 'rpc':
            kw['kernel_size'] = tuple(o['kernel'])
        call = lambda: list(cam.remap(im, x, y, z, **kw))  # noqa
    elif op == 'w2p':
        xyz = np.array([rng.uniform(x0 - ex, x0 + ex, o['n']), rng.uniform(y0 - ey, y0 + ey,
                                                                         o['n']),
                        rng.uniform(80, 120, o['n'])])
        if o['holes']:
            xyz[2, 0] = np.nan
        ins = [xyz]
        call = lambda: [cam.world_to_pixel(xyz)]  # noqa
    elif op == 'p2w':
        ji = np.array([rng.uniform(0, c['W'] - 1, o['n']), rng.uniform(0, c['H'] - 1, o['n'])])
        z = rng.uniform(80, 120, o['n'])
        if o['zs'] == 'scalar':
            z = float(z[0])
        elif o['zs'] == 'one' and o['n'] > 1:
            ji = ji[:, :1]
        if o['holes']:
            ji = ji.copy()
            ji[1, 0] = np.nan
        if rng.random() < .2:
            ji = ji.astype('float32')
        ins = [ji] + ([z] if isinstance(z, np.ndarray) else [])
        call = lambda: [cam.pixel_to_world_z(ji, z)]  # noqa
    elif op == 'pbound':
        call = lambda: [cam.pixel_boundary(num_pts=o['n'])]  # noqa
    elif op == 'wbound':
        kw = {} if c['kind'] == 'rpc' else dict(clip=o['clip'])
        call = lambda: [cam.world_boundary(o['z'], num_pts=o['n'], **kw)]  # noqa
    else:
        from rasterio.transform import from_origin
        z = rng.uniform(90, 110, (12, 14)).astype('float32')
        if rng.random() < .5:
            z[3:5, 2:6] = np.nan
        t = from_origin(x0 - 2 * ex, y0 + 2 * ey, 4 * ex / 14, 4 * ey / 12)
        ins = [z]
        kw = {} if c['kind'] == 'rpc' else dict(clip=o['clip'])
        call = lambda: [cam.world_boundary(z, num_pts=o['n'], transform=t,  # noqa
                                           interp=Interp[o['interp']], **kw)]
    before = [a.copy() for a in ins]
    res = call()
    for k, (a, b) in enumerate(zip(ins, before)):
        if a.dtype != b.dtype or a.shape != b.shape or not np.array_equal(
                a, b, equal_nan=a.dtype.kind == 'f'):
            return res, f'array argument {k}'
    return res, None


def same(a, b):
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype:
            return f'{x.dtype} {x.shape} instead of {y.dtype} {y.shape}'
        if x.dtype == 'float64' and x.ndim == 2:
            ok = np.isclose(x, y, rtol=1e-11, atol=1e-8, equal_nan=True)
        else:
            ok = (x == y) | ((x != x) & (y != y))
        if not ok.all():
            p = tuple(int(v) for v in np.argwhere(~ok)[0])
            return f'{int((~ok).sum())} of {ok.size} values differ, first at {p}: {x[p]} instead ' \
                   f'of {y[p]}'
    return None


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    w = World(ctx, c)
    st = dict(pose=c.get('pose'), **c.get('set', {}))
    problems = []

    def one(cam, o, st, at):
        f = ctx.live[2]
        try:
            res, mod = apply(w, cam, o, st)
            exc = None
        except Exception as ex:
            if any(ex is i for i in f.injected) or _chain(ex, f.injected):
                ctx.probe('faulted')
                return
            exc, res, mod = ex, None, None
        got.append((at, o, dict(st), res if res is None else [r.copy() for r in res], exc, mod))
        if res is not None and o['scribble']:
            for r in res:
                if r.flags.writeable:
                    r[...] = 99 if r.dtype != bool else True

    def settings(cam, o, st):
        f = ctx.live[2]
        f.enabled = False
        if o['op'] == 'update':
            st['pose'] = o['pose']
            cam.update(xyz=tuple(o['pose']['xyz']), opk=tuple(o['pose']['opk']))
        elif o['op'] == 'distort':
            st['distort'] = cam.distort = o['v']
        else:
            st['alpha'] = cam.alpha = o['v']
        f.enabled = True
        if o['op'] != 'update' and (cam.distort != st['distort'] or cam.alpha != st['alpha']):
            problems.append(('setting-lost', f'{o}: {cam.distort} {cam.alpha}'))
    got = []

    def main():
        cam = w.new(st)
        for k, o in enumerate(c['ops']):
            if o['op'] in ('update', 'distort', 'alpha'):
                settings(cam, o, st)
            else:
                one(cam, o, st, f'step {k}')
        if c['threads']:
            errs = []

            def body(k):
                try:
                    for i, o in enumerate(c['threads'][k]):
                        one(cam, o, st, f'thread {k} step {i}')
                except BaseException as ex:
                    errs.append(ex)
            ts = [threading.Thread(target=body, args=(k,)) for k in range(len(c['threads']))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
        for k, o in enumerate(c['post']):
            if o['op'] in ('update', 'distort', 'alpha'):
                settings(cam, o, st)
            else:
                one(cam, o, st, f'later step {k}')
    r = ctx.simulate('main', quiet(main), cpus=c['cpus'], hazard=c['hazard'], limit=c['limit'])
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    if r.exc is not None:
        if not _chain(r.exc, r.faults.injected):
            ctx.violation('unexpected-failure', err(r.exc))
        return
    ctx.nontrivial = len(got) > 1
    ctx.probe('kind:' + c['kind'])

    def end():
        for at, o, s, res, exc, mod in got:
            ctx.evals += 1
            desc = f"{c['kind']} {at} {o}, settings {s}"
            if mod:
                problems.append(('input-modified', f'{desc}: {mod} was modified'))
            try:
                want, _ = apply(w, w.new(s), o, s)
            except Exception as ex:
                if exc is None or type(exc) is not type(ex):
                    problems.append(('history', f'{desc}: a new camera raises {err(ex)}, this one '
                                     f'{exc!r}'))
                continue
            if exc is not None:
                problems.append(('history', f'{desc}: raised {err(exc)}, a new camera does not'))
                continue
            d = same(res, want)
            if d:
                problems.append(('history', f'{desc}: {d} of a new camera'))
    r = ctx.simulate('end', quiet(end), policy='default', cpus=1)
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'end: {err(r.exc)}')
    for kind, text in problems[:3]:
        ctx.violation(kind, text)


def _chain(exc, injected):
    from .. import faults as flt
    return flt.chain_has(exc, injected)
