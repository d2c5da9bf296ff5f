"""C09: a camera obtained for one image stays the camera of that image; arguments stay as they are."""
import copy
import os
import threading

import numpy as np

from .. import jobs, params, simfs, world
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=80, thorough=1500)
NONTRIVIAL = 'cameras of two or more images, or of two threads, are held at once'
ASSUMPTIONS = [
    'refine() is not run at the same time as get() in another thread',
    'the same image is not refined by a call that fails and then compared (a failed refine() may '
    'have refined some images)',
]
FIXED = []

FORMS = ['name', 'path', 'pathlike', 'uri', 'ofile', 'ds', 'stem']


def gen(rng, tier, index):
    kind = rng.choice(['frame', 'frame', 'rpc', 'rpc'])
    c = dict(kind=kind, stream=rng.random() < .5, cpus=rng.choice([1, 2, 3]))
    if kind == 'frame':
        c['src'] = rng.choice(['dict', 'dict', 'dict', 'file', 'csv', 'osfm', 'exif'])
        n = rng.choice([1, 2, 3, 6])
        if c['src'] == 'osfm':
            c['osfm'] = params.gen_osfm(rng, n)
            names = list(c['osfm']['shots'])
        elif c['src'] == 'exif':
            c['exif'] = params.gen_exif(rng, n=n)
            names = list(c['exif'])
        else:
            w = rng.randrange(60, 5000)
            c['frame'] = params.gen_frame(rng, n, size=(w, int(w * rng.uniform(.6, 1))))
            names = list(c['frame']['ext'])
            c['stemkeys'] = rng.random() < .25
            if len(c['frame']['int']) == 1 and c['src'] == 'dict' and rng.random() < .3:
                for p in c['frame']['ext'].values():
                    p['camera'] = None
            if c['src'] == 'dict' and rng.random() < .15:
                c['frame']['ext'][names[-1]]['camera'] = 'unknown camera'
        c['cam_kw'] = rng.choice([None, {}, dict(distort=False), dict(alpha=.3),
                                  dict(distort=False, alpha=0.), dict(distort=True, alpha=1.)])
    else:
        c['src'] = rng.choice(['dict', 'dict', 'dict', 'file', 'image'])
        c['rpcs'] = params.gen_rpcs(rng)
        names = list(c['rpcs'])
        c['gcps'] = params.gen_gcps(rng, c['rpcs'], n=rng.choice([3, 4, 5, 7]))
        c['stemkeys'] = c['src'] != 'image' and rng.random() < .25
        c['gcpstem'] = rng.random() < .25
        c['cam_kw'] = rng.choice([None, {}, dict(crs=world.WORLD), dict(crs='EPSG:4326'),
                                  dict(rpc_options=dict(max_iterations=25))])
    if c['src'] in ('dict', 'file') and not c['stemkeys'] and len(names) > 1 and \
            rng.random() < .25:
        # one image has the name of another without its extension: its own name comes first
        c['gcpstem'] = False
        c['twin'] = [names[0], os.path.splitext(names[0])[0]]
        re = lambda d: {c['twin'][1] if k == names[1] else k: v for k, v in d.items()}  # noqa
        if kind == 'frame':
            c['frame']['ext'] = re(c['frame']['ext'])
        else:
            c['rpcs'], c['gcps'] = re(c['rpcs']), re(c['gcps'])
        names = [names[0], c['twin'][1], *names[2:]]
    c['names'] = names
    c['ops'] = gen_ops(rng, c, rng.choice([4, 7, 12, 20]))
    c['threads'] = []
    if rng.random() < .6:
        for _ in range(rng.choice([2, 2, 3, 4])):
            c['threads'].append([o for o in gen_ops(rng, c, rng.choice([2, 4, 7]))
                                 if o['op'] in ('get', 'use', 'export', 'update', 'set', 'missing')])
    c['second'] = rng.random() < .5
    return c


def gen_ops(rng, c, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .5:
            out.append(dict(op='get', name=rng.choice(c['names']), form=rng.choice(FORMS)))
        elif k < .6:
            out.append(dict(op='use', i=rng.randrange(99)))
        elif k < .64:
            out.append(dict(op='missing'))
        elif k < .72:
            out.append(dict(op='export', fault=rng.random() < .3, sim=rng.random() < .5,
                            over=rng.random() < .6))
        elif c['kind'] == 'frame':
            if rng.random() < .5:
                out.append(dict(op='update', i=rng.randrange(99),
                                xyz=[world.E0 + rng.uniform(-99, 99),
                                     world.N0 + rng.uniform(-99, 99), rng.uniform(300, 900)],
                                opk=[rng.uniform(-.2, .2) for _ in range(3)]))
            else:
                out.append(dict(op='set', i=rng.randrange(99), distort=rng.random() < .5,
                                alpha=rng.choice([0., .25, 1.])))
        else:
            sel = [nm for nm in c['names'] if rng.random() < .6]
            if c.get('twin') and c['twin'][1] in sel and c['twin'][0] not in sel:
                sel.insert(0, c['twin'][0])  # (it would be given the GCPs of the other)
            out.append(dict(op='refine', names=sel, method=rng.choice(
                [None, 'shift', 'shift-drift']), file=rng.random() < .3,
                fail=rng.random() < .15))
    return out


def sig(cam):
    """What the camera does."""
    from orthority.camera import FrameCamera
    W, H = cam.im_size
    ji = np.array([[0., W / 3, W - 1], [0., H - 1, H / 2]])
    out = [type(cam).__name__, tuple(cam.im_size)]
    with np.errstate(all='ignore'):
        if isinstance(cam, FrameCamera):
            x, y, z = (float(v) for v in cam.pos)
            p = np.array([[x, x + 20, x - 11], [y, y - 14, y + 17], [z - 150, z - 120, z - 160]])
            out += [bool(cam.distort), float(cam.alpha), np.array([x, y, z]),
                    cam.world_to_pixel(p), cam.pixel_to_world_z(ji, z - 100.)]
        else:
            w = cam.pixel_to_world_z(ji, 100.)
            out += [cam.crs.to_string() if cam.crs else None, w, cam.world_to_pixel(w)]
    return out


def same(a, b):
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-11, atol=1e-7, equal_nan=True):
                return f'{x.tolist()} instead of {y.tolist()}'
        elif x != y:
            return f'{x} instead of {y}'
    return None


def arg(ctx, nm, form, hold):
    """An argument of get() that names the image."""
    import fsspec
    import rasterio as rio
    d = os.path.join(ctx.dir, 'im')
    p = os.path.join(d, nm)
    if form == 'path':
        return '/some/where/' + nm
    if form == 'pathlike':
        from pathlib import Path
        return Path('where') / nm
    if form == 'uri':
        return 'sim://dir/' + nm
    if form == 'ofile':
        return fsspec.open('sim://dir/' + nm, 'rb')
    if form == 'ds':
        ds = rio.open(p)
        hold.append(ds)
        return ds
    return nm


class Model:
    """What the factory has to give."""

    def __init__(self, ctx, c):
        self.c = c
        self.args = []  # (label, object, deep copy)
        c_kw = copy.deepcopy(c['cam_kw'])
        self.cam_kw = self.keep('cam_kwargs', c_kw)
        self.unsure = set()
        self.gcps = None

    def keep(self, label, x):
        self.args.append((label, x, copy.deepcopy(x)))
        return x

    def changed(self):
        for label, x, y in self.args:
            if not params.close(x, y, 0):
                return f'{label} changed from {y} to {x}'[:900]
        return None

    def key(self, nm):
        return os.path.splitext(nm)[0] if self.c.get('stemkeys') else nm


def rekey(m, d):
    return {m.key(k): v for k, v in d.items()}


def build(ctx, c, m):
    """Write the files; returns a function that creates the factory, and sets the model."""
    from orthority import param_io
    from orthority.factory import FrameCameras, RpcCameras
    d = os.path.join(ctx.dir, 'par')
    os.makedirs(d, exist_ok=True)
    p = lambda n: os.path.join(d, n)  # noqa
    src = c['src']
    if c['kind'] == 'frame':
        io = m.keep('io_kwargs', dict(crs=world.WORLD))
        if src == 'osfm':
            import json
            with open(p('reconstruction.json'), 'w', encoding='utf-8') as f:
                json.dump([c['osfm']], f)
            r = param_io.OsfmReader(p('reconstruction.json'), crs=world.WORLD)
            m.int, m.ext = r.read_int_param(), r.read_ext_param()
            return lambda: FrameCameras(p('reconstruction.json'), p('reconstruction.json'),
                                        io_kwargs=io, cam_kwargs=m.cam_kw)
        if src == 'exif':
            for nm, e in c['exif'].items():
                params.exif_image(p(nm), e)
            files = m.keep('files', [p(nm) for nm in c['exif']])
            r = param_io.ExifReader(list(files), crs=world.WORLD)
            m.int, m.ext = r.read_int_param(), r.read_ext_param()
            return lambda: FrameCameras.from_images(files, io_kwargs=io, cam_kwargs=m.cam_kw)
        m.int = params.int_param(c['frame']['int'])
        m.ext = rekey(m, params.ext_param(c['frame']['ext']))
        if src == 'dict':
            a = m.keep('int_param', copy.deepcopy(m.int))
            b = m.keep('ext_param', copy.deepcopy(m.ext))
            return lambda: FrameCameras(a, b, io_kwargs=io, cam_kwargs=m.cam_kw)
        params.int_file(p('int.yaml'), c['frame']['int'])
        if src == 'file':
            params.ext_file(p('ext.geojson'), rekey(m, c['frame']['ext']), world.WORLD)
            return lambda: FrameCameras(p('int.yaml'), p('ext.geojson'), io_kwargs=io,
                                        cam_kwargs=m.cam_kw)
        params.csv_file(p('ext.csv'), rekey(m, c['frame']['ext']), False, True)
        return lambda: FrameCameras(p('int.yaml'), p('ext.csv'), io_kwargs=io,
                                    cam_kwargs=m.cam_kw)
    m.rpc = rekey(m, params.rpc_param(c['rpcs']))
    if src == 'dict':
        a = m.keep('rpc_param', copy.deepcopy(m.rpc))
        return lambda: RpcCameras(a, cam_kwargs=m.cam_kw)
    if src == 'file':
        params.rpc_file(p('rpc.yaml'), rekey(m, c['rpcs']))
        return lambda: RpcCameras(p('rpc.yaml'), cam_kwargs=m.cam_kw)
    for nm in c['rpcs']:
        params.rpc_image(p(nm), c['rpcs'][nm])
    files = m.keep('files', [p(nm) for nm in c['rpcs']])
    m.rpc = param_io.read_im_rpc_param(list(files))
    return lambda: RpcCameras.from_images(files, cam_kwargs=m.cam_kw)


def wanted(c, m, nm):
    """A directly created camera, or None when there can be none."""
    from orthority.camera import create_camera
    kw = copy.deepcopy(c['cam_kw']) or {}
    if c['kind'] == 'rpc':
        return create_camera(**copy.deepcopy(m.rpc[m.key(nm)]), **kw)
    e = m.ext[m.key(nm)]
    cid = e['camera'] or list(m.int)[0]
    if cid not in m.int:
        return None
    cam = create_camera(**copy.deepcopy(m.int[cid]), **kw)
    cam.update(xyz=e['xyz'], opk=e['opk'])
    return cam


class Held:
    def __init__(self, nm, cam, want, unsure):
        self.nm, self.cam, self.want, self.unsure = nm, cam, want, unsure


def play(ctx, c, m, factory, ops, held, opened, who, problems):
    """Run ops against the factory; ``problems`` collects (kind, text)."""
    from orthority.errors import ParamError
    for k, o in enumerate(ops):
        at = f'{who} step {k} {o}'
        if o['op'] == 'get':
            want = wanted(c, m, o['name'])
            form = o['form']
            if form == 'stem':
                nm = os.path.splitext(o['name'])[0]
                if not c.get('stemkeys'):
                    form, nm = 'name', o['name']
            else:
                nm = o['name']
            try:
                cam = factory.get(arg(ctx, nm, form, opened))
            except ParamError as ex:
                if want is not None:
                    problems.append(('unexpected-failure', f'{at}: {err(ex)}'))
                continue
            if want is None:
                problems.append(('wrong-camera', f'{at}: a camera without parameters'))
                continue
            held.append(Held(o['name'], cam, want, o['name'] in m.unsure))
        elif o['op'] == 'missing':
            try:
                factory.get('no such image.tif')
                problems.append(('wrong-camera', f'{at}: a camera without parameters'))
            except ParamError:
                pass
        elif o['op'] == 'use' and held:
            h = held[o['i'] % len(held)]
            if not h.unsure:
                check(h, at, problems)
        elif o['op'] == 'update' and held:
            h = held[o['i'] % len(held)]
            h.cam.update(xyz=tuple(o['xyz']), opk=tuple(o['opk']))
            h.want.update(xyz=tuple(o['xyz']), opk=tuple(o['opk']))
        elif o['op'] == 'set' and held:
            h = held[o['i'] % len(held)]
            for x in (h.cam, h.want):
                x.distort = o['distort']
                x.alpha = o['alpha']
        elif o['op'] == 'export':
            export(ctx, c, m, factory, o, f'{who}-{k}', at, problems)
        elif o['op'] == 'refine':
            refine(ctx, c, m, factory, o, at, problems)
        ch = m.changed()
        if ch:
            problems.append(('argument-changed', f'{at}: {ch}'))
            return


def check(h, at, problems):
    d = same(sig(h.cam), sig(h.want))
    if d:
        problems.append(('wrong-camera', f'{at}: the camera of {h.nm} gives {d}'))


def export(ctx, c, m, factory, o, tag, at, problems):
    sub = 'x' + tag.replace(' ', '')
    if o['sim']:
        out = f'sim://{sub}'
        real = os.path.join(simfs.STATE['root'], sub)
    else:
        out = real = os.path.join(ctx.dir, sub)
    if not (o['sim'] and o['fault']):
        os.makedirs(real, exist_ok=True)
    if not o['over'] and o['fault']:
        # something is there already
        nm = 'rpc_param.yaml' if c['kind'] == 'rpc' else 'ext_param.geojson'
        os.makedirs(real, exist_ok=True)
        with open(os.path.join(real, nm), 'w') as f:
            f.write('x')
    try:
        factory.write_param(out, overwrite=o['over'])
    except Exception as ex:
        if not o['fault']:
            problems.append(('unexpected-failure', f'{at}: {err(ex)}'))
        return
    if m.unsure:
        return
    if c['kind'] == 'rpc':
        got = jobs.load_text(os.path.join(real, 'rpc_param.yaml'))
        want = {k: dict(im_size=list(v['im_size']), rpc=v['rpc']) for k, v in m.rpc.items()}
        got = {k: dict(im_size=v['im_size'], rpc=v['rpc']) for k, v in got.items()}
        if not params.close(got, want, 1e-12):
            problems.append(('wrong-export', f'{at}: {got} instead of {want}'[:1500]))
    else:
        got = jobs.load_text(os.path.join(real, 'ext_param.geojson'))
        g = {f['properties']['filename']: f['properties'] for f in got['features']}
        for k, e in m.ext.items():
            if k not in g or not params.close([g[k]['xyz'], g[k]['opk'], g[k].get('camera')],
                                              [e['xyz'], e['opk'], e['camera']], 1e-9):
                problems.append(('wrong-export', f'{at}: {g.get(k)} instead of {e}'[:900]))


def refine(ctx, c, m, factory, o, at, problems):
    from orthority.enums import RpcRefine
    from orthority.fit import refine_rpc
    sel = {nm: copy.deepcopy(c['gcps'][nm]) for nm in o['names']}
    if o['fail'] and sel:
        nm = list(sel)[-1]
        sel[nm] = sel[nm][:1]
        if o['method'] != 'shift-drift':
            o = dict(o, method='shift-drift')
    fit = m.keep('fit_kwargs', dict(method=RpcRefine(o['method']))) if o['method'] else None
    key = (lambda s: os.path.splitext(s)[0]) if c['gcpstem'] else (lambda s: s)
    # (a stem is only looked up where the image has an extension; its own name always is)
    gcps = params.gcp_dict({(m.key(nm) if c.get('stemkeys') else key(nm)): v
                            for nm, v in sel.items()})
    gold = copy.deepcopy(gcps)
    if o['file']:
        p = os.path.join(ctx.dir, f'gcps{abs(hash(at)) % 997}.geojson')
        params.gcp_file(p, {(m.key(nm) if c.get('stemkeys') else key(nm)): v
                            for nm, v in sel.items()})
        a = p
    else:
        a = m.keep('gcps', gcps)
    if not sel and o['file']:
        return
    try:
        factory.refine(a, fit_kwargs=fit)
    except Exception as ex:
        if not (o['fail'] and sel):
            problems.append(('unexpected-failure', f'{at}: {err(ex)}'))
        m.unsure.update(sel)
        return
    if o['fail'] and sel:
        problems.append(('failure-lost', f'{at}: refined with too few GCPs'))
        return
    for nm in sel:
        k = m.key(nm)
        g = gold[k if c.get('stemkeys') else key(nm)]
        r = refine_rpc(copy.deepcopy(m.rpc[k]['rpc']), g, **(copy.deepcopy(fit) or {}))
        m.rpc[k] = dict(m.rpc[k], rpc=r)


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    problems = []
    held, opened = [], []
    m = Model(ctx, c)
    with_warn = quiet(build)
    make = with_warn(ctx, c, m)
    box = {}
    os.makedirs(os.path.join(ctx.dir, 'im'))
    for nm in c['names'] + [os.path.splitext(x)[0] for x in c['names']]:
        world.tiff(os.path.join(ctx.dir, 'im', nm), np.ones((1, 4, 4), 'uint8'))

    def main():
        f = box['f'] = make()
        if f.filenames != {m.key(nm) for nm in c['names']}:
            problems.append(('wrong-names', f'{f.filenames} instead of {c["names"]}'))
        ch = m.changed()
        if ch:
            problems.append(('argument-changed', f'the factory: {ch}'))
            return
        play(ctx, c, m, f, c['ops'], held, opened, 'main', problems)
        if c['threads'] and not problems:
            lists = [[] for _ in c['threads']]
            errs = []

            def body(k):
                try:
                    play(ctx, c, m, f, c['threads'][k], lists[k], opened, f'thread{k}', problems)
                except BaseException as ex:
                    errs.append(ex)
            ts = [threading.Thread(target=body, args=(k,)) for k in range(len(lists))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
            for x in lists:
                held.extend(x)
    r = ctx.simulate('main', quiet(main), cpus=c['cpus'])
    for ds in opened:
        ds.close()
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    if r.exc is not None:
        ctx.violation('unexpected-failure', err(r.exc))
        return
    ctx.nontrivial = len({h.nm for h in held}) > 1 or bool(c['threads'])
    ctx.probe('kind:' + c['kind'])
    if m.unsure:
        ctx.probe('failed-refine')

    def end():
        for k, h in enumerate(held):
            if h.unsure:
                continue
            check(h, f'camera {k} at the end', problems)
            ctx.evals += 1
        if c['second'] and not problems:
            # the same arguments make the same factory again
            f2 = make()
            m2 = Model(ctx, c)
            build(ctx, c, m2)
            for nm in c['names']:
                want = wanted(c, m2, nm)
                if want is None:
                    continue
                d = same(sig(f2.get(nm)), sig(want))
                if d:
                    problems.append(('not-reusable', f'second factory: the camera of {nm} gives '
                                     f'{d}'))
                ctx.evals += 1
        ch = m.changed()
        if ch:
            problems.append(('argument-changed', ch))
    r = ctx.simulate('end', quiet(end), policy='default', cpus=1)
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'end: {err(r.exc)}')
    for kind, text in problems[:3]:
        ctx.violation(kind, text)
