"""Operations of the library as the scenarios see them: a job makes its inputs, can be called any
number of times (inside a simulation or not), knows where its output goes and can compare results.

A job is described by a JSON dict {'kind', 'c' (contents), 'inf' (how inputs are supplied), 'outf'
(how the output is supplied), ...}."""
import contextlib
import io
import json
import os
import pathlib
import warnings

import numpy as np

from . import panworld, params, simfs, world

RIN = ['path', 'pathlike', 'uri', 'ofile', 'ds', 'sim', 'simofile']
ROUT = ['path', 'pathlike', 'uri', 'ofile', 'sim', 'simofile']
TIN = ['path', 'pathlike', 'uri', 'ofile', 'fobj', 'sim', 'simofile', 'simfobj']
TOUT = ['path', 'pathlike', 'uri', 'ofile', 'fobj', 'sim', 'simofile', 'simfobj']
DOUT = ['path', 'pathlike', 'uri', 'ofile', 'sim', 'simofile']


def is_sim(form):
    return form.startswith('sim')


class Hold:
    """Things the caller keeps open around a call."""

    def __init__(self):
        self.items = []

    def add(self, x):
        self.items.append(x)
        return x

    def close(self):
        for x in self.items:
            with contextlib.suppress(Exception):
                x.close()
        self.items = []


def freeze(x):
    """The content of an argument."""
    if isinstance(x, dict):
        return 'dict', tuple((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x).__name__, tuple(freeze(v) for v in x)
    if isinstance(x, np.ndarray):
        return 'array', x.shape, x.dtype.str, x.tobytes()
    if isinstance(x, (str, int, float, type(None))):
        return repr(x)
    return id(x)


class Job:
    """d: directory of local files; s: directory (in the store) of simulated files."""
    text_out = False

    def __init__(self, cfg, d, tag=''):
        self.cfg, self.d, self.tag = cfg, d, tag
        self.c = cfg['c']
        self.odd = cfg.get('odd', '')  # end of directory names
        self.hold = Hold()
        self.res = None
        self.given = []

    def give(self, *xs):
        """Remember arguments the library gets."""
        self.given += [(x, freeze(x), repr(x)) for x in xs]

    def changed_args(self):
        """Arguments whose content is not what it was."""
        return [f'{t} became {x}'[:500] for x, k, t in self.given if freeze(x) != k]

    # -- places
    def local(self, name):
        return os.path.join(self.d, 'in' + self.odd, name)

    def place(self, name, form, sub='in'):
        """Real path of a file supplied in ``form``."""
        if is_sim(form):
            return os.path.join(simfs.STATE['root'], sub + self.odd, name)
        return os.path.join(self.d, sub + self.odd, name)

    def supply(self, name, form, mode='rb', sub='in'):
        """The argument to pass for a file."""
        import fsspec
        p = self.place(name, form, sub)
        uri = f'sim://{sub}{self.odd}/{name}'
        if form == 'path':
            return p
        if form == 'pathlike':
            return pathlib.Path(p)
        if form == 'uri':
            return 'file://' + p
        if form == 'ofile':
            return fsspec.open(p, mode)
        if form == 'sim':
            return uri
        if form == 'simofile':
            return fsspec.open(uri, mode)
        if form == 'ds':
            import rasterio as rio
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return self.hold.add(rio.open(p))
        if form == 'fobj':
            return self.hold.add(open(p, mode, encoding='utf-8'))
        if form == 'simfobj':
            return self.hold.add(fsspec.open(uri, mode, encoding='utf-8').open())
        raise AssertionError(form)

    def mkdirs(self):
        for d in (self.d, simfs.STATE['root']):
            for sub in ('in', 'out'):
                os.makedirs(os.path.join(d, sub + self.odd), exist_ok=True)

    # -- interface
    def make(self):
        """Create the inputs."""

    def outs(self):
        """Real paths of the outputs."""
        return []

    def prepare(self, overwrite=False, progress=False):
        """Open what the caller supplies open; return the call."""
        raise NotImplementedError

    def release(self):
        self.hold.close()

    def collect(self):
        """The result in a comparable form, read independently of the library."""
        raise NotImplementedError

    def same(self, a, b):
        """None or the description of a difference."""
        raise NotImplementedError

    def truth(self):
        """Problems [(kind, text)] of the collected result against the model; None: unknown."""
        return None


# ------------------------------------------------------------------------------- images
def same_image(a, b, tol=0):
    (xa, ma, ia), (xb, mb, ib) = a, b
    if repr(ia) != repr(ib):
        return f'structure {ia} / {ib}'
    if xa.shape != xb.shape:
        return f'shape {xa.shape} / {xb.shape}'
    eq = (xa == xb) | ((xa != xa) & (xb != xb))
    if tol:
        e = np.abs(xa.astype('float64') - xb.astype('float64'))
        eq |= e <= tol
    if not eq.all():
        p = tuple(int(v) for v in np.argwhere(~eq)[0])
        return f'{int((~eq).sum())} of {eq.size} pixel values differ, first at {p}: {xa[p]} / {xb[p]}'
    if not np.array_equal(ma, mb):
        return f'{int((ma != mb).sum())} mask pixels differ'
    return None


class OrthoJob(Job):
    kind = 'ortho'

    @staticmethod
    def gen(rng, small=True, **kw):
        c = world.gen(rng, simple=rng.random() < .7, **kw)
        c['crs_arg'] = rng.choice(['str', 'obj', 'none'])
        if small:
            # a few tiles
            if c['driver'] == 'gtiff' and c['layout'] and c['layout'].get('tiled'):
                c['layout'].update(blockxsize=48, blockysize=48)
            c['W'], c['H'] = min(c['W'], 70), min(c['H'], 61)
            if c['cam'] != 'rpc':
                c['fx'] = max(c['fx'], round(1.0 * c['H'] / c['W'], 3))
        return dict(kind='ortho', c=c, inf=dict(src='path', dem='path'), outf='path')

    @staticmethod
    def gen_forms(rng, cfg):
        cfg['inf'] = dict(src=rng.choice(RIN), dem=rng.choice(RIN))
        if cfg['c']['dem'] == 'feet' and is_sim(cfg['inf']['dem']):
            # this CRS is stored in a sidecar file, which is only found on local disk
            cfg['inf']['dem'] = 'path'
        cfg['outf'] = rng.choice(ROUT)

    def make(self):
        self.mkdirs()
        world.make_source(self.c, self.place('src.tif', self.cfg['inf']['src']))
        world.make_dem(self.c, self.place('dem.tif', self.cfg['inf']['dem']))

    def outs(self):
        return [self.place(f'out{self.tag}.tif', self.cfg['outf'], 'out')]

    def args(self):
        return (self.supply('src.tif', self.cfg['inf']['src']),
                self.supply('dem.tif', self.cfg['inf']['dem']))

    def out_arg(self):
        return self.supply(f'out{self.tag}.tif', self.cfg['outf'], 'wb', 'out')

    def new(self):
        """An Ortho object (inside the simulation)."""
        from orthority.ortho import Ortho
        src, dem = self.args()
        return Ortho(src, dem, world.make_camera(self.c), crs=world.ortho_crs(self.c),
                     dem_band=self.c['dem_band'])

    def prepare(self, overwrite=False, progress=False):
        from orthority.ortho import Ortho
        src, dem = self.args()
        out = self.out_arg()
        cam = world.make_camera(self.c)
        opts = world.options(self.c)
        c = self.c
        self.give(progress, *opts.values())

        def call():
            o = Ortho(src, dem, cam, crs=world.ortho_crs(c), dem_band=c['dem_band'])
            o.process(out, overwrite=overwrite, progress=progress, **opts)
        return call

    def collect(self):
        return world.read_out(self.outs()[0])

    def same(self, a, b):
        return same_image(a, b)

    def truth(self):
        a, m, info = self.collect()
        return world.judge_arrays(self.c, a, m, info).bad


class PanJob(Job):
    kind = 'pan'

    @staticmethod
    def gen(rng, small=True, multi=False, **kw):
        while True:
            c = panworld.gen(rng, multi=multi, **kw)
            if not multi:
                c['mw'], c['mh'] = min(c['mw'], 24), min(c['mh'], 22)
                c['off'] = [max(-4, min(4, v)) for v in c['off']]
            for w in ('pan', 'ms'):  # keep enough data for the statistics
                if c[f'{w}_hole']:
                    x0, y0, x1, y1 = c[f'{w}_hole']
                    c[f'{w}_hole'] = [x0, y0, min(x1, x0 + .35), min(y1, y0 + .35)]
            break
        return dict(kind='pan', c=c, inf=dict(pan='path', ms='path'), outf='path')

    @staticmethod
    def gen_forms(rng, cfg):
        cfg['inf'] = dict(pan=rng.choice(RIN), ms=rng.choice(RIN))
        cfg['outf'] = rng.choice(ROUT)

    def make(self):
        self.mkdirs()
        panworld.make(self.c, self.place('pan.tif', self.cfg['inf']['pan']),
                      self.place('ms.tif', self.cfg['inf']['ms']))

    def outs(self):
        return [self.place(f'out{self.tag}.tif', self.cfg['outf'], 'out')]

    def args(self):
        return (self.supply('pan.tif', self.cfg['inf']['pan']),
                self.supply('ms.tif', self.cfg['inf']['ms']))

    def out_arg(self):
        return self.supply(f'out{self.tag}.tif', self.cfg['outf'], 'wb', 'out')

    def new(self):
        from orthority.pan_sharp import PanSharpen
        return PanSharpen(*self.args())

    def prepare(self, overwrite=False, progress=False):
        from orthority.pan_sharp import PanSharpen
        pan, ms = self.args()
        out = self.out_arg()
        opts = panworld.options(self.c)
        if isinstance(progress, dict):
            progress = [progress, dict(progress)]
        self.give(progress, *opts.values())

        def call():
            PanSharpen(pan, ms).process(out, overwrite=overwrite, progress=progress, **opts)
        return call

    def collect(self):
        return world.read_out(self.outs()[0])

    def same(self, a, b):
        x = a[0]
        if 'jpeg' in a[2]['compress'].lower():
            tol = 12
        elif x.dtype.kind == 'f':
            tol = 1e-4 * max(1.0, float(np.nanmax(np.abs(x), initial=1)))
        else:
            tol = 1
        if self.multi():
            # statistics are merged in completion order: the last bits may differ
            (xa, ma, ia), (xb, mb, ib) = a, b
            m = ma.copy()
            if ma.shape == mb.shape and (ma != mb).mean() < .01:
                return same_image(a, (xb, m, ib), tol)
        return same_image(a, b, tol if self.multi() else 0)

    def multi(self):
        return max(self.c['mw'], self.c['mh']) > 1024

    def usable(self):
        """Whether the model knows the result (not a degenerate case)."""
        return panworld.reference(self.c, self.place('pan.tif', self.cfg['inf']['pan']),
                                  self.place('ms.tif', self.cfg['inf']['ms']), None) is not None

    def truth(self):
        ref = panworld.reference(self.c, self.place('pan.tif', self.cfg['inf']['pan']),
                                 self.place('ms.tif', self.cfg['inf']['ms']), None)
        if ref is None:
            return None
        a, m, info = self.collect()
        return panworld.judge(self.c, a, m, info, ref)[0]


# ------------------------------------------------------------------------------- image readers
class BatchRead(Job):
    """Parameters from a list of images."""
    kind = 'read'

    @staticmethod
    def gen(rng, what=None, n=None):
        what = what or rng.choice(['rpc', 'gcp', 'exif', 'exif', 'exifcams', 'rpccams'])
        n = n or rng.choice([1, 2, 3, 5, 7])
        names = params.gen_names(rng, n)
        c = dict(what=what, names=names)
        if what.startswith('exif'):
            c['exif'] = params.gen_exif(rng, names)
            c['crs'] = rng.choice([None, world.WORLD])
        else:
            c['rpcs'] = params.gen_rpcs(rng, names=names)
            c['gcps'] = params.gen_gcps(rng, c['rpcs'])
        return dict(kind='read', c=c, inf={nm: 'path' for nm in names}, outf=None)

    @staticmethod
    def gen_forms(rng, cfg):
        cfg['inf'] = {nm: rng.choice(RIN) for nm in cfg['c']['names']}

    def make(self):
        self.mkdirs()
        for nm in self.c['names']:
            p = self.place(nm, self.cfg['inf'][nm])
            if 'exif' in self.c:
                params.exif_image(p, self.c['exif'][nm])
            else:
                params.rpc_image(p, self.c['rpcs'][nm], self.c['gcps'][nm])

    def prepare(self, overwrite=False, progress=False):
        from orthority import param_io
        from orthority.factory import FrameCameras, RpcCameras
        files = [self.supply(nm, self.cfg['inf'][nm]) for nm in self.c['names']]
        what, c = self.c['what'], self.c
        io_kwargs = dict(progress=progress)
        if what == 'exifcams':
            io_kwargs['crs'] = c['crs']
        self.give(files, progress, io_kwargs)

        def call():
            if what == 'rpc':
                self.res = param_io.read_im_rpc_param(files, progress=progress)
            elif what == 'gcp':
                self.res = param_io.read_im_gcps(files, progress=progress)
            elif what == 'exif':
                r = param_io.ExifReader(files, crs=c['crs'], progress=progress)
                self.res = dict(int=r.read_int_param(), ext=r.read_ext_param(),
                                crs=r.crs.to_string())
            elif what == 'exifcams':
                f = FrameCameras.from_images(files, io_kwargs=io_kwargs)
                self.res = {nm: (f.get(nm).im_size, _pose(f.get(nm))) for nm in c['names']}
            else:
                f = RpcCameras.from_images(files, io_kwargs=io_kwargs)
                self.res = {nm: (f.get(nm).im_size,
                                 f.get(nm).world_to_pixel(_probe(c['rpcs'][nm])).tolist())
                            for nm in c['names']}
        self.res = None
        return call

    def collect(self):
        return self.res

    def same(self, a, b):
        return None if params.close(a, b, 1e-12) else f'{a} / {b}'[:600]

    def truth(self):
        c, r = self.c, self.res
        if c['what'] == 'rpc':
            return params.check_rpcs(c['names'], c['rpcs'], r)
        if c['what'] == 'gcp':
            return params.check_gcps(c['names'], c['gcps'], r)
        if c['what'] == 'exif':
            return params.check_exif(c['names'], c['exif'], r['int'], r['ext'], r['crs'])
        return None


def _pose(cam):
    """Position and viewing geometry of a frame camera."""
    x, y, z = (float(v) for v in cam.pos)
    p = np.array([[x, x + 20, x - 11], [y, y - 14, y + 17], [z - 150, z - 120, z - 160]])
    # (no catch_warnings() here: it is not thread-safe)
    return [x, y, z], cam.world_to_pixel(p).tolist()


def _probe(p):
    r = p['rpc']
    return np.array([[r['long_off'], r['long_off'] + .3 * r['long_scale']],
                     [r['lat_off'], r['lat_off'] - .4 * r['lat_scale']], [120., 90.]])


# ------------------------------------------------------------------------------- parameter files
def pyyaml(text):
    import yaml
    return yaml.safe_load(text)


def load_text(path):
    with open(path, encoding='utf-8') as f:
        t = f.read()
    return json.loads(t) if path.endswith('json') else pyyaml(t)


class WriteJob(Job):
    """One parameter file."""
    kind = 'write'
    text_out = True
    EXT = dict(int='int.yaml', ext='ext.geojson', rpc='rpc.yaml', gcp='gcp.geojson')

    @staticmethod
    def gen(rng, what=None, n=None):
        what = what or rng.choice(['int', 'ext', 'rpc', 'gcp'])
        c = dict(what=what)
        if what in ('int', 'ext'):
            c['frame'] = params.gen_frame(rng, n)
            c['crs'] = rng.choice([world.WORLD, 'obj'])
        else:
            c['rpcs'] = params.gen_rpcs(rng, n)
            c['gcps'] = params.gen_gcps(rng, c['rpcs'])
        return dict(kind='write', c=c, inf={}, outf='path')

    @staticmethod
    def gen_forms(rng, cfg):
        cfg['outf'] = rng.choice(TOUT)

    def make(self):
        self.mkdirs()

    def name(self):
        b, e = self.EXT[self.c['what']].split('.')
        return f'{b}{self.tag}.{e}'

    def outs(self):
        return [self.place(self.name(), self.cfg['outf'], 'out')]

    def value(self):
        c = self.c
        return dict(int=lambda: params.int_param(c['frame']['int']),
                    ext=lambda: params.ext_param(c['frame']['ext']),
                    rpc=lambda: params.rpc_param(c['rpcs']),
                    gcp=lambda: params.gcp_dict(c['gcps']))[c['what']]()

    def prepare(self, overwrite=False, progress=False):
        from orthority import param_io
        from rasterio.crs import CRS
        c = self.c
        out = self.supply(self.name(), self.cfg['outf'], 'wt', 'out')
        v = self.value()
        crs = c.get('wcrs', world.WORLD)
        crs = CRS.from_string(crs) if c.get('crs') == 'obj' else crs
        self.give(v)

        def call():
            if c['what'] == 'int':
                param_io.write_int_param(out, v, overwrite=overwrite)
            elif c['what'] == 'ext':
                param_io.write_ext_param(out, v, crs, overwrite=overwrite)
            elif c['what'] == 'rpc':
                param_io.write_rpc_param(out, v, overwrite=overwrite)
            else:
                param_io.write_gcps(out, v, overwrite=overwrite)
        return call

    def collect(self):
        return load_text(self.outs()[0])

    def same(self, a, b):
        return None if params.close(a, b, 0) else f'{a} / {b}'[:600]

    def read_back(self):
        """Through the library, from the local file."""
        from orthority import param_io
        p = self.outs()[0]
        w = self.c['what']
        if w == 'int':
            return param_io.read_oty_int_param(p)
        if w == 'ext':
            return param_io.OtyReader(p).read_ext_param()
        if w == 'rpc':
            return param_io.read_oty_rpc_param(p)
        return param_io.read_oty_gcps(p)

    def truth(self):
        got, want = self.read_back(), self.value()
        if not params.close(got, want, 1e-14):
            return [('round-trip', f'{got} instead of {want}'[:900])]
        return []


class ExportJob(Job):
    """write_param() of a camera factory."""
    kind = 'export'
    text_out = True

    @staticmethod
    def gen(rng, what=None, n=None):
        what = what or rng.choice(['frame', 'rpc', 'refined', 'refined'])
        c = dict(what=what)
        if what == 'frame':
            c['frame'] = params.gen_frame(rng, n)
        else:
            c['rpcs'] = params.gen_rpcs(rng, n)
            c['gcps'] = params.gen_gcps(rng, c['rpcs'])
            c['method'] = rng.choice(['shift', 'shift-drift'])
        return dict(kind='export', c=c, inf={}, outf='path')

    @staticmethod
    def gen_forms(rng, cfg):
        cfg['outf'] = rng.choice(DOUT)

    def make(self):
        self.mkdirs()

    def names(self):
        return dict(frame=['int_param.yaml', 'ext_param.geojson'], rpc=['rpc_param.yaml'],
                    refined=['rpc_param.yaml', 'gcps.geojson'])[self.c['what']]

    def sub(self):
        return f'out{self.tag}'

    def outs(self):
        return [self.place(n, self.cfg['outf'], self.sub()) for n in self.names()]

    def out_arg(self):
        import fsspec
        f = self.cfg['outf']
        sub = self.sub() + self.odd
        p = os.path.join(self.d, sub)
        uri = f'sim://{sub}'
        os.makedirs(p, exist_ok=True)
        os.makedirs(os.path.join(simfs.STATE['root'], sub), exist_ok=True)
        return dict(path=lambda: p, pathlike=lambda: pathlib.Path(p), uri=lambda: 'file://' + p,
                    ofile=lambda: fsspec.open(p), sim=lambda: uri,
                    simofile=lambda: fsspec.open(uri))[f]()

    def prepare(self, overwrite=False, progress=False):
        from orthority.factory import FrameCameras, RpcCameras
        c = self.c
        out = self.out_arg()
        if c['what'] == 'frame':
            a, b = params.int_param(c['frame']['int']), params.ext_param(c['frame']['ext'])
            io_kwargs = dict(crs=c.get('wcrs', world.WORLD))
            self.give(a, b, io_kwargs)

            def call():
                FrameCameras(a, b, io_kwargs=io_kwargs).write_param(out, overwrite=overwrite)
        else:
            r = params.rpc_param(c['rpcs'])
            g = params.gcp_dict(c['gcps'])
            fit_kwargs = dict(method=c['method'])
            self.give(r, g, fit_kwargs)

            def call():
                f = RpcCameras(r)
                if c['what'] == 'refined':
                    f.refine(g, fit_kwargs=fit_kwargs)
                f.write_param(out, overwrite=overwrite)
        return call

    def collect(self):
        return [load_text(p) for p in self.outs()]

    def same(self, a, b):
        return None if params.close(a, b, 0) else f'{a} / {b}'[:600]

    def truth(self):
        from orthority import param_io
        c, o = self.c, self.outs()
        bad = []
        if c['what'] == 'frame':
            pairs = [(param_io.read_oty_int_param(o[0]), params.int_param(c['frame']['int'])),
                     (param_io.OtyReader(o[1]).read_ext_param(),
                      params.ext_param(c['frame']['ext']))]
        elif c['what'] == 'rpc':
            pairs = [(param_io.read_oty_rpc_param(o[0]), params.rpc_param(c['rpcs']))]
        else:
            from orthority.fit import refine_rpc
            got = param_io.read_oty_rpc_param(o[0])
            gcps = params.gcp_dict(c['gcps'])
            want = {nm: dict(p, rpc=refine_rpc(p['rpc'], gcps[nm], method=c['method']))
                    for nm, p in params.rpc_param(c['rpcs']).items()}
            pairs = [(got, want), (param_io.read_oty_gcps(o[1]), params.gcp_dict(c['gcps']))]
        for got, want in pairs:
            if not params.close(got, want, 1e-14):
                bad.append(('round-trip', f'{got} instead of {want}'[:900]))
        return bad


def _dialect(delim):
    import csv
    return type('Dialect', (csv.excel,), dict(delimiter=delim))


class FileRead(Job):
    """Reading parameter files."""
    kind = 'fread'

    @staticmethod
    def gen(rng, what=None, n=None):
        what = what or rng.choice(['int', 'ext', 'csv', 'csv', 'osfm', 'osfmint', 'rpc', 'gcp',
                                   'frame', 'refine'])
        c = dict(what=what)
        if what in ('int', 'ext', 'csv', 'frame'):
            c['frame'] = params.gen_frame(rng, n)
            c['prj'] = rng.random() < .5
            c['radians'] = rng.random() < .5
            c['header'] = len(c['frame']['ext']) < 3 or rng.random() < .7
            c['again'] = rng.random() < .5
            if what == 'csv' and rng.random() < .6:
                # other layouts; a header and a dialect or field names keep detection out of it
                c['header'] = True
                c['fmt'] = rng.choice(['xyz_opk', 'lla_opk', 'xyz_rpy', 'lla_rpy', 'lla_rpy'])
                c['delim'] = rng.choice([',', ',', ';', '\t'])
                c['fields'] = rng.random() < .3
                c['extra'] = rng.random() < .3
                # a CRS is needed for some layouts and overrides what is found for the others
                c['crs'] = c['fmt'] in ('lla_opk', 'xyz_rpy') or rng.random() < .4
        elif what.startswith('osfm'):
            c['osfm'] = params.gen_osfm(rng, n)
            c['again'] = rng.random() < .5
        else:
            c['rpcs'] = params.gen_rpcs(rng, n)
            c['gcps'] = params.gen_gcps(rng, c['rpcs'])
        return dict(kind='fread', c=c, inf=dict(a='path', b='path'), outf=None)

    @staticmethod
    def gen_forms(rng, cfg):
        cfg['inf'] = dict(a=rng.choice(TIN), b=rng.choice(TIN))

    FILES = dict(int=['int.yaml'], ext=['ext.geojson'], csv=['ext.csv'],
                 osfm=['reconstruction.json'], osfmint=['cameras.json'], rpc=['rpc.yaml'],
                 gcp=['gcps.geojson'], frame=['int.yaml', 'ext.geojson'],
                 refine=['rpc.yaml', 'gcps.geojson'])

    def make(self):
        self.mkdirs()
        c = self.c
        files = self.FILES[c['what']]
        if c['what'] == 'csv' and c['prj'] and self.cfg['inf']['a'] in ('fobj', 'simfobj'):
            pass
        for nm, k in zip(files, 'ab'):
            p = self.place(nm, self.cfg['inf'][k])
            if nm == 'int.yaml':
                params.int_file(p, c['frame']['int'])
            elif nm == 'ext.geojson':
                params.ext_file(p, c['frame']['ext'], world.WORLD)
            elif nm == 'ext.csv':
                params.csv_file(p, c['frame']['ext'], c['radians'], c['header'],
                                c.get('fmt', 'xyz_opk'), c.get('delim', ','), world.WORLD,
                                c.get('extra', False))
                if c['prj']:
                    from rasterio.crs import CRS
                    with open(p[:-4] + '.prj', 'w') as f:
                        f.write(CRS.from_string(world.WORLD).to_wkt())
            elif nm == 'rpc.yaml':
                params.rpc_file(p, c['rpcs'])
            elif nm == 'gcps.geojson':
                params.gcp_file(p, c['gcps'])
            elif nm == 'reconstruction.json':
                with open(p, 'w', encoding='utf-8') as f:
                    json.dump([c['osfm']], f)
            else:
                with open(p, 'w', encoding='utf-8') as f:
                    json.dump(c['osfm']['cameras'], f)

    def csv_args(self):
        c, a = self.c, {}
        if c.get('fmt'):
            if c['crs']:
                a['crs'] = world.WORLD
            if c['fields']:
                a['fieldnames'] = params.csv_fields(c['fmt']) + ['note'] * c['extra']
            if c['delim'] != ',' or c['fields']:
                a['dialect'] = _dialect(c['delim'])
        return a

    def prepare(self, overwrite=False, progress=False):
        from orthority import param_io
        from orthority.factory import FrameCameras, RpcCameras
        c = self.c
        fs = [self.supply(nm, self.cfg['inf'][k], 'rt') for nm, k in
              zip(self.FILES[c['what']], 'ab')]
        w = c['what']
        self.res = None
        csv_args = self.csv_args()

        def call():
            if w == 'int':
                self.res = param_io.read_oty_int_param(fs[0])
            elif w == 'ext':
                r = param_io.OtyReader(fs[0])
                if c.get('again'):
                    r.read_ext_param()
                self.res = dict(ext=r.read_ext_param(), crs=r.crs.to_string())
            elif w == 'csv':
                r = param_io.CsvReader(fs[0], radians=c['radians'], **csv_args)
                if c.get('again'):
                    r.read_ext_param()
                self.res = dict(ext=r.read_ext_param(), crs=r.crs and r.crs.to_string())
            elif w == 'osfm':
                r = param_io.OsfmReader(fs[0])
                if c.get('again'):
                    r.read_ext_param(), r.read_int_param()
                self.res = dict(int=r.read_int_param(), ext=r.read_ext_param(),
                                crs=r.crs.to_string())
            elif w == 'osfmint':
                self.res = param_io.read_osfm_int_param(fs[0])
            elif w == 'rpc':
                self.res = param_io.read_oty_rpc_param(fs[0])
            elif w == 'gcp':
                self.res = param_io.read_oty_gcps(fs[0])
            elif w == 'frame':
                f = FrameCameras(fs[0], fs[1])
                self.res = {nm: (f.get(nm).im_size, _pose(f.get(nm)))
                            for nm in c['frame']['ext']}
            else:
                f = RpcCameras(fs[0])
                f.refine(fs[1])
                self.res = {nm: f.get(nm).world_to_pixel(_probe(c['rpcs'][nm])).tolist()
                            for nm in c['rpcs']}
        return call

    def collect(self):
        return self.res

    def same(self, a, b):
        return None if params.close(a, b, 1e-12) else f'{a} / {b}'[:600]

    def truth(self):
        c, r = self.c, self.res
        w = c['what']
        want, tol = None, 1e-14
        if w == 'int':
            want = params.int_param(c['frame']['int'])
        elif w == 'ext':
            want = dict(ext=params.ext_param(c['frame']['ext']), crs=world.WORLD)
        elif w == 'csv':
            # a .prj file beside the CSV file is found unless an open file object is supplied
            found = c['prj'] and self.cfg['inf']['a'] not in ('fobj', 'simfobj')
            ext = params.ext_param(c['frame']['ext'])
            fmt = c.get('fmt', 'xyz_opk')
            if c.get('crs'):
                found = True
            if fmt == 'lla_rpy' and not c['crs']:
                # the UTM CRS of the positions is found from the file
                if list(r['ext']) != list(ext) or not r['crs'].startswith('EPSG:32'):
                    return [('value', f'{r}'[:600])]
                return []
            if fmt.endswith('rpy'):
                got = {k: dict(xyz=v['xyz'], camera=v['camera']) for k, v in r['ext'].items()}
                want = {k: dict(xyz=v['xyz'], camera=v['camera']) for k, v in ext.items()}
                if not params.close(got, want, 1e-9 if fmt[0] == 'x' else 1e-6):
                    return [('value', f'{got} instead of {want}'[:900])]
                return []
            if not c['header']:
                ext = {k: dict(v, camera=None) for k, v in ext.items()}
            want = dict(ext=ext, crs=world.WORLD if found else None)
            tol = 1e-9 if fmt[0] == 'x' else 1e-6
        elif w == 'rpc':
            want = params.rpc_param(c['rpcs'])
        elif w == 'gcp':
            want = params.gcp_dict(c['gcps'])
        elif w == 'osfmint':
            want = params.osfm_int(c['osfm']['cameras'])
        elif w == 'osfm':
            got = (list(r['ext']), r['int'])
            if not params.close(got, (list(c['osfm']['shots']),
                                      params.osfm_int(c['osfm']['cameras'])), 1e-14):
                return [('value', f'{got}'[:600])]
            return []
        if want is None:
            return None
        if not params.close(r, want, tol):
            return [('value', f'{r} instead of {want}'[:900])]
        return []


class FitJob(Job):
    """Fitting parameters to GCPs: RPC refinement, exterior parameters."""
    kind = 'fit'

    @staticmethod
    def gen(rng, what=None, n=None):
        what = what or rng.choice(['refine', 'exterior'])
        c = dict(what=what, rpcs=params.gen_rpcs(rng, n))
        c['gcps'] = params.gen_gcps(rng, c['rpcs'])
        if what == 'refine':
            c['method'] = rng.choice(['shift', 'shift-drift'])
            c['obj'] = rng.random() < .3
        else:
            c['frame'] = params.gen_frame(rng, 1, size=(60, 50))
            c['crs'] = rng.choice([None, world.WORLD])
        return dict(kind='fit', c=c, inf={}, outf=None)

    @staticmethod
    def gen_forms(rng, cfg):
        pass

    def make(self):
        self.mkdirs()

    def prepare(self, overwrite=False, progress=False):
        from orthority import fit
        c = self.c
        gcps = params.gcp_dict(c['gcps'])
        self.res = None
        if c['what'] == 'refine':
            rpcs = {k: v['rpc'] for k, v in params.rpc_param(c['rpcs']).items()}
            if c['obj']:
                from rasterio.rpc import RPC
                rpcs = {k: RPC(**v) for k, v in rpcs.items()}
                self.give(*(v.to_dict() for v in rpcs.values()))
            self.give(rpcs, gcps)

            def call():
                self.res = {k: fit.refine_rpc(v, gcps[k], method=c['method'])
                            for k, v in rpcs.items()}
        else:
            ints = params.int_param(c['frame']['int'])
            self.give(ints, gcps)

            def call():
                self.res = fit.fit_frame_exterior(ints, gcps, crs=c['crs'])
        return call

    def collect(self):
        return self.res

    def same(self, a, b):
        return None if params.close(a, b, 1e-12) else f'{a} / {b}'[:600]


KINDS = {k.kind: k for k in (OrthoJob, PanJob, BatchRead, WriteJob, ExportJob, FileRead, FitJob)}


def gen(rng, kinds=('ortho', 'ortho', 'pan', 'read', 'write', 'export', 'fread'), forms=True, **kw):
    k = rng.choice(list(kinds))
    cfg = KINDS[k].gen(rng, **kw.get(k, {}))
    if forms and rng.random() < .7:
        KINDS[k].gen_forms(rng, cfg)
    return cfg


def new(cfg, d, tag=''):
    return KINDS[cfg['kind']](cfg, d, tag)
