"""Command-line batches: inputs, command lines and judgement."""
import copy
import json
import os

import numpy as np

from . import jobs, panworld, params, simfs, world

FRAMES = ['pinhole', 'brown', 'opencv', 'fisheye']

OTHER = 'EPSG:32335'  # near the CRS of the world


def gen(rng, cmd=None, n=None, export=None, legacy=False):
    """A batch.  ``legacy``: may be one of the legacy 'simple-ortho' command."""
    cmd = cmd or rng.choice(['frame', 'frame', 'frame', 'rpc', 'rpc', 'exif', 'odm', 'sharpen'] +
                            ['legacy'] * legacy)
    c = dict(cmd=cmd, store=rng.choice(['local', 'local', 'local', 'sim']),
             export=rng.random() < .12 if export is None else export)
    if cmd == 'sharpen':
        job = jobs.PanJob.gen(rng)
        c['pan'] = job['c']
        c['export'] = False
        return c
    n = n or rng.choice([1, 2, 2, 3, 4])
    o = dict(interp=rng.choice(['cubic', 'bilinear', 'nearest', 'average', None]),
             dem_interp=rng.choice(['cubic', 'bilinear', None]), per_band=rng.random() < .3,
             dtype=rng.choice([None, None, 'uint16', 'float32']),
             compress=rng.choice([None, 'deflate', 'lzw', 'deflate']),
             driver=rng.choice([None, None, None, 'cog']), write_mask=rng.choice([None, None, True]),
             ovw=rng.random() < .5, co=rng.random() < .4)
    if o['driver']:
        o['co'] = False
    c['o'] = o
    if cmd == 'legacy':
        o.update(driver=None, co=False)
        c.update(store='local', export=False, od=rng.random() < .5)
    if cmd in ('frame', 'legacy'):
        base = world.gen(rng, simple=True, cams=FRAMES)
        base['W'], base['H'] = min(base['W'], 64), min(base['H'], 56)
        base['fx'] = max(base['fx'], round(base['H'] / base['W'], 3))
        base.update(dem_hole=None, dem_cut=None, dem_cell=15, crs_arg='str', wide=False)
        base['half'] = world.ground_half(base)
        g = world.gsd(base)
        base['res_xy'] = [round(g * rng.uniform(.8, 1.5), 3), round(g * rng.uniform(.8, 1.5), 3)]
        if rng.random() < .3:  # (one value given on the command line)
            base['res_xy'][1] = base['res_xy'][0]
        if rng.random() < .3:
            base.update(dem_bands=3, dem_band=rng.choice([1, 2, 3]))
        nc = rng.choice([1, 2]) if cmd == 'frame' else 1
        cams = []
        for k in range(nc):
            q = dict(base)
            if k:
                q['cam'] = rng.choice(FRAMES)
                q['dist'] = world._gen_dist(rng, q['cam'])
                q['fx'] = round(base['fx'] * rng.uniform(1, 1.2), 3)
                q['W'] = base['W'] - rng.choice([0, 6])
            cams.append({k: q[k] for k in ('cam', 'dist', 'fx', 'W', 'H', 'sensor', 'cxy')})
        names = params.gen_names(rng, n, '.tif')
        c['distort'] = rng.random() < .7
        c['alpha'] = rng.choice([1.0, 1.0, .5]) if cmd == 'frame' else 1.0
        c['base'] = base
        c['cams'] = cams
        c['images'] = [dict(name=nm, cam=rng.randrange(nc), phase=rng.randrange(1000),
                            h=round(base['h'] * rng.uniform(.85, 1.0), 2),
                            shift=[round(base['half'] * rng.uniform(-.6, .6), 2),
                                   round(base['half'] * rng.uniform(-.6, .6), 2)],
                            opk=[round(rng.uniform(-.1, .1), 4), round(rng.uniform(-.1, .1), 4),
                                 round(rng.uniform(-3, 3), 4)],
                            bands=rng.choice([1, 3, 4]),
                            dtype=rng.choice(['uint8', 'uint16', 'float32']),
                            src_crs=rng.random() < .4) for nm in names]
        c['ext'] = rng.choice(['geojson', 'geojson', 'csv', 'csv'])
        c['radians'] = rng.random() < .4
        c['crs_opt'] = True if c['ext'] == 'csv' else rng.random() < .5
        two = rng.random() < .4
        for im in c['images']:
            im['dir'] = rng.choice(['src', 'src2']) if two else 'src'
        if c['ext'] == 'csv' and not c['export'] and rng.random() < .4:
            # no CRS but those of the source images
            c['crs_opt'] = False
            for im in c['images']:
                im['src_crs'] = rng.choice([True, True, OTHER])
        if cmd == 'legacy':
            c['crs_opt'] = c['crs_opt'] and rng.random() < .6
            if not c['crs_opt']:
                for im in c['images']:
                    im['src_crs'] = rng.choice([True, True, OTHER])
        if n > 1 and rng.random() < .15:  # two images from one place
            a, b = rng.sample(c['images'], 2)
            a.update(h=b['h'], shift=list(b['shift']))
        c['order'] = rng.sample(range(n), n)
        c['auto_res'] = rng.random() < .3
    elif cmd == 'rpc':
        names = params.gen_names(rng, n)
        c['rpcs'] = params.gen_rpcs(rng, names=names)
        c['gcps'] = params.gen_gcps(rng, c['rpcs'])
        c['bands'] = [rng.choice([1, 3]) for _ in names]
        c['from'] = rng.choice(['tags', 'tags', 'file'])
        c['refine'] = rng.choice([None, None, 'tags', 'file'])
        c['method'] = rng.choice([None, 'shift', 'shift-drift'])
        c['crs_opt'] = rng.random() < .6
    elif cmd == 'exif':
        names = params.gen_names(rng, n)
        c['exif'] = params.gen_exif(rng, names)
        for e in c['exif'].values():
            e['lla'][2] = abs(e['lla'][2])  # above the ground
        c['crs_opt'] = rng.random() < .5
        c['distort'] = rng.random() < .7
    else:
        o_ = params.gen_osfm(rng, n)
        for k, p in enumerate(o_['cameras'].values()):
            p.update(width=48 + 4 * k, height=40)
            p.update({a: round(p[a] * .2, 6) for a in ('k1', 'k2', 'p1', 'p2', 'k3') if a in p})
        o_['reference_lla'] = dict(latitude=-34.34, longitude=27.0, altitude=0.0)
        c['osfm'] = o_
        c['distort'] = rng.random() < .7
        c['out_default'] = rng.random() < .5
    if c.get('crs_opt'):
        c['crs_form'] = rng.choice(['str', 'str', 'txt', 'tif']) if cmd != 'legacy' else 'str'
    return c


def names(c):
    return dict(frame=lambda: [im['name'] for im in c['images']],
                legacy=lambda: [im['name'] for im in c['images']], rpc=lambda: list(c['rpcs']),
                exif=lambda: list(c['exif']), odm=lambda: sorted(c['osfm']['shots']),
                sharpen=lambda: ['pan'])[c['cmd']]()


def image_cfg(c, im):
    """The orthorectification configuration (world) of one frame image."""
    q = copy.deepcopy(c['base'])
    q.update(c['cams'][im['cam']])
    q.update({k: im[k] for k in ('phase', 'h', 'shift', 'opk', 'bands', 'dtype', 'src_crs')})
    q['distort'] = c['distort'] if q['cam'] != 'pinhole' else True
    q['alpha'] = c['alpha'] if not q['distort'] else 1.0
    o = c['o']
    q.update(interp=o['interp'] or 'cubic', dem_interp=o['dem_interp'] or 'cubic',
             per_band=o['per_band'], odtype=o['dtype'], compress=o['compress'],
             driver=o['driver'] or 'gtiff', write_mask=o['write_mask'], layout=None)
    if o['co']:
        q['layout'] = dict(tiled=True, blockxsize=32, blockysize=48)
        q['compress'] = None
    if c['auto_res']:
        q['res_xy'], q['res'] = None, None
    return q


class Batch:
    def __init__(self, c, d):
        self.c, self.d = c, d
        self.root = simfs.STATE['root'] if c['store'] == 'sim' else d
        self.pre = 'sim://' if c['store'] == 'sim' else d + '/'

    def p(self, *a):
        return os.path.join(self.root, *a)

    def u(self, *a):
        return self.pre + '/'.join(a)

    def make(self):
        c = self.c
        for s in ('src', 'src2', 'par', 'out'):
            os.makedirs(self.p(s), exist_ok=True)
        cmd = c['cmd']
        if cmd == 'sharpen':
            panworld.make(c['pan'], self.p('src', 'pan.tif'), self.p('src', 'ms.tif'))
            return
        with open(self.p('par', 'crs.txt'), 'w') as f:
            f.write(world.WORLD)
        if cmd in ('frame', 'legacy'):
            world.make_dem(c['base'], self.p('src', 'dem.tif'))
            ints, exts = {}, {}
            for k, cam in enumerate(c['cams']):
                q = dict(c['base'], **cam)
                fp = world.frame_params(q)
                ints[f'cam {k}'] = dict(cam_type=q['cam'], **{
                    a: list(v) if isinstance(v, tuple) else v for a, v in fp.items()})
            for im in c['images']:
                q = image_cfg(c, im)
                world.make_source(q, self.src(im['name']))
                xyz, opk = world.pose(q)
                exts[im['name']] = dict(xyz=list(xyz), opk=list(opk), camera=f"cam {im['cam']}")
            params.int_file(self.p('par', 'int.yaml'), ints)
            if cmd == 'legacy':
                self.make_legacy(exts)
            elif c['ext'] == 'csv':
                params.csv_file(self.p('par', 'ext.csv'), exts, c['radians'], True)
            else:
                params.ext_file(self.p('par', 'ext.geojson'), exts, world.WORLD)
        else:
            self.make_wide_dem()
        if cmd == 'rpc':
            for (nm, p), b in zip(c['rpcs'].items(), c['bands']):
                params.rpc_image(self.p('src', nm), p if c['from'] == 'tags' else dict(
                    p, rpc=None), c['gcps'][nm] if c['refine'] == 'tags' else None, count=b)
            params.rpc_file(self.p('par', 'rpc.yaml'), c['rpcs'])
            params.gcp_file(self.p('par', 'gcps.geojson'), c['gcps'])
        elif cmd == 'exif':
            for nm, e in c['exif'].items():
                params.exif_image(self.p('src', nm), e)
        elif cmd == 'odm':
            ds = self.p('ds')
            for s in ('images', 'odm_dem', 'opensfm', 'orthority'):
                os.makedirs(os.path.join(ds, s), exist_ok=True)
            os.replace(self.p('src', 'dem.tif'), os.path.join(ds, 'odm_dem', 'dsm.tif'))
            for k, (nm, s) in enumerate(sorted(c['osfm']['shots'].items())):
                cam = c['osfm']['cameras'][s['camera']]
                i, j = np.mgrid[0:cam['height'], 0:cam['width']]
                a = ((60 + 3 * j + 2 * i + 31 * k) % 190 + 20).astype('uint8')
                world.tiff(os.path.join(ds, 'images', nm), a[None])
            with open(os.path.join(ds, 'opensfm', 'reconstruction.json'), 'w') as f:
                json.dump([c['osfm']], f)

    def make_legacy(self, exts):
        import csv
        import math
        import yaml
        c, o = self.c, self.c['o']
        q = dict(c['base'], **c['cams'][0])
        cam = dict(name='cam 0', type=q['cam'], **{
            a: list(v) if isinstance(v, tuple) else v for a, v in world.frame_params(q).items()})
        ortho = dict(crs=world.WORLD if c['crs_opt'] else None, dem_band=c['base']['dem_band'],
                     interp=o['interp'] or 'cubic', dem_interp=o['dem_interp'] or 'cubic',
                     per_band=o['per_band'], build_ovw=o['ovw'], write_mask=o['write_mask'],
                     full_remap=c['distort'], dtype=o['dtype'], compress=o['compress'],
                     tile_size=[256, 256])
        if not c['auto_res']:
            ortho['resolution'] = list(c['base']['res_xy'])
        for w in (False, True):
            with open(self.p('par', f'config{int(w)}.yaml'), 'w') as f:
                yaml.safe_dump(dict(camera=cam, ortho=dict(ortho, overwrite=w)), f)
        with open(self.p('par', 'pos ori.txt'), 'w', newline='') as f:
            w = csv.writer(f, delimiter=' ')
            for nm, e in exts.items():
                w.writerow([os.path.splitext(nm)[0], *map(repr, e['xyz']),
                            *(repr(math.degrees(v)) for v in e['opk'])])

    def sub(self, nm):
        """Directory with a source image."""
        return next((im['dir'] for im in self.c.get('images', []) if im['name'] == nm), 'src')

    def src(self, nm):
        return self.p(self.sub(nm), nm)

    def make_wide_dem(self):
        from rasterio.transform import from_origin
        odm = self.c['cmd'] == 'odm'
        half, cell = (400, 8) if odm else (4000, 80)
        n = 2 * half // cell
        i, j = np.mgrid[0:n, 0:n]
        z = (2 + .004 * j - .003 * i) if odm else (90 + .3 * j + .2 * i)
        world.tiff(self.p('src', 'dem.tif'), z[None].astype('float32'), crs=world.WORLD,
                   transform=from_origin(world.E0 - half, world.N0 + half, cell, cell), nodata=-9999)

    def out_dir(self):
        return ('ds', 'orthority') if self.c['cmd'] == 'odm' and self.c['out_default'] else ('out',)

    def outs(self, only=None):
        """Real paths of the outputs."""
        c = self.c
        if c['cmd'] == 'sharpen':
            return [self.p('out', 'sharp.tif')]
        if c['export']:
            f = ['int_param.yaml', 'ext_param.geojson'] if c['cmd'] != 'rpc' else \
                ['rpc_param.yaml'] + (['gcps.geojson'] if c['refine'] else [])
            return [self.p(*self.out_dir(), x) for x in f]
        if c['cmd'] == 'legacy' and not c['od']:  # beside the source images
            return [os.path.splitext(self.src(nm))[0] + '_ORTHO.tif' for nm in (only or names(c))]
        return [self.p(*self.out_dir(), os.path.splitext(nm)[0] + '_ORTHO.tif')
                for nm in (only or names(c))]

    def args(self, only=None, out=None, overwrite=False):
        """Command line for all images, or the ``only`` ones (in this order)."""
        c = self.c
        cmd = c['cmd']
        a = [cmd]
        if cmd == 'sharpen':
            q = c['pan']
            o = panworld.options(dict(q, arg_form='list'))
            a += ['-p', self.u('src', 'pan.tif'), '-ms', self.u('src', 'ms.tif'), '-of',
                  self.u('out', 'sharp.tif'), '-pi', str(o['pan_index'])]
            for x in o.get('ms_indexes') or []:
                a += ['-mi', str(x)]
            for x in o.get('weights') or []:
                a += ['-w', repr(x)]
            a += ['-i', str(o['interp'])]
            if o.get('dtype'):
                a += ['-dt', o['dtype']]
            if o.get('compress'):
                a += ['-cm', o['compress']]
            if o.get('write_mask') is not None:
                a += ['-wm' if o['write_mask'] else '-nwm']
            for k, v in (o.get('creation_options') or {}).items():
                a += ['-co', f'{k}={v}']
            a += ['-dv', str(o.get('driver') or 'gtiff'), '-bo' if o.get('build_ovw') else '-nbo']
            return a + (['-o'] if overwrite else [])
        o = c['o']
        if cmd == 'legacy':
            a += ['-rc', self.u('par', f'config{int(overwrite)}.yaml')]
            if out or c['od']:
                a += ['-od', self.u(*(out or ('out',)))]
            return a + [nm if nm.startswith('/') else self.src(nm) for nm in (
                only or self.order())] + [self.u('src', 'dem.tif'), self.u('par', 'pos ori.txt')]
        if cmd == 'odm':
            a += ['-dd', self.u('ds')]
            if out or not c['out_default']:
                a += ['-od', self.u(*(out or ('out',)))]
        else:
            a += ['-od', self.u(*(out or ('out',)))]
            if not c['export']:
                a += ['-d', self.u('src', 'dem.tif')]
        if c.get('crs_opt') and cmd != 'odm':
            a += ['-c', dict(str=world.WORLD, txt=self.u('par', 'crs.txt'),
                             tif=self.u('src', 'dem.tif'))[c['crs_form']]]
        if cmd == 'frame':
            a += ['-ip', self.u('par', 'int.yaml'), '-ep', self.u('par', f"ext.{c['ext']}")]
            if not c['auto_res']:
                r = c['base']['res_xy']
                a += [x for v in (r if r[0] != r[1] else r[:1]) for x in ('-r', repr(v))]
            if c['base']['dem_band'] != 1:
                a += ['-db', str(c['base']['dem_band'])]
            if c['radians']:
                a += ['-rd']
            if not c['distort']:
                a += ['-nfr', '-a', str(c['alpha'])]
        elif cmd == 'rpc':
            if c['from'] == 'file':
                a += ['-rp', self.u('par', 'rpc.yaml')]
            if c['refine']:
                a += ['-gr', 'tags' if c['refine'] == 'tags' else self.u('par', 'gcps.geojson')]
                if c['method']:
                    a += ['-rm', c['method']]
        elif not c['distort']:
            a += ['-nfr']
        for k, f in (('interp', '-i'), ('dem_interp', '-di'), ('dtype', '-dt'), ('compress', '-cm'),
                     ('driver', '-dv')):
            if o[k]:
                a += [f, o[k]]
        if o['per_band']:
            a += ['-pb']
        if o['write_mask'] is not None:
            a += ['-wm']
        a += ['-bo' if o['ovw'] else '-nbo']
        if o['co']:
            a += ['-co', 'tiled=yes', '-co', 'blockxsize=32', '-co', 'blockysize=48']
        if c['export']:
            a += ['-e']
        if overwrite:
            a += ['-o']
        if cmd != 'odm':
            for nm in (only or self.order()):
                a.append(nm if '/' in nm else self.u(self.sub(nm), nm))
        return a

    def order(self):
        n = names(self.c)
        return [n[k] for k in self.c['order']] if 'order' in self.c else n


def run(args):
    """Run the command line in this process.  Returns the exit status."""
    from orthority.cli import cli, simple_ortho
    try:
        if args[0] == 'legacy':
            simple_ortho(list(args[1:]))
            return 0
        cli.main(args=list(args), prog_name='oty', standalone_mode=True)
    except SystemExit as ex:
        return ex.code if isinstance(ex.code, int) else (0 if ex.code is None else 1)
    return 0
