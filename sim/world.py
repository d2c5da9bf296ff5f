"""Inputs of the orthorectification scenarios and the reference model that judges their output.

Everything is derived from a JSON configuration.  The source image is an analytic smooth function
of pixel position and band, the DEM a plane (in some CRS and unit), so that the right value of an
ortho pixel can be computed from scratch: ground position -> plane height -> independent camera
model -> source position -> analytic value."""
import math
import os

import numpy as np

WORLD = 'EPSG:32735'
E0, N0 = 500000.0, 6200000.0
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))
DEM_CRSS = {
    'same': WORLD,
    'utm36': 'EPSG:32736',
    'wgs84': 'EPSG:4326',
    'feet': '+proj=utm +zone=35 +south +datum=WGS84 +units=m +vunits=us-ft +type=crs',
}
US_FT = 1200 / 3937


# ---------------------------------------------------------------------------- generation
def gen(rng, small=True, simple=False, cams=None, allow_jpeg=True, drivers=True, special=0.0):
    """Return an ortho configuration.  ``special``: share of configurations with a large output,
    low flying height, DEM resolution or geographic output."""
    cam = rng.choice(cams or ['pinhole', 'pinhole', 'brown', 'opencv', 'fisheye', 'rpc'])
    W = rng.randrange(44, 100)
    H = rng.randrange(40, 90)
    if W == H:
        W += 2
    bands = rng.choice([1, 2, 3, 3, 4, 5] * 4 + [10])
    dtype = rng.choice(['uint8', 'uint8', 'uint16', 'int16', 'float32', 'float64'])
    odtype = rng.choice([None, None, None, 'uint8', 'uint16', 'int16', 'float32', 'float64'])
    c = dict(W=W, H=H, bands=bands, dtype=dtype, odtype=odtype, cam=cam,
             phase=rng.randrange(1000),
             h=round(rng.uniform(220, 420), 2),
             opk=[round(rng.uniform(-.12, .12), 4), round(rng.uniform(-.12, .12), 4),
                  round(rng.uniform(-3.1, 3.1), 4)],
             fx=round(rng.uniform(0.85, 1.6), 3),
             cxy=[round(rng.uniform(-.05, .05), 4), round(rng.uniform(-.05, .05), 4)],
             sensor=rng.choice([None, 1.0, 23.5]) if cam != 'rpc' else None,
             dist=_gen_dist(rng, cam),
             distort=True, alpha=1.0,
             slope=[round(rng.uniform(-.08, .08), 4), round(rng.uniform(-.08, .08), 4)],
             dem=rng.choice(['same', 'same', 'utm36', 'wgs84', 'feet']),
             dem_cell=rng.choice([8, 15, 25]), dem_bands=rng.choice([1, 1, 1, 3]), dem_band=1,
             dem_dtype=rng.choice(['float32', 'float32', 'float64', 'int16']),
             dem_hole=None, dem_cut=None,
             res=rng.choice([None, 'xy', 'xy', 'xy']),
             rf=[round(rng.uniform(.7, 1.7), 3), round(rng.uniform(.7, 1.7), 3)],
             interp=rng.choice(['cubic', 'cubic', 'bilinear', 'nearest', 'lanczos', 'average']),
             dem_interp=rng.choice(['cubic', 'cubic', 'bilinear', 'nearest', 'lanczos']),
             per_band=rng.random() < .35, write_mask=rng.choice([None, None, True, False]),
             driver='gtiff', compress=None, layout=None, ovw=rng.random() < .3,
             src_form='path', src_crs=rng.random() < .3, crs_arg='str')
    c['dem_band'] = rng.randrange(1, c['dem_bands'] + 1)
    if cam != 'rpc':  # keep the field of view within the domain of the distortion models
        c['fx'] = round(c['fx'] * max(1.0, H / W), 3)
    if cam in ('brown', 'opencv', 'fisheye') and rng.random() < .4:
        c['distort'] = False
        c['alpha'] = rng.choice([1.0, 1.0, 0.5, 0.0])
    if rng.random() < .25:
        c['dem_hole'] = [round(rng.uniform(-.25, .25), 3), round(rng.uniform(-.25, .25), 3),
                         round(rng.uniform(.1, .2), 3)]
    elif rng.random() < .2:
        c['dem_cut'] = [rng.choice(['n', 's', 'e', 'w']), round(rng.uniform(-.1, .2), 3)]
    if c['odtype'] == 'uint8' or c['dtype'] == 'uint8':
        c['wide'] = False
        if c['dtype'] != 'uint8' and rng.random() < .4:
            c['over'] = True  # some values are above the range of the output
    else:
        c['wide'] = rng.random() < .6
    # layout
    if drivers and rng.random() < .2:
        c['driver'] = 'cog'
        c['layout'] = dict(blocksize=128) if rng.random() < .8 else None
        if c['layout'] and rng.random() < .6:
            c['layout'].update(compress=rng.choice(['deflate', 'lzw']))
        c['rf'] = [round(rng.uniform(.4, .9), 3), round(rng.uniform(.4, .9), 3)]
    else:
        k = rng.random()
        if k < .5:
            c['layout'] = dict(tiled=True, blockxsize=rng.choice([16, 32, 48]),
                               blockysize=rng.choice([16, 32, 48]))
        elif k < .85:
            c['layout'] = dict(blockysize=rng.choice([1, 5, 11, 16]), tiled=False)
            if c['layout']['blockysize'] == 1 and rng.random() < .7:
                c['layout']['blockysize'] = 7
        else:
            c['layout'] = None
        if c['layout']:
            if rng.random() < .5:
                c['layout'].update(compress=rng.choice(['deflate', 'lzw', 'packbits']))
            if rng.random() < .3 and bands > 1:
                c['layout'].update(interleave=rng.choice(['band', 'pixel']))
    if c['layout'] is None or not c['layout']:
        eff = c['odtype'] or c['dtype']
        c['compress'] = rng.choice([None, 'deflate', 'lzw'])
        if not allow_jpeg and eff == 'uint8' and c['compress'] is None:
            c['compress'] = 'deflate'
    if not c['dem_hole']:
        c['dem_nd'] = rng.random() < .6
    if special and rng.random() < special:
        _gen_special(rng, c)
    if simple:
        c.update(dem='same', dem_cell=15, dem_bands=1, dem_band=1, dem_dtype='float32',
                 dem_interp='cubic', dem_hole=None, dem_cut=None, interp='cubic')
    return c


def _gen_special(rng, c):
    kind = rng.choice(['big', 'drone', 'demres', 'demres', 'geo', 'geo', 'oblique', 'patch',
                       'patch'])
    if kind == 'big':  # more than 512 pixels: overviews
        make_big(rng, c)
    elif kind == 'drone' and c['cam'] != 'rpc':
        c.update(h=round(rng.uniform(9, 40), 2), dem_cell=rng.choice([.5, 1, 2]),
                 dem_dtype='float32')
    elif kind == 'demres':
        c.update(dem=rng.choice(['same', 'same', 'utm36', 'feet']))
        cell = round(gsd(c) * rng.uniform(.8, 1.6), 3)
        k = [rng.choice([1, 1, 1, 1.005, .97, 1.04, 1.3]) for _ in range(2)]
        c.update(dem_cell=cell, res='xy', res_xy=[round(cell * k[0], 6), round(cell * k[1], 6)])
        if rng.random() < .3:  # cells that are not square
            c['dem_ay'] = rng.choice([.75, 1.25])
            if rng.random() < .5:
                c['res_xy'] = list(cells(c))
    elif kind == 'oblique' and c['cam'] in ('pinhole', 'brown'):
        t, a = rng.uniform(.35, .65), rng.uniform(-3.1, 3.1)
        c.update(opk=[round(t * math.cos(a), 4), round(t * math.sin(a), 4), c['opk'][2]],
                 fx=round(c['fx'] * rng.uniform(1.7, 2.5), 3), half=round(c['h'] * .65, 2),
                 dem_hole=None, dem_cell=rng.choice([4, 8]),
                 dem_cut=None, slope=[round(rng.uniform(-.3, .3), 4) for _ in range(2)],
                 distort=True, oblique=True)
    elif kind == 'patch':
        # part of the source has the value 0, in bands where (or types for which) this is data
        d = NODATA[c['odtype'] or c['dtype']]
        b = [k for k in range(c['bands']) if d != 0 or k > 0 and rng.random() < .7]
        if d != 0 and rng.random() < .3:
            b = b[1:]
        if d == 0 and not c['per_band'] and c['bands'] > 1 and rng.random() < .6:
            # (the mask is that of the first band, when bands are processed separately)
            b = sorted({0, *b})
            b.remove(rng.choice(b[1:])) if len(b) == c['bands'] else None
        c['patch'] = dict(bands=b, at=[round(rng.uniform(.25, .5), 3) for _ in range(2)],
                          size=[round(rng.uniform(.25, .4), 3) for _ in range(2)])
    elif kind == 'geo' and c['cam'] == 'rpc':
        c.update(ocrs='EPSG:4326', src_crs=False)
    c['special'] = kind


def make_big(rng, c):
    """Change the configuration for an output of more than 512 x 512 pixels."""
    f = round(rng.uniform(.085, .13), 4)
    c.update(res='xy', rf=[f, round(f * rng.uniform(.9, 1.1), 4)], ovw=rng.random() < .8)
    if c['layout']:
        for k in ('blockxsize', 'blockysize'):
            if k in c['layout']:
                c['layout'][k] = rng.choice([128, 256])
        if 'blocksize' in c['layout']:
            c['layout']['blocksize'] = 256
        if c['layout'].get('tiled') is False:
            c['layout']['blockysize'] = rng.choice([61, 128, 200])


def cells(c):
    """DEM cell size in x and y (m)."""
    return c['dem_cell'], round(c['dem_cell'] * c.get('dem_ay', 1), 6)


def patch(c, j, i, m=0.0):
    """Where source positions lie in the patch, shrunk by ``m`` pixels."""
    p = c['patch']
    j0, i0 = round(p['at'][0] * c['W']), round(p['at'][1] * c['H'])
    j1, i1 = j0 + round(p['size'][0] * c['W']), i0 + round(p['size'][1] * c['H'])
    return (j >= j0 + m) & (j <= j1 - m) & (i >= i0 + m) & (i <= i1 - m)


def ocrs(c):
    """CRS of the camera's world coordinates and of the ortho."""
    return c.get('ocrs') or WORLD


def metres(c):
    """Metres per unit of the ortho CRS in x and y."""
    if ocrs(c) == WORLD:
        return 1.0, 1.0
    lat = rpc_dict(c)['lat_off']
    return 111320.0 * math.cos(math.radians(lat)), 110900.0


def _gen_dist(rng, cam):
    u = lambda a: round(rng.uniform(-a, a), 5)  # noqa
    if cam == 'brown':
        return dict(k1=u(.08), k2=u(.02), p1=u(.008), p2=u(.008), k3=u(.005))
    if cam == 'opencv':
        d = dict(k1=u(.08), k2=u(.02), p1=u(.008), p2=u(.008), k3=u(.005))
        if rng.random() < .6:
            d.update(k4=u(.03), k5=u(.01), k6=u(.005), s1=u(.006), s2=u(.003), s3=u(.006),
                     s4=u(.003))
        return d
    if cam == 'fisheye':
        return dict(k1=u(.06), k2=u(.02), k3=u(.01), k4=u(.005))
    if cam == 'rpc':
        return dict(q=[u(.03) for _ in range(12)], off=[u(.3), u(.3)])
    return {}


# ---------------------------------------------------------------------------- analytic source
def _scale(c, dtype=None):
    """(offset, gain) applied to the 8 bit range values."""
    if c.get('over') and c['dtype'] != 'uint8':
        return 0.0, 1.6
    if not c.get('wide'):
        return 0.0, 1.0
    d = c['dtype']
    eff = c['odtype'] or d
    if 'int16' in (d, eff):
        if 'uint16' in (d, eff):
            return 0.0, 100.0
        return (-12000.0, 90.0) if eff == 'int16' and d == 'int16' else (0.0, 100.0)
    if 'uint16' in (d, eff):
        return 0.0, 200.0
    return -1.0e5, 1.0e4


def value(c, b, j, i):
    """Source value of band ``b`` (0-based) at continuous pixel position (j, i)."""
    ph = c['phase'] * 0.37 + b * 1.7
    lj, li = 31.0 + 5 * (b % 3), 37.0 - 4 * (b % 2)
    v = (128 + 45 * np.sin(2 * np.pi * j / lj + ph) * np.cos(2 * np.pi * i / li - .5 * ph)
         + 30 * np.sin(2 * np.pi * (j + i) / 53.0 + 2 * ph) + 7 * (b % 5))
    off, gain = _scale(c)
    return off + gain * v


def grad(c):
    """A bound on the change of value per pixel."""
    off, gain = _scale(c)
    return gain * (45 * 2 * np.pi / 31 + 30 * 2 * np.pi / 53 * 1.42)


PAD = 0  # bytes of metadata before the pixels of the images written


def tiff(path, array, **profile):
    import rasterio as rio
    import warnings
    array = np.asarray(array)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', driver='GTiff', width=array.shape[2], height=array.shape[1],
                      count=array.shape[0], dtype=array.dtype.name, **profile) as ds:
            if PAD:
                ds.update_tags(PAD='x' * PAD)
            ds.write(array)


def source_array(c):
    i, j = np.mgrid[0:c['H'], 0:c['W']].astype('float64')
    a = np.stack([value(c, b, j, i) for b in range(c['bands'])])
    if c.get('patch'):
        for b in c['patch']['bands']:
            a[b][patch(c, j, i)] = 0
    if np.issubdtype(np.dtype(c['dtype']), np.integer):
        a = np.round(a)
    return a.astype(c['dtype'])


def make_source(c, path):
    prof = {}
    if c.get('src_crs'):
        from rasterio.transform import from_origin
        crs = c['src_crs'] if isinstance(c['src_crs'], str) else WORLD
        prof = dict(crs=crs, transform=from_origin(E0, N0, 1, 1))
    tiff(path, source_array(c), **prof)


# ---------------------------------------------------------------------------- DEM
def plane(c, x, y):
    """World height (m) at world (x, y)."""
    return 120.0 + c['slope'][0] * (x - E0) + c['slope'][1] * (y - N0)


def ground_half(c):
    """About half of the longest ground extent of the image (m)."""
    return c.get('half') or 0.5 * c['h'] / c['fx'] * max(1.0, c['H'] / c['W']) * 1.2


def to_world(crs, x, y):
    from rasterio.warp import transform
    if crs == WORLD:
        return x, y
    xs, ys = transform(crs, WORLD, np.ravel(x), np.ravel(y))[:2]
    return np.reshape(xs, np.shape(x)), np.reshape(ys, np.shape(y))


def from_world(crs, x, y):
    from rasterio.warp import transform
    if crs == WORLD:
        return x, y
    xs, ys = transform(WORLD, crs, np.ravel(x), np.ravel(y))[:2]
    return np.reshape(xs, np.shape(x)), np.reshape(ys, np.shape(y))


def dem_grid(c):
    """(crs, transform, width, height) of the DEM."""
    from rasterio.transform import from_origin
    crs = DEM_CRSS[c['dem']]
    half = ground_half(c) * 3.2
    b = np.linspace(-half, half, 9)
    bx, by = np.meshgrid(E0 + b, N0 + b)
    px, py = from_world(crs, bx, by)
    x0, x1, y0, y1 = px.min(), px.max(), py.min(), py.max()
    cx, cy = cells(c)
    if c['dem'] == 'wgs84':
        cx, cy = cx / 111000.0, cy / 111000.0
    if c['dem_cut']:
        side, f = c['dem_cut']
        mx, my = (x0 + x1) / 2, (y0 + y1) / 2
        d = f * (x1 - x0) / 3
        if side == 'n':
            y1 = my + d
        elif side == 's':
            y0 = my - d
        elif side == 'e':
            x1 = mx + d
        else:
            x0 = mx - d
    w, h = int(math.ceil((x1 - x0) / cx)), int(math.ceil((y1 - y0) / cy))
    return crs, from_origin(x0, y1, cx, cy), w, h


def dem_nodata(c):
    return -32768 if c['dem_dtype'] == 'int16' else (-9999.0 if c['phase'] % 2 else float('nan'))


def make_dem(c, path):
    crs, tf, w, h = dem_grid(c)
    i, j = np.mgrid[0:h, 0:w]
    x, y = tf * (j + .5, i + .5)
    wx, wy = to_world(crs, x, y)
    z = plane(c, wx, wy)
    if c['dem'] == 'feet':
        z = z / US_FT
    if c['dem_dtype'] == 'int16':
        z = np.round(z)
    hole = np.zeros(z.shape, bool)
    if c['dem_hole']:
        hx, hy, hr = hole_world(c)
        hole = (np.abs(wx - hx) < hr) & (np.abs(wy - hy) < hr)
    z = np.where(hole, dem_nodata(c), z)
    out = np.stack([z if b + 1 == c['dem_band'] else np.where(hole, z, z * 0 + 77 + 3 * b)
                    for b in range(c['dem_bands'])]).astype(c['dem_dtype'])
    nd = {} if c.get('dem_nd') is False and not c['dem_hole'] else dict(nodata=dem_nodata(c))
    tiff(path, out, crs=crs, transform=tf, **nd)


def hole_world(c):
    g = ground_half(c)
    dx, dy, r = c['dem_hole']
    return E0 + dx * 2 * g, N0 + dy * 2 * g, r * 2 * g


# ---------------------------------------------------------------------------- cameras
def cam_height(c):
    return 120.0 + c['h']


def frame_params(c):
    W, H = c['W'], c['H']
    p = dict(im_size=(W, H), cx=c['cxy'][0], cy=c['cxy'][1], **c['dist'])
    if c['sensor'] is None:
        p['focal_len'] = c['fx']
    else:
        s = c['sensor']
        p['sensor_size'] = (s, s * H / W * 1.0)
        p['focal_len'] = c['fx'] * s
    return p


def pose(c):
    dx, dy = c.get('shift') or (0.0, 0.0)
    return (E0 + dx, N0 + dy, cam_height(c)), tuple(c['opk'])


def make_camera(c):
    import warnings
    from orthority.camera import create_camera
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['cam'] == 'rpc':
            return create_camera('rpc', im_size=(c['W'], c['H']), rpc=rpc_dict(c),
                                 crs=ocrs(c))
        xyz, opk = pose(c)
        kw = {}
        if c['cam'] != 'pinhole':
            kw = dict(distort=c['distort'], alpha=c['alpha'])
        return create_camera(c['cam'], **frame_params(c), xyz=xyz, opk=opk, **kw)


def rot(opk):
    o, p, k = opk
    co, so, cp, sp, ck, sk = np.cos(o), np.sin(o), np.cos(p), np.sin(p), np.cos(k), np.sin(k)
    rx = np.array([[1, 0, 0], [0, co, -so], [0, so, co]])
    ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    rz = np.array([[ck, -sk, 0], [sk, ck, 0], [0, 0, 1]])
    return rx @ ry @ rz


def distort_xy(c, u, v):
    d = dict(c['dist'])
    g = lambda k: d.get(k, 0.0)  # noqa
    if c['cam'] in ('brown', 'opencv'):
        r2 = u * u + v * v
        rad = 1 + r2 * (g('k1') + r2 * (g('k2') + r2 * g('k3')))
        rad = rad / (1 + r2 * (g('k4') + r2 * (g('k5') + r2 * g('k6'))))
        ud = u * rad + 2 * g('p1') * u * v + g('p2') * (r2 + 2 * u * u) + g('s1') * r2 \
            + g('s2') * r2 * r2
        vd = v * rad + g('p1') * (r2 + 2 * v * v) + 2 * g('p2') * u * v + g('s3') * r2 \
            + g('s4') * r2 * r2
        return ud, vd
    if c['cam'] == 'fisheye':
        r = np.hypot(u, v)
        th = np.arctan(r)
        t2 = th * th
        thd = th * (1 + t2 * (g('k1') + t2 * (g('k2') + t2 * (g('k3') + t2 * g('k4')))))
        s = np.where(r > 1e-12, thd / np.where(r > 1e-12, r, 1), 1.0)
        return u * s, v * s
    return u, v


def rpc_dict(c):
    """A gentle RPC model of a near-nadir image of the area."""
    from rasterio.warp import transform
    half = 0.5 * c['h'] / c['fx']
    lon, lat = transform(WORLD, 'EPSG:4979', [E0], [N0], [0.0])[:2]
    lon, lat = lon[0], lat[0]
    q = c['dist']['q']
    k = c['opk'][2]
    ls, ps = half / (111320.0 * math.cos(math.radians(lat))), half / 110900.0
    W, H = c['W'], c['H']
    s = max(W, H) / W
    # normalised x (lon), y (lat), z (height); rotate by kappa
    samp_num = [0.0] * 20
    line_num = [0.0] * 20
    samp_num[0], samp_num[1], samp_num[2], samp_num[3] = q[0], math.cos(k), math.sin(k), q[1] * 6
    line_num[0], line_num[1], line_num[2], line_num[3] = q[2], math.sin(k) * W / H, \
        -math.cos(k) * W / H, q[3] * 6
    samp_num[4], samp_num[7], samp_num[8], samp_num[5] = q[4], q[5] * .5, q[6] * .5, q[7] * .03
    line_num[4], line_num[7], line_num[8], line_num[6] = q[8], q[9] * .5, q[10] * .5, q[11] * .03
    samp_num[11], line_num[15], samp_num[17], line_num[18] = q[8] * .1, q[4] * .1, q[2] * .01, \
        q[1] * .01
    samp_den = [1.0] + [0.0] * 19
    line_den = [1.0] + [0.0] * 19
    samp_den[1], samp_den[2], line_den[2], line_den[3] = q[9] * .2, q[10] * .2, q[5] * .2, \
        q[6] * .02
    return dict(height_off=120.0, height_scale=1000.0, lat_off=lat, lat_scale=ps, long_off=lon,
                long_scale=ls, line_off=(H - 1) / 2 + c['dist']['off'][0], line_scale=H / 2.0,
                samp_off=(W - 1) / 2 + c['dist']['off'][1], samp_scale=W / 2.0,
                line_num_coeff=line_num, line_den_coeff=line_den, samp_num_coeff=samp_num,
                samp_den_coeff=samp_den, err_bias=None, err_rand=None)


def _rpc_poly(cf, x, y, z):
    t = [1, x, y, z, x * y, x * z, y * z, x * x, y * y, z * z, x * y * z, x ** 3, x * y * y,
         x * z * z, x * x * y, y ** 3, y * z * z, x * x * z, y * y * z, z ** 3]
    return sum(a * b for a, b in zip(cf, t))


def model_ji(c, x, y, z):
    """Independent camera model: world -> continuous source pixel (centre convention)."""
    x, y, z = np.broadcast_arrays(x, y, z)
    if c['cam'] == 'rpc':
        from rasterio.warp import transform
        r = rpc_dict(c)
        lo, la, hh = transform(WORLD, 'EPSG:4979', x.ravel(), y.ravel(), z.ravel())
        p = (np.reshape(lo, x.shape) - r['long_off']) / r['long_scale']
        q = (np.reshape(la, x.shape) - r['lat_off']) / r['lat_scale']
        h = (np.reshape(hh, x.shape) - r['height_off']) / r['height_scale']
        i = _rpc_poly(r['line_num_coeff'], p, q, h) / _rpc_poly(r['line_den_coeff'], p, q, h)
        j = _rpc_poly(r['samp_num_coeff'], p, q, h) / _rpc_poly(r['samp_den_coeff'], p, q, h)
        return j * r['samp_scale'] + r['samp_off'], i * r['line_scale'] + r['line_off']
    R = rot(c['opk'])
    T = np.array(pose(c)[0]).reshape(3, 1)
    X = np.stack([x.ravel(), y.ravel(), z.ravel()]) - T
    cc = R.T @ X
    u, v = cc[0] / -cc[2], -cc[1] / -cc[2]
    u, v = distort_xy(c, u, v)
    W, H = c['W'], c['H']
    f = c['fx'] * W
    fy = f if c['sensor'] is None else c['fx'] * c['sensor'] * H / (c['sensor'] * H / W * 1.0)
    j = f * u + (W - 1) / 2 + max(W, H) * c['cxy'][0]
    i = fy * v + (H - 1) / 2 + max(W, H) * c['cxy'][1]
    return j.reshape(x.shape), i.reshape(x.shape)


def gsd(c):
    """Mean ground size of a source pixel (m)."""
    d = 1.0
    x = np.array([E0, E0 + d, E0])
    y = np.array([N0, N0, N0 + d])
    # evaluate near the image centre
    cx, cy = image_centre(c)
    x, y = x - E0 + cx, y - N0 + cy
    j, i = model_ji(c, x, y, plane(c, x, y))
    det = (j[1] - j[0]) * (i[2] - i[0]) - (j[2] - j[0]) * (i[1] - i[0])
    return 1 / math.sqrt(abs(det))


def image_centre(c):
    """Ground position of the image centre (a few Newton steps)."""
    x, y = E0, N0
    for _ in range(12):
        xs, ys = np.array([x, x + 1, x]), np.array([y, y, y + 1])
        j, i = model_ji(c, xs, ys, plane(c, xs, ys))
        J = np.array([[j[1] - j[0], j[2] - j[0]], [i[1] - i[0], i[2] - i[0]]])
        e = np.array([(c['W'] - 1) / 2 - j[0], (c['H'] - 1) / 2 - i[0]])
        s = np.linalg.solve(J, e)
        x, y = x + s[0], y + s[1]
    return x, y


def resolution(c):
    if c.get('res_xy'):
        return tuple(c['res_xy'])
    if c['res'] is None:
        return None
    g = gsd(c)
    r = (round(g * c['rf'][0], 3), round(g * c['rf'][1], 3))
    if ocrs(c) != WORLD:
        m = metres(c)
        r = (round(r[0] / m[0], 9), round(r[1] / m[1], 9))
    return r


# ---------------------------------------------------------------------------- running
def options(c):
    o = dict(resolution=resolution(c), interp=c['interp'], dem_interp=c['dem_interp'],
             per_band=c['per_band'], write_mask=c['write_mask'], dtype=c['odtype'],
             build_ovw=c['ovw'], driver=c['driver'])
    if c['layout']:
        o['creation_options'] = dict(c['layout'])
    else:
        o['compress'] = c['compress']
    return o


def ortho_crs(c):
    from rasterio.crs import CRS
    if c['crs_arg'] == 'none' and c.get('src_crs'):
        return None
    return ocrs(c) if c['crs_arg'] == 'str' else CRS.from_string(ocrs(c))


def read_out(path):
    """Read an output image with plain rasterio."""
    import rasterio as rio
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as ds:
            a = ds.read()
            m = ds.read_masks(1)
            info = dict(crs=ds.crs.to_string() if ds.crs else None, transform=tuple(ds.transform)[:6],
                        shape=ds.shape, count=ds.count, dtypes=ds.dtypes, nodata=ds.nodata,
                        colorinterp=[int(x) for x in ds.colorinterp], driver=ds.driver,
                        overviews=ds.overviews(1), mask_flags=[[int(f) for f in fl] for fl in
                                                               ds.mask_flag_enums],
                        block=ds.block_shapes[0], compress=str(ds.profile.get('compress')))
    return a, m, info


def effective(c, info):
    """(dtype, write_mask, lossy) of the output."""
    dt = c['odtype'] or c['dtype']
    if c['layout']:
        comp = c['layout'].get('compress')
        lossy = False
        wm = bool(c['write_mask'])
        if comp == 'jpeg':
            lossy = True
    else:
        comp = c['compress'] or info['compress'].lower()
        if comp not in ('jpeg', 'deflate', 'lzw'):
            comp = 'jpeg' if dt == 'uint8' else 'deflate'
        lossy = comp == 'jpeg'
        wm = lossy if c['write_mask'] is None else c['write_mask']
    return dt, wm, lossy


def overviews(c, path, a, m, info, lossy):
    """Check that overviews are there when asked for, and show the finished image."""
    import rasterio as rio
    import warnings
    bad = []
    h, w = info['shape']
    if c['ovw'] and min(h, w) >= 512:
        if not info['overviews']:
            return [('overview', f'no overviews in an image of {w} x {h} pixels')]
    if not info['overviews'] or not c['ovw'] or c['driver'] == 'cog' and c['layout']:
        return bad
    f = info['overviews'][0]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, overview_level=0) as ds:
            o = ds.read().astype('float64')
    nod = info['nodata']
    b = a.astype('float64')
    if nod is None:
        b = np.where(m[None] != 0, b, np.nan)
    elif nod == nod:
        b = np.where(b == nod, np.nan, b)
    oh, ow = h // f - 1, w // f - 1
    if oh < 2 or ow < 2 or lossy:
        return bad
    # range of the base pixels around each overview pixel
    lo = np.full((b.shape[0], oh - 1, ow - 1), np.inf)
    hi = -lo
    import cv2
    ok = np.ones(lo.shape, bool)
    clear = np.stack([cv2.dilate(np.isnan(q).astype('uint8'), np.ones((13, 13), 'uint8')) == 0
                      for q in b])
    ok &= clear[:, f:f + f * (oh - 1):f, f:f + f * (ow - 1):f]
    for di in range(-1, f + 1):
        for dj in range(-1, f + 1):
            q = b[:, f + di:f + di + f * (oh - 1):f, f + dj:f + dj + f * (ow - 1):f]
            ok &= ~np.isnan(q)
            lo, hi = np.fmin(lo, q), np.fmax(hi, q)
    q = o[:, 1:oh, 1:ow]
    t = 1 + 1e-5 * np.nanmax(np.abs(b), initial=0)
    with np.errstate(invalid='ignore'):
        wrong = ok & ~((q >= lo - t) & (q <= hi + t))
    if wrong.any():
        p = tuple(np.argwhere(wrong)[0])
        bad.append(('overview', f'{int(wrong.sum())} of {int(ok.sum())} pixels of the first '
                    f'overview do not show the image, first {q[p]} instead of {lo[p]} to {hi[p]}'))
    return bad


class Verdict:
    def __init__(self):
        self.bad = []
        self.valid = 0
        self.invalid = 0

    def fail(self, kind, text):
        self.bad.append((kind, text))


def judge(c, path):
    """Check an ortho against the reference model."""
    a, m, info = read_out(path)
    return judge_arrays(c, a, m, info)


def judge_arrays(c, a, m, info):
    from rasterio.crs import CRS
    from affine import Affine
    v = Verdict()
    dt, wm, lossy = effective(c, info)
    # ---- structure
    if info['crs'] is None or CRS.from_string(info['crs']) != CRS.from_string(ocrs(c)):
        v.fail('crs', f"{info['crs']} instead of {ocrs(c)}")
        return v
    if info['count'] != c['bands']:
        v.fail('bands', f"{info['count']} bands instead of {c['bands']}")
        return v
    if any(d != dt for d in info['dtypes']):
        v.fail('dtype', f"{info['dtypes']} instead of {dt}")
        return v
    tf = Affine(*info['transform'])
    res = resolution(c)
    g = gsd(c)
    if res is not None:
        if abs(tf.a - res[0]) > 1e-6 * res[0] or abs(-tf.e - res[1]) > 1e-6 * res[1]:
            v.fail('resolution', f'pixel size {tf.a},{-tf.e} instead of {res}')
            return v
    else:
        # an approximate ground sampling distance: "approx as many ortho as source pixels"
        ga = tf.a * math.sqrt(metres(c)[0] * metres(c)[1])
        if not (0.6 * g < ga < 1.7 * g) or abs(tf.a + tf.e) > 1e-9 * abs(tf.a):
            v.fail('resolution', f'auto resolution {tf.a},{tf.e} for a ground sampling distance '
                   f'of {g}')
            return v
    if tf.b or tf.d:
        v.fail('transform', f'rotated transform {tf}')
        return v
    nod = NODATA[dt]
    if wm:
        if info['nodata'] is not None:
            v.fail('nodata', f"nodata {info['nodata']} with an internal mask")
    elif not (info['nodata'] == nod or (info['nodata'] is not None and nod != nod
                                        and info['nodata'] != info['nodata'])):
        v.fail('nodata', f"nodata {info['nodata']} instead of {nod}")
    if dt == 'uint8' and not c['layout'] and not c['compress'] and c['bands'] <= 3 and not lossy:
        v.fail('compress', f"{info['compress']} instead of the documented default (jpeg)")
    has_mask = any(2 in fl for fl in info['mask_flags'])
    if wm and not has_mask:
        v.fail('mask', 'no internal mask was written')
        return v
    # ---- geometry
    h, w = info['shape']
    rx, ry = tf.a * metres(c)[0], -tf.e * metres(c)[1]
    pad = 3
    i, j = np.mgrid[-pad:h + pad, -pad:w + pad]
    x, y = tf * (j + .5, i + .5)
    x, y = to_world(ocrs(c), x, y)
    z = plane(c, x, y)
    sj, si = model_ji(c, x, y, z)
    W, H = c['W'], c['H']
    r = max(rx, ry) / g
    if c.get('oblique'):  # the ground size of a pixel varies
        q = (sj > 0) & (sj < W) & (si > 0) & (si < H)
        r = max([r] + [np.hypot(*np.gradient(k))[q].max() for k in (sj, si) if q.any()])
    und = c['cam'] in ('brown', 'opencv', 'fisheye') and not c['distort']
    m_in = (9 + 5 * r) if und else (5.5 + 2.2 * r)
    if c['interp'] == 'lanczos':
        m_in += 2
    m_out = 2 + 2.2 * r + (1.5 if und else 0)
    inside = (sj > m_in) & (sj < W - 1 - m_in) & (si > m_in) & (si < H - 1 - m_in)
    outside = (sj < -m_out) | (sj > W - 1 + m_out) | (si < -m_out) | (si > H - 1 + m_out)
    # ---- DEM coverage
    crs, dtf, dw, dh = dem_grid(c)
    px, py = from_world(crs, x, y)
    dj, di = ~dtf * (px, py)
    k = 3.5 if c['dem_interp'] not in ('nearest', 'bilinear') else 2.5
    cmin, cmax = min(cells(c)), max(cells(c))
    dm = k + max(rx, ry) / cmin * 2
    if c['dem'] == 'wgs84':
        dm += 1
    in_dem = (dj > dm) & (dj < dw - dm) & (di > dm) & (di < dh - dm)
    out_dem = (dj < -dm) | (dj > dw + dm) | (di < -dm) | (di > dh + dm)
    if c['dem_hole']:
        hx, hy, hr = hole_world(c)
        q = dm * cmax * 1.3
        far = (np.abs(x - hx) > hr + q) | (np.abs(y - hy) > hr + q)
        within = (np.abs(x - hx) < hr - q) & (np.abs(y - hy) < hr - q)
        in_dem &= far
        out_dem |= within
    must = inside & in_dem
    mustnot = outside | out_dem
    sub = (slice(pad, -pad), slice(pad, -pad))
    edge = must.copy()
    edge[sub] = False
    if edge.any():
        v.fail('extent', f'{int(edge.sum())} ground positions seen by the image lie outside the '
               f'ortho bounds')
        return v
    # the ortho should not be much larger than the imaged area
    near = (sj > -m_out) & (sj < W - 1 + m_out) & (si > -m_out) & (si < H - 1 + m_out)
    near = near[sub] & ~out_dem[sub]
    if near.any():
        rows, cols = np.where(near.any(1))[0], np.where(near.any(0))[0]
        slack = 3
        if c['dem_cut'] or c['dem_hole']:
            slack += int(2 * cmax / min(rx, ry))
        if rows[0] > slack or cols[0] > slack or rows[-1] < h - 1 - slack or \
                cols[-1] < w - 1 - slack:
            v.fail('extent', f'ortho {w}x{h} is larger than the imaged area, rows {rows[0]}-'
                   f'{rows[-1]}, columns {cols[0]}-{cols[-1]}')
            return v
    must, mustnot, sj, si, x, y, z = (q[sub] for q in (must, mustnot, sj, si, x, y, z))
    # ---- validity
    if wm:
        valid = m != 0
    else:
        nd = np.isnan(a) if nod != nod else (a == nod)
        valid = ~nd.all(0)
        part = valid & nd.any(0)
        if c.get('patch'):
            part &= ~patch(c, sj, si, -12)
        if (part & must).any():
            v.fail('band-nodata', f'{int((part & must).sum())} valid pixels have no-data in some '
                   f'band')
    cover = 1.0
    if und and c['alpha'] < 1:
        # part of the source is cropped by choice: only the central part has to be there
        cj, ci = abs(sj - (W - 1) / 2) / W, abs(si - (H - 1) / 2) / H
        must_cov = must & (cj < .2) & (ci < .2)
    else:
        must_cov = must
    lost = must_cov & ~valid
    if lost.any():
        p = np.argwhere(lost)[0]
        v.fail('missing', f'{int(lost.sum())} of {int(must_cov.sum())} pixels with source and DEM '
               f'data are marked no-data, first at row {p[0]}, column {p[1]}')
    ghost = mustnot & valid
    if lossy and not wm:
        ghost &= False
    if ghost.any():
        p = np.argwhere(ghost)[0]
        v.fail('ghost', f'{int(ghost.sum())} of {int(mustnot.sum())} pixels without source or DEM '
               f'data are marked valid, first at row {p[0]}, column {p[1]}')
    # ---- values
    chk = must & valid
    if lossy:
        # keep away from the jpeg blocks which contain no-data
        import cv2
        bad = (~(must & valid)).astype('uint8')
        chk = chk & (cv2.dilate(bad, np.ones((33, 33), 'uint8')) == 0)
    v.valid, v.invalid = int(chk.sum()), int(mustnot.sum())
    # tolerance in pixels from DEM sampling
    if c['dem_dtype'] == 'int16':
        dz = .5 * (US_FT if c['dem'] == 'feet' else 1.0) * 1.4
    else:
        dz = 0.02
    sl = math.hypot(*c['slope'])
    if c['dem_interp'] == 'nearest':
        dz += sl * cmax * 1.1
    if c['dem'] in ('wgs84', 'utm36') or ocrs(c) != WORLD:
        dz += sl * (cmax * .02 + 0.125 * max(rx, ry))
    j2, i2 = model_ji(c, x, y, z + dz)
    dpx = np.hypot(j2 - sj, i2 - si)
    gr = grad(c)
    gain = _scale(c)[1]
    tol = gain * 1.6 + 1.0 + dpx * gr
    if c['interp'] == 'nearest':
        tol = tol + gr * (0.8 if not und else 1.6)
    if und:
        # undistorted image: interpolated twice, at a lower resolution where it is squeezed
        tol = tol + gain * 2.0
    if lossy:
        tol = tol + 26
    for b in range(c['bands']):
        want = value(c, b, sj, si)
        t = tol
        if c.get('over') and dt == 'uint8':
            t = tol + np.where(np.abs(want - 255) < 2 * gr, .2 * gr, 0)
            want = np.minimum(want, 255)
        on = np.ones(want.shape, bool)
        if c.get('patch') and b in c['patch']['bands']:
            q = patch(c, sj, si, 6)
            want = np.where(q, 0, want)
            on = q | ~patch(c, sj, si, -8)
        e = np.abs(a[b].astype('float64') - want)
        e = np.where(np.isnan(e), np.inf, np.where(on, e, 0))
        bad = chk & (e > t)
        if bad.any() and not (lossy and bad.sum() <= .03 * v.valid):
            p = np.argwhere(bad)[0]
            v.fail('value', f'band {b + 1}: {int(bad.sum())} of {int(chk.sum())} checked pixels '
                   f'differ from the source value, first at row {p[0]}, column {p[1]}: '
                   f'{a[b][tuple(p)]} instead of {want[tuple(p)]:.3f} (tolerance '
                   f'{np.broadcast_to(t, e.shape)[tuple(p)]:.3f})')
    return v
