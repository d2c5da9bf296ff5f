"""Inputs of the pan-sharpening scenarios and the reference that judges their output.

The reference recomputes the result from whole-image reads: statistics with numpy over the shared
valid area in one piece, and the closed form of the Gram-Schmidt substitution
``out_k = ms_k + g_k * (gain * pan + bias - sim)``, ``g_k = cov(ms_k, sim) / var(sim)``."""
import math
import warnings

import numpy as np

from .world import NODATA, tiff

CRS = 'EPSG:32735'
E0, N0 = 500000.0, 6200000.0


def gen(rng, multi=None, simple=False, allow_jpeg=True, big=0.0):
    r = [rng.choice([2, 4]), rng.choice([2, 4])]
    if rng.random() < .6:
        r[1] = r[0]
    multi = rng.random() < .4 if multi is None else multi
    if multi:
        # more than 1024 MS pixels in one direction: several statistics tiles
        long, short = rng.randrange(1030, 2300), rng.randrange(3, 9)
        if rng.random() < .5:  # several tiles of the same shape
            long, short = rng.choice([2048, 2048, 2055, 3072, 3100, 5120, 5300]), \
                rng.randrange(3, 6)
        r = [2, 2]
        mw, mh = (long, short) if rng.random() < .5 else (short, long)
    elif rng.random() < big:  # more than 512 pixels: overviews
        r = [2, 2]
        mw, mh = rng.randrange(258, 290), rng.randrange(258, 290)
    else:
        mw, mh = rng.randrange(12, 40), rng.randrange(12, 40)
    georef = rng.choice(['both', 'both', 'both', 'none', 'pan', 'ms'])
    if simple:
        georef = 'both'
    bands = rng.choice([1, 2, 3, 3, 4, 5] * 4 + [10])
    dtype = rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64'])
    c = dict(r=r, mw=mw, mh=mh, georef=georef, bands=bands, dtype=dtype,
             pan_dtype=rng.choice([dtype, 'uint16', 'float32']),
             odtype=rng.choice([None, None, None, 'uint8', 'uint16', 'int16', 'float32',
                                'float64']),
             phase=rng.randrange(1000),
             # pan grid relative to the MS grid: offset in quarter MS pixels, trimmed size
             off=[0, 0], trim=[0, 0],
             pan_bands=rng.choice([1, 1, 1, 3]), pan_index=1, ms_indexes=None, weights=None,
             pan_nodata=None, ms_nodata=None, pan_hole=None, ms_hole=None, alpha=False,
             interp=rng.choice(['cubic', 'cubic', 'bilinear', 'nearest', 'lanczos', 'average']),
             write_mask=rng.choice([None, None, True, False]), driver='gtiff', compress=None,
             layout=None, ovw=rng.random() < .3)
    c['pan_index'] = rng.randrange(1, c['pan_bands'] + 1)
    if georef == 'both' and rng.random() < .6:
        lim = [min(8, mw), min(8, mh)]
        c['off'] = [rng.randrange(-lim[0] * 2, lim[0] * 2) / 4,
                    rng.randrange(-lim[1] * 2, lim[1] * 2) / 4]
        if multi:
            c['off'][1 if mw > mh else 0] = rng.choice([0, 0.5, -0.5, 1])
    if bands >= 3 and rng.random() < .25:
        c['alpha'] = True
    if georef == 'both' and max(mw, mh) < 100 and rng.random() < .15:
        # MS in another CRS, whose grid is turned against the pan grid
        c['mcrs'] = rng.choice(['EPSG:32734', 'EPSG:32736'])
    k = rng.random()
    if k < .35 and bands > 1:
        n = rng.randrange(1, bands + 1)
        idx = list(range(1, bands + 1))
        rng.shuffle(idx)
        c['ms_indexes'] = idx[:n]
        if rng.random() < .2:
            c['ms_indexes'].append(c['ms_indexes'][0])
    nsel = len(selected(c))
    if rng.random() < .5:
        c['weights'] = [round(rng.uniform(.1, 3), 2) for _ in range(nsel)]
        if rng.random() < .3 and nsel > 1:
            c['weights'][rng.randrange(nsel)] = 0
    for which in ('pan', 'ms'):
        if rng.random() < .4:
            c[f'{which}_nodata'] = True
            x0, y0 = rng.uniform(-.2, .7), rng.uniform(-.2, .7)
            c[f'{which}_hole'] = [round(x0, 3), round(y0, 3), round(x0 + rng.uniform(.1, .6), 3),
                                  round(y0 + rng.uniform(.1, .6), 3)]
    # layout
    kk = rng.random()
    if kk < .15 and not multi:
        c['driver'] = 'cog'
        c['layout'] = dict(blocksize=128) if rng.random() < .8 else None
    elif kk < .5:
        c['layout'] = dict(tiled=True, blockxsize=rng.choice([16, 32, 48]),
                           blockysize=rng.choice([16, 32]))
        if multi:
            c['layout'].update(blockxsize=256, blockysize=256)
    elif kk < .8:
        c['layout'] = dict(tiled=False, blockysize=rng.choice([3, 7, 16]))
        if multi and mh > mw:
            c['layout']['blockysize'] = rng.choice([300, 517])
    if c['layout'] and rng.random() < .4:
        c['layout'].update(compress=rng.choice(['deflate', 'lzw']))
    if not c['layout']:
        c['compress'] = rng.choice([None, 'deflate', 'lzw'])
        if not allow_jpeg and c['compress'] is None:
            c['compress'] = 'deflate'
    c['arg_form'] = rng.choice(['list', 'list', 'tuple', 'array'])
    return c


def selected(c):
    if c['ms_indexes']:
        return list(c['ms_indexes'])
    n = c['bands'] + (1 if c['alpha'] else 0)
    return [i for i in range(1, n + 1) if not (c['alpha'] and i == n)]


def pan_size(c):
    pw, ph = c['mw'] * c['r'][0], c['mh'] * c['r'][1]
    return pw, ph


def _fields(c, x, y):
    """Smooth 'reflectance' fields at MS pixel coordinates (x, y)."""
    ph = c['phase'] * .61
    out = []
    for b in range(c['bands']):
        q = ph + b * 2.1
        out.append(110 + 26 * np.sin(x / (5 + b) + q) * np.cos(y / (4 + .5 * b) - q)
                   + 18 * np.sin((x + 2 * y) / 9 + 1.7 * q)
                   + 20 * np.sin(x / 700 + q) + 14 * np.sin(y / 700 - q) + 5 * b)
    return np.stack(out)


def _gain(c, dtype):
    eff = c['odtype'] or c['dtype']
    if 'uint8' in (eff, c['dtype']):
        return 1.0
    return 40.0


def _store(c, a, dtype):
    if np.issubdtype(np.dtype(dtype), np.integer):
        info = np.iinfo(dtype)
        a = np.clip(np.round(a), info.min + 1, info.max)
    return a.astype(dtype)


def _hole(shape, h):
    m = np.zeros(shape, bool)
    if h:
        H, W = shape
        m[max(0, int(h[1] * H)):max(0, int(h[3] * H)), max(0, int(h[0] * W)):max(0, int(h[2] * W))] = True
    return m


def nod(dtype):
    return NODATA[dtype]


def ms_grid(c):
    """(CRS, transform) of the MS image."""
    from rasterio.transform import from_origin
    from rasterio.warp import transform
    crs = c.get('mcrs') or CRS
    if crs == CRS:
        return CRS, from_origin(E0, N0, 4.0, 4.0)
    x, y = transform(CRS, crs, [E0], [N0])
    return crs, from_origin(x[0] + 1.237, y[0] - .741, 4.0, 4.0)


def make(c, pan_path, ms_path):
    from rasterio.transform import from_origin
    g = _gain(c, c['dtype'])
    # MS
    y, x = np.mgrid[0:c['mh'], 0:c['mw']] + .5
    ms = _store(c, _fields(c, x, y) * g, c['dtype'])
    mprof = {}
    if c['ms_nodata']:
        for b in c.get('ms_hole_bands') or range(ms.shape[0]):
            ms[b, _hole(ms.shape[1:], c['ms_hole'])] = nod(c['dtype'])
        mprof['nodata'] = nod(c['dtype'])
    if c['alpha']:
        ms = np.concatenate([ms, np.full((1, *ms.shape[1:]), 255, ms.dtype)])
        mprof.update(photometric='RGB', alpha='unassociated') if c['bands'] == 3 else None
    mres = (4.0, 4.0)
    if c['georef'] in ('both', 'ms'):
        mcrs, mtf = ms_grid(c)
        mprof.update(crs=mcrs, transform=mtf)
    tiff(ms_path, ms, **mprof)
    if c['alpha']:
        import rasterio as rio
        from rasterio.enums import ColorInterp
        with rio.open(ms_path, 'r+') as ds:
            ci = [ColorInterp.gray] + [ColorInterp.undefined] * (ms.shape[0] - 2) + [
                ColorInterp.alpha]
            ds.colorinterp = ci
    # pan
    pw, ph = pan_size(c)
    y, x = np.mgrid[0:ph, 0:pw] + .5
    x, y = x / c['r'][0] + c['off'][0], y / c['r'][1] + c['off'][1]
    if c.get('mcrs'):  # MS pixel coordinates of the pan pixels
        from rasterio.warp import transform
        wx, wy = transform(CRS, mcrs, (E0 + 4 * x).ravel(), (N0 - 4 * y).ravel())
        x, y = (v.reshape(x.shape) for v in ~mtf * (np.array(wx), np.array(wy)))
    f = _fields(c, x, y)
    w = np.linspace(1, 2, f.shape[0])
    pan = (w[:, None, None] * f).sum(0) / w.sum() + 9 * np.sin(x * 3.1 + y * 2.3)
    pan = pan * .8 * g + 6
    pans = _store(c, np.stack([pan if b + 1 == c['pan_index'] else pan * 0 + 50 + 10 * b
                               for b in range(c['pan_bands'])]), c['pan_dtype'])
    pprof = {}
    if c['pan_nodata']:
        pans[:, _hole(pans.shape[1:], c['pan_hole'])] = nod(c['pan_dtype'])
        pprof['nodata'] = nod(c['pan_dtype'])
    if c['georef'] in ('both', 'pan'):
        pprof.update(crs=CRS, transform=from_origin(
            E0 + c['off'][0] * mres[0], N0 - c['off'][1] * mres[1],
            mres[0] / c['r'][0], mres[1] / c['r'][1]))
    tiff(pan_path, pans, **pprof)


def options(c):
    form = c.get('arg_form', 'list')
    o = dict(pan_index=c['pan_index'],
             ms_indexes=c['ms_indexes'] and (list if form == 'list' else tuple)(c['ms_indexes']),
             weights=c['weights'] and dict(list=list, tuple=tuple, array=np.array)[form](
                 c['weights']),
             interp=c['interp'], write_mask=c['write_mask'], dtype=c['odtype'],
             build_ovw=c['ovw'], driver=c['driver'])
    if c['layout']:
        o['creation_options'] = dict(c['layout'])
    else:
        o['compress'] = c['compress']
    return o


def reference(c, pan_path, ms_path, info):
    """(values, valid, transform, shape) expected, or None when statistics are degenerate."""
    import rasterio as rio
    from affine import Affine
    from rasterio.enums import Resampling
    from rasterio.vrt import WarpedVRT
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(pan_path) as pan_ds, rio.open(ms_path) as ms_ds:
            ptf, mtf = pan_ds.transform, ms_ds.transform
            pw, ph, mw, mh = pan_ds.width, pan_ds.height, ms_ds.width, ms_ds.height
            if c['georef'] == 'none' or c['georef'] == 'pan':
                mtf = ptf * Affine.scale(pw / mw, ph / mh)
            elif c['georef'] == 'ms':
                ptf = mtf * Affine.scale(mw / pw, mh / ph)
            if c['georef'] == 'both':
                def win(tf, w, h, otf, ow, oh):
                    if c.get('mcrs'):
                        from rasterio.warp import transform_bounds
                        a, b = (pan_ds, ms_ds) if tf is ptf else (ms_ds, pan_ds)
                        bb = transform_bounds(b.crs, a.crs, *b.bounds)
                        (x0, y0), (x1, y1) = ~tf * (bb[0], bb[3]), ~tf * (bb[2], bb[1])
                    else:
                        x0, y0 = ~tf * (otf * (0, 0))
                        x1, y1 = ~tf * (otf * (ow, oh))
                    x0, y0 = max(0, math.floor(x0 + 1e-9)), max(0, math.floor(y0 + 1e-9))
                    x1, y1 = min(w, math.ceil(x1 - 1e-9)), min(h, math.ceil(y1 - 1e-9))
                    return x0, y0, x1, y1
                pwin = win(ptf, pw, ph, mtf, mw, mh)
                mwin = win(mtf, mw, mh, ptf, pw, ph)
            else:
                pwin, mwin = (0, 0, pw, ph), (0, 0, mw, mh)
            otf = ptf * Affine.translation(pwin[0], pwin[1])
            oshape = (pwin[3] - pwin[1], pwin[2] - pwin[0])
            gtf = mtf * Affine.translation(mwin[0], mwin[1])
            gshape = (mwin[3] - mwin[1], mwin[2] - mwin[0])

            def read(ds, src_tf, tf, shape, idx, crs, rs):
                with WarpedVRT(ds, crs=crs, src_transform=src_tf, transform=tf, width=shape[1],
                               height=shape[0], dtype='float64', nodata=float('nan'),
                               resampling=rs) as vrt:
                    return vrt.read(idx)
            sel = selected(c)
            it = Resampling[c['interp']]
            p_ms = read(pan_ds, ptf, gtf, gshape, c['pan_index'], ms_ds.crs, Resampling.average)
            m_ms = read(ms_ds, mtf, gtf, gshape, sel, ms_ds.crs, Resampling.nearest)
            p_p = read(pan_ds, ptf, otf, oshape, c['pan_index'], pan_ds.crs, Resampling.nearest)
            m_p = read(ms_ds, mtf, otf, oshape, sel, pan_ds.crs, it)
            ci = [int(ms_ds.colorinterp[i - 1]) for i in sel]
            crs = pan_ds.crs.to_string() if pan_ds.crs else None
    ok = ~np.isnan(p_ms) & ~np.isnan(m_ms).any(0)
    n = int(ok.sum())
    if n < 12:
        return None
    d = np.concatenate([p_ms[ok][None], m_ms[:, ok]])
    cov = np.atleast_2d(np.cov(d))
    mean = d.mean(1)
    if c['weights'] is not None:
        w = np.array(c['weights'], 'float64')
    else:
        if np.linalg.cond(cov[1:, 1:]) > 1e8:
            return None
        w = np.linalg.solve(cov[1:, 1:], cov[0, 1:])
        if np.abs(w).min() < 1e-3 * np.abs(w).max():
            return None
        if (w < 0).any():
            pos = np.where(w > 0)[0]
            if not len(pos):
                return None
            w2 = np.linalg.solve(cov[1:, 1:][np.ix_(pos, pos)], cov[0, 1:][pos])
            if np.abs(w2).min() < 1e-3 * np.abs(w2).max():
                return None
            if (w2 >= 0).all():
                w = np.zeros(len(w))
                w[pos] = w2
            w = w.clip(0, None)
    if w.sum() <= 0:
        return None
    w = w / w.sum()
    C = cov[1:, 1:]
    vs = w @ C @ w
    if cov[0, 0] < 1e-6 or vs < 1e-6:
        return None
    gain = math.sqrt(vs / cov[0, 0])
    bias = w @ mean[1:] - gain * mean[0]
    g = C @ w / vs
    sim = np.tensordot(w, m_p, 1)
    out = m_p + g[:, None, None] * (gain * p_p + bias - sim)
    valid = ~np.isnan(p_p) & ~np.isnan(m_p).any(0)
    return dict(values=out, valid=valid, transform=otf, shape=oshape, ci=ci, crs=crs, n=n,
                stat_tiles=math.ceil(gshape[0] / 1024) * math.ceil(gshape[1] / 1024))


def judge(c, a, m, info, ref):
    """List of (kind, text)."""
    from affine import Affine
    bad = []
    dt = c['odtype'] or c['dtype']
    sel = selected(c)
    if info['count'] != len(sel) or any(d != dt for d in info['dtypes']):
        return [('bands', f"{info['count']} x {info['dtypes']} instead of {len(sel)} x {dt}")], 0
    if c.get('mcrs'):
        # rounding of the shared bounds may add a row or column, which holds no data
        ex = [info['shape'][i] - ref['shape'][i] for i in (0, 1)]
        if max(ex) == 1 and min(ex) >= 0:
            ref = dict(ref, shape=tuple(info['shape']),
                       values=np.pad(ref['values'], ((0, 0), (0, ex[0]), (0, ex[1])),
                                     constant_values=np.nan),
                       valid=np.pad(ref['valid'], ((0, ex[0]), (0, ex[1]))))
    if tuple(info['shape']) != tuple(ref['shape']):
        return [('size', f"{info['shape']} instead of {ref['shape']}")], 0
    if info['crs'] != ref['crs'] or not Affine(*info['transform']).almost_equals(
            ref['transform'], 1e-6):
        return [('georeferencing', f"{info['crs']} {info['transform']} instead of {ref['crs']} "
                 f"{tuple(ref['transform'])[:6]}")], 0
    comp = (c['layout'] or {}).get('compress') if c['layout'] else (
        c['compress'] or info['compress'].lower())
    lossy = comp == 'jpeg'
    wm = bool(c['write_mask']) if (c['layout'] or c['write_mask'] is not None) else lossy
    nd = nod(dt)
    if wm:
        if not any(2 in fl for fl in info['mask_flags']):
            return [('mask', 'no internal mask')], 0
        valid = m != 0
    else:
        if not (info['nodata'] == nd or (nd != nd and info['nodata'] is not None
                                         and info['nodata'] != info['nodata'])):
            bad.append(('nodata', f"nodata {info['nodata']} instead of {nd}"))
        isn = np.isnan(a) if nd != nd else a == nd
        valid = ~isn.all(0)
    v = ref['values']
    if np.issubdtype(np.dtype(dt), np.integer):
        ii = np.iinfo(dt)
        want = np.clip(v, ii.min, ii.max)
        tol = 0.5 + 1e-3 + 1e-6 * np.nanmax(np.abs(want))
    else:
        want = v
        tol = 1e-5 * np.nanmax(np.abs(np.where(ref['valid'], v, 0))) + 1e-6
        if dt == 'float32':
            tol *= 4
    if lossy:
        tol = 40
    okv = ref['valid']
    if not wm:
        # a valid value may fall on the no-data value
        amb = (np.abs(want - nd) <= 1).all(0) if nd == nd else np.zeros(okv.shape, bool)
    else:
        amb = np.zeros(okv.shape, bool)
    if not (lossy and not wm):
        lost = okv & ~valid & ~amb
        if lost.any():
            p = tuple(np.argwhere(lost)[0])
            bad.append(('missing', f'{int(lost.sum())} of {int(okv.sum())} pixels with data are '
                        f'marked no-data, first at {p}'))
        ghost = ~okv & valid
        if ghost.any():
            p = tuple(np.argwhere(ghost)[0])
            bad.append(('ghost', f'{int(ghost.sum())} of {int((~okv).sum())} pixels without data '
                        f'are marked valid, first at {p}'))
    chk = okv & valid
    if lossy:
        import cv2
        chk = chk & (cv2.dilate((~chk).astype('uint8'), np.ones((33, 33), 'uint8')) == 0)
    n = int(chk.sum())
    for b in range(a.shape[0]):
        e = np.abs(a[b].astype('float64') - want[b])
        e = np.where(np.isnan(e), np.inf, e)
        w = chk & (e > tol)
        if w.any() and not (lossy and w.sum() <= .05 * n):
            p = tuple(np.argwhere(w)[0])
            bad.append(('value', f'output band {b + 1}: {int(w.sum())} of {n} pixels differ from '
                        f'the reference, first at {p}: {a[b][p]} instead of {v[b][p]:.4f}'))
    return bad, n
