"""Seeded camera parameters, and image / text files that hold them."""
import json
import math

import numpy as np

from . import world
from .world import E0, N0, WORLD, tiff

CAM_KEYS = dict(
    pinhole=['cx', 'cy'],
    brown=['cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3'],
    opencv=['cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4',
            'tx', 'ty'],
    fisheye=['cx', 'cy', 'k1', 'k2', 'k3', 'k4'],
)
NAMES = ['img', 'IMG', 'a b', 'DSC', 'x-1', 'é', 'ngi.3324', '0012', 'scene_', 'ж']


def gen_names(rng, n, ext='.tif'):
    """Distinct names; also distinct without their extension and case."""
    return [f'{rng.choice(NAMES)}{i}{ext}' for i in range(n)]


def num(rng, a, big=False):
    """A float that needs all of its digits, or an exotic one."""
    k = rng.random()
    if k < .6:
        return rng.uniform(-a, a)
    if k < .7:
        return round(rng.uniform(-a, a), 3)
    if k < .8:
        return rng.uniform(-a, a) * 1e-9
    if k < .86:
        return 0.0
    if k < .93:
        return float(round(rng.uniform(-a, a)))
    return rng.uniform(-a, a) * 1e-16


def gen_int(rng, cam=None, size=None):
    """Interior parameters of one camera (plain JSON types; lists stand for tuples)."""
    cam = cam or rng.choice(list(CAM_KEYS))
    W, H = size or (rng.randrange(20, 9000), rng.randrange(20, 9000))
    p = dict(cam_type=cam, im_size=[W, H])
    f = rng.uniform(.7, 1.5)
    form = rng.choice(['norm', 'norm', 'mm', 'mm2'])
    if form == 'norm':
        p['focal_len'] = f
    else:
        s = rng.choice([36.0, 13.2, 1.0, rng.uniform(5, 40)])
        p['focal_len'] = f * s if form == 'mm' else [f * s, f * s * rng.uniform(.98, 1.02)]
        p['sensor_size'] = [s, s * H / W]
    for k in CAM_KEYS[cam]:
        if rng.random() < .75:
            a = .05 if k in ('cx', 'cy') else .01
            p[k] = num(rng, a)
    return p


def gen_ext(rng, cams, near=(E0, N0)):
    return dict(xyz=[near[0] + rng.uniform(-3000, 3000), near[1] + rng.uniform(-3000, 3000),
                     rng.uniform(200, 3000)],
                opk=[rng.uniform(-.2, .2), rng.uniform(-.2, .2), rng.uniform(-math.pi, math.pi)],
                camera=rng.choice(cams))


def gen_frame(rng, n=None, cams=None, size=None):
    """{'int': {...}, 'ext': {...}}"""
    nc = rng.choice([1, 1, 2, 3])
    ids = rng.sample(['cam', 'acme z 12', 'v 3', 'über', 'nat:x', '7', 'yes', 'null', '1e3'], nc)
    n = n or rng.choice([1, 2, 3, 6])
    exts = {nm: gen_ext(rng, ids) for nm in gen_names(rng, n)}
    return dict(int={i: gen_int(rng, cams and rng.choice(cams), size) for i in ids}, ext=exts)


def int_param(d):
    """JSON form -> the library's form."""
    from orthority.enums import CameraType
    out = {}
    for k, p in d.items():
        q = {}
        for a, v in p.items():
            q[a] = CameraType(v) if a == 'cam_type' else tuple(v) if isinstance(v, list) else v
        out[k] = q
    return out


def ext_param(d):
    return {k: dict(xyz=tuple(p['xyz']), opk=tuple(p['opk']), camera=p['camera'])
            for k, p in d.items()}


def gen_rpc(rng, size=(60, 50)):
    """An RPC model near the origin of the world CRS (JSON form)."""
    W, H = size
    q = lambda a: rng.uniform(-a, a)  # noqa
    k = rng.uniform(-3.1, 3.1)
    sn, ln = [0.0] * 20, [0.0] * 20
    sn[:4] = [q(.02), math.cos(k), math.sin(k), q(.05)]
    ln[:4] = [q(.02), math.sin(k), -math.cos(k), q(.05)]
    for i in range(4, 20):
        sn[i], ln[i] = q(1e-4), q(1e-4)
    sd, ld = [1.0] + [q(1e-3) for _ in range(19)], [1.0] + [q(1e-3) for _ in range(19)]
    return dict(height_off=120.0 + q(3), height_scale=1000.0, lat_off=-34.34 + q(.01),
                lat_scale=.004 + q(.0005), long_off=27.0 + q(.01), long_scale=.005 + q(.0005),
                line_off=(H - 1) / 2 + q(.4), line_scale=H / 2.0, samp_off=(W - 1) / 2 + q(.4),
                samp_scale=W / 2.0, line_num_coeff=ln, line_den_coeff=ld, samp_num_coeff=sn,
                samp_den_coeff=sd, err_bias=rng.choice([None, 1.5]),
                err_rand=rng.choice([None, .25]))


def gen_rpcs(rng, n=None, names=None):
    names = names or gen_names(rng, n or rng.choice([1, 2, 3, 5]))
    return {nm: dict(im_size=[60 + i, 50 + 2 * i], rpc=gen_rpc(rng, (60 + i, 50 + 2 * i)),
                     gcp_crs=rng.choice(['EPSG:4979', 'EPSG:4979', WORLD, 'EPSG:4978', 'EPSG:4222']))
            for i, nm in enumerate(names)}


def rpc_param(d):
    from orthority.enums import CameraType
    return {k: dict(cam_type=CameraType.rpc, im_size=tuple(p['im_size']),
                    rpc=json.loads(json.dumps(p['rpc']))) for k, p in d.items()}


def rpc_project(rpc, lon, lat, h):
    from .world import _rpc_poly
    x = (lon - rpc['long_off']) / rpc['long_scale']
    y = (lat - rpc['lat_off']) / rpc['lat_scale']
    z = (h - rpc['height_off']) / rpc['height_scale']
    i = _rpc_poly(rpc['line_num_coeff'], x, y, z) / _rpc_poly(rpc['line_den_coeff'], x, y, z)
    j = _rpc_poly(rpc['samp_num_coeff'], x, y, z) / _rpc_poly(rpc['samp_den_coeff'], x, y, z)
    return j * rpc['samp_scale'] + rpc['samp_off'], i * rpc['line_scale'] + rpc['line_off']


def gen_gcps(rng, rpcs, n=None, text=True):
    """GCPs for each RPC image: offset from the model by a fixed shift plus noise."""
    out = {}
    for nm, p in rpcs.items():
        r = p['rpc']
        sj, si = rng.uniform(-4, 4), rng.uniform(-4, 4)
        gcps = []
        for k in range(n or rng.choice([3, 4, 7])):
            lon = r['long_off'] + r['long_scale'] * rng.uniform(-.8, .8)
            lat = r['lat_off'] + r['lat_scale'] * rng.uniform(-.8, .8)
            h = 120 + rng.uniform(-60, 60)
            j, i = rpc_project(r, lon, lat, h)
            gcps.append(dict(ji=[j + sj + rng.uniform(-.2, .2), i + si + rng.uniform(-.2, .2)],
                             xyz=[lon, lat, h],
                             id=rng.choice([f'p{k}', 'a "b" \\ c', 'ü', '', None, '12']),
                             info=rng.choice(['', 'some, info', None, 'line\nbreak'])))
        out[nm] = gcps
    return out


def gcp_dict(d):
    return {k: [dict(g, ji=tuple(g['ji']), xyz=tuple(g['xyz'])) for g in v] for k, v in d.items()}


# ---------------------------------------------------------------------------- image files
def rpc_image(path, p, gcps=None, count=1):
    """A small GeoTIFF with RPC (and optionally GCP) tags."""
    from rasterio.rpc import RPC
    W, H = p['im_size']
    prof = {}
    if p.get('rpc'):
        prof['rpcs'] = RPC(**p['rpc'])
    i, j = np.mgrid[0:H, 0:W]
    a = np.stack([(40 + 3 * j + 2 * i + 20 * b) % 200 + 20 for b in range(count)]).astype('uint8')
    if gcps:
        from rasterio.control import GroundControlPoint as G
        from rasterio.warp import transform
        crs = p.get('gcp_crs', 'EPSG:4979')
        xyz = [g['xyz'] for g in gcps]
        if crs != 'EPSG:4979':
            xyz = list(zip(*transform('EPSG:4979', crs, *zip(*xyz))))
        prof.update(gcps=[G(row=g['ji'][1], col=g['ji'][0], x=q[0], y=q[1], z=q[2], id=str(k))
                          for k, (g, q) in enumerate(zip(gcps, xyz))], crs=crs)
    tiff(path, a, **prof)


def gen_exif(rng, names=None, n=None):
    """{name: tags} (JSON)."""
    names = names or gen_names(rng, n or rng.choice([1, 2, 3, 5]))
    models = rng.choice([1, 2])
    kinds = [dict(unit=rng.choice([2, 3, 4, 4, 5]), fmode=rng.choice(['f', 'f', 'f35', 'f35s']),
                  serial=rng.choice([None, None, 'SN 04'])) for _ in range(2)]
    dewarp = [round(rng.uniform(-.01, .01), 5) for _ in range(5)]
    zoom = rng.choice([0, 0, .75, -1.3])
    out = {}
    for k, nm in enumerate(names):
        m = rng.randrange(models)
        W, H = (48 + 4 * m, 40 + 2 * m)
        out[nm] = dict(im_size=[W, H], make='Acme', model=f'Z{m}', focal=round(8 + m * .5 + zoom, 3),
                       sensor=[round(.2 * W, 4), round(.2 * H, 4)],
                       lla=[-34.34 + rng.uniform(-.01, .01), 27 + rng.uniform(-.01, .01),
                            round(rng.uniform(200, 600), 3)],
                       rpy=[round(rng.uniform(-5, 5), 2), round(rng.uniform(-95, -85), 2),
                            round(rng.uniform(-179, 179), 2)],
                       xmp_lla=rng.random() < .7,
                       schema=rng.choice(['dji', 'dji', 'sensefly', 'pix4d']),
                       attr=rng.random() < .7,
                       dewarp=dewarp if m == 1 else None, **kinds[m])
        e = out[nm]
        if e['schema'] != 'dji':
            # (pitch is from the nadir)
            e['rpy'] = [e['rpy'][0], round(e['rpy'][1] + 90, 2), e['rpy'][2]]
            e['xmp_lla'] = False
        if not e['xmp_lla'] and rng.random() < .2:
            e['lla'][2] *= -1
    return out


MM = {2: 25.4, 3: 10.0, 4: 1.0, 5: .001}
NS = dict(dji='http://www.dji.com/drone-dji/1.0/', sensefly='http://ns.sensefly.com/Camera/1.0/',
          pix4d='http://pix4d.com/camera/1.0/')


def exif_image(path, e):
    import rasterio as rio
    import warnings
    W, H = e['im_size']
    i, j = np.mgrid[0:H, 0:W]
    a = ((50 + 3 * j + 2 * i) % 200 + 20).astype('uint8')[None]
    tags = dict(EXIF_Make=e['make'], EXIF_Model=e['model'])
    if e.get('serial'):
        tags['EXIF_BodySerialNumber'] = e['serial']
    fm, unit, schema = e.get('fmode', 'f'), e.get('unit', 4), e.get('schema', 'dji')
    if e.get('focal'):
        if fm == 'f' or e.get('dewarp'):
            tags.update(EXIF_FocalLength=f"({e['focal']!r})")
        if fm.startswith('f35'):
            tags.update(EXIF_FocalLengthIn35mmFilm=f"({e['focal'] * 3!r})")
        if fm != 'f35':
            mm = MM[unit]
            tags.update(EXIF_FocalPlaneResolutionUnit=str(unit),
                        EXIF_FocalPlaneXResolution=f"({W / e['sensor'][0] * mm!r})",
                        EXIF_FocalPlaneYResolution=f"({H / e['sensor'][1] * mm!r})")
        tags.update(EXIF_PixelXDimension=f'({W})', EXIF_PixelYDimension=f'({H})')
    xmp = []
    if e.get('lla'):
        lat, lon, alt = e['lla']
        if e['xmp_lla']:
            xmp += [('GpsLatitude', repr(lat)), ('GpsLongtitude', repr(lon)),
                    ('AbsoluteAltitude', f'+{alt!r}')]
        else:
            for k, v, pos in (('Latitude', lat, 'NS'), ('Longitude', lon, 'EW')):
                a_ = abs(v)
                dg = int(a_)
                mn = int((a_ - dg) * 60)
                sc = (a_ - dg - mn / 60) * 3600
                tags[f'EXIF_GPS{k}'] = f'({dg}) ({mn}) ({sc!r})'
                tags[f'EXIF_GPS{k}Ref'] = pos[0] if v >= 0 else pos[1]
            tags['EXIF_GPSAltitude'] = f'({abs(alt)!r})'
            tags['EXIF_GPSAltitudeRef'] = '0x00' if alt >= 0 else '0x01'
    if e.get('rpy'):
        pre, post = ('Gimbal', 'Degree') if schema == 'dji' else ('', '')
        xmp += [(pre + k + post, str(v)) for k, v in zip(('Roll', 'Pitch', 'Yaw'), e['rpy'])]
    dw = []
    if e.get('dewarp'):
        d = e['dewarp']
        fpx = e['focal'] / e['sensor'][0] * W
        dw = [('DewarpData', '2020-01-01;' + ','.join(repr(x) for x in [fpx, fpx, .5, -.25, *d]))]
    attrs = els = ''
    if e.get('attr', True):
        attrs = ' '.join(f'd:{k}="{v}"' for k, v in xmp)
    else:
        els = ''.join(f'<d:{k}>{v}</d:{k}>' for k, v in xmp)
    attrs += ' ' + ' '.join(f'j:{k}="{v}"' for k, v in dw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', driver='GTiff', width=W, height=H, count=1, dtype='uint8') as ds:
            if world.PAD:
                ds.update_tags(PAD='x' * world.PAD)
            ds.write(a)
            ds.update_tags(**tags)
            if xmp or dw:
                xmp = ('<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/'
                       '1999/02/22-rdf-syntax-ns#"><rdf:Description xmlns:j='
                       f'"{NS["dji"]}" xmlns:d="{NS[schema]}" {attrs}>{els}</rdf:Description>'
                       '</rdf:RDF></x:xmpmeta>')
                ds.update_tags(ns='xml:XMP', **{'xml:XMP': xmp})


def check_exif(names, exif, int_, ext, crs=None):
    """Problems of the parameters read from EXIF images."""
    from rasterio.warp import transform
    bad = []
    if list(ext) != list(names):
        bad.append(('order', f'exterior parameters for {list(ext)} instead of {list(names)}'))
        return bad
    for nm in names:
        e, x = exif[nm], ext[nm]
        cam = f"{e['make']} {e['model']}".lower()
        if e.get('serial'):
            cam += ' ' + e['serial']
        if x['camera'] != cam:
            bad.append(('mixed-up', f"{nm}: camera {x['camera']} instead of {cam}"))
            continue
        lat, lon, alt = e['lla']
        want = [v[0] for v in transform('EPSG:4979', crs, [lon], [lat], [alt])]
        if any(abs(a - b) > 1e-3 for a, b in zip(want, x['xyz'])):
            bad.append(('mixed-up', f"{nm}: position {x['xyz']} instead of {want}"))
        # rotation of the camera axes (right, up, back) against the (east, north, up) axes
        r, p, y = (math.radians(v) for v in e['rpy'])
        if e.get('schema', 'dji') == 'dji':
            p += math.pi / 2
        c1, s1 = math.cos(r), math.sin(r)
        rx = np.array([[1, 0, 0], [0, c1, -s1], [0, s1, c1]])
        c1, s1 = math.cos(p), math.sin(p)
        ry = np.array([[c1, 0, s1], [0, 1, 0], [-s1, 0, c1]])
        c1, s1 = math.cos(y), math.sin(y)
        rz = np.array([[c1, -s1, 0], [s1, c1, 0], [0, 0, 1]])
        ax = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1.]])
        from .world import rot
        off = np.abs(rot(x['opk']) - ax @ rz @ ry @ rx @ ax.T).max()
        if off > .005:
            bad.append(('mixed-up', f"{nm}: angles {x['opk']} for roll, pitch, yaw {e['rpy']} "
                        f"({e.get('schema')})"))
        i = int_.get(cam)
        if i is None or tuple(i['im_size']) != tuple(e['im_size']):
            bad.append(('mixed-up', f'{nm}: interior parameters {i}'))
            continue
        if e['dewarp']:
            got = [i.get(k) for k in ('k1', 'k2', 'p1', 'p2', 'k3')]
            if got != e['dewarp']:
                bad.append(('mixed-up', f"{nm}: distortion {got} instead of {e['dewarp']}"))
            fpx = e['focal'] / e['sensor'][0] * e['im_size'][0]
            c_ = [v / max(e['im_size']) for v in (.5, -.25)]
            if not close([i['focal_len'], i['sensor_size'], i['cx'], i['cy']],
                         [[fpx, fpx], e['im_size'], *c_], 1e-9):
                bad.append(('mixed-up', f'{nm}: interior parameters {i}'))
        else:
            fm = e.get('fmode', 'f')
            sensor = e['sensor'] if fm != 'f35' else None
            f = e['focal'] if fm == 'f' else e['focal'] * 3 / 36 * (max(sensor) if sensor else 1)
            if not close([i['focal_len'], i.get('sensor_size')], [f, sensor], 1e-9):
                bad.append(('mixed-up', f'{nm}: interior parameters {i} instead of {f} {sensor}'))
    return bad


def close(a, b, tol=1e-12):
    """Deep equality of parameter structures, floats to a relative tolerance; tuples equal lists."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (float, int)) and isinstance(b, (float, int)) and not isinstance(a, bool):
        return a == b or abs(a - b) <= tol * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def check_rpcs(names, want, got, tol=1e-12):
    bad = []
    if list(got) != list(names):
        return [('order', f'parameters for {list(got)} instead of {list(names)}')]
    for nm in names:
        w, g = want[nm], got[nm]
        if tuple(g['im_size']) != tuple(w['im_size']):
            bad.append(('mixed-up', f"{nm}: size {g['im_size']} instead of {w['im_size']}"))
        for k, v in w['rpc'].items():
            if k.startswith('err'):
                continue
            if not close(v, g['rpc'].get(k), tol):
                bad.append(('mixed-up', f"{nm}: {k} {g['rpc'].get(k)} instead of {v}"))
                break
    return bad


def check_gcps(names, want, got, tol=1e-9):
    bad = []
    if list(got) != list(names):
        return [('order', f'GCPs for {list(got)} instead of {list(names)}')]
    for nm in names:
        w, g = want[nm], got[nm]
        if len(w) != len(g) or not all(close(a['ji'], b['ji'], tol) and close(a['xyz'], b['xyz'], tol)
                                       for a, b in zip(w, g)):
            bad.append(('mixed-up', f'{nm}: {g} instead of {w}'))
    return bad


# ---------------------------------------------------------------------------- text files
def int_file(path, d):
    import yaml
    out = {}
    for k, p in d.items():
        q = dict(type=p['cam_type'])
        q.update({a: v for a, v in p.items() if a != 'cam_type'})
        out[k] = q
    with open(path, 'w', encoding='utf-8') as f:
        yaml.safe_dump(out, f, sort_keys=False, allow_unicode=True)


def ext_file(path, d, crs):
    from rasterio.warp import transform
    feats = []
    for nm, p in d.items():
        lon, lat, h = (v[0] for v in transform(crs, 'EPSG:4979', *[[x] for x in p['xyz']]))
        feats.append(dict(type='Feature', properties=dict(filename=nm, camera=p['camera'],
                                                          xyz=p['xyz'], opk=p['opk']),
                          geometry=dict(type='Point', coordinates=[lon, lat, h])))
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(dict(type='FeatureCollection', world_crs=crs, features=feats), f,
                  ensure_ascii=False)


CSV_POS = dict(xyz=['x', 'y', 'z'], lla=['latitude', 'longitude', 'altitude'])
CSV_ROT = dict(opk=['omega', 'phi', 'kappa'], rpy=['roll', 'pitch', 'yaw'])


def csv_fields(fmt, camera=True):
    return ['filename', *CSV_POS[fmt[:3]], *CSV_ROT[fmt[4:]], *(['camera'] if camera else [])]


def csv_file(path, d, radians, header, fmt='xyz_opk', delim=',', crs=None, extra=False):
    """Poses in a CSV file.  The orientation numbers are written as they are for either
    convention (roll, pitch, yaw values are only compared between reads)."""
    import csv
    from rasterio.warp import transform
    with open(path, 'w', encoding='utf-8', newline='') as f:
        w = csv.writer(f, quoting=csv.QUOTE_MINIMAL, delimiter=delim)
        if header:
            w.writerow(csv_fields(fmt) + (['note'] if extra else []))
        for nm, p in d.items():
            o = p['opk'] if radians else [math.degrees(v) for v in p['opk']]
            pos = p['xyz']
            if fmt.startswith('lla'):
                lon, lat, h = (v[0] for v in transform(crs, 'EPSG:4979', *[[x] for x in pos]))
                pos = [lat, lon, h]
            row = [nm, *[repr(float(v)) for v in pos], *[repr(float(v)) for v in o]]
            w.writerow(row + ([p['camera']] if header else []) + (['n'] if extra else []))


def rpc_file(path, d):
    import yaml
    with open(path, 'w', encoding='utf-8') as f:
        yaml.safe_dump({k: dict(im_size=p['im_size'], rpc=p['rpc']) for k, p in d.items()}, f,
                       sort_keys=False, allow_unicode=True)


def gcp_file(path, d):
    feats = [dict(type='Feature', properties=dict(ji=g['ji'], filename=nm, id=g['id'],
                                                  info=g['info']),
                  geometry=dict(type='Point', coordinates=g['xyz']))
             for nm, gs in d.items() for g in gs]
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(dict(type='FeatureCollection', features=feats), f, ensure_ascii=False)


def gen_osfm(rng, n=None):
    cams = {}
    for k in range(rng.choice([1, 2])):
        t = rng.choice(['perspective', 'brown', 'fisheye'])
        p = dict(projection_type=t, width=400 + k, height=300)
        if t == 'brown':
            p.update(focal_x=rng.uniform(.7, 1.2), focal_y=rng.uniform(.7, 1.2),
                     c_x=num(rng, .01), c_y=num(rng, .01), k1=num(rng, .05), k2=num(rng, .05),
                     p1=num(rng, .01), p2=num(rng, .01), k3=num(rng, .01))
        else:
            p.update(focal=rng.uniform(.7, 1.2), k1=num(rng, .05), k2=num(rng, .05))
        cams[f'v2 acme {k}'] = p
    shots = {nm: dict(rotation=[rng.uniform(2.8, 3.1), rng.uniform(-.1, .1), rng.uniform(-.1, .1)],
                      translation=[rng.uniform(-50, 50), rng.uniform(-50, 50),
                                   rng.uniform(50, 150)],
                      camera=rng.choice(list(cams)))
             for nm in gen_names(rng, n or rng.choice([1, 3, 5]))}
    return dict(cameras=cams, shots=shots,
                reference_lla=dict(latitude=-34.34 + rng.uniform(-.1, .1),
                                   longitude=27 + rng.uniform(-.1, .1), altitude=0.0))


def osfm_int(cams):
    from orthority.enums import CameraType
    out = {}
    for k, p in cams.items():
        q = dict(cam_type=dict(perspective=CameraType.brown, brown=CameraType.brown,
                               fisheye=CameraType.fisheye)[p['projection_type']],
                 im_size=(p['width'], p['height']))
        if 'focal' in p:
            q['focal_len'] = p['focal']
        else:
            q['focal_len'] = p['focal_x'] if p['focal_x'] == p['focal_y'] else (
                p['focal_x'], p['focal_y'])
        for a, b in (('c_x', 'cx'), ('c_y', 'cy')):
            if a in p:
                q[b] = p[a]
        q.update({a: p[a] for a in ('k1', 'k2', 'p1', 'p2', 'k3') if a in p})
        out[k[3:] if k.startswith('v2 ') else k] = q
    return out
