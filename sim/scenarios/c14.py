"""C14: exported parameters read back the same, or the export fails."""
import os

from .. import faults as flt, jobs, params, simfs, world
from .c04 import gen_hazard
from .c07 import damage, where
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=80, thorough=1500)
NONTRIVIAL = 'parameters were exported and read back, or a fault or crash hit the export'
ASSUMPTIONS = [
    'storage faults are raised at the file-system call of a simulated store, or at a source line '
    'of the library; a crash ends the process at a scheduler decision point',
    "numbers are Python ints and floats; camera IDs are not 'camera' and 'ortho' in one file (which "
    'reads as the old configuration format)',
    'one export writes to one set of files at a time',
]
FIXED = []
CRSS = [world.WORLD, world.WORLD, 'EPSG:32735+5773', 'EPSG:2054', 'EPSG:3857', 'ESRI:102562',
        '+proj=tmerc +lon_0=27 +x_0=1.5 +ellps=WGS84 +towgs84=1,2,3 +units=us-ft +no_defs',
        '+proj=utm +zone=35 +south +datum=WGS84 +units=m +no_defs']
IDS = ['camera', 'ortho', 'name', 'type', 'rpc', 'unknown', 'a: b', '- x', '{y}', "it's", '#1',
       'v2 z', ' ', '0x1f', '2020-01-01', 'true']
SOURCES = ['exif', 'csv', 'osfm', 'oty', 'rpcim', 'rpcfile']


def whole(rng, x):
    """Some of the numbers as ints (as a user would type them)."""
    if isinstance(x, dict):
        return {k: v if k in ('im_size', 'xyz', 'opk') and rng.random() < .3 else whole(rng, v)
                for k, v in x.items()}
    if isinstance(x, list):
        return [whole(rng, v) for v in x]
    if isinstance(x, float) and rng.random() < .3:
        return int(round(x)) if abs(x) >= 1 or x == 0 else x
    return x


def exotic(rng, c):
    """Unusual IDs, ints, CRSs."""
    if 'frame' in c:
        f = c['frame']
        if rng.random() < .35:
            m = {}
            for i in f['int']:
                new = rng.choice(IDS)
                m[i] = new if new not in m.values() and rng.random() < .7 else i
            if {'camera', 'ortho'} <= set(m.values()):
                m = {i: i for i in f['int']}
            f['int'] = {m[i]: p for i, p in f['int'].items()}
            for p in f['ext'].values():
                p['camera'] = m[p['camera']]
        if len(f['int']) == 1 and rng.random() < .1:
            for p in f['ext'].values():
                p['camera'] = None
        if rng.random() < .3:
            c['frame'] = whole(rng, f)
        c['wcrs'] = rng.choice(CRSS)
        if c['wcrs'] != world.WORLD:
            c['frame'] = dict(f, ext={k: dict(p, xyz=[p['xyz'][0] / 8, p['xyz'][1] / 1.7,
                                                       p['xyz'][2]]) for k, p in
                                      c['frame']['ext'].items()})
    elif rng.random() < .35:
        for p in c['rpcs'].values():
            p['rpc'] = whole(rng, p['rpc'])
        if rng.random() < .5:
            for v in c['gcps'].values():
                for g in v:
                    g['ji'] = [round(x) for x in g['ji']]


def gen(rng, tier, index):
    mode = rng.choice(['plain', 'plain', 'fault', 'fault', 'fault', 'crash', 'pair', 'chain'])
    c = dict(mode=mode, stream=rng.random() < .5, cpus=rng.choice([1, 2, 3]))
    if mode == 'chain':
        c.update(src=rng.choice(SOURCES), outf=rng.choice(jobs.DOUT), back=rng.choice(jobs.TIN))
        n = rng.choice([1, 2, 4])
        if c['src'] == 'exif':
            c['job'] = jobs.BatchRead.gen(rng, 'exif', n)
        elif c['src'] == 'rpcim':
            c['job'] = jobs.BatchRead.gen(rng, 'rpc', n)
        else:
            c['job'] = jobs.FileRead.gen(rng, dict(csv='csv', osfm='osfm', oty='frame',
                                                   rpcfile='refine')[c['src']], n)
        if 'header' in c['job']['c']:
            c['job']['c']['header'] = True  # (the camera IDs are in a column)
        jobs.KINDS[c['job']['kind']].gen_forms(rng, c['job'])
        c['refine'] = rng.choice([None, 'shift', 'shift-drift'])
        return c
    js = []
    for _ in range(rng.choice([2, 3]) if mode == 'pair' else 1):
        job = jobs.gen(rng, kinds=('write', 'export'))
        while mode != 'plain' and mode != 'pair' and job['outf'] in ('fobj', 'simfobj'):
            jobs.KINDS[job['kind']].gen_forms(rng, job)
        if job['c']['what'] != 'refined':
            exotic(rng, job['c'])
        js.append(job)
    c['jobs'] = js
    if mode == 'fault':
        h = gen_hazard(rng, js[0]['kind'])
        if 'fs' in h and not jobs.is_sim(js[0]['outf']) and rng.random() < .6:
            js[0]['outf'] = rng.choice(['sim', 'simofile'])
        c.update(hazard=h, limit=rng.choice([1, 1, 2]), old=rng.random() < .3)
    if mode == 'crash':
        c.update(frac=round(rng.random(), 4), late=False, old=rng.random() < .4,
                 damage=rng.choice(['none', 'none', 'trunc', 'zero', 'empty']),
                 cut=round(rng.random(), 3))
    return c


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    return dict(plain=plain, fault=fault, crash=crash, pair=pair, chain=chain)[c['mode']](ctx, c)


def describe(job):
    return f"{job.kind} {job.c['what']} ({job.cfg['outf']})"


def intact(ctx, job, desc):
    """What can be read back is what was exported."""
    from rasterio.crs import CRS
    try:
        bad = job.truth()
        if not bad and 'frame' in job.c and job.c['what'] in ('ext', 'frame'):
            from orthority.param_io import OtyReader
            crs = OtyReader(job.outs()[-1]).crs
            if crs != CRS.from_string(job.c.get('wcrs', world.WORLD)):
                bad = [('round-trip', f"CRS {crs} instead of {job.c['wcrs']}")]
    except Exception as ex:
        ctx.check(False, 'unreadable', f'{desc}: cannot be read back: {err(ex)}')
        return
    ctx.check(not bad, 'round-trip', lambda: f'{desc}: read back {bad[0][1]}')


def problems(ctx, r):
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return True
    return False


def plain(ctx, c):
    job = jobs.new(c['jobs'][0], os.path.join(ctx.dir, 'a'))
    job.make()
    r = ctx.simulate('main', quiet(job.prepare()), cpus=c['cpus'])
    job.release()
    if problems(ctx, r):
        return
    ctx.nontrivial = True
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'{describe(job)}: {err(r.exc)}')
        return
    intact(ctx, job, describe(job))


def old_files(job, c):
    if c['old']:
        for p in job.outs():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b'older: [1, 2, 3]\n' * 600)


def again(ctx, job, c, desc):
    r = ctx.simulate('again', quiet(job.prepare(overwrite=True)), cpus=1, policy='default')
    job.release()
    if problems(ctx, r):
        return
    if r.exc is not None:
        ctx.check(False, 'repeat-failed', f'{desc}: the repeated export fails with {err(r.exc)}')
        return
    intact(ctx, job, f'{desc}, repeated')


def fault(ctx, c):
    job = jobs.new(c['jobs'][0], os.path.join(ctx.dir, 'a'))
    job.make()
    old_files(job, c)
    r = ctx.simulate('main', quiet(job.prepare(overwrite=c['old'])), cpus=c['cpus'],
                     hazard=c['hazard'], limit=c['limit'])
    job.release()
    if problems(ctx, r):
        return
    ctx.nontrivial = True
    fired, inj = r.faults.fired, r.faults.injected
    desc = describe(job)
    if fired:
        w = fired[-1]
        desc += f", {w['kind']} at {w['site']} {w['what']} {w['where']} {w['phase']}#{w['k']}"
        ctx.probe(f"{w['site']}:{w['what'] if w['site'] == 'fs' else ''}")
    if r.exc is None:
        for w in fired:
            ctx.check(w['site'] != 'fs' or w['what'] not in ('open', 'write', 'flush', 'close'),
                      'not-raised', f'{desc}: the export returned normally')
        intact(ctx, job, desc)
    else:
        if not fired:
            ctx.violation('unexpected-failure', f'{desc}: {err(r.exc)}')
            return
        ctx.check(flt.chain_has(r.exc, inj, True), 'cause-lost', lambda: f'{desc}: raised {err(r.exc)}, '
                  'whose cause chain does not hold the failure')
    again(ctx, job, c, desc)


def crash(ctx, c):
    job = jobs.new(c['jobs'][0], os.path.join(ctx.dir, 'a'))
    job.make()
    ref = jobs.new(dict(c['jobs'][0], outf='path'), os.path.join(ctx.dir, 'ref'))
    ref.make()
    r = ctx.simulate('ref', quiet(ref.prepare()), cpus=1, policy='default')
    ref.release()
    if r.exc is not None:
        ctx.violation('unexpected-failure', err(r.exc))
        return
    old_files(job, c)
    step = where(c, r.stats['steps'])
    died = ctx.crash_at('doomed', lambda: quiet(job.prepare(overwrite=c['old']))(), step,
                        cpus=c['cpus'])
    for p in job.outs():
        damage(p, c['damage'], c['cut'])
    ctx.nontrivial = died
    ctx.probe('died' if died else 'finished')
    desc = f"{describe(job)}, killed at step {step} ({c['damage']})"
    again(ctx, job, c, desc)


def pair(ctx, c):
    """Exports of different parameters to different files at the same time."""
    from concurrent.futures import ThreadPoolExecutor
    js = [jobs.new(j, os.path.join(ctx.dir, f'a{i}'), str(i)) for i, j in enumerate(c['jobs'])]
    for j in js:
        j.make()
    calls = [quiet(j.prepare()) for j in js]

    def body():
        with ThreadPoolExecutor(len(calls)) as ex:
            for f in [ex.submit(g) for g in calls]:
                f.result()
    r = ctx.simulate('main', body, cpus=c['cpus'])
    for j in js:
        j.release()
    if problems(ctx, r):
        return
    ctx.nontrivial = True
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'concurrent exports: {err(r.exc)}')
        return
    for j in js:
        intact(ctx, j, 'concurrent exports, ' + describe(j))


def chain(ctx, c):
    """Parameters from any source, exported, and cameras made from the export; exported again."""
    from orthority.factory import FrameCameras, RpcCameras
    job = jobs.new(c['job'], os.path.join(ctx.dir, 'a'))
    job.make()
    jc, src = job.c, c['src']
    io = dict(crs=world.WORLD)
    if src in ('exif', 'rpcim'):
        files = [job.supply(nm, job.cfg['inf'][nm]) for nm in jc['names']]
    else:
        mode = 'rt'
        names = dict(csv=['int.yaml', 'ext.csv'], osfm=['reconstruction.json'] * 2,
                     oty=['int.yaml', 'ext.geojson'], rpcfile=['rpc.yaml', 'gcps.geojson'])[src]
        if src == 'csv':
            params.int_file(job.place('int.yaml', 'path'), jc['frame']['int'])
            io['radians'] = jc['radians']
            io.update(job.csv_args())
            job.cfg['inf']['b'] = job.cfg['inf']['a']
            files = [job.supply('int.yaml', 'path', mode),
                     job.supply('ext.csv', job.cfg['inf']['a'], mode)]
        elif src == 'osfm':
            files = [job.supply(nm, job.cfg['inf']['a'], mode) for nm in names]
        else:
            files = [job.supply(nm, job.cfg['inf'][k], mode) for nm, k in zip(names, 'ab')]
    frame = src not in ('rpcim', 'rpcfile')

    class Out(jobs.ExportJob):
        def __init__(self, d, tag):
            jobs.Job.__init__(self, dict(kind='export', c=dict(
                what='frame' if frame else 'refined' if c['refine'] else 'rpc'), outf=c['outf'],
                inf={}), d, tag)

        def files(self):
            f = c['back']
            if jobs.is_sim(f) != jobs.is_sim(c['outf']):
                f = dict(sim='path', simofile='ofile', simfobj='fobj').get(f) or 'sim'
            return [self.supply(n, f, 'rt', self.sub()) for n in self.names()]

    a, b = Out(os.path.join(ctx.dir, 'x'), '1'), Out(os.path.join(ctx.dir, 'y'), '2')

    def look(f):
        if not frame:
            rp = jc['rpcs']
            return {nm: (f.get(nm).im_size, f.get(nm).world_to_pixel(
                jobs._probe(rp[nm])).tolist()) for nm in sorted(f.filenames)}
        return {nm: (f.get(nm).im_size, jobs._pose(f.get(nm))) for nm in sorted(f.filenames)}

    def body():
        if src == 'exif':
            f = FrameCameras.from_images(files, io_kwargs=io)
        elif src == 'rpcim':
            f = RpcCameras.from_images(files)
        elif src == 'rpcfile':
            f = RpcCameras(files[0])
        elif src == 'osfm':
            f = FrameCameras(files[0], files[1], io_kwargs=dict(io))
        else:
            f = FrameCameras(files[0], files[1], io_kwargs=io if src == 'csv' else {})
        if not frame and c['refine']:
            f.refine(params.gcp_dict(jc['gcps']), fit_kwargs=dict(method=c['refine']))
        f.write_param(a.out_arg())
        ins = a.files()
        g = FrameCameras(*ins) if frame else RpcCameras(ins[0])
        if not frame and len(ins) > 1:
            from orthority import param_io
            g._sim_gcps = param_io.read_oty_gcps(ins[1])
        g.write_param(b.out_arg())
        return (look(f), look(g), frame and (f.crs, g.crs),
                None if frame or len(ins) < 2 else g._sim_gcps)
    r = ctx.simulate('main', quiet(body), cpus=c['cpus'])
    job.release()
    a.release()
    if problems(ctx, r):
        return
    ctx.nontrivial = True
    desc = f"export of cameras from {src} ({c['outf']})"
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'{desc}: {err(r.exc)}')
        return
    f, g, crs, gcps = r.res
    ctx.check(params.close(f, g, 1e-14), 'round-trip', lambda: f'{desc}: the cameras made from '
              f'the exported files differ: {g} instead of {f}'[:900])
    if crs:
        ctx.check(crs[0] == crs[1], 'round-trip', lambda: f'{desc}: CRS {crs}')
    if gcps is not None:
        ctx.check(params.close(gcps, params.gcp_dict(jc['gcps']), 0), 'round-trip',
                  lambda: f'{desc}: GCPs {gcps}'[:900])
    for p, q in zip(a.outs(), b.outs()):
        if p.endswith('gcps.geojson'):
            continue
        x, y = jobs.load_text(p), jobs.load_text(q)
        ctx.check(x == y, 'round-trip', lambda: f'{desc}: exported again, {os.path.basename(p)} '
                  f'differs: {y} instead of {x}'[:900])
    ctx.probe('chain:' + src)
