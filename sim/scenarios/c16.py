"""C16: results do not depend on how inputs and outputs are stored or supplied."""
import os

from .. import jobs, world
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=110, thorough=1500)
NONTRIVIAL = 'an input or output was supplied in a form other than a path string'
ASSUMPTIONS = ["storage other than local disk is the simulated 'sim://' fsspec file system, with "
               'object-store or streaming visibility chosen per run']
FIXED = []
ODD = [' a b', 'é', ' (1)', "'s", '&b', '+c', '=1', ',d', ';e', '~', '!', '#1', '%20', '[1]', '@x', '.tif',
       '.v1.2', '{f}', '{}', '$HOME', '^', '`', '\u00a0z', '\u4e2d']


def gen(rng, tier, index):
    cfg = jobs.gen(rng, forms=False)
    jobs.KINDS[cfg['kind']].gen_forms(rng, cfg)
    k = cfg['kind']
    if rng.random() < .3:  # directory names with unusual characters
        cfg['odd'] = rng.choice(ODD)
    modes = ['same', 'same', 'same']
    if cfg['outf']:
        modes += ['exists', 'exists']
    if k != 'write' and k != 'export':
        modes += ['missing']
    pad = rng.choice([0] * 10 + [1200000])  # large files
    return dict(job=cfg, pad=pad, mode=rng.choice(modes), stream=rng.random() < .5,
                cpus=rng.choice([1, 2, 4]), which=rng.randrange(8),
                junk=rng.choice(['junk', 'empty', 'valid', 'text']))


def plain(cfg):
    cfg = dict(cfg, inf={k: 'path' for k in cfg['inf']}, odd='')
    if cfg['outf']:
        cfg['outf'] = 'path'
    return cfg


def usable(ctx, job):
    if isinstance(job, jobs.PanJob) and not job.usable():
        ctx.probe('degenerate')
        return False
    return True


def fill(path, junk, valid=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = dict(junk=bytes(range(256)) * 9, empty=b'', byte=b'\n',
                text=b'some: text\n').get(junk)
    if junk == 'valid' and valid and os.path.exists(valid):
        with open(valid, 'rb') as f:
            data = f.read()
    with open(path, 'wb') as f:
        f.write(b'II*\0 not really' if data is None else data)


def make(c, job):
    world.PAD = c.get('pad', 0)
    try:
        job.make()
    finally:
        world.PAD = 0


def run(ctx, c):
    from .. import simfs
    simfs.STATE['stream'] = c['stream']
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    make(c, job)
    if not usable(ctx, job):
        return
    forms = [*cfg['inf'].values()] + ([cfg['outf']] if cfg['outf'] else [])
    if c['mode'] == 'missing':
        return missing(ctx, c, job)
    ref = jobs.new(plain(cfg), os.path.join(ctx.dir, 'ref'))
    make(c, ref)
    r = ctx.simulate('ref', quiet(ref.prepare()), cpus=1, policy='default')
    ref.release()
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'plain paths: {err(r.exc)}')
        return
    want = ref.collect()
    truth = ref.truth() if ref.kind in ('fread', 'read', 'write', 'export') else None
    for k, t in truth or []:
        ctx.violation(k, t)
    over = False
    if c['mode'] == 'exists':
        over = True
        for p, q in zip(job.outs(), ref.outs()):
            fill(p, c['junk'], q)
        if cfg['outf'] not in ('fobj', 'simfobj'):
            before = [open(p, 'rb').read() for p in job.outs()]
            r = ctx.simulate('no', quiet(job.prepare(overwrite=False)), cpus=c['cpus'])
            job.release()
            ctx.check(isinstance(r.exc, FileExistsError), 'exists-not-reported',
                      lambda: f'{forms}: {err(r.exc) if r.exc else "returned normally"}')
            ctx.check(before == [open(p, 'rb').read() for p in job.outs()], 'exists-changed',
                      f'{forms}: the existing file was changed')
    r = ctx.simulate('main', quiet(job.prepare(overwrite=over)), cpus=c['cpus'])
    job.release()
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'{forms}: {err(r.exc)}')
        return
    got = job.collect()
    if cfg['kind'] == 'fread' and cfg['c']['what'] == 'csv' and cfg['inf']['a'] in (
            'fobj', 'simfobj'):
        got, want = got['ext'], want['ext']  # no .prj file is looked for with a file object
    if cfg['kind'] in ('ortho', 'pan') and cfg['c']['driver'] == 'cog' and jobs.is_sim(cfg['outf']):
        # GDAL keeps unusual colour interpretations of a COG in a sidecar file, on local disk only
        got[2].pop('colorinterp')
        want[2].pop('colorinterp')
    d = job.same(got, want)
    ctx.check(d is None, 'differs', lambda: f'{forms}: {d}')
    ctx.nontrivial = any(f != 'path' for f in forms)
    for f in forms:
        ctx.probe(f'form:{f}')


def missing(ctx, c, job):
    cfg = job.cfg
    names = {'ortho': dict(src='src.tif', dem='dem.tif'), 'pan': dict(pan='pan.tif', ms='ms.tif')}
    if cfg['kind'] in names:
        m = names[cfg['kind']]
    elif cfg['kind'] == 'read':
        m = {n: n for n in cfg['c']['names']}
    else:
        m = dict(zip('ab', job.FILES[cfg['c']['what']]))
    keys = [k for k in m if cfg['inf'][k] not in ('ds', 'fobj', 'simfobj')]
    if not keys:
        return
    k = keys[c['which'] % len(keys)]
    os.remove(job.place(m[k], cfg['inf'][k]))
    r = ctx.simulate('main', quiet(job.prepare()), cpus=c['cpus'])
    job.release()
    ctx.check(isinstance(r.exc, FileNotFoundError), 'missing-not-reported',
              lambda: f'{cfg["kind"]} {m[k]} as {cfg["inf"][k]}: '
              f'{err(r.exc) if r.exc else "returned normally"}')
    ctx.nontrivial = True
    ctx.probe(f'missing:{cfg["inf"][k]}')
