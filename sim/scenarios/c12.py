"""C12: inputs are never modified, and nothing but the requested outputs is written."""
import os
import tempfile

from .. import cliworld, jobs, panworld, simfs
from .c04 import gen_hazard
from .c06 import put
from .c07 import where
from .c16 import usable
from .util import diff, err, quiet, snapshot

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=80, thorough=1500)
NONTRIVIAL = 'an output was written, a fault was injected, or the process died'
ASSUMPTIONS = [
    'after a crash, temporary files that GDAL names after the output, or keeps in its '
    'temporary directory, may remain; after a call that returns or raises they may not',
    'modification of a file means that its bytes change (access and modification times are not '
    'compared)',
    'the output is not one of the inputs',
]
FIXED = []
EXISTING = ['none', 'none', 'valid', 'text', 'torn', 'empty']


def gen(rng, tier, index):
    mode = rng.choice(['ok', 'ok', 'ok', 'fault', 'fault', 'crash', 'cli', 'cli', 'clifault',
                       'clicrash'])
    c = dict(mode=mode, stream=rng.random() < .5, cpus=rng.choice([1, 2, 3, 4]),
             frac=round(rng.random(), 4), late=rng.random() < .5, over=rng.random() < .7,
             exist=rng.choice(EXISTING), progress=rng.random() < .2)
    if mode.startswith('cli'):
        c['b'] = cliworld.gen(rng, legacy=True)
        if mode == 'clifault':
            c['hazard'] = gen_hazard(rng, 'pan' if c['b']['cmd'] == 'sharpen' else 'ortho')
        return c
    kw = dict(pan=dict(multi=True)) if rng.random() < .03 else {}
    c['job'] = jobs.gen(rng, kinds=('ortho',) * 5 + ('pan',) * 3 + ('read',) * 3 + (
        'write', 'export', 'fread', 'fread', 'fit'), **kw)
    if mode == 'fault' and c['job']['kind'] != 'fit':
        c['hazard'] = gen_hazard(rng, c['job']['kind'])
        c['limit'] = rng.choice([1, 1, 3])
    return c


def bystanders(root):
    """Unrelated files beside every file."""
    n = 0
    for base, dirs, files in list(os.walk(root)):
        for f in files + ['out.tif', 'out']:
            for suffix in ('.bak', '.lock', '~'):
                with open(os.path.join(base, f + suffix), 'w') as h:
                    h.write(f'{f} {suffix}')
                n += 1
    return n


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    tmp = os.path.join(ctx.dir, 'tmp')
    os.makedirs(tmp)
    os.environ['CPL_TMPDIR'] = os.environ['TMPDIR'] = tempfile.tempdir = tmp
    mode = c['mode']
    if mode.startswith('cli'):
        d = os.path.join(ctx.dir, 'a')
        os.makedirs(d)
        b = c['b']
        batch = cliworld.Batch(b, d)
        batch.make()
        if b['cmd'] == 'sharpen' and panworld.reference(
                b['pan'], batch.p('src', 'pan.tif'), batch.p('src', 'ms.tif'), None) is None:
            return
        outs = batch.outs()
        cog = True if b['cmd'] == 'sharpen' else (b['o']['driver'] == 'cog')
        call = lambda: cliworld.run(batch.args(overwrite=c['over']))  # noqa
        release = lambda: None  # noqa
        what = b['cmd']
        textual = b['export']
    else:
        cfg = c['job']
        job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
        job.make()
        if not usable(ctx, job):
            return
        outs = job.outs()
        cog = cfg['kind'] in ('ortho', 'pan') and cfg['c']['driver'] == 'cog'
        release = job.release
        what = cfg['kind']
        textual = cfg['kind'] not in ('ortho', 'pan')
        if cfg['outf'] in ('fobj', 'simfobj'):
            c = dict(c, exist='none')
    bystanders(ctx.dir)
    exist = c['exist']
    if exist != 'none' and outs:
        if textual and exist in ('valid', 'torn'):
            exist = 'text'
        put(outs[0], exist)
    if not mode.startswith('cli'):
        call = job.prepare(overwrite=c['over'],
                           progress=dict(file=Null(), mininterval=0) if c['progress'] else False)
    before = snapshot(ctx.dir)
    rel = [os.path.relpath(p, ctx.dir) for p in outs]
    died = False
    if mode.endswith('crash'):
        # (the number of steps is not known: a step within a plausible range)
        steps = dict(ortho=1500, pan=1500).get(what, 600)
        died = ctx.crash_at('main', quiet(call), where(c, steps), cpus=c['cpus'])
        ok = not died
        exc = None
        fired = []
        if ok and mode == 'crash':
            release()
            ok = None  # (it ended first: returned or raised)
        elif ok:
            ok = None
    else:
        r = ctx.simulate('main', quiet(call), cpus=c['cpus'], hazard=c.get('hazard'),
                         limit=c.get('limit', 1))
        for kind, text in r.sched.problems:
            ctx.violation(kind, text)
            return
        exc = r.exc
        fired = r.faults.fired
        ok = exc is None and not (mode.startswith('cli') and r.res)
        expected = exist != 'none' and not c['over']
        if not ok and not fired and not expected:
            ctx.violation('unexpected-failure', f'{what}: {err(exc) if exc else r.res}')
            return
    release()
    after = snapshot(ctx.dir)
    ctx.nontrivial = bool(outs) or bool(fired) or died
    ctx.probe('died' if died else 'ok' if ok else 'raised' if ok is False else 'ended')
    desc = f'{mode} {what}'
    if fired:
        f = fired[-1]
        desc += f", {f['kind']} at {f['site']} {f['what']} {f['where']}"
    bad = []
    for k in sorted({*before, *after}):
        if before.get(k) == after.get(k) or k in rel:
            continue
        if ok is None:
            if any(k.startswith(p) for p in rel) and k not in before:
                continue  # GDAL's temporary files
            if k.startswith('tmp/') and k not in before:
                continue
        if cog and any(k == p + '.aux.xml' for p in rel):
            continue
        bad.append(k)
    d = diff({k: before[k] for k in bad if k in before}, {k: after[k] for k in bad if k in after})
    ctx.check(not bad, 'stray-change', lambda: f'{desc}, {"success" if ok else "failure"}: '
              f'{", ".join(d)[:800]}')
    if not mode.startswith('cli') and not died:
        bad = job.changed_args()
        ctx.check(not bad, 'argument', lambda: f'{desc}: an argument of the caller was changed: '
                  f'{bad[0]}')
    if ok:
        for p in outs:
            ctx.check(os.path.exists(p), 'missing-output', f'{desc}: {os.path.basename(p)} missing')


class Null:
    def write(self, s):
        pass

    def flush(self):
        pass
