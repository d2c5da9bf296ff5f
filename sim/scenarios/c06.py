"""C06: with overwrite off, existing files are never touched."""
import os

from .. import cliworld, jobs, simfs
from .c04 import gen_hazard
from .c16 import fill, usable
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=60, thorough=1500)
NONTRIVIAL = 'an output file existed before the call'
ASSUMPTIONS = ["other file systems are represented by the simulated 'sim://' store and by fsspec's "
               'local file system']
FIXED = []
JUNK = ['junk', 'empty', 'byte', 'text', 'valid', 'torn']


def gen(rng, tier, index):
    c = dict(stream=rng.random() < .5, cpus=rng.choice([1, 2, 3, 4]), junk=rng.choice(JUNK),
             which=[rng.random() < .6 for _ in range(8)], hazard=None)
    if rng.random() < .25:
        c['cli'] = cliworld.gen(rng, legacy=True)
        kind = 'pan' if c['cli']['cmd'] == 'sharpen' else 'export' if c['cli']['export'] else 'ortho'
    else:
        while True:
            job = jobs.gen(rng, kinds=('ortho', 'ortho', 'pan', 'write', 'export', 'export'))
            if job['outf'] not in ('fobj', 'simfobj'):
                break
        c['job'] = job
        kind = job['kind']
    if rng.random() < .45:
        c['hazard'] = gen_hazard(rng, kind)
        c['limit'] = rng.choice([1, 2, 3])
    return c


def put(path, junk):
    """An existing file."""
    if junk in ('valid', 'torn') and path.endswith('.tif'):
        import numpy as np
        from ..world import tiff
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tiff(path, (np.arange(3 * 40 * 30).reshape(3, 40, 30) % 251).astype('uint8'))
        if junk == 'torn':
            os.truncate(path, os.path.getsize(path) // 2)
    else:
        fill(path, 'text' if junk in ('valid', 'torn') else junk)
    with open(path, 'rb') as f:
        return f.read()


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    cli = 'cli' in c
    if cli:
        job = cliworld.Batch(c['cli'], os.path.join(ctx.dir, 'a'))
        os.makedirs(job.d, exist_ok=True)
        job.make()
        if c['cli']['cmd'] == 'sharpen':
            from .. import panworld
            if panworld.reference(c['cli']['pan'], job.p('src', 'pan.tif'), job.p('src', 'ms.tif'),
                                  None) is None:
                return
        call = lambda: cliworld.run(job.args())  # noqa
        name = c['cli']['cmd']
    else:
        job = jobs.new(c['job'], os.path.join(ctx.dir, 'a'))
        job.make()
        if not usable(ctx, job):
            return
        call = job.prepare()
        name = f"{job.kind} ({c['job']['outf']})"
    outs = job.outs()
    old = [p for p, w in zip(outs, c['which'] * 4) if w] or outs[:1]
    before = {p: put(p, c['junk']) for p in old}
    r = ctx.simulate('main', quiet(call), cpus=c['cpus'], hazard=c['hazard'],
                     limit=c.get('limit', 1))
    if not cli:
        job.release()
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    ctx.nontrivial = True
    fired = r.faults.fired
    desc = f"{name}, existing {', '.join(os.path.basename(p) for p in old)} ({c['junk']})"
    if fired:
        desc += f", {fired[-1]['kind']} at {fired[-1]['site']} {fired[-1]['what']} " \
                f"{fired[-1]['where']}"
    for p, data in before.items():
        try:
            with open(p, 'rb') as f:
                now = f.read()
        except OSError:
            now = None
        ctx.check(now == data, 'changed', lambda: f'{desc}: the existing file '
                  f'{os.path.basename(p)} ' + ('is gone' if now is None else
                                               f'was changed ({len(data)} to {len(now)} bytes)'))
    if cli:
        st = 1 if r.exc is not None else r.res
        if fired or c['cli']['cmd'] == 'legacy':
            ctx.check(st != 0, 'no-error', f'{desc}: exit status 0')
        else:
            ctx.check(st == 2, 'no-error', lambda: f'{desc}: exit status {st} '
                      f'({err(r.exc) if r.exc else ""}) instead of a usage error (2)')
    elif fired:
        ctx.check(r.exc is not None, 'no-error', f'{desc}: the call returned normally')
    else:
        ctx.check(isinstance(r.exc, FileExistsError), 'no-error', lambda: f'{desc}: '
                  f'{err(r.exc) if r.exc else "the call returned normally"} instead of '
                  f'FileExistsError')
    ctx.probe('cli' if cli else job.kind)
    ctx.probe('faulted', bool(fired))
