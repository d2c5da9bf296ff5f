"""C07: a run can always be repeated, after success, failure or a crash."""
import copy
import os

from .. import cliworld, jobs, panworld, simfs, world
from .c04 import gen_hazard
from .c16 import plain, usable
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=110, thorough=1500)
NONTRIVIAL = 'the process died, a fault was injected, or an object was used more than once'
ASSUMPTIONS = [
    'a crash ends the process at a scheduler decision point (a lock operation, a raster or '
    'file-system call, a source line of the library): what has reached the file by then stays; '
    'what a power failure could do beyond that is simulated by cutting off or zeroing the end of '
    'the file, or garbling its start',
    'one object is used by one run at a time',
]
FIXED = []
ORTHO_KEYS = ('odtype', 'res', 'rf', 'interp', 'dem_interp', 'per_band', 'write_mask', 'driver',
              'compress', 'layout', 'ovw')
PAN_KEYS = ('odtype', 'interp', 'write_mask', 'driver', 'compress', 'layout', 'ovw')
DAMAGE = ['none', 'none', 'trunc', 'trunc', 'zero', 'garble', 'empty']


def gen(rng, tier, index):
    mode = rng.choice(['crash', 'crash', 'crash', 'fault', 'fault', 'reuse', 'reuse', 'clicrash'])
    c = dict(mode=mode, stream=rng.random() < .5, cpus=rng.choice([1, 2, 3, 4]),
             frac=round(rng.random(), 4), late=rng.random() < .5,
             damage=rng.choice(DAMAGE), cut=round(rng.random(), 3), old=rng.random() < .3)
    if mode == 'clicrash':
        c['b'] = cliworld.gen(rng, legacy=True)
        return c
    if mode == 'crash':
        kinds = ('ortho',) * 4 + ('pan',) * 2 + ('write', 'export')
    elif mode == 'fault':
        kinds = ('ortho',) * 3 + ('pan',) * 2 + ('export', 'write')
    else:
        kinds = ('ortho',) * 3 + ('pan',) * 2
    while True:
        job = jobs.gen(rng, kinds=kinds)
        if job['outf'] not in ('fobj', 'simfobj'):
            break
    c['job'] = job
    if mode == 'fault':
        c['hazard'] = gen_hazard(rng, job['kind'])
        c['limit'] = rng.choice([1, 1, 2])
    if mode == 'reuse':
        c['var'] = [variant(rng, job) for _ in range(rng.choice([2, 2, 3]))]
        c['hazards'] = [gen_hazard(rng, job['kind']) if rng.random() < .3 else None
                        for _ in c['var']]
    return c


def variant(rng, job):
    """Other options for the same inputs."""
    c = job['c']
    if job['kind'] == 'ortho':
        for _ in range(50):
            o = world.gen(rng, simple=rng.random() < .6)
            v = {k: o[k] for k in ORTHO_KEYS}
            if v['layout'] and v['layout'].get('interleave') and c['bands'] == 1:
                continue
            break
        if c['dem'] == 'same' and rng.random() < .35:
            v.update(res_xy=[float(c['dem_cell'])] * 2)
        return v
    o = panworld.gen(rng, multi=False)
    v = {k: o[k] for k in PAN_KEYS}
    v['pan_index'] = rng.randrange(1, c['pan_bands'] + 1)
    idx = list(range(1, c['bands'] + 1))
    rng.shuffle(idx)
    v['ms_indexes'] = rng.choice([None, idx[:rng.randrange(1, c['bands'] + 1)]])
    n = len(panworld.selected(dict(c, **v)))
    v['weights'] = rng.choice([None, [round(rng.uniform(.1, 3), 2) for _ in range(n)]])
    return v


def damage(path, kind, cut):
    if not os.path.exists(path) or kind == 'none':
        return
    n = os.path.getsize(path)
    if kind == 'trunc':
        os.truncate(path, int(n * cut))
    elif kind == 'empty':
        os.truncate(path, 0)
    elif kind == 'zero':
        k = int(n * cut)
        with open(path, 'r+b') as f:
            f.seek(k)
            f.write(b'\0' * (n - k))
    else:
        with open(path, 'r+b') as f:
            f.seek(int(min(n, 64) * cut))
            f.write(b'\xff\x13garbage\0\x01')


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    return dict(crash=crash, clicrash=clicrash, fault=fault, reuse=reuse)[c['mode']](ctx, c)


def reference(ctx, cfg):
    ref = jobs.new(plain(cfg), os.path.join(ctx.dir, 'ref'))
    ref.make()
    r = ctx.simulate('ref', quiet(ref.prepare()), cpus=1, policy='default')
    ref.release()
    if r.exc is not None:
        ctx.violation('unexpected-failure', f'undisturbed run: {err(r.exc)}')
        return None, None
    return ref.collect(), r.stats['steps']


def where(c, steps):
    """The step to die at: anywhere, or in the second half (where the output is open)."""
    f = .35 + .75 * c['frac'] if c['late'] else 1.1 * c['frac']
    return max(1, int(f * steps))


def compare(ctx, job, want, desc):
    try:
        got = job.collect()
    except Exception as ex:
        ctx.check(False, 'unreadable', f'{desc}: the output is unreadable: {err(ex)}')
        return
    if job.kind in ('ortho', 'pan') and job.c['driver'] == 'cog':
        got[2].pop('colorinterp')
        want[2].pop('colorinterp', None)
    d = job.same(got, want)
    ctx.check(d is None, 'differs', lambda: f'{desc}: {d}')


def crash(ctx, c):
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()
    if not usable(ctx, job):
        return
    want, steps = reference(ctx, cfg)
    if want is None:
        return
    if c['old']:
        for p in job.outs():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b'an older file\n' * 40)
    step = where(c, steps)

    def doomed():
        quiet(job.prepare(overwrite=c['old']))()
    died = ctx.crash_at('doomed', doomed, step, cpus=c['cpus'])
    left = [os.path.basename(p) for p in job.outs() if os.path.exists(p)]
    for p in job.outs():
        damage(p, c['damage'], c['cut'])
    desc = f"{cfg['kind']} ({cfg['outf']}), killed at step {step} of about {steps}, left " \
           f"{left or 'nothing'} ({c['damage']})"
    r = ctx.simulate('again', quiet(job.prepare(overwrite=True)), cpus=c['cpus'])
    job.release()
    ctx.nontrivial = died or bool(left)
    ctx.probe('died' if died else 'finished')
    ctx.probe('left:' + c['damage'], bool(left))
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    if r.exc is not None:
        ctx.check(False, 'repeat-failed', f'{desc}: the repeated run fails with {err(r.exc)}')
        return
    compare(ctx, job, want, desc)


def clicrash(ctx, c):
    b = c['b']
    d = os.path.join(ctx.dir, 'a')
    os.makedirs(d)
    batch = cliworld.Batch(b, d)
    batch.make()
    if b['cmd'] == 'sharpen' and panworld.reference(
            b['pan'], batch.p('src', 'pan.tif'), batch.p('src', 'ms.tif'), None) is None:
        return
    r = ctx.simulate('ref', quiet(lambda: cliworld.run(batch.args())), cpus=1, policy='default')
    st = 1 if r.exc is not None else r.res
    if st:
        ctx.violation('unexpected-failure', f"{b['cmd']}: exit status {st} "
                      f'{err(r.exc) if r.exc else ""}')
        return

    def load(p):
        if p.endswith('.tif'):
            return world.read_out(p)
        return jobs.load_text(p)
    want = {}
    for p in batch.outs():
        want[p] = load(p)
        os.remove(p)
        if os.path.exists(p + '.aux.xml'):
            os.remove(p + '.aux.xml')
    step = where(c, r.stats['steps'])
    died = ctx.crash_at('doomed', quiet(lambda: cliworld.run(batch.args())), step, cpus=c['cpus'])
    left = [os.path.basename(p) for p in batch.outs() if os.path.exists(p)]
    for p in batch.outs():
        damage(p, c['damage'], c['cut'])
    desc = f"{b['cmd']}, killed at step {step}, left {left or 'nothing'} ({c['damage']})"
    r = ctx.simulate('again', quiet(lambda: cliworld.run(batch.args(overwrite=True))),
                     cpus=c['cpus'])
    ctx.nontrivial = died or bool(left)
    st = 1 if r.exc is not None else r.res
    if st:
        ctx.check(False, 'repeat-failed', f'{desc}: exit status {st} of the repeated run '
                  f'{err(r.exc) if r.exc else ""}')
        return
    for p, w in want.items():
        try:
            got = load(p)
            if p.endswith('.tif'):
                got[2].pop('colorinterp')
                w[2].pop('colorinterp')
                dd = jobs.same_image(got, w, 1 if b['cmd'] == 'sharpen' else 0)
            else:
                from .. import params
                dd = None if params.close(got, w, 0) else f'{got} / {w}'[:300]
        except Exception as ex:
            dd = f'unreadable: {err(ex)}'
        ctx.check(dd is None, 'differs', lambda: f'{desc}: {os.path.basename(p)}: {dd}')
    ctx.probe('cli')


def process(obj, job, out, overwrite):
    opts = (world if job.kind == 'ortho' else panworld).options(job.c)
    obj.process(out, overwrite=overwrite, **opts)


def fault(ctx, c):
    """A failed run, then the same object (or the same call) again."""
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()
    if not usable(ctx, job):
        return
    want, _ = reference(ctx, cfg)
    if want is None:
        return
    img = cfg['kind'] in ('ortho', 'pan')
    keep = {}

    def first():
        if not img:
            return job.prepare()()
        keep['obj'] = job.new()
        process(keep['obj'], job, job.out_arg(), False)
    r = ctx.simulate('first', quiet(first), cpus=c['cpus'], hazard=c['hazard'], limit=c['limit'])
    if r.sched.problems:
        ctx.violation(*r.sched.problems[0])
        return
    fired = r.faults.fired
    desc = f"{cfg['kind']} ({cfg['outf']})"
    if fired:
        f = fired[-1]
        desc += f", after {f['kind']} at {f['site']} {f['what']} {f['where']}"
    elif r.exc is not None:
        ctx.violation('unexpected-failure', err(r.exc))
        return
    r.exc = None
    if fired and c['damage'] != 'none' and c['cut'] < .4:
        for p in job.outs():
            damage(p, c['damage'], c['cut'])

    def again():
        if not img:
            return job.prepare(overwrite=True)()
        obj = keep.get('obj') or job.new()
        process(obj, job, job.out_arg(), True)
    r = ctx.simulate('again', quiet(again), cpus=c['cpus'])
    job.release()
    ctx.nontrivial = True
    if r.exc is not None:
        ctx.check(False, 'repeat-failed', f'{desc}: the repeated run fails with {err(r.exc)}')
        return
    compare(ctx, job, want, desc)


def reuse(ctx, c):
    """One object, several runs with different options."""
    cfg = c['job']
    cfgs = [cfg] + [dict(cfg, c=dict(copy.deepcopy(cfg['c']), **v)) for v in c['var']]
    base = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    base.make()
    todo = []
    want = []
    for k, q in enumerate(cfgs):
        job = jobs.new(q, os.path.join(ctx.dir, 'a'), str(k))
        if not usable(ctx, job):
            continue
        todo.append((k, job))
        ref = jobs.new(q, os.path.join(ctx.dir, 'a'), f'ref{k}')
        r = ctx.simulate(f'ref{k}', quiet(ref.prepare()), cpus=1, policy='default')
        ref.release()
        want.append((None, r.exc) if r.exc is not None else (ref.collect(), None))
        r = None
    if len(todo) < 2:
        return
    obj = []
    ctx.nontrivial = True
    for (k, job), (w, ex) in zip(todo, want):
        hz = ([None] + c['hazards'])[k]

        def go():
            if not obj:
                obj.append(base.new())
            process(obj[0], job, job.out_arg(), False)
        r = ctx.simulate(f'run{k}', quiet(go), cpus=c['cpus'], hazard=hz)
        if r.sched.problems:
            ctx.violation(*r.sched.problems[0])
            break
        desc = f"{cfg['kind']}: run {k + 1} on one object"
        fired = r.faults.fired
        if fired and r.exc is not None:
            # once more, undisturbed
            r = ctx.simulate(f'retry{k}', quiet(lambda: process(obj[0], job, job.out_arg(), True)
                                                if obj else None), cpus=c['cpus'])
            desc += ' (after a failed one)'
        if r.exc is not None or ex is not None:
            ctx.check(type(r.exc) is type(ex), 'reuse-failed', lambda: f'{desc}: '
                      f'{err(r.exc) if r.exc else "succeeds"}, while a new object: '
                      f'{err(ex) if ex else "succeeds"}')
            r.exc = None
            continue
        if not obj:
            continue
        compare(ctx, job, w, desc)
    base.release()
    ctx.probe('reuse')
