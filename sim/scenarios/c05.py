"""C05: every call finishes and leaves no thread, file or dataset behind."""
import gc
import os
import sys

from fsspec.core import OpenFile

from .. import core, jobs, simfs
from .c04 import gen_hazard
from .c16 import fill, usable
from .util import drop, err, open_fds, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=90, thorough=1500)
NONTRIVIAL = 'a fault or interrupt was injected, or two or more threads were runnable'
ASSUMPTIONS = [
    'an interrupt reaches the calling thread at a source line of the library or while it waits for '
    'the result of a worker; one interrupt per run (a second interrupt during clean-up is not '
    'simulated); other failures happen once, several times, or persist',
    'a failing allocation or interrupt between opening a file and entering its context may leave '
    'the file to the garbage collector: the check is then made after a collection',
    'an fsspec OpenFile whose flush fails, or whose file is not entered because of such a failure, '
    'keeps its file open until it is collected (a property of fsspec): the check is then made after '
    'a collection',
    'a file whose flush goes on failing cannot be closed: open files are then not counted',
]
FIXED = []


def gen(rng, tier, index):
    kw = dict(pan=dict(multi=True)) if rng.random() < .06 else {}
    job = jobs.gen(rng, kinds=('ortho',) * 5 + ('pan',) * 4 + ('read',) * 4 + ('write', 'export',
                                                                               'fread'), **kw)
    mode = rng.choice(['none', 'fault', 'fault', 'fault', 'fault', 'line', 'kbd', 'wait', 'exists'])
    c = dict(job=job, mode=mode, stream=rng.random() < .5, over=rng.random() < .2,
             progress=rng.random() < .2, cpus=rng.choice([1, 2, 3, 4, 6]), limit=1)
    if mode == 'fault':
        while True:
            c['hazard'] = gen_hazard(rng, job['kind'])
            if 'line' not in c['hazard']:
                break
        c['limit'] = rng.choice([1, 1, 2, 5, 10 ** 6])
        if c['limit'] > 5:  # it goes on failing
            for h in c['hazard'].values():
                h['p'] = max(h['p'], rng.choice([.5, 1]))
    elif mode in ('line', 'kbd'):
        h = dict(p=rng.choice([.003, .01, .03]), kinds=['mem', 'rt'] if mode == 'line' else ['kbd'])
        if mode == 'line' and rng.random() < .6:
            h['worker'] = True
        if rng.random() < .6:
            h['skip'] = int(2 ** rng.uniform(0, 9))
        c['hazard'] = dict(line=h)
        if mode == 'line' and rng.random() < .4:
            c['limit'] = rng.choice([2, 10])
    elif mode == 'wait':
        c['hazard'] = dict(kbd=dict(p=rng.choice([.002, .01, .05]), kinds=['kbd'],
                                    skip=int(2 ** rng.uniform(0, 8))))
    return c


def interrupter(ident):
    """Interrupt the main thread while it waits for a worker's result."""
    def on_step(sim, t, kind, where):
        m = sim.threads[0]
        if m.state != 'blocked' or m.pending is not None or sim.faults is None:
            return
        f = sys._current_frames().get(ident)
        ok = False
        n = 0
        while f is not None and n < 30:
            name = f.f_code.co_filename
            if name.endswith('concurrent/futures/_base.py') and f.f_code.co_name in (
                    'result', 'exception', 'as_completed', 'wait'):
                ok = True
                break
            if name.endswith('concurrent/futures/thread.py') or name.startswith(core.REPO_PKG):
                break
            f = f.f_back
            n += 1
        del f
        if not ok:
            return
        ex = sim.faults.event('kbd', 'wait', 0, 'future', 'before')
        if ex is not None:
            m.pending = ex
            sim.wake(m)
    return on_step


class Sink:
    def __init__(self):
        self.n = 0

    def write(self, s):
        self.n += 1

    def flush(self):
        pass


def run(ctx, c):
    import _thread
    simfs.STATE['stream'] = c['stream']
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()
    if not usable(ctx, job):
        return
    if (c['over'] or c['mode'] == 'exists') and cfg['outf'] not in ('fobj', 'simfobj'):
        for p in job.outs():
            fill(p, 'text')
    progress = dict(file=Sink(), mininterval=0) if c['progress'] else False
    call = job.prepare(overwrite=c['over'], progress=progress)
    fds = open_fds(ctx.dir)
    nfiles = simfs.STATE['open_files']
    on_step = interrupter(_thread.get_ident()) if c['mode'] == 'wait' else None
    r = ctx.simulate('main', quiet(call), cpus=c['cpus'], hazard=c.get('hazard'), on_step=on_step,
                     limit=c['limit'],
                     line_filter=(lambda t, where, code: t.tid == 0) if c['mode'] == 'kbd' else None)
    del call
    fired = r.faults.fired
    ctx.nontrivial = bool(fired) or r.stats['live'] > 1
    what = f"{cfg['kind']}: "
    if fired:
        f = fired[-1]
        what += f"{f['kind']} at {f['site']} {f['what']} {f['where']} {f['phase']}#{f['k']} in " \
                f"thread {f['tid']}"
    else:
        what += 'no fault'
    ctx.evals += 1
    for kind, text in r.sched.problems:
        ctx.violation(kind, f'{what}: {text}')
    if r.sched.problems:
        return
    ctx.check(not r.sched.leftover, 'thread-left', lambda: f'{what}: '
              f'{len(r.sched.leftover)} threads still run when the call is over '
              f'({err(r.exc) if r.exc else "returned"})')
    if r.exc is None and fired:
        ctx.probe('tolerated')
    if r.exc is not None and not fired and not (c['mode'] == 'exists' and isinstance(
            r.exc, FileExistsError)):
        ctx.violation('unexpected-failure', err(r.exc))
        return
    late = any(f['site'] == 'line' or f['site'] == 'fs' and f['what'] in (
        'write', 'flush', 'close') for f in fired)
    held_ofile = any(f['site'] == 'fs' and f['what'] in ('write', 'flush', 'close')
                     for f in fired) and ('ofile' in (cfg['outf'] or '') or c['limit'] > 1)
    res = 'raised' if r.exc is not None else 'returned'
    if late:
        drop(r.exc, *r.faults.injected)
        for o in gc.get_objects():  # what the caller's OpenFile objects hold
            if type(o) is OpenFile and o.fobjects:
                try:
                    o.close()
                except Exception:
                    pass
    bad = [f'{n} ({m})' for ref, n, m in r.mon.opened if ref() is not None and not ref().closed]
    ctx.check(not bad, 'dataset-left', lambda: f'{what}: {res}, and these datasets are open: '
              f'{", ".join(bad)}')
    if not held_ofile:
        n = simfs.STATE['open_files'] - nfiles
        ctx.check(n <= 0, 'file-left', lambda: f'{what}: {res}, and {n} simulated files are open')
        now = open_fds(ctx.dir)
        extra = list(now)
        for p in fds:
            if p in extra:
                extra.remove(p)
        ctx.check(not extra, 'file-left', lambda: f'{what}: {res}, and these files are open: '
                  f'{", ".join(os.path.relpath(p, ctx.dir) for p in extra)}')
    # what the caller supplied
    for x in job.hold.items:
        ctx.check(not x.closed, 'caller-closed', lambda: f'{what}: {res}, and the caller\'s '
                  f'{type(x).__name__} is closed')
        if x.closed:
            continue
        try:
            if hasattr(x, 'read_masks'):
                x.read()
            elif x.readable():
                x.seek(0)
                x.read()
            elif not fired:
                x.write('\n')
                x.flush()
        except Exception as ex:
            ctx.violation('caller-unusable', f'{what}: {res}, and the caller\'s '
                          f'{type(x).__name__} fails with {err(ex)}')
    job.release()
    ctx.probe('mode:' + c['mode'])
