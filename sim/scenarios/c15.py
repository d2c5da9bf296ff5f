"""C15: progress never runs ahead of the work and ends at the total."""
import contextlib
import os
import re

from .. import cliworld, jobs, panworld, simfs
from .c04 import gen_hazard, io_filter
from .c16 import usable
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=60, thorough=1500)
NONTRIVIAL = 'a progress bar was shown and some work was done'
ASSUMPTIONS = [
    'progress is what the progress bar prints (custom bars are set to print every update; the '
    'default bar prints when tqdm chooses to)',
    'a tile is completed when its write call(s) have returned; a file when its parameters have been '
    'read from the dataset',
]
FIXED = []
BAR = re.compile(r'(?:^|[|\s])(\d+)/(\d+|\?)')


def gen(rng, tier, index):
    mode = rng.choice(['job'] * 7 + ['cli'])
    c = dict(mode=mode, stream=rng.random() < .5, cpus=rng.choice([1, 2, 3, 4, 6]), hazard=None,
             bar=rng.choice(['dict', 'dict', 'dict', 'true']))
    if mode == 'cli':
        c['b'] = cliworld.gen(rng)
        kind = 'pan' if c['b']['cmd'] == 'sharpen' else 'ortho'
    else:
        kw = dict(pan=dict(multi=True)) if rng.random() < .3 else {}
        c['job'] = jobs.gen(rng, kinds=('ortho',) * 5 + ('pan',) * 3 + ('read',) * 3, **kw)
        kind = c['job']['kind']
        if kind == 'ortho' and rng.random() < .3:
            c['job']['c']['per_band'] = True
    if rng.random() < .55:
        h = gen_hazard(rng, kind)
        if kind in ('ortho', 'pan') and rng.random() < .6:
            site = rng.choice(['io', 'io', 'line'])
            h = {site: dict(p=rng.choice([.02, .1, .4]), kinds=['rt', 'eio', 'mem'], worker=True,
                            skip=rng.choice([0, 0, 1, 3, 8, 20]))}
            if site == 'io':
                h['io']['ops'] = rng.choice([['write'], ['write', 'write_mask'], ['write.after'],
                                             ['write_mask']])
            else:
                h['line']['p'] /= 10
        c['hazard'] = h
    return c


class Capture:
    """A text file which logs the bar states written to it."""
    encoding = 'utf-8'

    def __init__(self, log, key=None):
        self.log, self.key, self.buf = log, key, ''

    def write(self, s):
        for part in re.split(r'[\r\n]', s):
            m = None
            for m in BAR.finditer(part):
                pass
            if m:
                key = self.key
                if key is None:
                    key = part.split(':')[0].strip() if ':' in part.split('|')[0] else ''
                self.log.append(('bar', key, int(m[1]), None if m[2] == '?' else int(m[2]), part))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class Watch:
    """Log of finished work, in order with the bar states."""

    def __init__(self):
        self.log = []

    def __call__(self, phase, ds, op, args, kwargs, t):
        if phase != 'after':
            return
        if op == 'write':
            idx = kwargs.get('indexes', args[1] if len(args) > 1 else None)
            idx = idx if isinstance(idx, (list, tuple)) else [idx]
            win = kwargs.get('window', args[2] if len(args) > 2 else None)
            self.log += [('w', str(win), int(i) if i is not None else 0) for i in idx]
        elif op == 'write_mask':
            win = kwargs.get('window', args[1] if len(args) > 1 else None)
            self.log.append(('m', str(win)))
        elif op == 'read':
            win = kwargs.get('window', args[2] if len(args) > 2 else None)
            self.log.append(('r', id(ds), str(win)))
        elif op in ('rpcs', 'gcps', 'tags'):
            try:
                nm = os.path.basename(ds.name)
            except Exception:
                nm = str(id(ds))
            self.log.append(('f', nm))


def work(log):
    """Total (window, band) pairs and mask windows of a run."""
    return len({e for e in log if e[0] == 'w'}), len({e for e in log if e[0] == 'm'})


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    return (cli if c['mode'] == 'cli' else job_run)(ctx, c)


def job_run(ctx, c):
    cfg = c['job']
    job = jobs.new(cfg, os.path.join(ctx.dir, 'a'))
    job.make()
    if not usable(ctx, job):
        return
    kind = cfg['kind']
    pairs = masks = None
    if kind != 'read':
        from .c16 import plain
        ref = jobs.new(plain(cfg), os.path.join(ctx.dir, 'ref'))
        ref.make()
        w0 = Watch()
        r = ctx.simulate('ref', quiet(ref.prepare()), cpus=1, policy='default', listeners=[w0])
        ref.release()
        if r.exc is not None:
            ctx.violation('unexpected-failure', err(r.exc))
            return
        pairs, masks = work(w0.log)
    w = Watch()
    stderr = Capture(w.log)

    def bar(key, leave=True):
        return dict(file=Capture(w.log, key), mininterval=0, miniters=1, leave=leave,
                    bar_format='{n_fmt}/{total_fmt}')
    if c['bar'] == 'dict':
        prog = bar('')
    else:
        prog = True
    call = job.prepare(progress=prog)
    if kind == 'pan' and c['bar'] == 'dict':
        # (two bars)
        from orthority.pan_sharp import PanSharpen
        pan, ms = job.args()
        out, opts = job.out_arg(), panworld.options(job.c)
        two = [bar('Statistics'), bar('Sharpening')]

        def call():
            PanSharpen(pan, ms).process(out, progress=two, **opts)

    def body():
        with contextlib.redirect_stderr(stderr):
            call()
    r = ctx.simulate('main', quiet(body), cpus=c['cpus'], hazard=c['hazard'], listeners=[w],
                     io_filter=io_filter(job))
    job.release()
    for k, text in r.sched.problems:
        ctx.violation(k, text)
        return
    fired = r.faults.fired
    if r.exc is not None and not fired:
        ctx.violation('unexpected-failure', err(r.exc))
        return
    desc = f"{kind} ({c['bar']}, {c['cpus']} CPUs)"
    worker = None
    if fired:
        f = fired[-1]
        desc += f", {f['kind']} at {f['site']} {f['what']} {f['where']} {f['phase']}#{f['k']}"
        worker = f['tid'] != 0
    bars = {}
    for e in w.log:
        if e[0] == 'bar':
            bars.setdefault(e[1], []).append(e)
    ctx.nontrivial = bool(bars) and len(w.log) > sum(map(len, bars.values()))
    walk(ctx, c, kind, w.log, pairs, masks if r.exc is None else 0, desc)
    names = dict(ortho=[''], read=[''], pan=['Statistics', 'Sharpening'])[kind]
    if r.exc is None:
        for k in names:
            b = bars.get(k)
            if not ctx.check(b, 'no-progress', f'{desc}: no progress was shown {k}'):
                continue
            ctx.check(b[-1][2] == b[-1][3], 'incomplete', lambda: f'{desc}: the call succeeded, but '
                      f'the progress {k} ended at {b[-1][2]}/{b[-1][3]}')
        if kind == 'read':
            want = len(cfg['c']['names'])
            ctx.check(bars.get('') and bars[''][-1][3] == want, 'total',
                      f'{desc}: {bars[""][-1][3]} instead of {want} files')
    elif worker and not any(x.get('site') == 'fs' for x in fired):
        # a tile or file failed: the bar of its step does not complete
        stage = names[0]
        if kind == 'pan' and any(e[0] == 'bar' and e[1] == 'Sharpening' for e in w.log):
            stage = 'Sharpening'
        b = bars.get(stage)
        if b and not (kind == 'pan' and stage == 'Statistics' and late(w.log)):
            full = [x for x in b if x[2] == x[3]]
            ctx.check(not full, 'complete-despite-failure', lambda: f'{desc}: the call failed with '
                      f'{err(r.exc)}, but the progress {stage} reached {full[0][2]}/{full[0][3]}')
        ctx.probe('worker-failed')
    ctx.probe(kind)


def late(log):
    """Whether the second step of pan-sharpening may have begun without a bar."""
    seen = {}
    for e in log:
        if e[0] == 'r':
            seen[e[1]] = 1
        if e[0] == 'w':
            return True
    return len(seen) > 2


def walk(ctx, c, kind, log, pairs, masks, desc):
    """The bar states against the work finished at the time."""
    wr, mk, files, reads = set(), set(), set(), {}
    last = {}
    bad = set()

    def flag(k, text):
        if k not in bad:
            bad.add(k)
            ctx.check(False, k, f'{desc}: {text}')
    for e in log:
        if e[0] == 'w':
            wr.add(e)
        elif e[0] == 'm':
            mk.add(e)
        elif e[0] == 'f':
            files.add(e)
        elif e[0] == 'r':
            reads.setdefault(e[1], set()).add(e[2])
        else:
            _, key, n, total, text = e
            if n < last.get(key, 0):
                flag('went-back', f'the progress {key} went back from {last[key]} to {n}')
            last[key] = n
            if total is None:
                if n:
                    flag('ahead', f'{n} tiles of an unknown total')
                continue
            if n > total:
                flag('ahead', f'{n}/{total}')
            if key == 'Statistics':
                done = min((len(x) for x in reads.values()), default=0) if len(reads) > 1 else 0
                if n > done:
                    flag('ahead', f'{n}/{total} tiles of the statistics, but {done} were read')
            elif kind == 'read':
                if n > len(files):
                    flag('ahead', f'{n}/{total} files, but {len(files)} were read')
            else:
                if n * pairs > total * len(wr):
                    flag('ahead', f'{n}/{total} tiles, but {len(wr)}/{pairs} (tile, band) pairs '
                         'were written')
                per = kind == 'ortho' and c['job']['c'].get('per_band')
                if masks and not per and n * masks > total * len(mk):
                    flag('ahead', f'{n}/{total} tiles, but {len(mk)}/{masks} tile masks were '
                         'written')
    ctx.evals += 1


def cli(ctx, c):
    b = c['b']
    d = os.path.join(ctx.dir, 'a')
    os.makedirs(d)
    batch = cliworld.Batch(b, d)
    batch.make()
    if b['cmd'] == 'sharpen' and panworld.reference(
            b['pan'], batch.p('src', 'pan.tif'), batch.p('src', 'ms.tif'), None) is None:
        return
    w = Watch()
    def closes(phase, ds, op, args, kwargs, t):
        if op == 'close' and phase == 'after' and ds.mode != 'r':
            w.log.append(('c', str(ds.name)))
    cap = Capture(w.log)

    def body():
        with contextlib.redirect_stderr(cap):
            return cliworld.run(batch.args())
    r = ctx.simulate('main', quiet(body), cpus=c['cpus'], hazard=c['hazard'],
                     listeners=[w, closes])
    for k, text in r.sched.problems:
        ctx.violation(k, text)
        return
    st = 1 if r.exc is not None else r.res
    fired = r.faults.fired
    if st and not fired:
        ctx.violation('unexpected-failure', f"{b['cmd']}: exit status {st}")
        return
    desc = f"{b['cmd']} command ({c['cpus']} CPUs)"
    if fired:
        f = fired[-1]
        desc += f", {f['kind']} at {f['site']} {f['what']} {f['where']} {f['phase']}#{f['k']}"
    bars, last = {}, {}
    seen = set()
    for e in w.log:
        if e[0] == 'c':
            seen.add(e[1])
        if e[0] != 'bar':
            continue
        _, key, n, total, text = e
        bars.setdefault(key, []).append(e)
        if key == 'Total':
            ctx.check(n >= last.get(key, 0), 'went-back', f'{desc}: Total went back to {n}')
            ctx.check(n <= len(seen), 'ahead', f'{desc}: {n}/{total} images, but {len(seen)} '
                      'were finished')
            if total and st and n == total:
                ctx.check(False, 'complete-despite-failure', f'{desc}: exit status {st}, but the '
                          f'progress reached {n}/{total}')
        last[key] = n
    ctx.nontrivial = bool(bars)
    if st == 0:
        for k, v in bars.items():
            # (the other bars are removed when they are done)
            ctx.check(k not in ('Total', 'Statistics', 'Sharpening') or v[-1][2] == v[-1][3], 'incomplete', lambda: f'{desc}: the command succeeded, '
                      f'but the progress {k} ended at {v[-1][2]}/{v[-1][3]}')
    ctx.probe('cli')
