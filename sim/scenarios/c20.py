"""C20: a call's result depends on its own arguments and files only, not on other calls of the
process, earlier or at the same time."""
import copy
import os
import shutil
import threading

from .. import faults as flt, jobs, params, simfs
from .c04 import gen_hazard, io_filter
from .c16 import plain, usable
from .util import drop, err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=100, thorough=1500)
NONTRIVIAL = 'another call came before or ran at the same time'
ASSUMPTIONS = [
    'calls share no argument objects (one camera used by several threads is C10, one factory C09); '
    'they may share input files',
    'each result is compared with that of the same call alone in a process of its own',
]
FIXED = []
KINDS = ('ortho',) * 5 + ('pan',) * 4 + ('read',) * 3 + ('fread',) * 2 + ('write', 'export', 'fit')


def vary(rng, cfg):
    """Another job with the same file names."""
    out = copy.deepcopy(cfg)
    k, c = cfg['kind'], out['c']
    if k in ('ortho', 'pan') and rng.random() < .6:  # much the same job
        todo = [lambda: c.update(phase=rng.randrange(1000)),
                lambda: c.update(interp=rng.choice(['cubic', 'bilinear', 'nearest']))]
        if k == 'ortho':
            todo += [lambda: c.update(slope=[-v or .03 for v in c['slope']]),
                     lambda: c.update(opk=[-v for v in c['opk']]),
                     lambda: c.update(dem_interp=rng.choice(['bilinear', 'nearest'])),
                     lambda: c.update(per_band=not c['per_band'])]
            if c['cam'] != 'rpc':
                todo += [lambda: c.update(fx=round(1.15 * c['fx'], 3)),
                         lambda: c.update(cxy=[-v for v in c['cxy']])]
                if c['dist']:
                    todo.append(lambda: c.update(dist={n: -.5 * v for n, v in c['dist'].items()}))
        else:
            todo += [lambda: c.update(weights=None)]
        todo = rng.sample(todo, rng.randrange(1, 3))
        for f in todo:
            f()
        return out
    if k == 'read':
        c['what'] = rng.choice(['exif', 'exifcams'] if 'exif' in c else ['rpc', 'gcp', 'rpccams'])
        if 'exif' in c:
            c['exif'] = params.gen_exif(rng, c['names'])
        else:
            c['rpcs'] = params.gen_rpcs(rng, names=c['names'])
            c['gcps'] = params.gen_gcps(rng, c['rpcs'])
        return out
    kw = {} if k in ('ortho', 'pan') else dict(what=c['what'])
    new = jobs.KINDS[k].gen(rng, **kw)
    if k == 'ortho' and new['c']['dem'] == 'feet':
        new['c']['dem'] = 'same'
    return dict(new, inf=cfg['inf'], outf=cfg['outf'])


def gen(rng, tier, index):
    js = [jobs.gen(rng, kinds=KINDS)]
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        js.append(vary(rng, js[0]) if rng.random() < .6 else jobs.gen(rng, kinds=KINDS))
    share = len(js) > 1 and js[0]['kind'] == js[1]['kind'] and rng.random() < .2
    if share:  # the same inputs, other outputs
        js[1] = copy.deepcopy(js[0])
    c = dict(jobs=js, share=share, how=rng.choice(['par', 'par', 'seq']), main=rng.random() < .5,
             first=None, stream=rng.random() < .5, cpus=rng.choice([1, 2, 3, 4]),
             hazard=None, limit=1)
    if len(js) == 1 or rng.random() < .4:
        c['first'] = vary(rng, js[0]) if rng.random() < .7 else jobs.gen(rng, kinds=KINDS)
        c['place'] = rng.choice(['same', 'same', 'other'])  # files replaced since, or others
        if rng.random() < .4:
            c['fhazard'] = gen_hazard(rng, c['first']['kind'], cfg=c['first'])
    if c['how'] == 'par' and len(js) > 1 and rng.random() < .3:
        c['hazard'] = gen_hazard(rng, js[0]['kind'], cfg=js[0])
    return c


def shrink(c):
    if c['first'] and len(c['jobs']) > 1:
        yield dict(c, first=None, fhazard=None)
    if len(c['jobs']) > 1 and (c['first'] or len(c['jobs']) > 2):
        yield dict(c, jobs=c['jobs'][:-1], share=c['share'] and len(c['jobs']) > 2)
    if c.get('fhazard'):
        yield dict(c, fhazard=None)
    if c['hazard']:
        yield dict(c, hazard=None)


def make(cfg, d, odd, tag=''):
    j = jobs.new(dict(cfg, odd=odd), d, tag)
    return j


def alone(ctx, k, cfg):
    """The result of the job in a process of its own, or the text of its exception."""
    def body(x):
        ref = make(plain(cfg), os.path.join(x.dir, f'ref{k}'), '')
        ref.make()
        if not usable(x, ref):
            return None
        r = x.simulate(f'ref{k}', quiet(ref.prepare()), cpus=1, policy='default')
        ref.release()
        if r.exc is not None:
            x.violation('unexpected-failure', f'alone: {err(r.exc)}')
            return None
        return ref.collect(),
    return ctx.phase(body)


def trim(cfg, x):
    """Leave out of a result what depends on the way files are supplied."""
    if cfg['kind'] == 'fread' and cfg['c']['what'] == 'csv' and cfg['inf']['a'] in (
            'fobj', 'simfobj'):
        return x['ext']
    if cfg['kind'] in ('ortho', 'pan') and cfg['c']['driver'] == 'cog' and jobs.is_sim(cfg['outf']):
        x[2].pop('colorinterp', None)
    return x


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    want = []
    for k, cfg in enumerate(c['jobs']):
        want.append(want[0] if k == 1 and c['share'] else alone(ctx, k, cfg))
        if want[-1] is None:
            return
    what = []
    if c['first']:
        same = c['place'] == 'same'
        j = make(c['first'], os.path.join(ctx.dir, 'j0' if same else 'f'), '-0' if same else '-f')
        j.make()
        if not usable(ctx, j):
            return
        r = ctx.simulate('first', quiet(j.prepare()), cpus=c['cpus'], hazard=c.get('fhazard'),
                         io_filter=io_filter(j))
        j.release()
        for kind, text in r.sched.problems:
            ctx.violation(kind, text)
            return
        if r.exc is not None and not flt.chain_has(r.exc, r.faults.injected):
            ctx.violation('unexpected-failure', err(r.exc))
            return
        what.append(f"after {c['first']['kind']}{' of the same files, replaced since' * same}"
                    f"{' which failed' * (r.exc is not None)}")
        ctx.probe('first:failed' if r.exc is not None else 'first:ok')
        drop(r.exc)
        if same:
            for d in (j.d, os.path.join(simfs.STATE['root'], 'in-0'),
                      os.path.join(simfs.STATE['root'], 'out-0')):
                shutil.rmtree(d, ignore_errors=True)
    js = []
    for k, cfg in enumerate(c['jobs']):
        i = 0 if k == 1 and c['share'] else k
        j = make(cfg, os.path.join(ctx.dir, f'j{i}'), f'-{i}', '' if i == k else '1')
        if i == k:
            j.make()
        js.append(j)
    calls = [j.prepare() for j in js]
    excs = [None] * len(js)

    def one(k):
        try:
            calls[k]()
        except BaseException as ex:
            excs[k] = ex

    def main():
        if c['how'] == 'seq':
            for k in range(len(js)):
                one(k)
            return
        first = 1 if c['main'] else 0
        ts = [threading.Thread(target=one, args=(k,)) for k in range(first, len(js))]
        for t in ts:
            t.start()
        if first:
            one(0)
        for t in ts:
            t.join()
    filters = [io_filter(j) for j in js]
    r = ctx.simulate('main', quiet(main), cpus=c['cpus'], hazard=c['hazard'], limit=c['limit'],
                     io_filter=lambda *a: all(f(*a) for f in filters))
    for j in js:
        j.release()
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    if r.exc is not None:
        ctx.violation('unexpected-failure', err(r.exc))
        return
    ctx.nontrivial = True
    ctx.probe(f"{c['how']}:{len(js)}{':share' * c['share']}")
    failed = []
    for k, j in enumerate(js):
        others = [x.kind for i, x in enumerate(js) if i != k]
        desc = f'{j.kind} ' + '; '.join(what + (
            [f"with {', '.join(others)} {'at the same time' if c['how'] == 'par' else 'in a row'}"]
            if others else []))
        if excs[k] is not None:
            if not ctx.check(flt.chain_has(excs[k], r.faults.injected), 'unexpected-failure',
                             lambda: f'{desc}: {err(excs[k])}'):
                return
            failed.append(desc)
            continue
        d = j.same(trim(j.cfg, j.collect()), trim(j.cfg, copy.deepcopy(want[k][0])))
        ctx.check(d is None, 'differs', lambda: f'{desc}: {d}')
    ctx.check(len(failed) <= len(r.faults.fired), 'failure-spread',
              lambda: f'{len(r.faults.fired)} fault(s) made {len(failed)} calls fail: {failed}')
