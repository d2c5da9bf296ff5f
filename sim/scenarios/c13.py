"""C13: a command-line batch treats each image alone and reports failure."""
import os
import shutil

from .. import cliworld, jobs, params, simfs, world
from .c04 import gen_hazard
from .c06 import put
from .util import err, quiet

LEVEL = 'exploration'
RUNS = dict(quick=12000, thorough=10 ** 6)
BUDGET = dict(quick=110, thorough=1500)
NONTRIVIAL = 'two or more images were processed in one command, or an image failed'
ASSUMPTIONS = ['commands run in the simulated process through their click entry point (exit status '
               '= the SystemExit code, or 1 for an exception which leaves the entry point); images '
               'of a batch have different stems, and lie in one UTM zone where the reference '
               'system is found automatically']
FIXED = []


def gen(rng, tier, index):
    c = dict(stream=rng.random() < .5, cpus=rng.choice([1, 2, 3, 4]), hazard=None)
    mode = rng.choice(['same', 'same', 'same', 'corrupt', 'missing', 'noparam', 'exists', 'fault',
                       'fault'])
    while True:
        b = cliworld.gen(rng, legacy=True)
        if mode == 'same' or not b['export']:
            if b['cmd'] != 'sharpen' or mode in ('same', 'exists', 'fault'):
                break
    c.update(b=b, mode=mode, k=rng.randrange(8), over=rng.random() < .3)
    if mode == 'fault':
        while True:
            c['hazard'] = gen_hazard(rng, 'pan' if b['cmd'] == 'sharpen' else 'ortho')
            if rng.random() < .5:
                for h in c['hazard'].values():
                    h['skip'] = int(2 ** rng.uniform(0, 7))
            break
    return c


def run(ctx, c):
    simfs.STATE['stream'] = c['stream']
    b = c['b']
    d = os.path.join(ctx.dir, 'a')
    os.makedirs(d)
    batch = cliworld.Batch(b, d)
    batch.make()
    cmd = b['cmd']
    if cmd == 'sharpen':
        from .. import panworld
        if panworld.reference(b['pan'], batch.p('src', 'pan.tif'), batch.p('src', 'ms.tif'),
                              None) is None:
            return
    names = cliworld.names(b)
    order = batch.order() if cmd not in ('sharpen', 'odm') else names
    outs = dict(zip(names, batch.outs())) if not b['export'] else {}
    mode = c['mode']
    bad = None
    existing = None
    if mode in ('corrupt', 'missing', 'noparam', 'exists'):
        bad = order[c['k'] % len(order)]
        src = batch.p('ds', 'images', bad) if cmd == 'odm' else batch.src(bad)
    # every image by itself
    want = {}
    if cmd in ('frame', 'rpc', 'exif', 'legacy') and not b['export']:
        for nm in order:
            if nm == bad and mode != 'exists':
                continue
            os.makedirs(batch.p('ref'), exist_ok=True)
            r = ctx.simulate(f'ref-{nm}', quiet(lambda: cliworld.run(batch.args([nm], ('ref',)))),
                             cpus=1, policy='default')
            st = 1 if r.exc is not None else r.res
            if st:
                ctx.violation('unexpected-failure', f'{cmd} {nm} alone: exit status {st} '
                              f'{err(r.exc) if r.exc else ""}')
                return
            want[nm] = world.read_out(batch.p('ref', os.path.splitext(nm)[0] + '_ORTHO.tif'))
        shutil.rmtree(batch.p('ref'), ignore_errors=True)
    elif not b['export']:
        r = ctx.simulate('ref', quiet(lambda: cliworld.run(batch.args())), cpus=1,
                         policy='default')
        st = 1 if r.exc is not None else r.res
        if st:
            ctx.violation('unexpected-failure', f'{cmd}: exit status {st} '
                          f'{err(r.exc) if r.exc else ""}')
            return
        for nm in names:
            want[nm] = world.read_out(outs[nm])
            os.remove(outs[nm])
            if os.path.exists(outs[nm] + '.aux.xml'):
                os.remove(outs[nm] + '.aux.xml')
    # what goes wrong
    over = c['over']
    if mode == 'corrupt':
        with open(src, 'r+b') as f:
            data = f.read()
            f.seek(0)
            f.truncate()
            f.write(b'not an image' if c['k'] % 2 else data[:6])
    elif mode == 'missing':
        os.remove(src)
        if cmd == 'odm':
            bad = None  # (images are found by listing the directory)
            order = [nm for nm in order if os.path.basename(src) != nm]
            if not order:
                bad = names[0]
    elif mode == 'noparam':
        new = os.path.join(os.path.dirname(src), 'zz unknown.tif')
        os.rename(src, new)
        bad_arg = new if b['store'] == 'local' else 'sim://' + os.path.relpath(new, batch.root)
        if cmd == 'exif' or cmd == 'rpc' and b['from'] == 'tags':
            # the parameters are in the file: remove them
            import numpy as np
            world.tiff(new, (np.arange(48 * 40).reshape(1, 40, 48) % 200 + 1).astype('uint8'))
    elif mode == 'exists':
        over = False
        existing = put(outs[bad], 'valid')
    args = batch.args([bad_arg if nm == bad and mode == 'noparam' else nm for nm in order]
                      if cmd in ('frame', 'rpc', 'exif', 'legacy') else None, overwrite=over)
    r = ctx.simulate('main', quiet(lambda: cliworld.run(args)), cpus=c['cpus'],
                     hazard=c['hazard'])
    for kind, text in r.sched.problems:
        ctx.violation(kind, text)
        return
    fired = r.faults.fired
    st = 1 if r.exc is not None else r.res
    desc = f'{cmd}, {len(order)} images'
    if bad:
        desc += f', {mode} {bad}'
    if fired:
        desc += f", {fired[-1]['kind']} at {fired[-1]['site']} {fired[-1]['what']} " \
                f"{fired[-1]['where']}"
    ctx.nontrivial = len(order) > 1 or bool(bad) or bool(fired)
    ctx.probe('mode:' + mode)
    ctx.probe('cmd:' + cmd)
    if b['export']:
        if st:
            ctx.violation('unexpected-failure', f'{desc}, export: exit status {st} '
                          f'{err(r.exc) if r.exc else ""}')
            return
        for p in batch.outs():
            if not ctx.check(os.path.exists(p) and jobs.load_text(p) is not None, 'incomplete',
                             f'{desc}: exit status 0 without {os.path.basename(p)}'):
                return
        if cmd != 'odm':
            export_alone(ctx, batch, order, desc)
        return
    if bad:
        ctx.check(st != 0, 'failure-not-reported', f'{desc}: exit status 0')
    if st != 0 and not bad and not fired:
        ctx.violation('unexpected-failure', f'{desc}: exit status {st} '
                      f'{err(r.exc) if r.exc else ""}')
        return
    # (in a batch stopped by a fault, the image being written when it happened may be partial)
    todo = order
    if st != 0:
        todo = finished(order, outs, bad, fired)
    for nm in todo:
        p = outs[nm]
        if not os.path.exists(p):
            ctx.check(False, 'incomplete', f'{desc}: exit status {st} without '
                      f'{os.path.basename(p)}')
            continue
        try:
            got = world.read_out(p)
            w = want[nm]
            if (b.get('o') or {}).get('driver') == 'cog' or cmd == 'sharpen':
                got[2].pop('colorinterp')
                w[2].pop('colorinterp', None)
            dd = jobs.same_image(got, w, 1 if cmd == 'sharpen' else 0)
        except Exception as ex:
            dd = f'unreadable: {err(ex)}'
        ctx.check(dd is None, 'differs', lambda: f'{desc}: the ortho of {nm} differs from that of '
                  f'the image by itself: {dd}')
    if existing is not None:
        with open(outs[bad], 'rb') as f:
            ctx.check(f.read() == existing, 'changed', f'{desc}: the existing file was changed')
    if st == 0 and cmd in ('frame', 'legacy'):
        for im in b['images']:
            if im['name'] in todo and im['src_crs'] != cliworld.OTHER:
                a, m, info = world.read_out(outs[im['name']])
                for kind, text in world.judge_arrays(cliworld.image_cfg(b, im), a, m, info).bad:
                    ctx.violation('model-' + kind, f"{im['name']}: {text}")


def entries(path):
    """What an exported file holds for each image or camera."""
    d = jobs.load_text(path)
    if path.endswith('json'):
        out = {}
        for f in d['features']:
            out.setdefault(f['properties']['filename'], []).append(f)
        return out
    return d


def export_alone(ctx, batch, order, desc):
    """The parameters exported for each image are those exported for the image by itself."""
    files = batch.outs()
    got = [entries(p) for p in files]
    for k, nm in enumerate(order[:3]):
        out = f'ref{k}'
        os.makedirs(batch.p(out))
        r = ctx.simulate(f'ref-{nm}', quiet(lambda: cliworld.run(batch.args([nm], (out,)))),
                         cpus=1, policy='default')
        st = 1 if r.exc is not None else r.res
        if st:
            ctx.violation('unexpected-failure', f'{desc}: export of {nm} alone: exit status {st} '
                          f'{err(r.exc) if r.exc else ""}')
            return
        for p, g in zip(files, got):
            one = entries(batch.p(out, os.path.basename(p)))
            keys = list(one) if os.path.basename(p) == 'int_param.yaml' else [nm]
            for q in keys:
                ctx.check(q in g and params.close(g[q], one[q], 1e-12), 'export-differs',
                          lambda: f'{desc}: {os.path.basename(p)} holds for {q}: {g.get(q)}, when '
                          f'exported alone {one[q]}'[:900])


def finished(order, outs, bad, fired):
    """Images completed before the failing one."""
    if bad in order:
        i = order.index(bad)
        done = order[:i]
        # parameters may be read, and checked, before the first image is processed
        return [nm for nm in done if os.path.exists(outs[nm])]
    done = [nm for nm in order if os.path.exists(outs[nm])]
    return done[:-1]
