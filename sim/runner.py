"""Batch runner: seeded runs over worker processes, confirmation, minimisation, evidence."""
import gc
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e['property'] == prop and e['status'] == 'known':
                    out.append(e)
    return out


def known_match(known, kind, cfg, rec):
    for e in known:
        if e['kind'] == kind and all(cfg.get(k) == v for k, v in e.get('config', {}).items()):
            return e
    return None


def scenario(prop):
    return importlib.import_module(f'sim.scenarios.{prop.lower()}')


def jsonable(cfg):
    return json.loads(json.dumps(cfg))


class Batch:
    def __init__(self, prop, tier, seed, runs=None, budget=None, workers=None, verbose=False):
        from . import boot
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.monotonic()
        base = os.environ.get('SIM_SCRATCH') or tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix='otysim-', dir=base)
        boot.boot(self.scratch)
        self.mod = scenario(prop)
        self.runs = runs or self.mod.RUNS[tier]
        self.budget = budget or self.mod.BUDGET[tier]
        self.workers = workers or min(8, max(1, len(os.sched_getaffinity(0))))
        self.verbose = verbose
        boot.pin(0)
        self.known = load_known(prop)
        self.survey = False

    def close(self):
        os.chdir('/')
        shutil.rmtree(self.scratch, ignore_errors=True)

    def cfg(self, index):
        from .ctx import seeded
        fixed = getattr(self.mod, 'FIXED', [])
        if index < len(fixed):
            return jsonable(fixed[index])
        return jsonable(self.mod.gen(seeded(self.seed, self.prop, index, 'cfg'), self.tier, index))

    # -- batch
    def worker(self, w, fd, deadline):
        from . import boot, ctx
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        boot.pin(w)
        gc.collect()
        gc.freeze()
        for index in range(w, self.runs, self.workers):
            if time.monotonic() > deadline:
                break
            cfg = self.cfg(index)
            rec = ctx.run_one(self.mod, self.prop, self.seed, index, cfg, self.scratch)
            rec['index'], rec['cfg'] = index, cfg
            if rec['violations'] == []:
                rec['plans'] = None
            for s in rec['sims']:
                s['kinds'] = dict(s['kinds'])
            ctx._send(fd, rec)
        os.close(fd)

    def run(self):
        from . import ctx
        deadline = self.t0 + self.budget
        procs = {}
        for w in range(self.workers):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for fd in list(procs):
                        os.close(fd)
                    self.worker(w, wr, deadline)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
                os._exit(0)
            os.close(wr)
            procs[r] = pid
        agg = Agg()
        found = []
        stop = False
        hard = deadline + 300
        while procs and not stop:
            rl, _, _ = select.select(list(procs), [], [], 5)
            if time.monotonic() > hard:
                agg.errors.append('batch deadline')
                break
            for fd in rl:
                rec = ctx._recv(fd)
                if rec is None:
                    os.close(fd)
                    _, st = os.waitpid(procs.pop(fd), 0)
                    if st:
                        agg.errors.append(f'worker died: {st}')
                    continue
                agg.add(rec)
                if self.verbose and rec['error']:
                    print(f'# run {rec["index"]}: {rec["error"]}', file=sys.stderr)
                new = []
                for kind, text in rec['violations']:
                    e = known_match(self.known, kind, rec['cfg'], rec)
                    if e is not None:
                        agg.known.setdefault(e['id'], 0)
                        agg.known[e['id']] += 1
                    else:
                        new.append((kind, text))
                if new:
                    rec['new'] = new
                    found.append(rec)
                    if len(found) >= 3 and not self.survey:
                        stop = True
            if found and time.monotonic() - self.t0 > 5 and not stop and not self.survey:
                stop = True
        for fd, pid in procs.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
        # children of killed workers end with them or finish on their own: reap scratch at the end
        return agg, found

    # -- replay of a single record
    def execute(self, index, cfg, plan=None, debug=False, timeout=120):
        from . import ctx, boot
        gc.collect()
        return ctx.run_one(self.mod, self.prop, self.seed, index, cfg, self.scratch, plan,
                           timeout=timeout, debug=debug)

    def kinds(self, rec, cfg):
        return [k for k, _ in rec['violations']
                if known_match(self.known, k, cfg, rec) is None]

    def confirm(self, rec):
        """Re-run from the seed, then from the recorded plan.  Returns (kind, plan, text)."""
        kind = rec['new'][0][0]
        for _ in range(2):
            r2 = self.execute(rec['index'], rec['cfg'])
            if kind in self.kinds(r2, rec['cfg']):
                break
        else:
            return None
        text = next(t for k, t in r2['violations'] if k == kind)
        plan = r2['plans']
        if plan is None:
            return kind, None, text
        plan = jsonable(plan)
        r3 = self.execute(rec['index'], rec['cfg'], plan)
        if kind not in self.kinds(r3, rec['cfg']):
            return kind, None, text
        return kind, plan, text

    def minimise(self, index, cfg, kind, plan, budget):
        end = time.monotonic() + budget
        tries = [0]

        def fails(p):
            tries[0] += 1
            r = self.execute(index, cfg, p)
            return kind in self.kinds(r, cfg)

        cur = {k: dict(dev=list(v['dev']), faults=list(v['faults'])) for k, v in plan.items()}

        def with_(label, **kw):
            p = {k: dict(v) for k, v in cur.items()}
            p[label] = dict(p[label], **kw)
            return p

        # no schedule at all?
        p = {k: dict(dev=[], faults=v['faults']) for k, v in cur.items()}
        if fails(p):
            cur = p
        else:
            for label in list(cur):
                if cur[label]['dev'] and fails(with_(label, dev=[])):
                    cur = with_(label, dev=[])
        for label in list(cur):
            for f in list(cur[label]['faults']):
                if time.monotonic() > end:
                    break
                p = with_(label, faults=[x for x in cur[label]['faults'] if x is not f])
                if fails(p):
                    cur = p
            dev = cur[label]['dev']
            n = 2
            while len(dev) >= 1 and time.monotonic() < end:
                size = max(1, len(dev) // n)
                done = False
                for i in range(0, len(dev), size):
                    if time.monotonic() > end:
                        break
                    cand = dev[:i] + dev[i + size:]
                    p = with_(label, dev=cand)
                    if fails(p):
                        cur, dev, done = p, cand, True
                        n = max(2, n - 1)
                        break
                if not done:
                    if size == 1:
                        break
                    n = min(len(dev), n * 2)
        return cur, tries[0]

    def shrink_cfg(self, rec, kind, budget):
        """Optional configuration shrinking (seed-driven schedule)."""
        shrink = getattr(self.mod, 'shrink', None)
        if shrink is None:
            return rec['cfg']
        end = time.monotonic() + budget
        cfg = rec['cfg']
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for cand in shrink(cfg):
                cand = jsonable(cand)
                if time.monotonic() > end:
                    break
                r = self.execute(rec['index'], cand)
                if kind in self.kinds(r, cand) and not r['error']:
                    cfg, progress = cand, True
                    break
        return cfg


class Agg:
    def __init__(self):
        self.runs = 0
        self.evals = 0
        self.errors = []
        self.hangs = 0
        self.steps = self.switches = 0
        self.threads = 0
        self.vtime = 0.0
        self.ilv = set()
        self.traces = set()
        self.nontrivial = set()
        self.fired = {}
        self.policies = {}
        self.probes = {}
        self.known = {}
        self.kinds = {}
        self.samples = []
        self.max_live = 0
        self.hang_recs = []

    def add(self, rec):
        self.runs += 1
        self.evals += rec['evals']
        if rec['error']:
            self.errors.append(f"run {rec['index']}: {rec['error']}")
            if rec.get('hang'):
                self.hang_recs.append(rec)
        h = hashlib.blake2b(digest_size=8)
        for s in rec['sims']:
            self.steps += s['steps']
            self.switches += s['switches']
            self.threads += s['threads']
            self.vtime += s['vtime'] + s['steps'] * 1e-3
            self.ilv.add(s['ilv'])
            self.traces.add(s['trace'])
            h.update(s['ilv'].encode())
            self.max_live = max(self.max_live, s['live'])
            self.policies[s['policy']] = self.policies.get(s['policy'], 0) + 1
            for f in s['fired']:
                k = '.'.join(f)
                self.fired[k] = self.fired.get(k, 0) + 1
            for k, v in s['kinds'].items():
                self.kinds[k] = self.kinds.get(k, 0) + v
        if rec['nontrivial']:
            h.update(json.dumps(rec['cfg'], sort_keys=True).encode())
            self.nontrivial.add(h.hexdigest())
        for k, v in rec['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + v
        if len(self.samples) < 4 and rec['sims'] and rec['nontrivial']:
            self.samples.append(dict(index=rec['index'], config=rec['cfg'],
                                     sims=[{k: s[k] for k in ('policy', 'steps', 'switches',
                                                              'threads', 'trace', 'fired')}
                                           for s in rec['sims'][:3]]))


def determinism(batch, n=5):
    """Run some indices twice in fresh processes and compare their event-trace hashes."""
    bad = 0
    total = 0
    for index in range(n):
        i = len(getattr(batch.mod, 'FIXED', [])) + index
        cfg = batch.cfg(i)
        a = batch.execute(i, cfg)
        b = batch.execute(i, cfg)
        total += 1
        if [(s['trace'], s['ilv']) for s in a['sims']] != \
                [(s['trace'], s['ilv']) for s in b['sims']] or a['violations'] != b['violations']:
            bad += 1
    return total, bad


def write_evidence(batch, agg, violations, extra):
    mod = batch.mod
    wall = time.monotonic() - batch.t0
    ev = dict(
        property=batch.prop, tier=batch.tier, seed=batch.seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=agg.evals,
            distinct_nontrivial=len(agg.nontrivial),
            rule='a run counts as non-trivial when ' + mod.NONTRIVIAL + '; two runs are distinct '
                 'when their configuration or the hash of their thread hand-overs (from, to, kind '
                 'and place of the decision point) differs',
            samples=agg.samples,
            simulated_runs=agg.runs, runs_per_hour=round(agg.runs / max(wall, 1e-9) * 3600),
            seeds=f'VERIF_SEED={batch.seed}, one derived seed per run index 0..{batch.runs - 1}',
            simulated_seconds=round(agg.vtime, 1), decision_points=agg.steps,
            context_switches=agg.switches, threads_started=agg.threads,
            most_runnable_threads=agg.max_live,
            distinct_interleavings=len(agg.ilv), distinct_event_traces=len(agg.traces),
            decision_points_by_kind=agg.kinds, faults_injected=agg.fired,
            schedule_policies=agg.policies, probes=agg.probes,
            known_findings_seen=agg.known, harness_errors=len(agg.errors), **extra,
        ),
        wall_s=round(wall, 2), violations=violations,
        assumptions=mod.ASSUMPTIONS + [
            'real code: orthority, concurrent.futures, threading.Thread/Condition/Event, queue '
            '(Python implementation), tqdm, fsspec, rasterio, GDAL, OpenCV, numpy; stubs: lock '
            'allocation and thread start (simulated), wall clock of tqdm, os.cpu_count, the '
            "'sim://' store",
            'a GDAL / OpenCV / numpy call is atomic for the scheduler (threads inside these '
            'libraries are limited to one)'],
    )
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f'{batch.prop}.json')
    tmp = path + f'.{os.getpid()}.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, path)


def save_replay(batch, rec, cfg, kind, text, plan, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    body = dict(property=batch.prop, seed=batch.seed, index=rec['index'], tier=batch.tier,
                config=cfg, violation=kind, text=text, plan=plan, **extra)
    h = hashlib.blake2b(json.dumps(body, sort_keys=True, default=str).encode(),
                        digest_size=5).hexdigest()
    path = os.path.join(REPLAYS, f'{batch.prop}-{kind}-{h}.json'.replace(' ', '_'))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, default=str)
    return path


def main_check(prop, tier, seed, runs=None, budget=None, workers=None, verbose=False):
    batch = Batch(prop, tier, seed, runs, budget, workers, verbose)
    try:
        agg, found = batch.run()
        det = determinism(batch)
        reported = []
        unconfirmed = 0
        seen = set()
        for rec in found:
            kind = rec['new'][0][0]
            if kind in seen:
                continue
            c = batch.confirm(rec)
            if c is None:
                unconfirmed += 1
                continue
            seen.add(kind)
            kind, plan, text = c
            cfg, extra = rec['cfg'], {}
            mb = 40 if tier == 'quick' else 180
            cfg2 = batch.shrink_cfg(rec, kind, mb / 2)
            if cfg2 != cfg:
                r2 = batch.execute(rec['index'], cfg2)
                p2 = jsonable(r2['plans']) if r2['plans'] else None
                if kind in batch.kinds(r2, cfg2) and p2 is not None and \
                        kind in batch.kinds(batch.execute(rec['index'], cfg2, p2), cfg2):
                    extra['original_config'] = cfg
                    cfg, plan = cfg2, p2
                    text = next(t for k, t in r2['violations'] if k == kind)
            if plan is not None:
                before = sum(len(v['dev']) for v in plan.values())
                plan, tries = batch.minimise(rec['index'], cfg, kind, plan, mb)
                after = sum(len(v['dev']) for v in plan.values())
                extra['minimised'] = dict(deviations_before=before, deviations_after=after,
                                          replays=tries)
                r3 = batch.execute(rec['index'], cfg, plan)
                t3 = [t for k, t in r3['violations'] if k == kind]
                text = t3[0] if t3 else text
            path = save_replay(batch, rec, cfg, kind, text, plan, extra)
            reported.append(dict(kind=kind, text=text, replay=path))
            break
        # a run that never comes back, twice, with a long limit
        if not reported and agg.hang_recs:
            rec = agg.hang_recs[0]
            r2 = batch.execute(rec['index'], rec['cfg'], timeout=200)
            if r2.get('hang'):
                path = save_replay(batch, rec, rec['cfg'], 'hang', 'the run never ends', None, {})
                reported.append(dict(kind='hang', text='the run never ends', replay=path))
        write_evidence(batch, agg, len(reported), dict(
            determinism_reruns=det[0], determinism_mismatches=det[1],
            unconfirmed_reports=unconfirmed, violations=reported,
            errors=agg.errors[:3]))
        for e in batch.known:
            if agg.known.get(e['id']):
                print(f"KNOWN-FINDING: property={prop} {e['what']}")
        if reported:
            for v in reported:
                print(f"# {v['kind']}: {v['text']}")
                print(f"VIOLATION property={prop} replay={v['replay']}")
            return 1
        if agg.runs == 0 or len(agg.errors) > max(2, agg.runs // 50):
            print(f'ERROR: {len(agg.errors)} harness errors in {agg.runs} runs; first: '
                  f'{agg.errors[:1]}', file=sys.stderr)
            return 2
        print(f'OK property={prop} runs={agg.runs} evaluations={agg.evals} '
              f'interleavings={len(agg.ilv)} faults={sum(agg.fired.values())} '
              f'errors={len(agg.errors)} unconfirmed={unconfirmed} '
              f'nondet={det[1]} wall={time.monotonic() - batch.t0:.1f}s')
        return 0
    finally:
        batch.close()


def main_survey(prop, tier, seed, runs, budget, workers):
    """Development aid: run everything and list all reports."""
    batch = Batch(prop, tier, seed, runs, budget, workers, True)
    batch.survey = True
    try:
        agg, found = batch.run()
        by = {}
        for rec in found:
            for k, t in rec['new']:
                by.setdefault(k, []).append((rec['index'], t, rec['cfg']))
        for k, v in by.items():
            print(f'== {k}: {len(v)} runs')
            for i, t, c in v[:6]:
                print(f'   [{i}] {t[:700]}')
        fired = {}
        for k, v in agg.fired.items():
            a = k.split('.')
            k = a[0] if a[0] == 'line' else f'{a[0]}.{a[1]}'
            fired[k] = fired.get(k, 0) + v
        print(f'runs={agg.runs} evals={agg.evals} nontrivial={len(agg.nontrivial)} '
              f'errors={len(agg.errors)} ilv={len(agg.ilv)} known={agg.known} '
              f'fired={fired} probes={agg.probes} wall={time.monotonic() - batch.t0:.1f}')
        return 0
    finally:
        batch.close()


def main_replay(path, debug=False):
    body = json.load(open(path))
    batch = Batch(body['property'], body['tier'], body['seed'], 1, 1)
    try:
        rec = batch.execute(body['index'], body['config'], body['plan'], debug=debug)
        kinds = batch.kinds(rec, body['config'])
        if rec['error']:
            print(rec['error'], file=sys.stderr)
        if body['violation'] in kinds or (body['violation'] == 'hang' and rec.get('hang')):
            for k, t in rec['violations']:
                print(f'# {k}: {t}')
            print(f"VIOLATION property={body['property']} replay={path}")
            return 1
        print(f"OK property={body['property']} not reproduced: {kinds}")
        return 0
    finally:
        batch.close()
