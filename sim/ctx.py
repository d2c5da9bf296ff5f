"""What a scenario sees: seeded randomness, simulations, isolated phases and the record of a run."""
import gc
import hashlib
import os
import pickle
import random
import shutil
import signal
import struct
import sys
import traceback
import types

from . import core, faults as flt, rio_patch, simfs


def seeded(*parts):
    h = hashlib.blake2b('/'.join(str(p) for p in parts).encode(), digest_size=8).digest()
    return random.Random(int.from_bytes(h, 'big'))


class Ctx:
    def __init__(self, prop, seed, index, work, plan=None):
        self.prop, self.seed, self.index = prop, seed, index
        self.dir = work
        self.plan = plan  # {label: {'dev': [...], 'faults': [...]}} for replay
        self.violations = []  # (kind, text)
        self.probes = {}
        self.plans = {}
        self.sims = []
        self.nontrivial = False
        self.notes = []
        self.evals = 0
        self.in_phase = False

    # -- randomness
    def rng(self, *label):
        return seeded(self.seed, self.prop, self.index, *label)

    # -- record
    def violation(self, kind, text, **info):
        self.violations.append((kind, str(text)[:2000]))

    def check(self, cond, kind, text):
        self.evals += 1
        if not cond:
            self.violation(kind, text() if callable(text) else text)
        return bool(cond)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- simulation
    def simulate(self, label, fn, hazard=None, limit=1, cpus=None, lines=True, policy=None,
                 max_steps=600_000, line_filter=None, io_filter=None, fs_filter=None,
                 listeners=(), on_step=None, explicit=None):
        """Run ``fn`` as thread 0 of a simulation.  ``explicit``: a fixed fault list."""
        mon = rio_patch.reset()
        mon.listeners = list(listeners)
        if self.plan is not None:
            p = self.plan.get(label) or {'dev': [], 'faults': []}
            pol = core.ReplayPolicy(p['dev'])
            f = flt.Faults(explicit=p['faults'])
        else:
            pol = core.Policy(self.rng('sched', label), policy)
            if explicit is not None:
                f = flt.Faults(explicit=explicit)
            else:
                f = flt.Faults(self.rng('fault', label), hazard, limit=limit)
        f.line_filter, f.io_filter, f.fs_filter = line_filter, io_filter, fs_filter
        if cpus is not None:
            core.CPU_COUNT[0] = cpus
        sched = core.Scheduler(pol, max_steps=max_steps, lines=lines, faults=f)
        sched.on_step = on_step
        self.live = (label, sched, f)
        res, exc = sched.run(fn)
        self.live = None
        if isinstance(exc, core.HarnessError):
            raise exc
        st = sched.stats()
        self.plans[label] = dict(dev=sched.deviations, faults=f.fired)
        st['fired'] = [(e['site'], e['what'], e['kind'], e['phase']) for e in f.fired]
        st['ioops'] = dict(mon.ops)
        self.sims.append(st)
        return types.SimpleNamespace(res=res, exc=exc, sched=sched, faults=f, mon=mon, stats=st,
                                     label=label)

    def crash_at(self, label, fn, step, **kwargs):
        """Run ``fn`` in a child process which dies at decision point number ``step``.  Returns
        whether it died there (False: the run ended first)."""
        def body(c):
            def on_step(sim, t, kind, where):
                if sim.step >= step:
                    os._exit(77)
            c.simulate(label, fn, on_step=on_step, **kwargs)
            return None
        _, status = self.phase(body, want_status=True)
        return status == 77

    # -- isolated phase
    def phase(self, fn, want_status=False, rlimit_fsize=None):
        """Run ``fn(self)`` in a forked child and merge its record.  Returns its result."""
        settle()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                self.violations, self.probes, self.plans, self.sims = [], {}, {}, []
                self.notes, self.evals = [], 0
                self.in_phase = True
                if rlimit_fsize is not None:
                    import resource
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (rlimit_fsize, rlimit_fsize))
                try:
                    res = ('ok', fn(self))
                except BaseException:
                    res = ('err', traceback.format_exc())
                if rlimit_fsize is not None:
                    pass
                _send(w, (res, self.violations, self.probes, self.plans, self.sims,
                          self.nontrivial, self.notes, self.evals))
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        data = _recv(r)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        if data is None:
            if want_status:
                return None, status
            raise PhaseDied(status)
        (res, viol, probes, plans, sims, nontriv, notes, evals) = data
        self.violations += viol
        for k, v in probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.plans.update(plans)
        self.sims += sims
        self.nontrivial |= nontriv
        self.notes += notes
        self.evals += evals
        if res[0] == 'err':
            raise core.HarnessError(res[1])
        return (res[1], status) if want_status else res[1]


def settle(limit=3.0):
    """Wait until finished threads are gone from the process (a thread which is being torn down
    may hold a lock of a C library, which a forked child would inherit locked)."""
    import time
    end = time.monotonic() + limit
    while len(os.listdir('/proc/self/task')) > 1 and time.monotonic() < end:
        time.sleep(.0005)


class PhaseDied(Exception):
    pass


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def rd(n):
        out = b''
        while len(out) < n:
            b = os.read(fd, min(1 << 20, n - len(out)))
            if not b:
                return None
            out += b
        return out
    h = rd(8)
    if h is None:
        return None
    d = rd(struct.unpack('<Q', h)[0])
    return None if d is None else pickle.loads(d)


def run_one(mod, prop, seed, index, cfg, scratch, plan=None, timeout=120, debug=False):
    """Fork, run one scenario, return its record (a dict)."""
    import select
    import time
    r, w = os.pipe()
    work = os.path.join(scratch, f'r{os.getpid()}')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, 'store'))
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            if not debug:
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            gc.disable()
            os.chdir(work)
            simfs.STATE.update(root=os.path.join(work, 'store'), stream=False, log=None,
                               open_files=0)
            c = Ctx(prop, seed, index, work, plan)
            err = None
            try:
                mod.run(c, cfg)
            except PhaseDied as ex:
                st = ex.args[0]
                if st < 0:
                    c.violation('process-died', f'the process was killed by signal {-st}')
                else:
                    err = f'phase exited with {st}'
            except BaseException:
                err = traceback.format_exc()
            _send(w, dict(violations=c.violations, probes=c.probes, plans=c.plans, sims=c.sims,
                          nontrivial=c.nontrivial, notes=c.notes, evals=c.evals, error=err))
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    end = time.monotonic() + timeout
    killed = False
    data = None
    rl, _, _ = select.select([r], [], [], timeout)
    if rl:
        data = _recv(r)
    else:
        killed = True
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(work, ignore_errors=True)
    if data is None:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        data = dict(violations=[], probes={}, plans=None, sims=[], nontrivial=False, notes=[],
                    evals=0, error=None)
        if killed:
            data['error'] = f'wall timeout {timeout}s'
            data['hang'] = True
        elif sig:
            data['violations'] = [('process-died', f'the process was killed by signal {sig}')]
        else:
            data['error'] = f'child exit status {st}'
    return data
