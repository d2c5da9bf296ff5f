"""Deterministic scheduler: real threads, one running at a time, chosen by a seeded PRNG.

``install()`` must run before orthority, concurrent.futures, tqdm, fsspec or rasterio are imported.
It replaces the primitives that ``threading`` is built on (lock allocation, thread start, thread
sentinel), so that the real ``threading``, ``queue`` and ``concurrent.futures`` code runs on
simulated locks.  Outside a simulation the replacements behave like ordinary locks.

A decision point ("step") is: every operation on a lock, every raster / storage call and every
executed source line of /repo/orthority.  At each step the scheduler may hand the baton to another
runnable thread.  The choice is recorded as a sparse list of deviations from the default policy
(stay on the current thread; when it blocks take the lowest numbered runnable one), which is what
is replayed and minimised.
"""
import _thread
import hashlib
import itertools
import os
import queue
import sys
import threading
import time
import uuid

REPO_PKG = '/repo/orthority/'

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_ident = _thread.get_ident
_real_sleep = time.sleep
_real_cpu_count = os.cpu_count

SIM = None  # the active Scheduler
INSTALLED = False


class SimAbort(BaseException):
    """Raised in every simulated thread when a run is given up (deadlock / step limit)."""


class HarnessError(Exception):
    """A fault of the harness itself (never reported as a violation)."""


# --------------------------------------------------------------------------------------------
class SimThread:
    __slots__ = ('tid', 'gate', 'state', 'wait_on', 'deadline', 'timed_out', 'sentinel', 'name',
                 'prio', 'pending', 'busy', 'interruptible', 'no_preempt', 'steps', 'ident',
                 'until', 'vc')

    def __init__(self, tid):
        self.tid = tid
        self.ident = next(_idents)
        self.gate = _real_alloc()
        self.gate.acquire()
        self.state = 'ready'
        self.wait_on = None
        self.deadline = None
        self.timed_out = False
        self.sentinel = None
        self.name = f't{tid}'
        self.prio = 0
        self.pending = None
        self.busy = None
        self.interruptible = False
        self.no_preempt = 0
        self.steps = 0
        self.until = 0
        self.vc = {tid: 1}  # what has happened before (a vector clock, moved along by locks)


class Policy:
    """Seeded choice of the next thread."""

    def __init__(self, rng, kind=None):
        self.rng = rng
        kinds = ['rand', 'rand', 'rand', 'pct', 'pct', 'starve', 'sync', 'sync', 'rr', 'default',
                 'slow', 'slow', 'slow']
        self.kind = kind or rng.choice(kinds)
        self.p = rng.choice([0.01, 0.05, 0.2, 0.5, 0.9])
        self.q = rng.choice([1, 3, 10, 40])
        self.changes = set()
        if self.kind == 'pct':
            horizon = rng.choice([30, 100, 300, 1000, 4000])
            self.changes = {rng.randrange(horizon) for _ in range(rng.choice([1, 2, 3, 6]))}
        self.victim = rng.randrange(0, 5)
        self.low = 0

    def new_thread(self, t):
        t.prio = self.rng.random()

    def choose(self, sim, cur, runnable, kind):
        """cur may be None (blocked / done).  runnable is a non-empty list in tid order."""
        if len(runnable) == 1:
            return runnable[0]
        k, rng = self.kind, self.rng
        if k == 'pct':
            if sim.choice_no in self.changes and cur is not None:
                self.low -= 1
                cur.prio = self.low
            return max(runnable, key=lambda t: t.prio)
        if k == 'starve':
            others = [t for t in runnable if t.tid != self.victim]
            runnable = others or runnable
            if cur in runnable and rng.random() >= self.p:
                return cur
            return rng.choice(runnable)
        if k == 'slow':
            # some file and raster operations take long
            if cur in runnable and kind != 'line' and rng.random() < .5:
                cur.until = sim.choice_no + int(2 ** rng.uniform(4, 11))
            ready = [t for t in runnable if t.until <= sim.choice_no]
            if cur in ready and rng.random() >= self.p:
                return cur
            return rng.choice(ready or runnable)
        if k == 'rr':
            if cur in runnable and sim.choice_no % self.q:
                return cur
            tid = cur.tid if cur is not None else -1
            later = [t for t in runnable if t.tid > tid]
            return later[0] if later else runnable[0]
        if k == 'sync':
            if cur in runnable and (kind == 'line' or rng.random() >= 0.5):
                return cur
            return rng.choice(runnable)
        if k == 'default':
            return cur if cur in runnable else runnable[0]
        if cur in runnable and rng.random() >= self.p:
            return cur
        return rng.choice(runnable)


class ReplayPolicy:
    kind = 'replay'

    def __init__(self, deviations):
        self.dev = {int(s): int(t) for s, t in deviations}

    def new_thread(self, t):
        pass

    def choose(self, sim, cur, runnable, kind):
        tid = self.dev.get(sim.choice_no)
        if tid is not None:
            for t in runnable:
                if t.tid == tid:
                    return t
        return cur if cur in runnable else runnable[0]


class Scheduler:
    def __init__(self, policy, max_steps=400_000, lines=True, faults=None, trace_events=False):
        self.policy = policy
        self.max_steps = max_steps
        self.lines = lines
        self.faults = faults
        self.step = 0
        self.choice_no = 0
        self.switches = 0
        self.deviations = []
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.aborting = None
        self.problems = []  # (kind, text) noticed by the scheduler itself
        self.vtime = 1_000_000.0
        self.hash = hashlib.blake2b(digest_size=8)
        self.ilv = hashlib.blake2b(digest_size=8)
        self.events = [] if trace_events else None
        self.kinds = {}
        self.max_live = 0
        self.on_step = None  # invariant callback
        self.main_done = _real_alloc()

    # -- lifecycle ------------------------------------------------------------------------------
    def run(self, fn):
        """Run ``fn`` as simulated thread 0.  Returns (result, exception)."""
        global SIM, _numbers
        if SIM is not None:
            raise HarnessError('nested simulation')
        _numbers = itertools.count(1)
        t = SimThread(0)
        self.threads.append(t)
        self.policy.new_thread(t)
        self.by_ident[_real_ident()] = t
        self.current = t
        SIM = self
        res = exc = None
        try:
            try:
                res = fn()
            except BaseException as ex:  # noqa
                exc = ex
            # threads that are still alive when the call is over
            self.leftover = [x for x in self.threads if x.state != 'done' and x.tid != 0]
            if self.leftover and not self.aborting:
                self._drain()
        finally:
            SIM = None
            t.state = 'done'
        return res, exc

    def _drain(self):
        """Let threads which outlive the call run to their end (or report that they can't)."""
        me = self.threads[0]
        n0 = self.step
        while True:
            left = [x for x in self.threads if x.state != 'done' and x.tid != 0]
            if not left:
                return
            run = [x for x in left if x.state == 'ready']
            if not run or self.step - n0 > 100_000:
                return
            self._switch(me, run[0])

    # -- baton ----------------------------------------------------------------------------------
    def me(self):
        return self.by_ident.get(_real_ident())

    def _switch(self, cur, nxt):
        self.switches += 1
        self.current = nxt
        nxt.gate.release()
        cur.gate.acquire()

    def _note(self, kind, where, t):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        rec = f'{t.tid}|{kind}|{where}\n'.encode()
        self.hash.update(rec)
        if self.events is not None:
            self.events.append((self.step, t.tid, kind, where))

    def _pick(self, cur, runnable, kind):
        """``cur``: the current thread if it is runnable, else None."""
        default = cur if cur is not None else runnable[0]
        nxt = self.policy.choose(self, cur, runnable, kind)
        if nxt is not default:
            self.deviations.append((self.choice_no, nxt.tid))
        self.choice_no += 1
        return nxt

    def yield_point(self, kind, where=''):
        """A decision point of the running thread."""
        t = self.by_ident.get(_real_ident())
        if t is None:
            return
        if self.aborting:
            if kind == 'release':
                return
            raise SimAbort(self.aborting)
        if t.no_preempt:
            return
        self.step += 1
        t.steps += 1
        if self.step > self.max_steps:
            self.abort('step-limit', f'no end after {self.max_steps} steps')
            raise SimAbort(self.aborting)
        self._note(kind, where, t)
        if self.on_step is not None:
            self.on_step(self, t, kind, where)
        runnable = [x for x in self.threads if x.state == 'ready']
        if len(runnable) > 1:
            self.max_live = max(self.max_live, len(runnable))
            nxt = self._pick(t, runnable, kind)
            if nxt is not t:
                self.ilv.update(f'{t.tid}>{nxt.tid}@{kind}:{where};'.encode())
                self._switch(t, nxt)
                if self.aborting and kind != 'release':
                    raise SimAbort(self.aborting)
        if t.pending is not None and kind != 'release':
            ex, t.pending = t.pending, None
            raise ex

    def block(self, t, wait_on, timeout):
        """Block thread ``t`` until woken (returns True) or timed out (False)."""
        t.state = 'blocked'
        t.wait_on = wait_on
        t.timed_out = False
        t.deadline = None if timeout is None else self.vtime + timeout
        self._dispatch(t)
        t.wait_on = None
        t.deadline = None
        if self.aborting:
            raise SimAbort(self.aborting)
        if t.pending is not None:
            ex, t.pending = t.pending, None
            raise ex
        return not t.timed_out

    def wake(self, t):
        if t.state == 'blocked':
            t.state = 'ready'

    def _dispatch(self, cur):
        """Hand over from ``cur``, which cannot run."""
        while True:
            runnable = [x for x in self.threads if x.state == 'ready']
            if runnable:
                break
            timers = [x for x in self.threads if x.state == 'blocked' and x.deadline is not None]
            if timers:
                x = min(timers, key=lambda a: (a.deadline, a.tid))
                self.vtime = max(self.vtime, x.deadline)
                x.timed_out = True
                x.state = 'ready'
                continue
            live = [x for x in self.threads if x.state == 'blocked']
            if not live:
                return  # nothing left at all
            if not self.aborting:
                self.abort('deadlock', 'all threads blocked: ' + ', '.join(
                    f'{x.name} on {x.wait_on}' for x in live))
            for x in live:
                x.state = 'ready'
        nxt = self._pick(cur if cur.state == 'ready' else None, runnable, 'dispatch')
        self.ilv.update(f'{cur.tid}>{nxt.tid}@block;'.encode())
        if nxt is not cur:
            if cur.state == 'done':
                self.switches += 1
                self.current = nxt
                nxt.gate.release()
            else:
                self._switch(cur, nxt)

    def abort(self, kind, text):
        self.aborting = kind
        self.problems.append((kind, text))
        for x in self.threads:
            if x.state == 'blocked':
                x.state = 'ready'

    # -- threads --------------------------------------------------------------------------------
    def start_thread(self, fn, args, kwargs):
        t = SimThread(len(self.threads))
        me = self.me()
        if me is not None:
            t.vc.update(me.vc)
            me.vc[me.tid] += 1
        self.threads.append(t)
        self.policy.new_thread(t)

        def boot():
            t.gate.acquire()
            self.by_ident[_real_ident()] = t
            try:
                if not self.aborting:
                    fn(*args, **kwargs)
            except SimAbort:
                pass
            finally:
                t.no_preempt = 1
                if t.sentinel is not None:
                    t.sentinel._force_release(t)
                t.state = 'done'
                del self.by_ident[_real_ident()]
                self._dispatch(t)

        ident = _real_start(boot, ())
        self.yield_point('spawn', '')
        return ident

    def sleep(self, dt):
        t = self.me()
        self.block(t, 'sleep', max(0.0, float(dt)))

    def stats(self):
        return dict(steps=self.step, switches=self.switches, threads=len(self.threads),
                    trace=self.hash.hexdigest(), ilv=self.ilv.hexdigest(),
                    policy=self.policy.kind, choices=self.choice_no, live=self.max_live,
                    kinds=dict(self.kinds), vtime=self.vtime - 1_000_000.0)


# --------------------------------------------------------------------------------------------
class SimLock:
    """Replacement for ``_thread.lock``."""

    def __init__(self):
        self._held = False
        self._waiters = []
        self._vc = None  # (simulation, vector clock)

    def _take(self, sim, t):
        self._held = True
        if self._vc is not None and self._vc[0] is sim:
            vc = t.vc
            for k, n in self._vc[1].items():
                if vc.get(k, 0) < n:
                    vc[k] = n

    def _give(self, sim, t):
        if self._vc is None or self._vc[0] is not sim:
            self._vc = (sim, dict(t.vc))
        else:
            vc = self._vc[1]
            for k, n in t.vc.items():
                if vc.get(k, 0) < n:
                    vc[k] = n
        t.vc[t.tid] += 1

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        t = sim.by_ident.get(_real_ident()) if sim is not None else None
        if t is None:
            # outside a simulation
            if not self._held:
                self._held = True
                return True
            if not blocking:
                return False
            end = None if timeout is None or timeout < 0 else time.monotonic() + timeout
            while self._held:
                if end is not None and time.monotonic() > end:
                    return False
                _real_sleep(0.0005)
            self._held = True
            return True
        sim.yield_point('acquire', '')
        if not self._held:
            self._take(sim, t)
            return True
        if not blocking:
            return False
        to = None if timeout is None or timeout < 0 else timeout
        deadline = None if to is None else sim.vtime + to
        while self._held:
            self._waiters.append(t)
            try:
                ok = sim.block(t, 'lock', None if deadline is None else deadline - sim.vtime)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
            if not ok and self._held:
                return False
        self._take(sim, t)
        return True

    def _force_release(self, t=None):
        self._held = False
        if t is not None and SIM is not None:
            self._give(SIM, t)
        for w in self._waiters:
            if SIM is not None:
                SIM.wake(w)

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        sim = SIM
        if sim is not None:
            t = sim.by_ident.get(_real_ident())
            if t is not None:
                self._give(sim, t)
            for w in self._waiters:
                sim.wake(w)
            sim.yield_point('release', '')

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False
        self._waiters = []

    def __repr__(self):
        return f'<SimLock {"locked" if self._held else "unlocked"}>'


def _alloc():
    return SimLock()


class SimRLock:
    """Replacement for the C reentrant lock (same logic as ``threading._RLock``)."""

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _real_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError('cannot release un-acquired lock')
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _real_ident()

    def _recursion_count(self):
        return self._count if self._owner == _real_ident() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def _start_new_thread(fn, args, kwargs={}):
    sim = SIM
    if sim is not None and sim.me() is not None:
        return sim.start_thread(fn, args, kwargs)
    return _real_start(fn, args, kwargs)


_real_set_sentinel = _thread._set_sentinel


def _set_sentinel():
    sim = SIM
    t = sim.me() if sim is not None else None
    if t is None:
        return _real_set_sentinel()
    t.sentinel = SimLock()
    return t.sentinel


def _get_ident():
    """Thread identifiers that do not depend on which real ones are used again."""
    sim = SIM
    t = sim.by_ident.get(_real_ident()) if sim is not None else None
    return _real_ident() if t is None or t.tid == 0 else t.ident


_idents = itertools.count(1000)


def _sleep(dt):
    sim = SIM
    if sim is not None and sim.me() is not None:
        return sim.sleep(dt)
    return _real_sleep(dt)


def sim_time():
    """Virtual clock: advances a little with every step."""
    sim = SIM
    if sim is not None:
        return sim.vtime + sim.step * 1e-3
    return 999_999.0


CPU_COUNT = [None]


def _cpu_count():
    return CPU_COUNT[0] or _real_cpu_count()


_numbers = itertools.count(1)
_uuids = itertools.count(1)


def _number(x):
    """A number for an object, in order of first use."""
    d = x.__dict__
    n = d.get('_sim_number')
    if n is None:
        n = d['_sim_number'] = next(_numbers)
    return n


def _uuid4():
    h = hashlib.blake2b(str(next(_uuids)).encode(), digest_size=16).digest()
    return uuid.UUID(bytes=h, version=4)


def install_futures():
    from concurrent.futures import _base
    _base.Future.__hash__ = _number
    _base.id = lambda f: _number(f)  # (locks are taken in this order)


# ------------------------------------------------------------------------------ line events
TOOL = 4


def _on_line(code, line):
    fn = code.co_filename
    if not fn.startswith(REPO_PKG) or code.co_name == '<module>':
        return sys.monitoring.DISABLE
    sim = SIM
    if sim is None or not sim.lines:
        return None
    t = sim.by_ident.get(_real_ident())
    if t is None:
        return None
    where = f'{fn[len(REPO_PKG):]}:{line}'
    sim.yield_point('line', where)
    f = sim.faults
    if f is not None and not sim.aborting and not t.no_preempt:
        f.line(sim, t, where, code)
    return None


def install():
    """Install the replacements.  Must run before the modules that bind the originals."""
    global INSTALLED
    if INSTALLED:
        return
    for m in ('concurrent.futures', 'orthority', 'tqdm', 'fsspec', 'rasterio', 'logging'):
        if m in sys.modules:
            raise HarnessError(f'{m} imported before core.install()')
    threading._allocate_lock = _alloc
    threading.Lock = _alloc
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading.get_ident = _get_ident
    threading._active_limbo_lock = SimRLock()
    threading._shutdown_locks_lock = SimLock()
    queue.SimpleQueue = queue._PySimpleQueue
    queue.threading = threading
    time.sleep = _sleep
    # sets of threads and futures are iterated in an order that does not depend on addresses
    threading.Thread.__hash__ = _number
    # (names of in-memory files)
    uuid.uuid4 = _uuid4
    os.cpu_count = _cpu_count
    if hasattr(os, 'process_cpu_count'):
        os.process_cpu_count = _cpu_count
    sys.monitoring.use_tool_id(TOOL, 'sim')
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _on_line)
    sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
    INSTALLED = True
