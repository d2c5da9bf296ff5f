"""Seeded fault plans.

An event is identified by its site, what happens, where, and its occurrence number, so that a fault
found under one schedule still names the same event while the schedule is being minimised.  A plan
is either a hazard (each eligible event fails with probability p, drawn from the fault PRNG) or, for
replay, an explicit list of events."""
import ast
import errno
import os
import sys


def safe_lines(pkg):
    """'file.py:line' of lines where no allocation or computation can fail: 'with' headers (Python
    reports them again just before the context is left), 'try', 'pass'...; and of lines that clean
    up after a failure (bodies of 'finally', handlers that raise again, close methods), in which,
    and in what they call, no second failure is injected."""
    out, clean = set(), set()

    def span(fn, a, b, s=out):
        s.update(f'{fn}:{i}' for i in range(a, b + 1))
    for fn in os.listdir(pkg):
        if not fn.endswith('.py'):
            continue
        with open(os.path.join(pkg, fn), encoding='utf-8') as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                span(fn, n.lineno, max(i.context_expr.end_lineno for i in n.items))
                # header with its "as" names
                span(fn, n.lineno, max(n.lineno, n.body[0].lineno - 1))
            elif isinstance(n, ast.Try):
                span(fn, n.lineno, n.lineno)
                for b in n.finalbody:
                    span(fn, b.lineno, b.end_lineno, clean)
                for h in n.handlers:
                    if any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(h)):
                        span(fn, h.lineno, h.end_lineno, clean)
            elif isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal, ast.Break, ast.Continue)):
                span(fn, n.lineno, n.lineno)
            elif isinstance(n, ast.FunctionDef) and n.name in CLEAN_NAMES:
                span(fn, n.lineno, n.end_lineno, clean)
            elif isinstance(n, ast.Return) and (n.value is None or isinstance(
                    n.value, (ast.Name, ast.Constant))):
                span(fn, n.lineno, n.lineno)
    return out | clean, clean


CLEAN_NAMES = ('__exit__', 'close', '__del__')
SAFE = set()
CLEAN = set()


def cleaning_up(pkg):
    """Whether the calling thread is inside something that cleans up."""
    f = sys._getframe(2)
    while f is not None:
        code = f.f_code
        if code.co_filename.startswith(pkg):
            if f'{code.co_filename[len(pkg):]}:{f.f_lineno}' in CLEAN:
                return True
        elif code.co_name in CLEAN_NAMES and code.co_filename.endswith('contextlib.py'):
            return True
        f = f.f_back
    return False


class Faults:
    """site 'io': raster calls; 'fs': simulated storage calls; 'line': source lines (failing
    allocation / interrupt in the middle of the code)."""

    def __init__(self, rng=None, hazard=None, explicit=None, limit=1):
        self.rng = rng
        self.hazard = hazard or {}
        self.explicit = None
        if explicit is not None:
            self.explicit = {(e['site'], e['what'], e['where'], e['phase'], e['k']): e['kind']
                             for e in explicit}
            self.hazard = {}
        self.limit = limit
        self.counts = {}
        self.eligible = 0
        self.fired = []
        self.injected = []  # exception objects
        self.enabled = True
        self.line_filter = None  # f(thread, where, code) -> bool
        self.io_filter = None  # f(tid, op, name, phase) -> bool
        self.fs_filter = None

    def event(self, site, what, tid, where, phase, veto=None):
        """Return an exception to raise for this event, or None."""
        if not self.enabled:
            return None
        key = (site, what, str(where), phase)
        k = self.counts.get(key, 0)
        self.counts[key] = k + 1
        kind = None
        if self.explicit is not None:
            kind = self.explicit.get((*key, k))
        else:
            h = self.hazard.get(site)
            if h and len(self.fired) < self.limit:
                ops = h.get('ops')
                if (ops is None or what in ops or f'{what}.{phase}' in ops) and not (
                        h.get('worker') and tid == 0) and h.get('where', '') in str(where):
                    p = h['p']
                    if site == 'line' and k > 3:
                        p = p / 20 if k < 30 else p / 400
                    self.eligible += 1
                    if self.eligible > h.get('skip', 0) and self.rng.random() < p:
                        kind = self.rng.choice(h['kinds'])
        if kind is None or veto is not None and veto():
            return None
        ex = make_exc(kind, f'injected {site} {what} {where} {phase}#{k}')
        self.fired.append(dict(site=site, what=what, where=str(where), phase=phase, k=k,
                               kind=kind, tid=tid))
        self.injected.append(ex)
        return ex

    def io(self, sim, tid, op, name, phase):
        if self.io_filter is not None and not self.io_filter(tid, op, name, phase):
            return
        ex = self.event('io', op, tid, name, phase)
        if ex is not None:
            raise ex

    def fs(self, tid, op, path, phase='before'):
        if self.fs_filter is not None and not self.fs_filter(tid, op, path):
            return
        ex = self.event('fs', op, tid, path, phase)
        if ex is not None:
            raise ex

    def line(self, sim, t, where, code):
        if 'line' not in self.hazard and self.explicit is None:
            return
        if where in SAFE:
            return
        if self.line_filter is not None and not self.line_filter(t, where, code):
            return
        ex = self.event('line', code.co_name, t.tid, where, 'before', veto=_cleaning)
        if ex is not None:
            raise ex


def _cleaning():
    from . import core
    return cleaning_up(core.REPO_PKG)


def make_exc(kind, text):
    if kind == 'cv':
        import cv2
        return cv2.error(text)
    if kind == 'rio':
        from rasterio.errors import RasterioIOError
        return RasterioIOError(text)
    if kind == 'eio':
        return OSError(errno.EIO, text)
    if kind == 'enospc':
        return OSError(errno.ENOSPC, text)
    if kind == 'eacces':
        return PermissionError(errno.EACCES, text)
    if kind == 'timeout':
        return TimeoutError(errno.ETIMEDOUT, text)
    if kind == 'mem':
        return MemoryError(text)
    if kind == 'val':
        return ValueError(text)
    if kind == 'rt':
        return RuntimeError(text)
    if kind == 'kbd':
        return KeyboardInterrupt(text)
    raise AssertionError(kind)


def chain(exc, shown=False):
    """All exceptions in the cause / context chain of ``exc`` (including ``exc``).  ``shown``: leave out
    contexts that are suppressed ('from None')."""
    out, seen, todo = [], set(), [exc]
    while todo:
        e = todo.pop(0)
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        out.append(e)
        todo += [e.__cause__, None if shown and e.__suppress_context__ else e.__context__]
        if isinstance(e, BaseExceptionGroup):
            todo += list(e.exceptions)
        info = getattr(e, 'exc_info', None)
        if isinstance(info, tuple) and len(info) == 3:
            todo.append(info[1])
    return out


def chain_has(exc, injected, shown=False):
    """Whether one of the ``injected`` exceptions is in the cause / context chain of ``exc``."""
    ids = {id(x) for x in injected}
    return any(id(e) in ids for e in chain(exc, shown))
