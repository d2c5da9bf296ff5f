"""Helpers shared by the scenarios."""
import functools
import gc
import hashlib
import os
import warnings


def quiet(fn):
    """Run ``fn`` with warnings ignored (one catch_warnings around the whole call)."""
    @functools.wraps(fn)
    def w(*a, **k):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(*a, **k)
    return w


def snapshot(root):
    """{relative path: (kind, size, hash)} of everything under ``root``."""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs:
            p = os.path.join(base, n)
            out[os.path.relpath(p, root)] = ('dir',)
        for n in files:
            p = os.path.join(base, n)
            with open(p, 'rb') as f:
                data = f.read()
            out[os.path.relpath(p, root)] = ('file', len(data),
                                             hashlib.blake2b(data, digest_size=12).hexdigest())
    return out


def diff(a, b):
    """Human readable difference of two snapshots."""
    out = [f'new {k}' for k in sorted(set(b) - set(a))]
    out += [f'gone {k}' for k in sorted(set(a) - set(b))]
    out += [f'changed {k}' for k in sorted(set(a) & set(b)) if a[k] != b[k]]
    return out


def open_fds(prefix):
    """Paths under ``prefix`` this process has open."""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            continue
        if p.startswith(prefix):
            out.append(p)
    return sorted(out)


def err(exc):
    return f'{type(exc).__name__}: {exc}'[:400]


def drop(*excs):
    """Forget the frames exceptions keep alive."""
    seen = set()
    todo = list(excs)
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        e.__traceback__ = None
        todo += [e.__cause__, e.__context__]
    gc.collect()
