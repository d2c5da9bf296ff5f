"""Simulated storage: an fsspec file system ('sim://') whose objects live in a scratch directory,
with every call a decision point and a fault site.

Object-store semantics by default: data written to a file becomes visible, whole, when the file is
closed.  With ``SimFS.stream = True`` every write is visible at once (a crash or error leaves a
prefix).  The store survives the death of the process (it is a directory), in-flight data does not.
"""
import errno
import io
import os
import sys

import fsspec
from fsspec import AbstractFileSystem

from . import core

STATE = dict(root=None, stream=False, log=None, torn=None, open_files=0)


def _point(op, path, phase='before'):
    sim = core.SIM
    if sim is None or sim.aborting:
        return
    t = sim.me()
    if t is None:
        return
    sim.yield_point('fs', f'{op}:{os.path.basename(path)}')
    if STATE['log'] is not None:
        STATE['log'].append((op, path, t.tid))
    if sim.faults is not None:
        base = os.path.dirname(STATE['root']) + '/'
        sim.faults.fs(t.tid, op, path[len(base):] if path.startswith(base) else path, phase)


def _real(path):
    path = SimFS._strip_protocol(path)
    p = os.path.normpath(os.path.join(STATE['root'], path.lstrip('/')))
    if not (p + '/').startswith(STATE['root'].rstrip('/') + '/'):
        raise ValueError(f'path escapes the store: {path}')
    return p


class SimFile(io.RawIOBase):
    """Unbuffered file object."""

    def __init__(self, path, mode):
        super().__init__()
        self.path = path
        self.sim_name = os.path.basename(path)
        self.name = path
        self._mode = mode
        self._fail_close = False
        self._done = False
        if 'r' in mode:
            try:
                with open(_real(path), 'rb') as f:
                    data = f.read()
            except (FileNotFoundError, NotADirectoryError):
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
            self._buf = io.BytesIO(data)
        else:
            self._buf = io.BytesIO()
            if STATE['stream']:
                self._publish()
        STATE['open_files'] += 1

    @property
    def mode(self):
        return self._mode

    def readable(self):
        return 'r' in self._mode

    def writable(self):
        return 'w' in self._mode

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        return self._buf.seek(off, whence)

    def tell(self):
        return self._buf.tell()

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        _point('read', self.path)
        return self._buf.readinto(b)

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        _point('read', self.path)
        return self._buf.read(n)

    def readall(self):
        return self.read(-1)

    def write(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if 'w' not in self._mode:
            raise io.UnsupportedOperation('write')
        try:
            _point('write', self.path)
        except OSError:
            if STATE['stream']:
                # torn write: a prefix reaches the store
                self._buf.write(bytes(b)[: len(bytes(b)) // 2])
                self._publish()
            raise
        n = self._buf.write(b)
        if STATE['stream']:
            self._publish()
        return n

    def flush(self):
        if not self.closed and 'w' in self._mode and not self._done:
            _point('flush', self.path)

    def _publish(self):
        p = _real(self.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(self._buf.getvalue())

    def close(self):
        if self.closed:
            return
        if self._done:
            return super().close()
        self._done = True
        STATE['open_files'] -= 1
        try:
            if 'w' in self._mode:
                # the final flush and upload may fail: then nothing new is published
                _point('close', self.path)
                self._publish()
        finally:
            super().close()

    def __del__(self):
        # an object dropped without close() loses its in-flight data; it is counted as leaked until
        # here
        if not self._done:
            self._done = True
            STATE['open_files'] -= 1
        try:
            io.RawIOBase.close(self)
        except Exception:
            pass


class SimFS(AbstractFileSystem):
    protocol = 'sim'
    cachable = False

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        path = os.fspath(path)
        if path.startswith('sim://'):
            path = path[len('sim://'):]
        return '/' + path.strip('/')

    def exists(self, path, **kwargs):
        _point('exists', path)
        return os.path.exists(_real(path))

    def isdir(self, path):
        return os.path.isdir(_real(path))

    def isfile(self, path):
        return os.path.isfile(_real(path))

    def info(self, path, **kwargs):
        p = _real(path)
        path = self._strip_protocol(path)
        if os.path.isdir(p):
            return dict(name=path, size=0, type='directory')
        if os.path.isfile(p):
            return dict(name=path, size=os.path.getsize(p), type='file')
        raise FileNotFoundError(path)

    def ls(self, path, detail=True, **kwargs):
        p = _real(path)
        path = self._strip_protocol(path)
        if os.path.isfile(p):
            out = [self.info(path)]
        elif os.path.isdir(p):
            out = [self.info(path.rstrip('/') + '/' + n) for n in sorted(os.listdir(p))]
        else:
            raise FileNotFoundError(path)
        return out if detail else [o['name'] for o in out]

    def mkdir(self, path, create_parents=True, **kwargs):
        os.makedirs(_real(path), exist_ok=True)

    def makedirs(self, path, exist_ok=False):
        os.makedirs(_real(path), exist_ok=exist_ok)

    def rm_file(self, path):
        _point('rm', path)
        os.remove(_real(path))

    def _rm(self, path):
        self.rm_file(path)

    def open(self, path, mode='rb', block_size=None, cache_options=None, compression=None, **kw):
        path = self._strip_protocol(path)
        if 'b' not in mode:
            mode = mode.replace('t', '') + 'b'
            return io.TextIOWrapper(self.open(path, mode),
                                    **{k: kw[k] for k in ('encoding', 'errors', 'newline')
                                       if k in kw})
        _point('open', path)
        return SimFile(path, mode)


def _patch_local():
    """Text files on the local file system: the same decision points and faults."""
    from fsspec.implementations.local import LocalFileOpener as L
    o_open, o_write, o_read, o_flush, o_close = L._open, L.write, L.read, L.flush, L.close

    def _open(self):
        _point('open', self.path)
        return o_open(self)

    def write(self, b, *a, **k):
        try:
            _point('write', self.path)
        except OSError:
            # torn write: a prefix reaches the disk
            o_write(self, bytes(b)[: len(bytes(b)) // 2])
            self.f.flush()
            raise
        return o_write(self, b, *a, **k)

    def read(self, *a, **k):
        _point('read', self.path)
        return o_read(self, *a, **k)

    def read1(self, *a, **k):
        _point('read', self.path)
        return self.f.read1(*a, **k)

    def flush(self):
        if 'w' in self.mode and not self.f.closed:
            _point('flush', self.path)
        return o_flush(self)

    def close(self):
        if 'w' in self.mode and not self.f.closed:
            try:
                _point('close', self.path)
            except OSError:
                n = self.f.tell()
                o_close(self)
                os.truncate(self.path, n // 2)  # the last pages never reached the disk
                raise
            except BaseException:
                o_close(self)
                raise
        return o_close(self)

    L._open, L.write, L.read, L.read1, L.flush, L.close = _open, write, read, read1, flush, close


def install(root=None):
    fsspec.register_implementation('sim', SimFS, clobber=True)
    sys.modules['fsspec.registry'].known_implementations['sim'] = {'class': 'sim.simfs.SimFS'}
    _patch_local()
    if root:
        STATE['root'] = root
