"""Seam over rasterio: every pixel-level operation of a dataset is a pair of decision points with
fault injection, exclusive-use tracking and use-after-close tracking."""
import os
import sys
import weakref

from . import core

# operations that use the dataset handle exclusively
OPS = ('read', 'read_masks', 'dataset_mask', 'sample', 'write', 'write_mask', 'write_band',
       'build_overviews', 'write_colormap', 'update_tags')
META_METHODS = ('tags',)
META_PROPS = ('rpcs', 'gcps')


class IoMonitor:
    """Per-run record of raster activity (reset for each run)."""

    def __init__(self):
        self.busy = {}  # id(handle) -> list of (tid, op)
        self.problems = []  # (kind, text)
        self.opened = []  # (weakref, name, mode)
        self.ops = {}
        self.listeners = []
        self.writes = 0

    def enter(self, ds, op, tid):
        for h in handles(ds):
            users = self.busy.setdefault(id(h), [])
            others = [u for u in users if u[0] != tid]
            if others:
                self.problems.append(('overlap', f'{op} of {name(h)} by thread {tid} while thread '
                                      f'{others[0][0]} is in {others[0][1]}'))
            users.append((tid, op))
            self.order(h, op, tid, not others)

    def order(self, h, op, tid, check=True):
        """Every earlier operation of another thread has to come before this one by what the
        threads do (locks, results waited for): otherwise the two can overlap, even if they did
        not now."""
        sim = core.SIM
        try:
            t = sim.threads[tid]
            if getattr(h, '_sim_last', (None,))[0] is not sim:
                h._sim_last = (sim, {})
            last = h._sim_last[1]
        except Exception:
            return
        for u, (n, o) in last.items():
            if check and u != tid and t.vc.get(u, 0) < n:
                self.problems.append(('overlap', f'{op} of {name(h)} by thread {tid} can overlap '
                                      f'{o} by thread {u}: nothing makes one wait for the other'))
        last[tid] = (t.vc[tid], op)

    def leave(self, ds, op, tid):
        for h in handles(ds):
            users = self.busy.get(id(h), [])
            if (tid, op) in users:
                users.remove((tid, op))
            self.order(h, op, tid, False)


MON = IoMonitor()


def reset():
    global MON
    MON = IoMonitor()
    return MON


def name(ds):
    try:
        return os.path.basename(ds.name)
    except Exception:
        return '?'


def handles(ds):
    """The dataset and the datasets it reads from (a VRT shares its source's handle)."""
    out = [ds]
    src = getattr(ds, '_sim_src', None)
    while src is not None and not any(src is o for o in out):
        out.append(src)
        src = getattr(src, '_sim_src', None)
    return out


def _ctx():
    sim = core.SIM
    if sim is None or sim.aborting:
        return None, None
    return sim, sim.me()


def _wrap(cls, op):
    orig = getattr(cls, op)

    def wrapper(self, *args, **kwargs):
        sim, t = _ctx()
        if t is None or t.no_preempt:  # (called by rasterio itself)
            return orig(self, *args, **kwargs)
        mon = MON
        nm = name(self)
        mon.ops[op] = mon.ops.get(op, 0) + 1
        if any(h.closed for h in handles(self)):
            mon.problems.append(('use-after-close', f'{op} of {nm} by thread {t.tid}'))
        mon.enter(self, op, t.tid)
        try:
            sim.yield_point('io', f'{op}+{nm}')
            f = sim.faults
            if f is not None:
                f.io(sim, t.tid, op, nm, 'before')
            for ln in mon.listeners:
                ln('before', self, op, args, kwargs, t)
            t.no_preempt += 1
            try:
                res = orig(self, *args, **kwargs)
            finally:
                t.no_preempt -= 1
            sim.yield_point('io', f'{op}-{nm}')
            if f is not None:
                f.io(sim, t.tid, op, nm, 'after')
            for ln in mon.listeners:
                ln('after', self, op, args, kwargs, t)
            return res
        finally:
            mon.leave(self, op, t.tid)

    wrapper.__name__ = op
    wrapper.__doc__ = orig.__doc__
    setattr(cls, op, wrapper)


def _wrap_close(cls):
    orig = cls.close

    def close(self):
        sim, t = _ctx()
        if t is None or self.closed:
            return orig(self)
        mon = MON
        nm = name(self)
        mon.ops['close'] = mon.ops.get('close', 0) + 1
        mon.enter(self, 'close', t.tid)
        try:
            sim.yield_point('io', f'close+{nm}')
            t.no_preempt += 1
            try:
                res = orig(self)
            finally:
                t.no_preempt -= 1
            sim.yield_point('io', f'close-{nm}')
            for ln in mon.listeners:
                ln('after', self, 'close', (), {}, t)
            f = sim.faults
            if f is not None:
                f.io(sim, t.tid, 'close', nm, 'after')
            return res
        finally:
            mon.leave(self, 'close', t.tid)

    cls.close = close


def _wrap_exit(cls):
    def __exit__(self, *args):
        self.close()

    cls.__exit__ = __exit__


def _wrap_meta_method(cls, op):
    orig = getattr(cls, op)

    def wrapper(self, *args, **kwargs):
        sim, t = _ctx()
        if t is None or t.no_preempt:  # (rasterio's own use while opening)
            return orig(self, *args, **kwargs)
        nm = name(self)
        sim.yield_point('io', f'{op}+{nm}')
        if sim.faults is not None:
            sim.faults.io(sim, t.tid, op, nm, 'before')
        res = orig(self, *args, **kwargs)
        for ln in MON.listeners:
            ln('after', self, op, args, kwargs, t)
        return res

    setattr(cls, op, wrapper)


def _wrap_meta_prop(cls, op):
    orig = getattr(cls, op)

    def get(self):
        sim, t = _ctx()
        if t is not None and t.no_preempt:
            t = None
        if t is not None:
            nm = name(self)
            sim.yield_point('io', f'{op}+{nm}')
            if sim.faults is not None:
                sim.faults.io(sim, t.tid, op, nm, 'before')
        res = orig.__get__(self, type(self))
        if t is not None:
            for ln in MON.listeners:
                ln('after', self, op, (), {}, t)
        return res

    def set_(self, v):
        return orig.__set__(self, v)

    setattr(cls, op, property(get, set_))


def install():
    import rasterio
    import rasterio.io
    import rasterio.vrt

    classes = [rasterio.io.DatasetReader, rasterio.io.DatasetWriter,
               rasterio.io.BufferedDatasetWriter, rasterio.vrt.WarpedVRT]
    for cls in classes:
        for op in OPS:
            if hasattr(cls, op):
                _wrap(cls, op)
        _wrap_close(cls)
        for op in META_METHODS:
            _wrap_meta_method(cls, op)
        for op in META_PROPS:
            _wrap_meta_prop(cls, op)

    vrt_init = rasterio.vrt.WarpedVRT.__init__

    def __init__(self, src_dataset, *args, **kwargs):
        self._sim_src = src_dataset
        vrt_init(self, src_dataset, *args, **kwargs)
        if _ctx()[1] is not None:
            MON.opened.append((weakref.ref(self), 'vrt of ' + name(src_dataset), 'r'))

    rasterio.vrt.WarpedVRT.__init__ = __init__

    orig_open = rasterio.open

    def open_(fp, mode='r', *args, **kwargs):
        sim, t = _ctx()
        if t is None:
            return orig_open(fp, mode, *args, **kwargs)
        nm = os.path.basename(fp) if isinstance(fp, str) else (
            os.path.basename(os.fspath(fp)) if isinstance(fp, os.PathLike) else
            str(getattr(fp, 'sim_name', '<file>')))
        sim.yield_point('io', f'open{mode}+{nm}')
        f = sim.faults
        if f is not None:
            f.io(sim, t.tid, 'open', nm, 'before')
        t.no_preempt += 1
        try:
            ds = orig_open(fp, mode, *args, **kwargs)
        finally:
            t.no_preempt -= 1
        MON.opened.append((weakref.ref(ds), nm, mode))
        MON.ops['open'] = MON.ops.get('open', 0) + 1
        sim.yield_point('io', f'open{mode}-{nm}')
        return ds

    rasterio.open = open_
    install_compute()


def _wrap_call(mod, nm):
    """A computation in OpenCV or GDAL outside any dataset: a decision point, and it can fail."""
    orig = getattr(mod, nm)

    def wrapper(*args, **kwargs):
        sim, t = _ctx()
        if t is None or t.no_preempt or not _from_repo():
            return orig(*args, **kwargs)
        sim.yield_point('io', f'compute+{nm}')
        if sim.faults is not None:
            sim.faults.io(sim, t.tid, 'compute', nm, 'before')
        t.no_preempt += 1
        try:
            res = orig(*args, **kwargs)
        finally:
            t.no_preempt -= 1
        sim.yield_point('io', f'compute-{nm}')
        return res

    wrapper.__name__ = nm
    setattr(mod, nm, wrapper)


def _from_repo():
    return sys._getframe(2).f_code.co_filename.startswith(core.REPO_PKG)


def install_compute():
    import cv2
    import rasterio.warp
    for nm in ('remap', 'dilate', 'fillPoly', 'initUndistortRectifyMap', 'projectPoints',
               'undistortPoints', 'Rodrigues', 'solvePnP'):
        _wrap_call(cv2, nm)
    for nm in ('initUndistortRectifyMap', 'undistortPoints'):
        _wrap_call(cv2.fisheye, nm)
    for nm in ('reproject', 'transform', 'transform_bounds'):
        _wrap_call(rasterio.warp, nm)
