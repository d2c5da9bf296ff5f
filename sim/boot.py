"""Process set-up: environment, seams, imports.  Import this before anything else."""
import os
import sys

REPO = '/repo'
PROJ = '/opt/vp/proj-data'


def reexec():
    """Restart the interpreter with a fixed hash seed and thread environment when needed."""
    want = {
        'PYTHONHASHSEED': os.environ.get('SIM_HASHSEED', '0'),
        'PYTHONDONTWRITEBYTECODE': '1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'OPENBLAS_MAIN_FREE': '1', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
        'GDAL_PAM_ENABLED': os.environ.get('GDAL_PAM_ENABLED', 'YES'),
        'CPL_LOG': '/dev/null', 'NO_COLOR': '1', 'COLUMNS': '100',
    }
    if os.path.isdir(PROJ) and 'PROJ_DATA' not in os.environ:
        want['PROJ_DATA'] = PROJ
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = dict(os.environ, **want)
    for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONWARNINGS', 'PYTHONTRACEMALLOC'):
        env.pop(k, None)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


BOOTED = False


def boot(scratch):
    """Install the seams and import everything a run may need, so that runs only fork."""
    global BOOTED
    if BOOTED:
        return
    BOOTED = True
    sys.dont_write_bytecode = True
    os.makedirs(os.path.join(scratch, 'proj'), exist_ok=True)
    os.environ['PROJ_USER_WRITABLE_DIRECTORY'] = os.path.join(scratch, 'proj')
    os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
    os.environ['CPL_TMPDIR'] = os.path.join(scratch, 'tmp')
    os.makedirs(os.environ['TMPDIR'], exist_ok=True)
    if sys.path[0:1] != [REPO]:
        sys.path.insert(0, REPO)

    from . import core
    core.install()

    import logging  # noqa
    import concurrent.futures  # noqa
    import concurrent.futures.thread  # noqa
    core.install_futures()
    import numpy  # noqa
    import cv2
    import rasterio  # noqa
    import rasterio.warp, rasterio.vrt, rasterio.io, rasterio.rpc, rasterio.control  # noqa
    import rasterio.transform, rasterio.windows, rasterio.crs, rasterio.env  # noqa
    import fsspec, fsspec.core, fsspec.implementations.local, fsspec.implementations.memory  # noqa
    import tqdm, tqdm.std, tqdm.auto  # noqa
    import yaml, json, csv, click, click.testing  # noqa
    import threading

    cv2.setNumThreads(0)
    cv2.ocl.setUseOpenCL(False)
    tqdm.std.time = core.sim_time
    tqdm.std.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock(threading.RLock())

    from . import faults, rio_patch, simfs
    safe, clean = faults.safe_lines(os.path.join(REPO, 'orthority'))
    faults.SAFE.update(safe)
    faults.CLEAN.update(clean)
    rio_patch.install()
    simfs.install()

    import orthority as oty
    import orthority.ortho, orthority.pan_sharp, orthority.factory, orthority.param_io  # noqa
    import orthority.camera, orthority.fit, orthority.exif, orthority.common, orthority.cli  # noqa
    if not os.path.abspath(oty.__file__).startswith(REPO + '/'):
        raise core.HarnessError(f'orthority imported from {oty.__file__}')
    # warm PROJ / GDAL: CRS and coordinate transforms only (no warps: these start threads)
    from rasterio.warp import transform
    for a, b in (('EPSG:32735', 'EPSG:4979'), ('EPSG:4979', 'EPSG:32735'),
                 ('EPSG:4326', 'EPSG:32735')):
        transform(a, b, [24.0 if '4' == a[5] else 500000.0], [-33.0 if '4' == a[5] else 6.2e6],
                  [0.0])
    logging.getLogger('rasterio').setLevel(logging.CRITICAL)


CPUS = []


def pin(cpu):
    """One CPU per worker: GDAL's internal pools then have one thread."""
    try:
        if not CPUS:
            CPUS.extend(sorted(os.sched_getaffinity(0)))
        cpus = CPUS
        os.sched_setaffinity(0, {cpus[cpu % len(cpus)]})
    except (AttributeError, OSError):
        pass
