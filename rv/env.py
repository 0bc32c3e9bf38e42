"""Import rdtools from /repo's working tree, with the scratch fixtures it needs.

rdtools ships (but this checkout lacks) data/temperature.hdf5.  The harness
provides a synthetic file of the documented layout in a scratch directory and
redirects any open of ``temperature.hdf5`` to it.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from . import core

SCRATCH = None
TEMP_DAY = None
TEMP_NIGHT = None
# resolution of the synthetic map; settable before the first open
TEMP_SHAPE = (72, 36)


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='rv-scratch-')
        pid = os.getpid()

        def _rm(path=SCRATCH):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_rm)
    return SCRATCH


def _make_map(path):
    import h5py
    global TEMP_DAY, TEMP_NIGHT
    nlon, nlat = TEMP_SHAPE
    r = np.random.default_rng(20240607)
    lon = np.linspace(-180, 180, nlon, endpoint=False)[:, None, None]
    lat = np.linspace(90, -90, nlat)[None, :, None]
    m = np.arange(12)[None, None, :]
    base = (25 - 0.35 * np.abs(lat) + 8 * np.sin(np.radians(lat)) * -np.cos(2 * np.pi * (m - 0.5) / 12)
            + 0.01 * lon)
    day = base + 6 + r.normal(0, 1.0, (nlon, nlat, 12))
    night = base - 6 + r.normal(0, 1.0, (nlon, nlat, 12))
    with h5py.File(path, 'w') as f:
        g = f.create_group('temperature')
        g.create_dataset('day', data=day)
        g.create_dataset('night', data=night)
    TEMP_DAY, TEMP_NIGHT = day, night


_loaded = None
TEMP_PATH = None


def use_map(day, night):
    """Serve another temperature map from now on (this process only)."""
    import h5py
    global TEMP_PATH
    TEMP_PATH = os.path.join(scratch(), 'map-%d.hdf5' % os.getpid())
    with h5py.File(TEMP_PATH, 'w') as f:
        g = f.create_group('temperature')
        g.create_dataset('day', data=day)
        g.create_dataset('night', data=night)


def load():
    """Import rdtools from REPO and return the module."""
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    sys.path.insert(0, core.REPO)
    warnings.simplefilter('ignore')
    import h5py
    path = os.path.join(scratch(), 'temperature.hdf5')
    _make_map(path)
    real = h5py.File

    class File(real):
        def __init__(self, name, *a, **kw):
            if isinstance(name, (str, os.PathLike)) and \
                    os.fspath(name).endswith('temperature.hdf5'):
                name = TEMP_PATH or path
                a, kw = ('r',), {}
            super().__init__(name, *a, **kw)
    h5py.File = File
    import rdtools
    import rdtools.soiling
    import rdtools.availability
    import rdtools.plotting
    assert os.path.realpath(rdtools.__file__).startswith(os.path.realpath(core.REPO) + os.sep), \
        rdtools.__file__
    _loaded = rdtools
    return rdtools
