"""Common start-up: third-party search path, geec imported from /repo, geoid stand-ins.

Two of the three geoid grids of the package (egm96-5, egm2008-2_5) are not in this
copy of the repository, and geec.crs opens all three when imported.  Grids that are
missing are replaced by small synthetic grids with a known analytic surface, built in
a scratch directory; pygeodesy's reader is told to open those instead.  Nothing in
/repo changes and no geec code is replaced.
"""
import atexit
import glob
import os
import shutil
import sys
import tempfile
import warnings
import zipfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

_root = None
_root_pid = None


def root():
    """scratch directory of the whole run, removed when the main process ends"""
    global _root, _root_pid
    if _root is None:
        _root = tempfile.mkdtemp(prefix="geec-verif-")
        _root_pid = os.getpid()
        atexit.register(_rm)
    return _root


def _rm():
    if os.getpid() == _root_pid:
        shutil.rmtree(_root, ignore_errors=True)


def scratch():
    """this process's part of the scratch directory"""
    d = os.path.join(root(), "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def deps(dest=DEPS):
    """unpack hypothesis (cp311) + sortedcontainers from the offline wheelhouse"""
    if not os.path.exists(os.path.join(dest, "hypothesis", "__init__.py")):
        tmp = dest + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        for pat in ("hypothesis-6*-cp311-*.whl", "sortedcontainers-*.whl"):
            hits = sorted(glob.glob(os.path.join(WHEELS, pat)))
            if not hits:
                raise RuntimeError("no wheel " + pat)
            zipfile.ZipFile(hits[-1]).extractall(tmp)
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.exists(os.path.join(dest, "hypothesis", "__init__.py")):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    if dest not in sys.path:
        sys.path.insert(0, dest)


# --- synthetic geoids -------------------------------------------------------
# (offset, scale, width) of the stand-in grids and their surfaces
SURF = {
    "egm2008-2_5.pgm": (11.0, -7.0, 4.0),
    "egm96-5.pgm": (-23.0, 9.0, 5.0),
    "egm84-15.pgm": (37.0, 5.0, -6.0),
}


def surface(name, lat, lon):
    """analytic geoid height of the stand-in grid `name` (degrees)"""
    import numpy as np

    a, b, c = SURF[name]
    la, lo = np.radians(lat), np.radians(lon)
    return a + b * np.sin(la) + c * np.cos(la) * np.cos(lo - 0.3)


def _write_pgm(path, name):
    import numpy as np

    w, h = 360, 181  # 1 degree
    off, scale = -100.0, 0.003
    lat = 90.0 - np.arange(h)
    lon = np.arange(w) * 1.0
    z = surface(name, lat[:, None], lon[None, :])
    pix = np.rint((z - off) / scale).astype(">u2")
    head = (
        "P5\n# Geoid file in PGM format for the GeographicLib::Geoid class\n"
        "# Description WGS84 %s, synthetic\n# URL none\n# DateTime 2009-08-29 18:45:00\n"
        "# MaxBilinearError 0.1\n# RMSBilinearError 0.01\n# MaxCubicError 0.1\n"
        "# RMSCubicError 0.01\n# Offset %g\n# Scale %g\n# Origin 90N 0E\n"
        "# AREA_OR_POINT Point\n# Vertical_Datum WGS84\n%d  %d\n65535\n"
        % (name, off, scale, w, h)
    )
    with open(path, "wb") as f:
        f.write(head.encode("ascii"))
        f.write(pix.tobytes())


_standins = {}


def standin(name):
    if name not in _standins or not os.path.exists(_standins[name]):
        d = os.path.join(scratch(), "geoids")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        _write_pgm(p, name)
        _standins[name] = p
    return _standins[name]


def redirected(name):
    """is the package's own grid `name` missing, so that the stand-in is in use?"""
    return not os.path.exists(os.path.join(REPO, "geec", "data", "geoids", name))


def patch_geoids():
    import pygeodesy
    import pygeodesy.geoids as pg

    if "_verif_patched" in vars(pygeodesy):
        return

    def make(base):
        class Redirect(base):
            def __init__(self, egm_file, *a, **k):
                p = str(egm_file)
                n = os.path.basename(p)
                if not os.path.exists(p) and n in SURF:
                    p = standin(n)
                    egm_file = p
                base.__init__(self, egm_file, *a, **k)

        Redirect.__name__ = base.__name__
        Redirect.__qualname__ = base.__qualname__
        return Redirect

    # GeoidPGM and GeoidKarney are the readers of .pgm grids
    new = make(pg.GeoidKarney)
    pg.GeoidKarney = new
    pygeodesy.GeoidKarney = new
    if hasattr(pg, "GeoidPGM"):
        new2 = make(pg.GeoidPGM)
        pg.GeoidPGM = new2
        pygeodesy.GeoidPGM = new2
    pygeodesy._verif_patched = True


def start(crs=False):
    deps()
    root()
    # nothing of the user's own settings is read or written
    home = os.path.join(root(), "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    for v in ("XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "GEECDIR"):
        os.environ.pop(v, None)
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    # (numpy's own handling of floating point errors stays as users have it)
    warnings.simplefilter("ignore")
    from loguru import logger

    logger.remove()
    import geec

    f = os.path.abspath(geec.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("geec imported from %s" % f)
    if crs:
        patch_geoids()
