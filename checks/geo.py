"""C13..C17: coordinate reference systems (geec.crs, geec.dataset, mass, observer).

geec.crs opens its geoid grids when imported and reads them through one file handle, so
it is imported only inside the worker processes (never before a fork).
"""
import os
import math
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

import boot
import refgeo as R
from harness import Sub, call, fail

CAL = os.environ.get("VERIF_CAL")  # file for error/bound ratios (calibration only)
GRID = {"egm84": "egm84-15.pgm", "egm96": "egm96-5.pgm", "egm2008": "egm2008-2_5.pgm"}


def warm():
    import pygeodesy  # noqa: F401
    import pymap3d  # noqa: F401


def mods():
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer

    return geec.crs, geec.dataset, geec.mass, geec.observer


@lru_cache(maxsize=None)
def models():
    import pymap3d as pm

    return {k: (float(v["a"]), float(v["b"])) for k, v in pm.Ellipsoid.models.items()}


@lru_cache(maxsize=None)
def earth_names():
    return sorted(k for k, (a, b) in models().items() if 6.36e6 < a < 6.39e6)


@lru_cache(maxsize=None)
def _geoid(name, pid):
    import pygeodesy as pg

    f = os.path.join(boot.REPO, "geec", "data", "geoids", GRID[name])
    if not os.path.exists(f):
        f = boot.standin(GRID[name])
    return pg.GeoidKarney(f)


def geoid(name, lon, lat):
    """geoid height from a separately opened grid"""
    from pygeodesy.ellipsoidalKarney import LatLon

    lon = lon - 360.0 if lon > 180 else lon
    return float(_geoid(name, os.getpid())(LatLon(lat, lon)))


# --- generators ----------------------------------------------------------------
lons = st.one_of(
    st.sampled_from([0.0, 180.0, -180.0, 360.0, 90.0, -90.0, 270.0, 179.999999, 180.000001,
                     359.999, 1e-9, 181.0, -179.5, -1e-12]),
    st.floats(-180, 360, allow_nan=False), st.integers(-180, 360).map(float))
lats = st.one_of(
    st.sampled_from([0.0, 90.0, -90.0, 45.0, -45.0, 89.999999, 1e-9, -60.5]),
    st.floats(-90, 90, allow_nan=False), st.integers(-90, 90).map(float))
alts = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -4138.956, 8848.0, -10000.0, 1e5, 0.125]),
                 st.sampled_from([2.5e5, 4e5, 3.2e4, -3e4, -1e5, -2.9e5]),
                 st.floats(-1e4, 1e5, allow_nan=False), st.integers(-9000, 9000).map(float))
llh = st.tuples(lons, lats, alts).map(list)


def spread(t):
    """many points, a pure function of few numbers"""
    n, a, b, c = t
    return [[(a + 137.50776405 * i) % 540.0 - 180.0, math.degrees(math.asin(
        max(-1.0, min(1.0, ((b + 0.6180339887 * i) % 1.0) * 2 - 1)))), c + 37.0 * i]
        for i in range(n)]




def some_points(nmax, every=12):
    """a few points, sometimes (once in 'every') up to nmax"""
    many = st.one_of(st.integers(6, 300), st.integers(6, 300), st.integers(6, nmax))
    return st.integers(0, every - 1).flatmap(
        lambda k: st.lists(llh, min_size=1, max_size=5) if k < every - 1 else st.tuples(
            many, st.integers(0, 359), st.floats(0, 1), st.integers(-500, 500)).map(spread))


points_llh = some_points(300)
points_long = some_points(5000)
offs = st.one_of(st.floats(-2e5, 2e5, allow_nan=False), st.integers(-5000, 5000).map(float),
                 st.sampled_from([0.0, 1e-3, -1e6, 1e6]))
points_enu = st.integers(0, 19).flatmap(lambda k: st.lists(
    st.tuples(offs, offs, st.floats(-2e4, 5e4, allow_nan=False)).map(list),
    min_size=1, max_size=5) if k < 19 else st.tuples(
    st.one_of(st.integers(6, 300), st.integers(6, 5000)), st.integers(0, 9999)).map(
    lambda t: [[(t[1] + 977.3 * i) % 4e5 - 2e5, (t[1] + 1303.9 * i) % 3e5 - 1.5e5,
                (t[1] + 39.7 * i) % 6e4 - 1e4] for i in range(t[0])]))
origins = st.tuples(st.one_of(st.sampled_from([0.0, 180.0, -180.0, 40.3, 359.0]),
                              st.floats(-180, 360, allow_nan=False)),
                    st.one_of(st.sampled_from([0.0, 90.0, -90.0, 12.6, -33.0]),
                              st.floats(-90, 90, allow_nan=False)),
                    st.one_of(st.sampled_from([0.0, 150.0, -200.0]),
                              st.floats(-5e3, 1e4, allow_nan=False))).map(list)


@st.composite
def ellipsoids(draw, earth=True):
    k = draw(st.sampled_from(["wgs84", "named", "named", "custom"]))
    if k == "wgs84":
        return {"name": "wgs84"}
    if k == "named":
        return {"name": draw(st.sampled_from(earth_names() if earth else sorted(models())))}
    a = draw(st.one_of(st.sampled_from([6378137.0, 6371000.0, 6378388.0]),
                       st.floats(6.36e6, 6.39e6)))
    b = draw(st.one_of(st.just(a), st.floats(0.0, 0.006).map(lambda f: a * (1 - f)),
                       st.just(6356752.0) if a > 6356752.0 else st.just(a)))
    return {"a": a, "b": b}


def on_axis(X):
    """positions at a pole are put exactly on the Earth's axis"""
    X = np.array(X, dtype=float)
    X[np.hypot(X[:, 0], X[:, 1]) < 1e-6, :2] = 0.0
    return X


def axes(e):
    return models()[e["name"]] if "name" in e else (e["a"], e["b"])


def make_ellipsoid(e):
    crs = mods()[0]
    if "name" in e:
        return call("ellipsoid %s" % e["name"], crs.Ellipsoid, name=e["name"])
    return call("custom ellipsoid", crs.Ellipsoid, semimajor_axis=e["a"], semiminor_axis=e["b"])


def make_crs(d):
    """CRS object from a description {"ref", "ellps", "vdatum", "origin"}"""
    c = mods()[0]
    ref = d["ref"]
    if ref == "cart":
        return c.CRS(name=c.CRSEnum.CART)
    if ref == "ecef":
        return c.CRS(name=c.CRSEnum.ECEF)
    e = make_ellipsoid(d["ellps"])
    if ref == "ellps":
        return c.CRS(name=c.CRSEnum.ELLPS, ellps=e,
                     vdatum=c.VDatumEnum(d.get("vdatum", "ellps")))
    lo, la, al = d["origin"]
    return c.CRS(name=c.CRSEnum.ENU, ellps=e, enu=c.ENU(
        ellps=e, longitude_origin=lo, latitude_origin=la, altitude_origin=al))


class Holder:
    """a set of points in one of the package's containers"""

    def __init__(self, how, pts, crs):
        _, ds, ms, ob = mods()
        self.ds = call("dataset", ds.Dataset, coords=np.array(pts, dtype=float), crs=crs)
        self.how = how
        if how == "mass":
            self.obj = ms.Mass(density=1000.0, gravity_constant=6.67e-11, dataset=self.ds)
        elif how == "observer":
            self.obj = ob.Observer(dataset=self.ds)
        elif how == "masses":
            self.obj = [ms.Mass(density=1000.0, gravity_constant=6.67e-11, dataset=self.ds)]
        else:
            self.obj = self.ds

    def do(self, op, *a):
        ms = mods()[2]
        what = "%s.%s%s" % (self.how, op, tuple(a) if a else "()")
        if self.how == "masses":
            call(what, getattr(ms, op), self.obj, *a)
        else:
            call(what, getattr(self.obj, op), *a)

    @property
    def data(self):
        o = self.obj[0] if self.how == "masses" else self.obj
        return o if self.how == "dataset" else o.dataset

    @property
    def coords(self):
        return np.array(self.data.coords, dtype=float)

    @property
    def crs(self):
        return self.data.crs


hows = st.sampled_from(["dataset", "dataset", "mass", "masses", "observer"])


def ptol(true):
    """bound (n, 1) for positions that pass through WGS84 coordinates

    round-off is some 4e-9 m; the closed formula of pymap3d adds 1.4e-6 (h/100 km)^4 m"""
    h = R.geodetic(true)[:, 2:]
    return 4e-7 + 2e-5 * (h / 1e5) ** 4


def near(what, got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        fail("%s: shape %s, expected %s", what, got.shape, want.shape)
    d = np.abs(got - want)
    if CAL and d.size and np.nanmax(d / tol) > 0.02:
        with open(CAL, "a") as f:
            f.write("%.4f %s\n" % (float(np.nanmax(d / tol)), what[:90]))
    if not (d <= tol).all():
        fail("%s: %s, expected %s (off by %.3g m, allowed %.1g)", what, got.tolist(),
             want.tolist(), float(np.nanmax(d)) if not np.isnan(d).all() else math.nan,
             float(np.max(tol)))


def is_label(what, crs, name):
    c = mods()[0]
    if crs.name != c.CRSEnum(name):
        fail("%s: labelled %s, expected %s", what, crs.name, name)


def is_wgs84(what, crs):
    is_label(what, crs, "ellps")
    e = crs.ellps
    if e is None or abs(e.semimajor_axis - R.A84) > 1e-6 or abs(e.semiminor_axis - R.B84) > 1e-4:
        fail("%s: labelled with ellipsoid %s", what, e)


def in_range(what, llh):
    if not ((np.abs(llh[:, 0]) <= 360).all() and (np.abs(llh[:, 1]) <= 90).all()):
        fail("%s: not longitudes and latitudes: %s", what, llh.tolist())


# --- C13 -----------------------------------------------------------------------
@st.composite
def c13_cases(draw):
    op = draw(st.sampled_from(["ecef", "ecef", "wgs84", "ecef-wgs84", "fn-ecef", "fn-wgs84",
                               "given", "fn-given"]))
    e = draw(ellipsoids(earth=op not in ("ecef", "fn-ecef")))
    return {"op": op, "ellps": e, "pts": draw(points_long), "how": draw(hows)}


def c13(case, ctx):
    c = mods()[0]
    a, b = axes(case["ellps"])
    true = R.ecef(case["pts"], a, b)
    op = case["op"]
    crs = make_crs({"ref": "ellps", "ellps": case["ellps"]})
    e = crs.ellps
    if abs(e.semimajor_axis - a) > 1e-9 * a or abs(e.semiminor_axis - b) > 1e-9 * a:
        fail("ellipsoid %s has axes %r, %r", case["ellps"], e.semimajor_axis, e.semiminor_axis)
    if op.endswith("given"):  # Earth-centred to start with
        true = on_axis(true)
        crs = make_crs({"ref": "ecef"})
    if op == "given":
        h = Holder(case["how"], true, crs)
        h.do("to_wgs84")
        X, crs = h.coords, h.crs
    elif op == "fn-given":
        X, crs = call(op, c.ecef_to_wgs84, true.copy(), crs)
        X = np.array(X, dtype=float)
    elif op.startswith("fn-"):
        fn = c.ellps_to_ecef if op == "fn-ecef" else c.ellps_to_wgs84
        X, crs = call(op, fn, np.array(case["pts"], dtype=float), crs)
        X = np.array(X, dtype=float)
    else:
        h = Holder(case["how"], case["pts"], crs)
        for o in op.split("-"):
            h.do("to_" + o)
        X, crs = h.coords, h.crs
    what = "%s on %s" % (op, case["ellps"])
    if op.endswith("ecef"):
        is_label(what, crs, "ecef")
        near(what, X, true, 2e-14 * (a + float(np.abs(true).max())))
    else:
        is_wgs84(what, crs)
        in_range(what, X)
        near(what + " (position)", R.ecef(X, R.A84, R.B84), true, ptol(true))
        want = R.geodetic(true)
        near(what + " (height)", X[:, 2:], want[:, 2:], ptol(true))
        near(what + " (latitude)", X[:, 1:2], want[:, 1:2], 2e-5 * ptol(true))
    ctx.label("op:" + op, "n:%d" % min(len(X), 6),
              "custom" if "a" in case["ellps"] else "named")
    ctx.hit(len(X) > 1 or case["ellps"].get("name") != "wgs84")


def C13():
    return [Sub("convert", c13_cases, c13, 18000, 360000,
                "1-5000 points (poles included) on a named or custom ellipsoid, converted through functions, "
                "datasets, masses or observers; non-trivial: more than one point or an "
                "ellipsoid other than WGS84")]


# --- C14 -----------------------------------------------------------------------
@st.composite
def c14_cases(draw):
    op = draw(st.sampled_from(["enu>ecef", "enu>wgs84", "ecef>enu", "ellps>enu",
                               "enu>ecef>enu", "ellps>enu>ecef", "ellps>enu>wgs84",
                               "ecef>enu>ecef", "ecef>enu>wgs84", "ecef>enu>ecef>enu",
                               "enu>ecef>enu>ecef", "ellps>enu>ecef>enu",
                               "ellps>enu>wgs84>enu", "ecef>enu>wgs84>enu>ecef"]))
    d = {"op": op, "how": draw(hows), "origin": draw(origins), "origin2": draw(origins),
         "zero": draw(st.booleans())}
    if op.startswith("enu"):
        d["ellps"] = draw(ellipsoids())
        d["pts"] = draw(points_enu)
    else:
        d["ellps"] = draw(ellipsoids()) if op.startswith("ellps") else {"name": "wgs84"}
        d["pts"] = draw(points_llh)
    return d


def c14(case, ctx):
    op = case["op"].split(">")
    o = case["origin"]
    a, b = axes(case["ellps"])
    pts = [list(p) for p in case["pts"]]
    if op[0] == "enu":
        if case["zero"]:
            pts.append([0.0, 0.0, 0.0])
        true = R.from_enu(pts, *o, a, b)
        h = Holder(case["how"], pts, make_crs({"ref": "enu", "ellps": case["ellps"],
                                               "origin": o}))
    elif op[0] == "ellps":
        true = R.ecef(pts, a, b)
        h = Holder(case["how"], pts, make_crs({"ref": "ellps", "ellps": case["ellps"]}))
    else:
        true = on_axis(R.ecef(pts, a, b))
        if case["zero"]:  # the origin itself
            true = np.vstack([true, on_axis(R.ecef([o], R.A84, R.B84))])
        h = Holder(case["how"], true, make_crs({"ref": "ecef"}))
    tol = ptol(true) * len(op)
    prev = op[0]
    for k, target in enumerate(op[1:]):
        what = "%s (step %d)" % (case["op"], k + 1)
        if target == "enu":
            og = case["origin2"] if "enu" in op[:k + 1] else o
            h.do("to_enu", *og)
            is_label(what, h.crs, "enu")
            en = h.crs.enu
            if [en.longitude_origin, en.latitude_origin, en.altitude_origin] != og:
                fail("%s: origin in the label is %s, expected %s", what, en, og)
            want = R.to_enu(true, *og, R.A84, R.B84)
            # axes of the local frame are only as good as the coordinates: 1e-15 * 1e7 m
            near(what, h.coords, want, tol)
            X = h.coords
            D = np.linalg.norm(X[:, None] - X[None], axis=2)
            D0 = np.linalg.norm(true[:, None] - true[None], axis=2)
            near(what + " (distances)", D, D0, 4 * (tol + tol.T))
        elif target == "ecef":
            h.do("to_ecef")
            is_label(what, h.crs, "ecef")
            near(what, h.coords, true, tol)
        else:
            h.do("to_wgs84")
            is_wgs84(what, h.crs)
            in_range(what, h.coords)
            near(what, R.ecef(h.coords, R.A84, R.B84), true, tol)
        prev = target
    ctx.label("op:" + case["op"])
    ctx.hit(any(any(p) for p in pts))


def C14():
    return [Sub("enu", c14_cases, c14, 18000, 360000,
                "points, origin (poles, date line), ellipsoid and a chain of 1-4 conversions; "
                "non-trivial: some point away from the origin")]


# --- C15 -----------------------------------------------------------------------
@st.composite
def c15_cases(draw):
    return {"vdatum": draw(st.sampled_from(["egm84", "egm96", "egm2008", "egm84", "egm96",
                                            "egm2008", "ellps"])),
            "ellps": draw(ellipsoids()), "pts": draw(points_llh),
            "how": draw(hows), "wrap": draw(st.booleans()), "again": draw(st.integers(0, 2)),
            "ecef": draw(st.booleans()),
            "ref": draw(st.sampled_from(["ellps"] * 8 + ["cart", "ecef", "enu"]))}


def c15(case, ctx):
    pts = np.array(case["pts"], dtype=float)
    if case["ref"] != "ellps":
        d = {"ref": case["ref"], "ellps": case["ellps"], "origin": [10.0, 20.0, 30.0]}
        h = Holder(case["how"], pts * 100, make_crs(d))
        for _ in range(1 + case["again"]):
            h.do("to_ellipsoid_height")
        if not np.array_equal(h.coords, pts * 100):
            fail("heights of %s data changed", case["ref"])
        is_label("to_ellipsoid_height", h.crs, case["ref"])
        ctx.label("ref:" + case["ref"])
        return
    w = pts.copy()
    w[w[:, 0] > 180, 0] -= 360.0
    if not case["wrap"]:
        pts = w.copy()
    h = Holder(case["how"], pts, make_crs({"ref": "ellps", "ellps": case["ellps"],
                                           "vdatum": case["vdatum"]}))
    if case["wrap"]:
        h.do("to_lon180")
    for _ in range(1 + case["again"]):
        h.do("to_ellipsoid_height")
    X = h.coords
    vd = case["vdatum"]
    N = np.zeros(len(w)) if vd == "ellps" else np.array(
        [geoid(vd, p[0], p[1]) for p in w])
    if not np.array_equal(X[:, :2], w[:, :2]):
        fail("longitudes or latitudes changed from %s to %s", w[:, :2].tolist(),
             X[:, :2].tolist())
    near("ellipsoidal heights (%s, applied %d times)" % (vd, 1 + case["again"]), X[:, 2],
         w[:, 2] + N, 1e-6)
    if vd != "ellps" and boot.redirected(GRID[vd]):
        near("ellipsoidal heights (%s, analytic)" % vd, X[:, 2],
             w[:, 2] + boot.surface(GRID[vd], w[:, 1], w[:, 0]), 0.02)
    c = mods()[0]
    is_label("to_ellipsoid_height", h.crs, "ellps")
    if h.crs.vdatum != c.VDatumEnum.ELLPS:
        fail("vertical datum still labelled %s", h.crs.vdatum)
    a, b = axes(case["ellps"])
    if abs(h.crs.ellps.semimajor_axis - a) > 1e-6 or abs(h.crs.ellps.semiminor_axis - b) > 1e-6:
        fail("the conversion of heights changed the ellipsoid")
    if case["ecef"]:
        h.do("to_ecef")
        q = w.copy()
        q[:, 2] += N
        near("position after height conversion", h.coords, R.ecef(q, a, b), 1e-6)
    ctx.label("vdatum:" + vd, "again:%d" % case["again"], "n:%d" % min(len(w), 6))
    ctx.hit(vd != "ellps")


def C15():
    return [Sub("height", c15_cases, c15, 12000, 240000,
                "1-6 points, geoid name, ellipsoid, repetitions; non-trivial: heights above "
                "a geoid")]


# --- C16 -----------------------------------------------------------------------
@st.composite
def sources(draw, like=None):
    if like is not None:  # other points in the same system
        if like["ref"] == "ecef":
            return {**like, "pts": on_axis(R.ecef(draw(points_llh), R.A84, R.B84)).tolist()}
        return {**like, "pts": draw(points_llh if like["ref"] == "ellps" else points_enu)}
    ref = draw(st.sampled_from(["ellps", "ellps", "ellps", "ellps", "enu", "enu", "ecef", "ecef",
                                "cart"]))
    d = {"ref": ref}
    if ref == "ellps":
        d["ellps"] = draw(ellipsoids())
        d["vdatum"] = draw(st.sampled_from(["ellps", "ellps", "egm84", "egm96", "egm2008"]))
        d["pts"] = draw(points_llh)
    elif ref == "enu":
        d["ellps"] = draw(ellipsoids())
        d["origin"] = draw(origins)
        d["pts"] = draw(points_enu)
    elif ref == "ecef":
        d["pts"] = on_axis(R.ecef(draw(points_llh), R.A84, R.B84)).tolist()
    else:
        d["pts"] = draw(points_enu)
    return d


OPS = ["to_lon180", "to_ellipsoid_height", "to_ecef", "to_wgs84", "to_enu"]


@st.composite
def c16_cases(draw):
    how = draw(st.sampled_from(["dataset", "mass", "observer", "masses", "masses"]))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 7])) if how == "masses" else 1
    share = draw(st.sampled_from([False, False, True]))
    src = [draw(sources())]
    while len(src) < n:
        src.append(draw(sources(src[0] if share else None)))
    return {"how": how, "share": share, "src": src,
            "by": draw(sources(src[0] if share else None)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(OPS + OPS[2:] * 2), origins).map(list),
                                 min_size=draw(st.sampled_from([1, 2, 3, 4])), max_size=8)),
            # the whole sequence again and again
            "times": draw(st.sampled_from([1] * 12 + [5, 12]))}


def truth(d):
    """Earth-centred positions denoted by a description"""
    if d["ref"] in ("ecef", "cart"):
        return np.array(d["pts"], dtype=float)
    a, b = axes(d["ellps"])
    if d["ref"] == "enu":
        return R.from_enu(d["pts"], *d["origin"], a, b)
    P = np.array(d["pts"], dtype=float)
    if d.get("vdatum", "ellps") != "ellps":
        P[:, 2] += [geoid(d["vdatum"], p[0], p[1]) for p in P]
    return R.ecef(P, a, b)


def decode(what, X, crs):
    """Earth-centred positions denoted by stored coordinates and label"""
    c = mods()[0]
    if crs.name in (c.CRSEnum.ECEF, c.CRSEnum.CART):
        return X
    if crs.name == c.CRSEnum.ENU:
        n = crs.enu
        if n is None:
            fail("%s: labelled ENU without an origin", what)
        return R.from_enu(X, n.longitude_origin, n.latitude_origin, n.altitude_origin,
                          n.ellps.semimajor_axis, n.ellps.semiminor_axis)
    if crs.ellps is None:
        fail("%s: labelled geographic without an ellipsoid", what)
    in_range(what, X)
    X = X.copy()
    if crs.vdatum != c.VDatumEnum.ELLPS:
        X[:, 2] += [geoid(str(crs.vdatum.value), p[0], p[1]) for p in X]
    return R.ecef(X, crs.ellps.semimajor_axis, crs.ellps.semiminor_axis)


EXPECT = {"to_ecef": "ecef", "to_wgs84": "ellps", "to_enu": "enu"}


def meaning(crs):
    """what a label says"""
    def axes_of(e):
        return None if e is None else (e.semimajor_axis, e.semiminor_axis)

    n = crs.enu
    return (crs.name, crs.vdatum, axes_of(crs.ellps), None if n is None else (
        n.longitude_origin, n.latitude_origin, n.altitude_origin, axes_of(n.ellps)))


def c16(case, ctx):
    c, dsm, msm, obm = mods()
    how = case["how"]
    T = [truth(d) for d in case["src"]]
    if case["share"]:  # one label object for all
        one = make_crs(case["src"][0])
        crss = [one] * (len(T) + 1)
    else:
        crss = [make_crs(d) for d in case["src"] + [case["by"]]]
    hs = [Holder("mass" if how == "masses" else how, d["pts"], k)
          for d, k in zip(case["src"], crss)]
    by = Holder("dataset", case["by"]["pts"], crss[-1])
    by0, byl = by.coords, meaning(by.crs)
    masses = [h.obj for h in hs]

    def do(op, *a):
        if how == "masses":
            call("%s of %d masses" % (op, len(masses)), getattr(msm, op), masses, *a)
        else:
            hs[0].do(op, *a)

    def geoidal():
        return any(h.crs.name == c.CRSEnum.ELLPS and h.crs.vdatum != c.VDatumEnum.ELLPS
                   for h in hs)

    changed = 0
    for n, (op, org) in enumerate(case["ops"] * case.get("times", 1)):
        if op in EXPECT and geoidal():
            # heights are made ellipsoidal before leaving the ellipsoid, as the program does
            do("to_lon180")
            do("to_ellipsoid_height")
        elif op == "to_ellipsoid_height" and geoidal():
            do("to_lon180")
        before = [h.crs.name for h in hs]
        do(op, *(org if op == "to_enu" else []))
        for i, h in enumerate(hs):
            what = "step %d (%s), points %d" % (n, op, i)
            X, lab = h.coords, h.crs
            if case["src"][i]["ref"] == "cart":
                if not np.array_equal(X, np.array(case["src"][i]["pts"], dtype=float)):
                    fail("%s: Cartesian coordinates changed", what)
                is_label(what, lab, "cart")
                continue
            if op in EXPECT:
                is_label(what, lab, EXPECT[op])
            else:
                is_label(what, lab, before[i].value)
            if op == "to_wgs84":
                is_wgs84(what, lab)
            if op == "to_ellipsoid_height" and lab.vdatum != c.VDatumEnum.ELLPS:
                fail("%s: heights labelled %s", what, lab.vdatum)
            if op == "to_lon180" and lab.name == c.CRSEnum.ELLPS and (
                    (X[:, 0] > 180).any() or (X[:, 0] < -180).any()):
                fail("%s: longitudes %s", what, X[:, 0].tolist())
            near(what + " (position)", decode(what, X, lab), T[i], ptol(T[i]) * (n + 2))
            changed += lab.name != before[i]
            for j, k in enumerate(("lon", "lat", "alt")):
                if not np.array_equal(np.asarray(getattr(h.data, k)), X[:, j]):
                    fail("%s: %s is %s, coordinates are %s", what, k, getattr(h.data, k),
                         X.tolist())
        if not np.array_equal(by.coords, by0) or meaning(by.crs) != byl:
            fail("step %d (%s) changed data it was not applied to", n, op)
        for k, m in enumerate(masses):
            if how == "masses" and (m.density != 1000.0 or m.gravity_constant != 6.67e-11):
                fail("step %d (%s) changed density or constant", n, op)
    ctx.label("how:" + how, "shared label:%s" % case["share"], "changes:%d" % min(changed, 6),
              *["src:" + d["ref"] for d in case["src"]])
    ctx.hit(changed >= 2)


def C16():
    return [Sub("history", c16_cases, c16, 12000, 240000,
                "1-7 point sets in any system, 1-8 conversions, at times 5 or 12 times over; non-trivial: at least two "
                "changes of system")]


# --- C17 -----------------------------------------------------------------------
@st.composite
def c17_cases(draw):
    return {"pts": draw(points_long),
            "how": draw(st.sampled_from(["dataset", "mass", "masses", "observer", "fn"])),
            "ref": draw(st.sampled_from(["ellps", "ellps", "ellps", "ellps", "cart", "ecef",
                                         "enu"])),
            "ellps": draw(ellipsoids()), "again": draw(st.booleans()),
            "vdatum": draw(st.sampled_from(["ellps", "egm96"]))}


def c17(case, ctx):
    c = mods()[0]
    pts = np.array(case["pts"], dtype=float)
    want = pts.copy()
    ref = case["ref"]
    d = {"ref": ref, "ellps": case["ellps"], "origin": [200.0, 10.0, 5.0],
         "vdatum": case["vdatum"]}
    if case["how"] == "fn":
        if ref != "ellps":
            return
        X = np.array(call("wrapping", c.wrap180, pts.copy()), dtype=float)
        if case["again"]:
            X = np.array(call("wrapping", c.wrap180, X), dtype=float)
    else:
        h = Holder(case["how"], pts, make_crs(d))
        for _ in range(1 + case["again"]):
            h.do("to_lon180")
        X = h.coords
        is_label("to_lon180", h.crs, ref)
    ctx.label("ref:" + ref, "how:" + case["how"])
    if ref == "ellps":
        over = want[:, 0] > 180
        want[over, 0] -= 360.0
        ctx.label("over:%d" % min(int(over.sum()), 3))
        ctx.hit(bool(over.any()))
    else:
        ctx.hit(bool((pts[:, 0] > 180).any()))
    if X.shape != want.shape:
        fail("wrapping %s gives shape %s", pts.tolist(), X.shape)
    if ref == "ellps" and not ((X[:, 0] >= -180) & (X[:, 0] <= 180)).all():
        fail("longitudes %s wrap to %s", pts[:, 0].tolist(), X[:, 0].tolist())
    for p, w, x in zip(pts, want, X):
        turns = (x[0] - w[0]) / 360.0
        # -180 and 180 are the same meridian; nothing else may move
        same = x[0] == w[0] or (ref == "ellps" and p[0] > 180 and abs(w[0]) == 180.0
                                and abs(turns) == 1.0)
        if not (same and x[1] == w[1] and x[2] == w[2]):
            fail("point %s wraps to %s, expected %s (%s)", p.tolist(), x.tolist(), w.tolist(),
                 ref)


def C17():
    return [Sub("wrap", c17_cases, c17, 18000, 300000,
                "1-12 points with longitudes -180..360 (ends included) in any system; "
                "non-trivial: some longitude above 180")]


# --- C29 -----------------------------------------------------------------------
def warm29():
    import grav

    warm()
    grav.warm()


def here(f):
    return os.path.abspath(f).startswith(os.path.join(os.path.abspath(boot.REPO), "geec") + os.sep)


schedules = st.lists(st.one_of(st.integers(1, 12), st.integers(1, 60), st.integers(1, 600)),
                     min_size=1, max_size=8)


@st.composite
def c29_body_cases(draw):
    import gens

    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    bs = [draw(gens.bodies(nmax=8, round_max=9, offsets=False)) for _ in range(draw(
        st.integers(1, n)))]
    jobs = []
    for i in range(n):
        b = bs[i % len(bs)]
        jobs.append({"pts": b["pts"], "late": draw(st.booleans()), "via": draw(
            st.sampled_from(["poly", "station", "list"])),
            "ask": [{"o": draw(gens.station_for(b["pts"]))[1],
                     "rho": draw(gens.densities), "grad": draw(st.booleans())}
                    for _ in range(draw(st.integers(1, 2)))]})
    return {"jobs": jobs, "plan": draw(schedules)}


def outcome(what, r):
    if r is None:
        from harness import Trivial
        raise Trivial
    if r[0] == "error":
        def again():
            raise r[1]

        if isinstance(r[1], Exception):
            call(what, again)
        raise r[1]
    return r[1]


def c29_bodies(case, ctx):
    import grav
    import sched
    from gens import GC, body

    def job(j, ready):
        P = ready or grav.poly(j["pts"])
        return [grav.field(P, a["o"], a["rho"], GC, a["grad"], j["via"]) for a in j["ask"]]

    def jobs():
        # bodies are built before the threads start or by the threads
        ready = [None if j["late"] else grav.poly(j["pts"]) for j in case["jobs"]]
        return [lambda j=j, r=r: job(j, r) for j, r in zip(case["jobs"], ready)]

    out, k = sched.run(jobs(), case["plan"], here)
    alone = [f() for f in jobs()]
    for i, (j, a) in enumerate(zip(case["jobs"], alone)):
        r = outcome("thread %d" % i, out and out[i])
        B = body(j["pts"])
        for q, (G, T), (g, t) in zip(j["ask"], r, a):
            what = "thread %d of %d: %%s at %s" % (i, len(alone), q["o"])
            grav.cmp(what % "gravity", G, g, 0.05 * grav.lim_g(B, q["o"], q["rho"], GC))
            if grav.t_defined(B, q["o"]):
                grav.cmp(what % "tensor", T, t, 0.05 * grav.lim_t(B, q["o"], q["rho"], GC))
    ctx.label("threads:%d" % len(alone), "switches:%d" % min(5, k.bit_length()))
    ctx.hit(k >= 4)


@st.composite
def c29_data_cases(draw):
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    share = draw(st.booleans())
    src = []
    while len(src) < n:
        d = draw(sources(src[0] if share and src else None))
        d = {**d, "pts": d["pts"][:6]}
        if "vdatum" in d:  # the reader of the geoid grids is not made for threads
            d["vdatum"] = "ellps"
        src.append(d)
    return {"share": share, "src": src, "plan": draw(st.lists(
        st.integers(1, 12), min_size=1, max_size=8)),
        "how": draw(st.sampled_from(["dataset", "mass", "observer"])),
        "ops": [draw(st.lists(st.tuples(st.sampled_from(OPS + OPS[2:] * 2), origins).map(list),
                              min_size=1, max_size=4)) for _ in range(n)]}


def c29_data(case, ctx):
    import sched

    def jobs():
        one = make_crs(case["src"][0]) if case["share"] else None
        hs = [Holder(case["how"], d["pts"], one or make_crs(d)) for d in case["src"]]

        def job(h, ops):
            for op, org in ops:
                h.do(op, *(org if op == "to_enu" else []))
            return h.coords, h.crs

        return [lambda h=h, o=o: job(h, o) for h, o in zip(hs, case["ops"])]

    out, k = sched.run(jobs(), case["plan"], here)
    alone = [f() for f in jobs()]
    for i, (X, lab) in enumerate(alone):
        Y, got = outcome("thread %d" % i, out and out[i])
        what = "thread %d of %d after %s" % (i, len(alone), [o[0] for o in case["ops"][i]])
        is_label(what, got, lab.name.value)
        if got.enu != lab.enu or got.ellps != lab.ellps or got.vdatum != lab.vdatum:
            fail("%s: labelled %s, alone %s", what, got, lab)
        if X.shape != Y.shape or not np.allclose(Y, X, rtol=1e-12, atol=1e-9):
            fail("%s: coordinates %s, alone %s", what, Y.tolist(), X.tolist())
    ctx.label("threads:%d" % len(alone), "switches:%d" % min(5, k.bit_length()))
    ctx.hit(k >= 4)


def C29():
    return [Sub("bodies", c29_body_cases, c29_bodies, 700, 12000,
                "2-4 threads with 1-2 requests each on bodies of their own under a drawn schedule "
                "(switch after every 1..600 lines of geec); non-trivial: 4 or more switches"),
            Sub("datasets", c29_data_cases, c29_data, 2000, 40000,
                "2-4 threads with 1-4 conversions each of sets of points of their own; "
                "non-trivial: 4 or more switches")]
