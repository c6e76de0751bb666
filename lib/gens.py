"""Hypothesis strategies for bodies and stations, and accuracy bounds.

Every random choice is drawn from hypothesis; the cases are plain JSON values
(lists of floats), so that a shrunk failure can be written out and replayed.
"""
import math
from functools import lru_cache

import numpy as np
from hypothesis import reject
from hypothesis import strategies as st

from refgrav import Body, Degenerate

EPS = np.finfo(float).eps
GC = 6.67408e-11


# --- caches -------------------------------------------------------------------
@lru_cache(maxsize=64)
def _body(key):
    return Body(np.array(key, dtype=float).reshape(-1, 3))


def body(pts):
    return _body(tuple(float(x) for p in pts for x in p))


def crowd(pts, seed, count):
    """the points and `count` more inside their hull, shuffled (a function of the arguments)"""
    r = np.random.default_rng(seed)
    X = np.array(pts, dtype=float)
    c = X.mean(axis=0)
    w = r.dirichlet(np.full(len(X), 0.5), size=count)
    Y = c + 0.97 * (w @ X - c)
    return r.permutation(np.vstack([X, Y]))


def spiral(n, radii, turn=0, off=0.0):
    """n points spread over an ellipsoid"""
    k = np.arange(n)
    z = 1 - 2 * (k + 0.5) / n
    ph = k * 2.399963229728653 + turn * 0.0634
    X = np.stack([np.sqrt(1 - z * z) * np.cos(ph), np.sqrt(1 - z * z) * np.sin(ph), z], 1)
    return X * radii + off


# --- rotations ----------------------------------------------------------------
def quat(q):
    w, x, y, z = (float(v) for v in q)
    n = math.sqrt(w * w + x * x + y * y + z * z)
    w, x, y, z = w / n, x / n, y / n, z / n
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


quats = st.tuples(*[st.integers(-5, 5)] * 4).map(
    lambda q: q if any(q) else (1, 0, 0, 0))

# rotations that permute / flip axes (exact in floating point)
AXIS_ROT = []
for _p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
    for _s in range(8):
        M = np.zeros((3, 3))
        for _i, _j in enumerate(_p):
            M[_i, _j] = -1.0 if (_s >> _i) & 1 else 1.0
        AXIS_ROT.append(M)


# --- bodies -------------------------------------------------------------------
coord64 = st.integers(-640, 640).map(lambda i: i / 64.0)
dec = st.integers(-200, 200).map(lambda i: i / 10.0)  # decimals: not representable
posdec = st.integers(1, 80).map(lambda i: i / 10.0)


@st.composite
def shapes(draw, nmax=14, round_max=24):
    """vertices around the origin, size of the order of 1..10"""
    kind = draw(st.sampled_from(
        ["lattice", "lattice", "free", "box", "tetra", "prism", "pyramid", "round",
         "dense", "thin"]))
    if kind == "lattice":
        k = draw(st.integers(1, 6))
        c = st.integers(-k, k)
        pts = draw(st.lists(st.tuples(c, c, c), min_size=0, max_size=nmax - 4))
        a, b, e = draw(st.tuples(*[st.integers(1, k)] * 3))
        o = draw(st.tuples(c, c, c))
        base = [o, (o[0] + a, o[1], o[2]), (o[0], o[1] + b, o[2]),
                (o[0], o[1], o[2] + e)]
        pts = base + list(pts)
    elif kind == "dense":
        # many coplanar / collinear points: subsets of a small grid
        m = draw(st.integers(1, 3))
        c = st.integers(0, m)
        pts = draw(st.lists(st.tuples(c, c, c), min_size=2, max_size=nmax))
        pts = list(pts) + [(0, 0, 0), (m, 0, 0), (0, m, 0), (0, 0, m)]
        s = draw(st.sampled_from([1.0, 0.1, 2.5]))
        pts = [tuple(v * s for v in p) for p in pts]
    elif kind == "free":
        pts = draw(st.lists(st.tuples(coord64, coord64, coord64), min_size=0,
                            max_size=nmax - 4))
        a, b, e = draw(st.tuples(posdec, posdec, posdec))
        pts = [(0, 0, 0), (a, 0.3, -0.2), (0.1, b, 0.7), (-0.4, 0.2, e)] + list(pts)
    elif kind == "box":
        lo = draw(st.tuples(dec, dec, dec))
        d = draw(st.tuples(posdec, posdec, posdec))
        hi = [lo[i] + d[i] for i in range(3)]
        pts = [(x, y, z) for x in (lo[0], hi[0]) for y in (lo[1], hi[1])
               for z in (lo[2], hi[2])]
    elif kind == "tetra":
        a, b, e = draw(st.tuples(posdec, posdec, posdec))
        s = draw(st.tuples(*[st.integers(-20, 20).map(lambda i: i / 10)] * 3))
        o = draw(st.tuples(dec, dec, dec))
        pts = [o, (o[0] + a, o[1], o[2]), (o[0] + s[0], o[1] + b, o[2]),
               (o[0] + s[1], o[1] + s[2], o[2] + e)]
    elif kind == "thin":
        # plates and needles, up to 1:1000
        d = [draw(posdec), draw(posdec) * draw(st.sampled_from([1.0, 1.0, 0.02])),
             draw(posdec) * draw(st.sampled_from([0.1, 0.02, 0.005]))]
        k = draw(st.sampled_from([(0, 1, 2), (1, 2, 0), (2, 0, 1)]))
        d = [d[i] for i in k]
        sk = draw(st.integers(-8, 8)) / 8.0
        pts = [(x * d[0] + sk * z * d[2], y * d[1], z * d[2]) for x in (0, 1) for y in (0, 1)
               for z in (0, 1)]
        if draw(st.booleans()):
            pts = pts[: draw(st.integers(5, 7))]
    elif kind == "prism":
        n = draw(st.integers(3, 8))
        r, h, f = draw(st.tuples(posdec, posdec, st.integers(2, 12)))
        pts = [(r * k * math.cos(2 * math.pi * i / n), r * k * math.sin(2 * math.pi * i / n), z)
               for z, k in ((0.0, 1.0), (-h, f / 8.0)) for i in range(n)]
    elif kind == "pyramid":
        n = draw(st.integers(3, 8))
        r, h = draw(st.tuples(posdec, posdec))
        ax = draw(st.integers(-10, 10)) / 10
        pts = [(r * math.cos(2 * math.pi * i / n), r * math.sin(2 * math.pi * i / n), 0.0)
               for i in range(n)] + [(ax, 0.0, draw(st.sampled_from([-1, 1])) * h)]
    else:
        n = draw(st.integers(6, round_max))
        rx, ry, rz = draw(st.tuples(posdec, posdec, posdec))
        j = draw(st.integers(0, 30)) / 1000.0
        pts = []
        for i in range(n):
            z = 1 - 2 * (i + 0.5) / n
            r = math.sqrt(1 - z * z)
            ph = i * 2.399963229728653
            w = 1 + j * math.sin(7.3 * i + 1)
            pts.append((rx * w * r * math.cos(ph), ry * w * r * math.sin(ph), rz * w * z))
    return kind, [tuple(float(v) for v in p) for p in pts]


SCALES = [1.0, 1.0, 1.0, 0.1, 0.37, 0.001, 7.3, 100.0, 3000.0, 1.0e5, 6.4e6, 2.0e7]


@st.composite
def bodies(draw, nmax=14, round_max=24, offsets=True, scales=SCALES, meta=False):
    if nmax >= 12 and draw(st.integers(0, 29)) == 29:
        # now and then many corners
        nmax, round_max = max(nmax, 32), max(round_max, 64)
    kind, pts = draw(shapes(nmax=nmax, round_max=round_max))
    X = np.array(pts)
    rot = draw(st.sampled_from(["none", "none", "quat"]))
    if rot == "quat":
        X = X @ quat(draw(quats)).T
    s = draw(st.sampled_from(scales))
    X = X * s
    off = "0"
    if offsets:
        off = draw(st.sampled_from(["0", "0", "0", "small", "mid", "ecef"]))
        if off == "small":
            X = X + np.array(draw(st.tuples(dec, dec, dec))) * s
        elif off == "mid":
            X = X + np.array(draw(st.tuples(*[st.integers(-900, 900)] * 3))) * s
        elif off == "ecef":
            # Earth-centred position; body at least ~100 m
            if s < 100:
                X = X * (100.0 / s)
            u = np.array(draw(st.tuples(*[st.integers(-9, 9)] * 3)), dtype=float)
            if not u.any():
                u[2] = 1.0
            X = X + 6.371e6 * u / np.linalg.norm(u)
    try:
        body(X.tolist())
    except Degenerate:
        reject()
    return {"kind": kind + ("/rot" if rot == "quat" else "") + "/off=" + off,
            "pts": X.tolist()}


# --- stations -----------------------------------------------------------------
STATION_KINDS = ["around", "around", "inside", "far", "face", "plane", "line", "above",
                 "lattice", "nearface", "nearedge", "origin", "planeline", "axis", "almost",
                 "almost"]
DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0),
        (0.6, -0.7, 0.3), (-0.2, 0.5, 0.8)]
SPECIAL_KINDS = ["plane", "line", "planeline", "face", "above", "lattice", "diag"]


def relative(draw, pts):
    """another body that is easily confused with this one"""
    X = np.array(pts, dtype=float)
    m = X.mean(axis=0)
    kind = draw(st.sampled_from(["scaled", "mirrored", "turned", "first", "moved", "beside"]))
    if kind == "scaled":  # same centre
        X = m + draw(st.sampled_from([0.5, 2.0, 0.999, -0.5])) * (X - m)
    elif kind == "mirrored":
        X = m - (X - m)
    elif kind == "turned":
        X = m + (X - m)[:, [1, 2, 0]]
    elif kind == "first":  # same first corner
        X = X[0] + draw(st.sampled_from([0.5, 2.0])) * (X - X[0])
    elif kind == "moved":  # one corner
        i = draw(st.integers(0, len(X) - 1))
        X[i] = X[i] + 0.25 * (X[i] - m)
    else:
        X = X + draw(st.sampled_from([1e-2, 1e-4, 1e-6])) * np.ptp(X, axis=0).max()
    return {"kind": "relative", "pts": X.tolist()}


@st.composite
def station_for(draw, pts, kinds=STATION_KINDS, min_edge=1e-6):
    """a station for the body `pts`: (kind, [x,y,z])"""
    B = body(pts)
    P = B.pts
    kind = draw(st.sampled_from(kinds))
    s = B.size
    if kind == "almost":
        # close to a special position, but not in it
        k, o = draw(station_for(pts, ["line", "line", "plane", "planeline", "diag", "above"],
                                min_edge))
        u = np.array(draw(st.sampled_from(DIRS)), dtype=float)
        o = np.array(o) + s * draw(st.sampled_from(
            [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10])) * u
        if B.edge_distance(o) >= min_edge * s:
            return "almost " + k, o.tolist()
        kind = "around"
    i16 = st.integers(-64, 64).map(lambda i: i / 16.0)
    w = st.integers(1, 16)

    def face():
        f = draw(st.integers(0, 999)) % len(B.faces)
        V, n = B.faces[f]
        return V.astype(float), n.astype(float)

    def facepoint(V):
        ww = np.array(draw(st.lists(w, min_size=len(V), max_size=len(V))), float)
        return (ww / ww.sum()) @ V

    if kind == "around":
        o = B.center + s * np.array(draw(st.tuples(i16, i16, i16)))
    elif kind == "far":
        u = np.array(draw(st.tuples(i16, i16, i16)))
        if not u.any():
            u[2] = 1
        o = B.center + s * u / np.linalg.norm(u) * draw(
            st.sampled_from([5.0, 10.0, 30.0, 100.0, 300.0, 1000.0]))
    elif kind == "inside":
        k = len(P)
        ww = np.array(draw(st.lists(w, min_size=k, max_size=k)), float)
        o = (ww / ww.sum()) @ P
    elif kind == "face":
        V, n = face()
        o = facepoint(V)
    elif kind == "nearface":
        V, n = face()
        o = facepoint(V) + n * s * draw(
            st.sampled_from([1e-2, -1e-2, 1e-3, -1e-3, 1e-5, -1e-5]))
    elif kind == "plane":
        V, n = face()
        a, b = draw(st.tuples(i16, i16))
        o = V[0] + a * (V[1] - V[0]) + b * (V[2] - V[0])
    elif kind == "line":
        V, n = face()
        k = draw(st.integers(0, 99)) % len(V)
        a = draw(st.sampled_from([-3.0, -1.0, -0.5, -0.125, 1.125, 1.5, 2.0, 3.0, 7.0,
                                  -0.3, 1.7, -20.0, 21.0]))
        o = V[k] + a * (V[(k + 1) % len(V)] - V[k])
    elif kind == "diag":
        V, n = face()
        k = draw(st.integers(0, 99)) % len(V)
        j = (k + 2) % len(V)
        a = draw(st.sampled_from([-3.0, -1.0, -0.5, 0.3, 0.5, 1.5, 2.0, 3.0, -0.3, 1.7]))
        o = V[k] + a * (V[j] - V[k])
    elif kind == "planeline":
        # where the planes of two faces, or of three, meet
        V, n = face()
        V2, n2 = face()
        d = np.cross(n, n2)
        if np.linalg.norm(d) < 1e-6:
            o = V[0] + 2.5 * (V[1] - V[0]) + 0.5 * (V[2] - V[0])
        else:
            A = np.array([n, n2, d])
            t = draw(st.sampled_from([-2.0, -0.7, 0.3, 1.1, 2.0])) * s
            c = B.center
            o = np.linalg.solve(
                A, np.array([n @ (V[0] - c), n2 @ (V2[0] - c), 0.0])) + c
            o = o + t * d / np.linalg.norm(d)
            if not np.linalg.norm(o - c) < 50 * s:
                o = c + s * np.array([1.7, -0.9, 1.1])
    elif kind == "above":
        v = P[draw(st.integers(0, 999)) % len(P)]
        ax = draw(st.integers(0, 2))
        o = v.copy()
        o[ax] += s * draw(st.sampled_from([0.5, -0.5, 1.5, -1.5, 2.0, -2.0]))
    elif kind == "axis":
        v = P[draw(st.integers(0, 999)) % len(P)]
        ax = draw(st.integers(0, 2))
        o = B.center + s * np.array(draw(st.tuples(i16, i16, i16)))
        o[ax] = v[ax]
    elif kind == "lattice":
        u = draw(st.tuples(*[st.integers(-8, 8)] * 3))
        q = s / draw(st.sampled_from([2.0, 4.0, 8.0]))
        base = P[draw(st.integers(0, 999)) % len(P)]
        o = base + q * np.array(u, dtype=float)
    elif kind == "nearedge":
        V, n = face()
        k = draw(st.integers(0, 99)) % len(V)
        t = draw(st.sampled_from([0.1, 0.5, 0.9]))
        e = V[(k + 1) % len(V)] - V[k]
        q = V[k] + t * e
        out = np.cross(e, n)
        out = out / np.linalg.norm(out)
        o = q + s * draw(st.sampled_from([1e-2, 1e-3, -1e-2])) * out \
            + n * s * draw(st.sampled_from([0.0, 1e-2, 3e-3]))
    else:
        o = np.zeros(3)
        if np.linalg.norm(o - B.center) > 1e4 * s:
            o = B.center.copy()
    o = np.asarray(o, dtype=float)
    if B.edge_distance(o) < min_edge * s:
        o = B.center + s * np.array([2.1, 1.3, 0.7])
        kind = "moved"
    return kind, o.tolist()


densities = st.sampled_from([1000.0, 1000.0, 2670.0, 1.0, -350.0, 917.5, 1.0e-3, 3.3e4,
                             1, 2900])
constants = st.sampled_from([GC, GC, GC, 6.6743e-11, 1.0, 6.67e-8, 6.67430e-20])


# --- accuracy -----------------------------------------------------------------
def geometry(B, o):
    """length scales that govern round-off at station o"""
    o = np.asarray(o, dtype=float)
    R = float(np.linalg.norm(B.pts - o, axis=1).max())
    ed = B.edge_distance(o)
    if not hasattr(B, "_tri"):
        from scipy.spatial import ConvexHull

        h = ConvexHull(B.pts)
        A, b, c = (B.pts[h.simplices[:, k]] for k in range(3))
        L = np.stack([np.linalg.norm(b - A, axis=1), np.linalg.norm(c - b, axis=1),
                      np.linalg.norm(A - c, axis=1)])
        ar = np.linalg.norm(np.cross(b - A, c - A), axis=1)
        B._tri = (float(L.min()), float((L.max(0) ** 2 / ar).max()), len(ar),
                  (A, b, c))
    smin, kap, nf, (A, b, c) = B._tri
    # distance from the nearest plane of a triangle that does not (numerically) contain o
    n = np.cross(b - A, c - A)
    n /= np.linalg.norm(n, axis=1)[:, None]
    d = np.abs(np.einsum("ij,ij->i", n, A - o))
    off = d > 1e-14 * R
    dmin = float(d[off].min()) if off.any() else R
    C = float(max(np.abs(B.pts).max(), np.abs(o).max()))
    # in a plane of a triangle, up to round-off: its solid angle is noise of an acos
    flat = bool((d < 200 * EPS * (C * kap + R)).any())
    return dict(C=C, R=R, ed=ed, smin=smin, kap=kap, nf=nf, dmin=dmin, flat=flat,
                diag=diagonal_distance(B, o))


def diagonal_distance(B, o):
    """from the nearest diagonal of a face: sides of its triangles, where logarithms that
    should cancel are large"""
    if not hasattr(B, "_diag"):
        d = [(V[i], V[j]) for V, _ in B.faces for i in range(len(V))
             for j in range(i + 2, len(V)) if (i, j) != (0, len(V) - 1)]
        B._diag = np.array(d, dtype=float).reshape(-1, 2, 3)
    if not len(B._diag):
        return 9e99
    a, e = B._diag[:, 0], B._diag[:, 1] - B._diag[:, 0]
    t = np.einsum("ij,ij->i", o - a, e) / np.einsum("ij,ij->i", e, e)
    p = a + np.clip(t, 0, 1)[:, None] * e
    return float(np.linalg.norm(o - p, axis=1).min())


def tol_g(B, o, k=1.0):
    """bound on the round-off error of the acceleration (density*Gc = 1, SI)

    errors of the directions to the corners cancel in the solid angle of a far face, so the
    ratio to the shortest side does not grow beyond some body sizes"""
    q = geometry(B, o)
    R = q["R"]
    near = q["diag"] if q["diag"] ** 2 < 1e4 * EPS * R * max(R, 1.0) else 0.0
    return k * 60 * EPS * R * (1 + min(R, 4 * B.size) / q["smin"]) * q["kap"] + \
        k * 30 * EPS * R * min(R / q["ed"], 1e8) + k * 100 * EPS * q["C"] + 60 * near


def tol_t(B, o, k=1.0):
    """bound on the round-off error of the tensor (density*Gc = 1, SI).

    near a face plane the solid angle is an acos of a number close to 1: sqrt(eps)"""
    q = geometry(B, o)
    R = q["R"]
    near = min(R, 4 * B.size)  # (far away, errors of the solid angle shrink with it)
    return k * (300 * EPS * (1 + (near + 0.01 * R) / q["smin"]) * q["kap"]
                + 30 * EPS * (R / q["ed"]) ** 2
                + 100 * EPS * q["C"] * (1 / q["ed"] + near / R / q["smin"])
                + (5e-7 if q["flat"] else 0.0)
                + min(100 * EPS * R / q["dmin"], 1e-6) * q["kap"])
