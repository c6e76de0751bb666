"""Own geodetic formulae, extended precision.  Degrees, metres; arrays (n,3)."""
import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
RAD = PI / LD(180)
A84, B84 = 6378137.0, 6356752.31424518


def ecef(llh, a, b):
    """(lon, lat, h) on the ellipsoid (a, b) -> Earth-centred"""
    llh = np.asarray(llh, dtype=float).reshape(-1, 3).astype(LD)
    lon, lat, h = llh[:, 0] * RAD, llh[:, 1] * RAD, llh[:, 2]
    a, b = LD(a), LD(b)
    s, c = np.sin(lat), np.cos(lat)
    N = a * a / np.sqrt(a * a * c * c + b * b * s * s)
    return np.stack([(N + h) * c * np.cos(lon), (N + h) * c * np.sin(lon),
                     (N * (b / a) ** 2 + h) * s], axis=1).astype(float)


def geodetic(xyz, a=A84, b=B84):
    """Earth-centred -> (lon, lat, h), by iteration in extended precision"""
    X = np.asarray(xyz, dtype=float).reshape(-1, 3).astype(LD)
    a, b = LD(a), LD(b)
    e2 = 1 - (b / a) ** 2
    p = np.sqrt(X[:, 0] ** 2 + X[:, 1] ** 2)
    z = X[:, 2]
    lon = np.arctan2(X[:, 1], X[:, 0])
    lat = np.arctan2(z, p * (1 - e2))
    for _ in range(60):
        s = np.sin(lat)
        N = a / np.sqrt(1 - e2 * s * s)
        new = np.arctan2(z + e2 * N * s, p)
        if (np.abs(new - lat) < LD(1e-19)).all():
            lat = new
            break
        lat = new
    s, c = np.sin(lat), np.cos(lat)
    N = a / np.sqrt(1 - e2 * s * s)
    h = p * c + z * s - N * (1 - e2 * s * s)
    return np.stack([lon / RAD, lat / RAD, h], axis=1).astype(float)


def frame(lon0, lat0):
    """rows: east, north, up unit vectors"""
    lo, la = LD(float(lon0)) * RAD, LD(float(lat0)) * RAD
    so, co, sa, ca = np.sin(lo), np.cos(lo), np.sin(la), np.cos(la)
    return np.array([[-so, co, LD(0)], [-sa * co, -sa * so, ca], [ca * co, ca * so, sa]])


def to_enu(xyz, lon0, lat0, h0, a, b):
    X = np.asarray(xyz, dtype=float).reshape(-1, 3).astype(LD)
    o = ecef([[lon0, lat0, h0]], a, b)[0].astype(LD)
    return ((X - o) @ frame(lon0, lat0).T).astype(float)


def from_enu(enu, lon0, lat0, h0, a, b):
    E = np.asarray(enu, dtype=float).reshape(-1, 3).astype(LD)
    o = ecef([[lon0, lat0, h0]], a, b)[0].astype(LD)
    return (E @ frame(lon0, lat0) + o).astype(float)
