"""Independent reference for the field of a homogeneous convex polyhedron.

Shares nothing with the code under test: the hull is found by enumerating
supporting planes (no Qhull), the field is the Werner & Scheeres (1996) closed
form (atan2 solid angles, stable edge logarithms) in extended precision.

Convention: G is the acceleration (points towards the mass), T its Jacobian.
Units of `gravity` / `tensor`: density*Gc factored out, SI (no mGal/E scaling).
"""
from itertools import combinations

import numpy as np

LD = np.longdouble


class Degenerate(Exception):
    """no body, or too close to none for the oracle"""


def hull_faces(pts, rtol=1e-11):
    """Faces of conv(pts): list of (polygon vertex indices ccw from outside, unit
    outward normal).  Coplanar points are merged in one polygon; points inside a
    polygon's interior or along its sides are dropped."""
    P = np.asarray(pts, dtype=float)
    P = P - P.mean(axis=0)
    _, first = np.unique(np.round(P / (np.abs(P).max() or 1.0), 13), axis=0,
                         return_index=True)
    idx = np.sort(first)
    Q = P[idx]
    n = len(Q)
    if n < 4:
        raise Degenerate("fewer than 4 distinct points")
    scale = np.abs(Q).max()
    if scale == 0:
        raise Degenerate("all points equal")
    tol = rtol * scale
    tri = np.array(list(combinations(range(n), 3)))
    a, b, c = Q[tri[:, 0]], Q[tri[:, 1]], Q[tri[:, 2]]
    nrm = np.cross(b - a, c - a)
    ln = np.linalg.norm(nrm, axis=1)
    ok = ln > 1e-9 * scale * scale
    if not ok.any():
        raise Degenerate("collinear")
    tri, a, nrm = tri[ok], a[ok], nrm[ok] / ln[ok][:, None]
    faces = []
    seen = []
    for k in range(0, len(tri), 4096):
        s = slice(k, k + 4096)
        off = np.einsum("ij,ij->i", nrm[s], a[s])
        D = nrm[s] @ Q.T - off[:, None]
        lo = D.min(axis=1) >= -tol
        hi = D.max(axis=1) <= tol
        for r in np.nonzero(lo | hi)[0]:
            if lo[r] and hi[r]:
                raise Degenerate("coplanar")
            nn = nrm[s][r] if hi[r] else -nrm[s][r]
            on = np.nonzero(np.abs(D[r]) <= 10 * tol)[0]
            key = frozenset(on.tolist())
            if any(key <= o for o in seen):
                continue
            # the best conditioned triple of the plane may come later: use a fit
            X = Q[on]
            u = np.linalg.svd(X - X.mean(axis=0))[2][2]
            if u @ nn < 0:
                u = -u
            poly = _polygon(X, u)
            # supersets replace subsets
            keep = [i for i, o in enumerate(seen) if not o <= key]
            seen = [seen[i] for i in keep] + [key]
            faces = [faces[i] for i in keep] + [(idx[on[poly]], u)]
    return faces


def _polygon(X, u):
    """indices of the corners of the convex polygon X (in plane of normal u), ccw"""
    e = X - X.mean(axis=0)
    d = np.linalg.norm(e, axis=1)
    start = int(np.argmax(d))  # farthest from the mean: always a corner
    e1 = e[start] / d[start]
    e2 = np.cross(u, e1)
    x, y = e @ e1, e @ e2
    span = d[start]
    out = [start]
    while True:
        i = out[-1]
        dx, dy = x - x[i], y - y[i]
        ln = np.hypot(dx, dy)
        cand = []
        for j in np.nonzero(ln > 1e-9 * span)[0]:
            # distance of every point to the line i->j, > 0 on the left
            if ((dx[j] * dy - dy[j] * dx) / ln[j] >= -1e-10 * span).all():
                cand.append(j)
        if not cand:
            raise Degenerate("polygon walk")
        j = int(max(cand, key=lambda k: ln[k]))
        if j == start:
            return np.array(out)
        if j in out:
            raise Degenerate("polygon walk does not close")
        out.append(j)


def round_faces(pts):
    """faces of a point set in strictly convex position (every point a corner), for sets
    too large to enumerate; each facet is checked to support the set"""
    from scipy.spatial import ConvexHull

    P = np.asarray(pts, dtype=float)
    c = P.mean(axis=0)
    out = []
    for t in ConvexHull(P).simplices:
        a, b, d = P[t]
        u = np.cross(b - a, d - a)
        u /= np.linalg.norm(u)
        if u @ (a - c) < 0:
            u, t = -u, t[::-1]
        if ((P - a) @ u).max() > 1e-9 * np.abs(P - c).max():
            raise Degenerate("facet does not support the set")
        out.append((t, u))
    return out


class Body:
    def __init__(self, pts, faces=hull_faces):
        self.pts = np.array(pts, dtype=float)
        self.center = self.pts.mean(axis=0)
        self.faces = []
        for poly, u in faces(self.pts):
            V = self.pts[poly].astype(LD)
            # refine the normal in extended precision (Newell)
            W = V - V[0]
            nn = np.zeros(3, dtype=LD)
            for i in range(len(W)):
                nn += np.cross(W[i], W[(i + 1) % len(W)])
            nn /= np.sqrt((nn * nn).sum())
            if float(nn @ u.astype(LD)) < 0:
                raise Degenerate("orientation")
            self.faces.append((V, nn))
        self.size = float(np.ptp(self.pts, axis=0).max())
        self.edges = [(V[i], V[(i + 1) % len(V)]) for V, _ in self.faces
                      for i in range(len(V))]

    # --- geometry ---------------------------------------------------------
    def volume(self):
        v = LD(0)
        c = self.center.astype(LD)
        for V, n in self.faces:
            A = _area(V)
            v += A * ((V[0] - c) @ n) / 3
        return float(v)

    def centroid(self):
        c = self.center.astype(LD)
        tot, m = LD(0), np.zeros(3, dtype=LD)
        for V, _ in self.faces:
            for i in range(1, len(V) - 1):
                a, b, d = V[0] - c, V[i] - c, V[i + 1] - c
                w = a @ np.cross(b, d) / 6
                tot += w
                m += w * (a + b + d) / 4
        return (m / tot + c).astype(float)

    def plane_distances(self, o):
        """signed distance of o to each face plane, > 0 outside"""
        o = np.asarray(o, dtype=LD)
        return np.array([float((o - V[0]) @ n) for V, n in self.faces])

    def inside(self, o):
        return bool((self.plane_distances(o) < 0).all())

    def edge_distance(self, o):
        o = np.asarray(o, dtype=LD)
        A = np.array([e[0] for e in self.edges])
        B = np.array([e[1] for e in self.edges])
        L = B - A
        t = ((o - A) * L).sum(1) / (L * L).sum(1)
        t = np.clip(t, 0, 1)
        d = A + t[:, None] * L - o
        return float(np.sqrt((d * d).sum(1)).min())

    def surface_distance(self, o):
        """distance of o to the boundary of the body"""
        o = np.asarray(o, dtype=LD)
        best = self.edge_distance(o)
        for V, n in self.faces:
            h = (o - V[0]) @ n
            q = o - h * n
            inn = True
            for i in range(len(V)):
                e = V[(i + 1) % len(V)] - V[i]
                if np.cross(e, q - V[i]) @ n < 0:
                    inn = False
                    break
            if inn:
                best = min(best, abs(float(h)))
        return best

    # --- field ------------------------------------------------------------
    def field(self, o):
        """(g, t): acceleration and its Jacobian for density*Gc == 1 (SI)"""
        o = np.asarray(o, dtype=LD)
        g = np.zeros(3, dtype=LD)
        t = np.zeros((3, 3), dtype=LD)
        tiny = LD(1e-19) * (LD(self.size) + np.sqrt(((o - self.center) ** 2).sum()))
        for V, n in self.faces:
            R = V - o
            r = np.sqrt((R * R).sum(1))
            d = R[0] @ n
            m = len(R)
            om = LD(0)
            for i in range(1, m - 1):
                a, b, c = R[0], R[i], R[i + 1]
                ra, rb, rc = r[0], r[i], r[i + 1]
                num = a @ np.cross(b, c)
                den = ra * rb * rc + ra * (b @ c) + rb * (c @ a) + rc * (a @ b)
                if abs(d) > tiny:
                    om += 2 * np.arctan2(num, den)
            g += n * (d * om)
            t -= np.outer(n, n) * om
            for i in range(m):
                j = (i + 1) % m
                e = V[j] - V[i]
                le = np.sqrt((e * e).sum())
                ne = np.cross(e, n) / le  # outward in-plane edge normal
                h = ne @ R[i]
                s = r[i] + r[j] - le
                if s <= tiny:
                    continue  # on the edge: limit of h*log is 0
                Le = np.log((r[i] + r[j] + le) / s)
                g -= n * (h * Le)
                t += np.outer(n, ne) * Le
        return g.astype(float), t.astype(float)


def _area(V):
    W = V - V[0]
    a = np.zeros(3, dtype=V.dtype)
    for i in range(1, len(W) - 1):
        a += np.cross(W[i], W[i + 1])
    return np.sqrt((a * a).sum()) / 2
