"""C01..C12: the field of bodies (geec.polyhedron, geec.station)."""
import math

import os

import numpy as np
from hypothesis import strategies as st

import gens
from harness import Sub, Violation, call, fail
from gens import EPS, body, tol_g, tol_t

NEAR = 1e-9  # tensors are compared when the station is farther off the surface (x size)


def _geec():
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    return Polyhedron, Station


def warm():
    """compile the jitted parts before forking"""
    try:
        Polyhedron, Station = _geec()
        p = Polyhedron(np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]))
        for g in (False, True):
            p.get_gravity(np.array([2.0, 3, 4]), 1.0, 1.0, g)
            p.get_gravity(np.array([2.0, 0, 0]), 1.0, 1.0, g)
    except Exception:  # noqa: BLE001  (reported by the checks themselves)
        pass


# --- talking to the code under test -------------------------------------------
def poly(pts, what="building the body"):
    Polyhedron, _ = _geec()
    return call(what, Polyhedron, np.array(pts, dtype=float))


def clean(G, T, what):
    G, T = np.array(G, dtype=float), np.array(T, dtype=float)
    if G.shape != (3,):
        fail("%s: gravity has shape %s", what, G.shape)
    if T.shape != (3, 3):
        fail("%s: tensor has shape %s", what, T.shape)
    if not np.isfinite(G).all():
        fail("%s: gravity is not finite: %s", what, G)
    return G, T


def field(P, o, rho, gc, grad, via="poly"):
    """(G mGal, T E) from the code"""
    _, Station = _geec()
    what = "field at %s (gradient=%s, via %s)" % (list(map(float, o)), grad, via)
    o = np.array(o)
    if via == "poly":
        G, T = call(what, P.get_gravity, o, rho, gc, grad)
    else:
        s = call(what, Station, o)
        arg = [P] if via == "list" else P
        call(what, s.compute_gravity, arg, rho, gc, gradient=grad)
        G, T = s.G, s.T
    return clean(G, T, what)


def lim_g(B, o, rho, gc, g=None):
    if g is None:
        g = B.field(o)[0]
    return abs(rho * gc) * 1e5 * (tol_g(B, o) + 1e-10 * float(np.linalg.norm(g)))


def lim_t(B, o, rho, gc, t=None):
    if t is None:
        t = B.field(o)[1]
    return abs(rho * gc) * 1e9 * (tol_t(B, o) + 1e-9 * float(np.abs(t).max()))


def t_defined(B, o):
    return B.surface_distance(o) > NEAR * B.size


CAL = os.environ.get("VERIF_CAL")


def cmp(what, a, b, lim):
    e = float(np.abs(np.asarray(a) - np.asarray(b)).max())
    if CAL and e > 0.02 * lim:  # tools: how close do errors come to the bound?
        with open(CAL, "a") as f:
            f.write("%.4f %s\n" % (e / lim if lim else 9e9, what))
    if not e <= lim:  # also catches NaN
        fail("%s: %s, expected %s (difference %.3g, allowed %.3g)", what,
             np.asarray(a).tolist(), np.asarray(b).tolist(), e, lim)


def sharp(lim, ref):
    """is the comparison worth something (bound well below the value)?"""
    return lim < 1e-3 * float(np.abs(ref).max())


vias = st.sampled_from(["poly", "station", "list"])


# --- generic cases ------------------------------------------------------------
@st.composite
def cases(draw, kinds=gens.STATION_KINDS, nst=3, grad=None, **kw):
    b = draw(gens.bodies(**kw))
    n = draw(st.integers(1, nst))
    sts = [draw(gens.station_for(b["pts"], kinds)) for _ in range(n)]
    return {"body": b, "stations": sts, "rho": draw(gens.densities),
            "gc": draw(gens.constants),
            "grad": draw(st.booleans()) if grad is None else grad,
            "via": draw(vias)}


def notes(ctx, case, B):
    ctx.label("body:" + case["body"]["kind"].split("/")[0],
              "off:" + case["body"]["kind"].split("=")[-1])


# --- C01 ----------------------------------------------------------------------
def c01_newton(case, ctx):
    B = body(case["body"]["pts"])
    notes(ctx, case, B)
    P = poly(case["body"]["pts"])
    rho, gc = case["rho"], case["gc"]
    for kind, o in case["stations"]:
        G, _ = field(P, o, rho, gc, case["grad"], case["via"])
        g = B.field(o)[0]
        lim = lim_g(B, o, rho, gc, g)
        ctx.label("station:" + kind, "inside" if B.inside(o) else "outside")
        ctx.hit(sharp(lim, rho * gc * 1e5 * g))
        cmp("gravity at %s" % o, G, rho * gc * 1e5 * g, lim)


@st.composite
def c01_far_cases(draw):
    b = draw(gens.bodies(offsets=False))
    u = np.array(draw(st.tuples(*[st.integers(-9, 9)] * 3)), dtype=float)
    if not u.any():
        u[0] = 1.0
    return {"body": b, "u": u.tolist(), "k": draw(st.sampled_from([20.0, 50.0, 200.0, 1000.0])),
            "rho": draw(gens.densities), "gc": draw(gens.constants), "via": draw(vias)}


def c01_far(case, ctx):
    """far away the body acts as a point mass at its centroid"""
    B = body(case["body"]["pts"])
    u = np.array(case["u"])
    c = B.centroid()
    rad = float(np.linalg.norm(B.pts - c, axis=1).max())
    r = case["k"] * rad
    o = c + r * u / np.linalg.norm(u)
    P = poly(case["body"]["pts"])
    rho, gc = case["rho"], case["gc"]
    G, _ = field(P, o, rho, gc, False, case["via"])
    d = c - o
    rr = float(np.linalg.norm(d))
    f = rho * gc * 1e5
    mono = f * B.volume() * d / rr ** 3
    # quadrupole and beyond: at most ~ 6 (rad/r)^2 of the monopole for r >= 20 rad
    lim = 8 * (rad / rr) ** 2 * float(np.linalg.norm(mono)) + abs(f) * tol_g(B, o)
    ctx.label("far:%g" % case["k"])
    ctx.hit(lim < 0.2 * float(np.linalg.norm(mono)))
    cmp("gravity %g body radii away (point mass)" % case["k"], G, mono, lim)


@st.composite
def c01_big_cases(draw):
    b = draw(gens.bodies(nmax=40, round_max=70))
    sts = [draw(gens.station_for(b["pts"])) for _ in range(2)]
    return {"body": b, "stations": sts, "rho": draw(gens.densities),
            "gc": draw(gens.constants), "grad": False, "via": draw(vias)}


@st.composite
def c01_large_cases(draw):
    return {"n": draw(st.one_of(st.integers(71, 170), st.integers(71, 170),
                                st.integers(171, 400))), "r": [draw(gens.posdec) for _ in range(3)],
            "turn": draw(st.integers(0, 99)), "off": draw(st.sampled_from([0.0, 0.0, 40.0])),
            "u": draw(st.tuples(*[st.integers(-24, 24)] * 3)), "rho": draw(gens.densities),
            "grad": draw(st.booleans()), "via": draw(vias)}


def c01_large(case, ctx):
    """bodies of some hundred faces"""
    from refgrav import round_faces

    n = case["n"]
    X = gens.spiral(n, case["r"], case["turn"], case["off"])
    B = gens.Body(X, round_faces)
    o = B.center + B.size * np.array(case["u"], dtype=float) / 16.0
    if B.edge_distance(o) < 1e-3 * B.size:
        return
    P = poly(X)
    G, T = field(P, o, case["rho"], gens.GC, case["grad"], case["via"])
    g, t = B.field(o)
    lim = lim_g(B, o, case["rho"], gens.GC, g)
    ctx.label("inside" if B.inside(o) else "outside", "points:%d0" % (n // 10))
    ctx.hit(sharp(lim, case["rho"] * gens.GC * 1e5 * g))
    cmp("gravity at %s of a body of %d points" % (o.tolist(), n), G,
        case["rho"] * gens.GC * 1e5 * g, lim)
    if case["grad"]:
        cmp("tensor at %s of a body of %d points" % (o.tolist(), n), T,
            case["rho"] * gens.GC * 1e9 * t, lim_t(B, o, case["rho"], gens.GC, t))


def C01():
    rule = ("generated body (9 shape families, rotated, scaled, offset) with 1-3 stations "
            "in 14 kinds of position; non-trivial: the round-off bound is below 1e-3 of "
            "the reference gravity at some station")
    return [
        Sub("newton", cases, c01_newton, 2600, 60000, rule),
        Sub("pointmass", c01_far_cases, c01_far, 400, 6000,
            "body and a station 20-1000 radii away; non-trivial: bound below 20% of the "
            "point-mass value"),
        Sub("manypoints", c01_big_cases, c01_newton, 160, 3000,
            "bodies of up to 70 points; non-trivial as for newton"),
        Sub("hundreds", c01_large_cases, c01_large, 64, 1600,
            "ellipsoid-like bodies of 71-170 points (up to 336 faces); non-trivial as for "
            "newton"),
    ]


# --- C02 ----------------------------------------------------------------------
OFF_KINDS = ["around", "around", "inside", "far", "plane", "line", "above", "lattice",
             "nearface", "nearedge", "planeline", "axis", "almost", "almost"]


def c02_oracle(case, ctx):
    B = body(case["body"]["pts"])
    notes(ctx, case, B)
    P = poly(case["body"]["pts"])
    rho, gc = case["rho"], case["gc"]
    for kind, o in case["stations"]:
        G, T = field(P, o, rho, gc, True, case["via"])
        if not t_defined(B, o):
            continue
        t = B.field(o)[1]
        f = rho * gc * 1e9
        lim = lim_t(B, o, rho, gc, t)
        ctx.label("station:" + kind, "inside" if B.inside(o) else "outside")
        ctx.hit(sharp(lim, f * t))
        cmp("symmetry of the tensor at %s" % o, T, T.T, 2 * lim)
        cmp("tensor at %s" % o, T, f * t, lim)


@st.composite
def c02_fd_cases(draw):
    b = draw(gens.bodies(offsets=False))
    k, o = draw(gens.station_for(b["pts"], ["around", "inside", "plane", "line", "above",
                                            "lattice", "nearface", "axis"]))
    return {"body": b, "station": [k, o], "rho": draw(gens.densities),
            "gc": draw(gens.constants), "via": draw(vias),
            "h": draw(st.sampled_from([1e-2, 3e-3, 1e-3]))}


def c02_fd(case, ctx):
    """columns of the tensor against differences of the reported gravity"""
    B = body(case["body"]["pts"])
    kind, o = case["station"]
    o = np.array(o)
    sd = B.surface_distance(o)
    if sd < 1e-3 * B.size:
        return
    P = poly(case["body"]["pts"])
    rho, gc = case["rho"], case["gc"]
    _, T = field(P, o, rho, gc, True, case["via"])
    h = case["h"] * sd
    J = np.zeros((3, 3))
    tg = 0.0
    for j in range(3):
        e = np.zeros(3)
        e[j] = h
        a, b = o + e, o - e
        Gp, _ = field(P, a, rho, gc, False, case["via"])
        Gm, _ = field(P, b, rho, gc, False, case["via"])
        J[:, j] = (Gp - Gm) / (a[j] - b[j]) * 1e4
        tg = max(tg, tol_g(B, a), tol_g(B, b))
    f = abs(rho * gc) * 1e9
    # third derivatives of gravity are at most ~ 4 pi * c / sd^2 (edges at >= sd)
    lim = f * (tg / h * 2 + tol_t(B, o) + 40 * case["h"] ** 2 * (
        1 + math.log(1 + B.size / sd)))
    ctx.label("station:" + kind)
    ctx.hit(lim < 0.1 * float(np.abs(T).max()))
    cmp("tensor against differences of gravity at %s" % o.tolist(), T, J, lim)


def C02():
    return [
        Sub("oracle", lambda: cases(OFF_KINDS, grad=True), c02_oracle, 2200, 50000,
            "body with 1-3 stations off the surface; non-trivial: bound below 1e-3 of the "
            "largest reference component"),
        Sub("differences", c02_fd_cases, c02_fd, 900, 16000,
            "body and station at least 1e-3 size off the surface; non-trivial: bound below "
            "10% of the largest component"),
    ]


# --- C03 ----------------------------------------------------------------------
@st.composite
def c03_cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 5, 9]))
    small = {"nmax": 8, "round_max": 8} if n > 3 else {}
    bs = [draw(gens.bodies(offsets=n == 1, scales=gens.SCALES if n == 1 else [1.0], **small))
          for _ in range(n)]
    k, o = draw(gens.station_for(bs[0]["pts"], ["inside", "inside", "around", "nearface",
                                                "nearedge", "plane", "line", "far",
                                                "above", "lattice", "axis", "almost"]))
    return {"bodies": bs, "station": [k, o],
            "rho": [draw(gens.densities) for _ in bs], "gc": draw(gens.constants),
            "aslist": draw(st.booleans())}


def c03(case, ctx):
    _, Station = _geec()
    kind, o = case["station"]
    s = Station(np.array(o))
    expect = lim = 0.0
    gc = case["gc"]
    inside = 0
    Bs = [body(b["pts"]) for b in case["bodies"]]
    for B in Bs:
        if not t_defined(B, o) or B.edge_distance(o) < 1e-6 * B.size:
            return
    Ps = [poly(b["pts"]) for b in case["bodies"]]
    rhos = case["rho"] if not case["aslist"] else [case["rho"][0]] * len(Ps)
    if case["aslist"]:
        call("field at %s" % o, s.compute_gravity, Ps, rhos[0], gc, gradient=True)
    else:
        for P, rho in zip(Ps, rhos):
            call("field at %s" % o, s.compute_gravity, P, rho, gc, gradient=True)
    mag = 0.0
    for B, rho in zip(Bs, rhos):
        # the round-off of the trace is that of three components
        lim += 3 * lim_t(B, o, rho, gc)
        if B.inside(o):
            inside += 1
            expect -= 4 * math.pi * gc * rho * 1e9
        mag = max(mag, abs(4 * math.pi * gc * rho * 1e9))
    G, T = clean(s.G, s.T, "field")
    ctx.label("station:" + kind, "bodies:%d" % len(Ps), "inside:%d" % inside)
    ctx.hit(lim < 1e-3 * (mag if inside else float(np.abs(T).max())))
    cmp("trace at %s (inside %d of %d bodies)" % (o, inside, len(Ps)),
        np.trace(T), expect, lim)


def C03():
    return [Sub("trace", c03_cases, c03, 3000, 60000,
                "1-3 possibly overlapping bodies and a station; non-trivial: bound below "
                "1e-3 of 4 pi G rho (inside) or of the largest component (outside)")]


# --- C04 ----------------------------------------------------------------------
@st.composite
def c04_cases(draw):
    b = draw(gens.bodies(offsets=draw(st.booleans())))
    sts = [draw(gens.station_for(b["pts"])) for _ in range(draw(st.integers(1, 2)))]
    kind = draw(st.sampled_from(["axis", "axis", "quat", "mirror", "translate", "scale",
                                 "all"]))
    m = {"kind": kind, "axis": 0, "quat": [1, 0, 0, 0], "mirror": False, "shift": [0, 0, 0],
         "scale": 1.0}
    if kind in ("axis", "all"):
        m["axis"] = draw(st.integers(0, len(gens.AXIS_ROT) - 1))
    if kind in ("quat", "mirror", "all"):
        m["quat"] = draw(gens.quats)
    if kind in ("mirror", "all"):
        m["mirror"] = draw(st.booleans()) if kind == "all" else True
    if kind in ("translate", "all"):
        unit = draw(st.sampled_from([0.1, 1.0, 1.0, 37.5]))
        m["shift"] = [v * unit for v in draw(st.tuples(*[st.integers(-200, 200)] * 3))]
    if kind in ("scale", "all"):
        m["scale"] = draw(st.sampled_from([0.5, 2.0, 0.1, 10.0, 1e-3, 1e3, 1e5, 3.7, 1024.0]))
    return {"body": b, "stations": sts, "motion": m, "rho": draw(gens.densities),
            "gc": draw(gens.constants), "via": draw(vias)}


def c04(case, ctx):
    m = case["motion"]
    B = body(case["body"]["pts"])
    M = gens.AXIS_ROT[m["axis"]] if m["kind"] in ("axis", "all") else np.eye(3)
    M = gens.quat(m["quat"]) @ M
    if m["mirror"]:
        M = M @ np.diag([1.0, 1.0, -1.0])
    s, sh = m["scale"], np.array(m["shift"], dtype=float) * B.size

    def move(X):
        return (np.asarray(X, dtype=float) @ M.T) * s + sh * s

    pts2 = move(case["body"]["pts"]).tolist()
    B2 = body(pts2)
    P, P2 = poly(case["body"]["pts"]), poly(pts2, "building the moved body")
    rho, gc = case["rho"], case["gc"]
    notes(ctx, case, B)
    ctx.label("motion:" + m["kind"])
    for kind, o in case["stations"]:
        o2 = move(o)
        if B2.edge_distance(o2) < 1e-6 * B2.size:
            continue
        G, T = field(P, o, rho, gc, True, case["via"])
        G2, T2 = field(P2, o2, rho, gc, True, case["via"])
        g, t = B.field(o)
        # moving rounds the coordinates: that is the C term of the bounds on both sides
        lg = lim_g(B, o, rho, gc, g) * s + lim_g(B2, o2, rho, gc, s * g)
        ctx.label("station:" + kind)
        ctx.hit(sharp(lg, rho * gc * 1e5 * g * s))
        cmp("gravity after moving the scene (%s) at %s" % (m["kind"], o), G2, s * (M @ G), lg)
        if t_defined(B, o) and t_defined(B2, o2) and \
                B.surface_distance(o) > 1e3 * EPS * max(np.abs(B.pts).max(),
                                                        np.abs(B2.pts).max() / s):
            lt = lim_t(B, o, rho, gc, t) + lim_t(B2, o2, rho, gc, t)
            cmp("tensor after moving the scene (%s) at %s" % (m["kind"], o), T2,
                M @ T @ M.T, 3 * lt)


def C04():
    return [Sub("motion", c04_cases, c04, 1800, 40000,
                "body with 1-2 stations and a motion (48 axis symmetries, quaternion "
                "rotations, mirrors, shifts, scale factors); non-trivial: bound below 1e-3 "
                "of gravity")]


# --- C05 ----------------------------------------------------------------------
rho_any = st.one_of(
    gens.densities,
    st.sampled_from([0.0, 0, -1.0, 1e-6, -1e-6, 1e7, -1e7, 0.5, 999.9999, 1500.25, 2670.01,
                     1e4, 12000.0, -2670, 1e-12]),
    st.floats(-2e4, 2e4, allow_nan=False).map(lambda v: 0.0 if abs(v) < 1e-9 else v))
gc_any = st.one_of(gens.constants, st.sampled_from([6.67408e-11, 6.67e-11, 1.0, 1.0e-3,
                                                    6.674e-8, 2.5, 0.0, 0, -1.0]))


@st.composite
def c05_cases(draw):
    b = draw(gens.bodies())
    k, o = draw(gens.station_for(b["pts"]))
    r = [[draw(rho_any), draw(gc_any)] for _ in range(3)]
    return {"body": b, "station": [k, o], "pairs": r, "via": draw(vias),
            "grad": draw(st.booleans())}


def c05(case, ctx):
    B = body(case["body"]["pts"])
    kind, o = case["station"]
    P = poly(case["body"]["pts"])
    # unit product
    G1, T1 = field(P, o, 1.0, 1.0, case["grad"], case["via"])
    g = B.field(o)[0]
    tg, tt = tol_g(B, o) * 1e5, tol_t(B, o) * 1e9
    # round-off of the sums only: far below the bound for the geometry
    lg = 5e-2 * tg + 1e-10 * float(np.abs(G1).max())
    lt = 5e-2 * tt + 1e-9 * float(np.abs(T1).max())
    on = t_defined(B, o)
    got = []
    ctx.label("station:" + kind)
    for rho, gc in case["pairs"]:
        G, T = field(P, o, rho, gc, case["grad"], case["via"])
        q = rho * gc
        cmp("gravity for density %r, constant %r against unit product" % (rho, gc), G,
            q * G1, abs(q) * lg)
        if on:
            cmp("tensor for density %r, constant %r against unit product" % (rho, gc), T,
                q * T1, abs(q) * lt)
        if q == 0 and (G.any() or (on and T.any())):
            fail("field is not zero for density %r, constant %r", rho, gc)
        ctx.label("zero" if q == 0 else "negative" if q < 0 else "positive")
        ctx.hit(q != 0 and lg < 1e-4 * float(np.abs(G1).max()))
        got.append((rho, gc, G))
    # contrasts add up
    (r1, gc, Ga), (r2, _, _) = got[0], got[1]
    Gb, _ = field(P, o, r2, gc, case["grad"], case["via"])
    Gs, _ = field(P, o, r1 + r2, gc, case["grad"], case["via"])
    cmp("gravity for densities %r and %r added" % (r1, r2), Ga + Gb, Gs,
        (abs(r1) + abs(r2)) * abs(gc) * lg)


def C05():
    return [Sub("linear", c05_cases, c05, 2000, 40000,
                "body, station, three density/constant pairs (negative, zero, fractional, "
                "1e-12..1e7); non-trivial: non-zero product and bound below 1e-4")]


# --- C06 ----------------------------------------------------------------------
@st.composite
def c06_cases(draw):
    n = draw(st.integers(1, 4))
    bs = [draw(gens.bodies(nmax=10, round_max=10, offsets=False,
                           scales=[1.0, 1.0, 0.1, 7.3])) for _ in range(n)]
    shifts = [[v * 0.5 for v in draw(st.tuples(*[st.integers(-20, 20)] * 3))] for _ in bs]
    bs = [{"kind": b["kind"], "pts": (np.array(b["pts"]) + sh).tolist()}
          for b, sh in zip(bs, shifts)]
    if n > 1 and draw(st.integers(0, 3)) == 2:
        bs[-1] = gens.relative(draw, bs[0]["pts"])
    k, o = draw(gens.station_for(bs[0]["pts"]))
    o2 = draw(gens.station_for(bs[0]["pts"]))[1]
    calls = draw(st.lists(st.fixed_dictionaries({
        "which": st.one_of(*[st.lists(st.integers(0, n - 1), min_size=1, max_size=4)] * 3,
                           st.lists(st.integers(0, n - 1), min_size=5, max_size=20),
                           st.tuples(st.lists(st.integers(0, n - 1), min_size=2, max_size=9),
                                     st.integers(2, 16)).map(lambda t: t[0] * t[1])),
        "empty": st.integers(0, 9).map(lambda i: i == 7),
        "single": st.booleans(), "st": st.integers(0, 1), "rho": rho_any, "gc": st.just(gens.GC),
        "grad": st.booleans()}), min_size=draw(st.sampled_from([1, 2, 3])), max_size=6))
    for c in calls:
        if c.pop("empty"):
            c["which"] = []
    return {"bodies": bs, "stations": [o, o2], "kind": k, "calls": calls}


def c06_sum(case, ctx):
    _, Station = _geec()
    n = len(case["bodies"])
    Bs = [body(b["pts"]) for b in case["bodies"]]
    used = {(c["st"], i) for c in case["calls"]
            for i in (c["which"][:1] if c["single"] else c["which"])}
    for k, i in used:
        if Bs[i].edge_distance(case["stations"][k]) < 1e-6 * Bs[i].size:
            return
    Ps = [poly(b["pts"]) for b in case["bodies"]]
    S = [Station(np.array(o)) for o in case["stations"]]
    exp = [[np.zeros(3), np.zeros((3, 3)), 0.0, 0.0, True] for _ in S]
    total = 0
    for c in case["calls"]:
        o = case["stations"][c["st"]]
        if c["single"]:
            if not c["which"]:
                continue
            idx = c["which"][:1]
            arg = Ps[idx[0]]
        else:
            idx = c["which"]
            arg = [Ps[i] for i in idx]
        call("adding bodies %s at %s" % (idx, o), S[c["st"]].compute_gravity, arg, c["rho"],
             c["gc"], gradient=c["grad"])
        e = exp[c["st"]]
        for i in idx:
            g, t = Bs[i].field(o)
            f = c["rho"] * c["gc"]
            e[0] += f * 1e5 * g
            e[2] += lim_g(Bs[i], o, c["rho"], c["gc"], g)
            if c["grad"]:
                e[1] += f * 1e9 * t
                e[3] += lim_t(Bs[i], o, c["rho"], c["gc"], t)
                e[4] = e[4] and t_defined(Bs[i], o)
            total += 1
        for k, s in enumerate(S):
            e = exp[k]
            G, T = clean(s.G, s.T, "accumulated field of station %d" % k)
            cmp("accumulated gravity of station %d" % k, G, e[0],
                e[2] + 1e-12 * float(np.abs(e[0]).max()) + 1e-300)
            if e[4]:
                cmp("accumulated tensor of station %d" % k, T, e[1],
                    e[3] + 1e-12 * float(np.abs(e[1]).max()) + 1e-300)
    ctx.label("bodies:%d" % n, "contributions:%d" % min(total, 8))
    ctx.hit(total >= 2)


@st.composite
def c06_cut_cases(draw):
    b = draw(gens.bodies(nmax=10, round_max=14, offsets=draw(st.booleans())))
    n = draw(st.tuples(*[st.integers(-3, 3)] * 3))
    if not any(n):
        n = (0, 0, 1)
    return {"body": b, "n": n, "frac": draw(st.integers(2, 14)) / 16.0,
            "station": draw(gens.station_for(b["pts"])), "rho": draw(gens.densities),
            "gc": draw(gens.constants), "grad": draw(st.booleans()),
            "order": draw(st.booleans())}


def cut(B, n, frac):
    """the two parts of B on either side of a plane: corner lists"""
    n = np.array(n, dtype=float)
    n /= np.linalg.norm(n)
    V = np.unique(np.array([v for W, _ in B.faces for v in W.astype(float)]), axis=0)
    d = V @ n
    lo, hi = d.min(), d.max()
    c = lo + frac * (hi - lo)
    tol = 1e-3 * (hi - lo)
    if (np.abs(d - c) < tol).any():
        return None  # too close to a corner: slivers
    X = []
    seen = set()
    for a, b in B.edges:
        a, b = a.astype(float), b.astype(float)
        da, db = a @ n - c, b @ n - c
        if da * db < 0:
            key = tuple(sorted([tuple(a), tuple(b)]))
            if key not in seen:
                seen.add(key)
                X.append(a + (b - a) * (da / (da - db)))
    X = np.array(X)
    return np.vstack([V[d < c], X]), np.vstack([V[d > c], X])


def c06_cut(case, ctx):
    _, Station = _geec()
    B = body(case["body"]["pts"])
    parts = cut(B, case["n"], case["frac"])
    if parts is None:
        return
    kind, o = case["station"]
    Bp = [body(p.tolist()) for p in parts]
    if any(b.edge_distance(o) < 1e-6 * B.size for b in Bp):
        return
    rho, gc = case["rho"], case["gc"]
    P = poly(case["body"]["pts"])
    Ps = [poly(p.tolist(), "building a part") for p in parts]
    if case["order"]:
        Ps.reverse()
    G, T = field(P, o, rho, gc, case["grad"])
    s = Station(np.array(o))
    call("field of the parts at %s" % o, s.compute_gravity, Ps, rho, gc,
         gradient=case["grad"])
    lg = sum(lim_g(b, o, rho, gc) for b in Bp) + lim_g(B, o, rho, gc)
    ctx.label("station:" + kind)
    ctx.hit(sharp(lg, G))
    cmp("gravity of the two parts at %s" % o, s.G, G, 2 * lg)
    if case["grad"] and all(t_defined(b, o) for b in Bp + [B]) and \
            min(b.surface_distance(o) for b in Bp) > 1e3 * EPS * np.abs(B.pts).max():
        lt = sum(lim_t(b, o, rho, gc) for b in Bp) + lim_t(B, o, rho, gc)
        cmp("tensor of the two parts at %s" % o, s.T, T, 3 * lt)


def C06():
    return [
        Sub("accumulate", c06_cases, c06_sum, 700, 14000,
            "1-4 bodies, two stations, 1-5 calls with single bodies or lists (repetitions, "
            "empty lists); non-trivial: at least two contributions"),
        Sub("cut", c06_cut_cases, c06_cut, 1000, 20000,
            "body cut by a plane, station anywhere; non-trivial: bound below 1e-3 of gravity"),
    ]


# --- C07 ----------------------------------------------------------------------
@st.composite
def c07_cases(draw):
    n = draw(st.integers(1, 2))
    bs = [draw(gens.bodies(nmax=8, round_max=8, offsets=False, scales=[1.0, 1.0, 7.3]))
          for _ in range(n)]
    if n > 1 and draw(st.integers(0, 2)) == 2:
        bs[1] = gens.relative(draw, bs[0]["pts"])
    sts = [draw(gens.station_for(bs[draw(st.integers(0, n - 1))]["pts"]))[1]
           for _ in range(draw(st.integers(1, 3)))]
    # stations easily confused with one another
    twin = draw(st.sampled_from(["no", "no", "near", "near", "mirror", "swap", "scaled"]))
    if twin != "no":
        o = np.array(sts[0])
        if twin == "near":
            o = o + draw(st.sampled_from([1e-3, 1e-5, 1e-7, 1e-9])) * np.array(
                draw(st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 1)])))
        elif twin == "mirror":
            o = o * np.array(draw(st.sampled_from([(-1, 1, 1), (1, -1, 1), (1, 1, -1),
                                                   (-1, -1, -1)])))
        elif twin == "swap":
            o = o[[1, 2, 0]]
        else:
            o = o * 2
        sts.append(o.tolist())
    # requests of one history often differ in one respect only
    par = st.fixed_dictionaries({
        "grad": st.booleans(), "rho": st.sampled_from([1000.0, 2670.0, -350.0, 1.0]),
        "gc": st.sampled_from([gens.GC, 1.0])})
    pars = draw(st.lists(par, min_size=1, max_size=3))
    names = draw(st.sampled_from([
        ["poly", "poly", "buffer", "station", "station", "vertex", "vertex", "new",
         "badlist", "badcoord", "repeat", "scribble"],
        ["buffer", "poly"], ["buffer"], ["station", "buffer", "poly"],
        ["poly", "repeat", "scribble", "vertex"]]))
    op = st.fixed_dictionaries({
        "op": st.sampled_from(names),
        "b": st.integers(0, n - 1), "s": st.integers(0, len(sts) - 1),
        "v": st.integers(0, 30), "par": st.integers(0, len(pars) - 1)})
    ops = [{**o, **pars[o.pop("par")]} for o in draw(st.lists(op, min_size=2, max_size=8))]
    return {"bodies": bs, "stations": sts, "ops": ops}


_fresh_cache = {}


def _fresh(pts, o, rho, gc, grad):
    """the same request on objects nobody has used"""
    Polyhedron, _ = _geec()
    P = call("building a fresh body", Polyhedron, np.array(pts, dtype=float))
    G, T = call("request on a fresh body at %s" % list(o), P.get_gravity, np.array(o), rho,
                gc, grad)
    return np.array(G, dtype=float), np.array(T, dtype=float)


def c07(case, ctx):
    Polyhedron, Station = _geec()
    arrs = [np.array(b["pts"], dtype=float) for b in case["bodies"]]
    Bs = [body(b["pts"]) for b in case["bodies"]]
    for B in Bs:
        for o in case["stations"]:
            if B.edge_distance(o) < 1e-6 * B.size:
                return
    Ps = [call("building the body", Polyhedron, a) for a in arrs]
    coords = [np.array(o) for o in case["stations"]]
    S = [Station(c) for c in coords]
    snap_a, snap_c = [a.copy() for a in arrs], [c.copy() for c in coords]
    tot = [[np.zeros(3), np.zeros((3, 3)), 0.0, 0.0] for _ in S]
    handed = []  # (array, copy) results given out
    done = fails = 0
    last = None
    buf = np.zeros(3)
    for n, op in enumerate(case["ops"]):
        b, k = op["b"], op["s"]
        o = case["stations"][k]
        P = Ps[b]
        name = op["op"]
        if name == "repeat":
            if last is None:
                continue
            name, b, k, op = last
            o, P = case["stations"][k], Ps[b]
        what = "step %d (%s)" % (n, name)
        if name == "new":  # a body of the same points takes over
            Ps[b] = call(what, Polyhedron, arrs[b])
        elif name in ("poly", "station", "buffer"):
            f = abs(op["rho"] * op["gc"])
            G0, T0 = _fresh(case["bodies"][b]["pts"], o, op["rho"], op["gc"], op["grad"])
            lg = 5e-2 * f * 1e5 * tol_g(Bs[b], o) + 1e-11 * float(np.abs(G0).max())
            lt = 5e-2 * f * 1e9 * tol_t(Bs[b], o) + 1e-9 * float(np.abs(T0).max())
            defined = t_defined(Bs[b], o)
            gr, tr = Bs[b].field(o)
            cmp(what + ": gravity of a fresh body", G0, op["rho"] * op["gc"] * 1e5 * gr,
                lim_g(Bs[b], o, op["rho"], op["gc"], gr))
            if defined and op["grad"]:
                cmp(what + ": tensor of a fresh body", T0, op["rho"] * op["gc"] * 1e9 * tr,
                    lim_t(Bs[b], o, op["rho"], op["gc"], tr))
            if name != "station":
                where = coords[k]
                if name == "buffer":  # the caller's one array, moved from point to point
                    buf[:] = o
                    where = buf
                G, T = call(what, P.get_gravity, where, op["rho"], op["gc"], op["grad"])
                cmp(what + ": gravity against a fresh body", G, G0, lg)
                if defined:
                    cmp(what + ": tensor against a fresh body", T, T0, lt)
                handed.append((G, np.array(G), T, np.array(T), n))
            else:
                call(what, S[k].compute_gravity, P, op["rho"], op["gc"],
                     gradient=op["grad"])
                e = tot[k]
                e[0], e[1] = e[0] + G0, e[1] + T0
                e[2] += lg + 1e-12 * float(np.abs(e[0]).max())
                e[3] += (lt if defined else np.inf) + 1e-12 * float(np.abs(e[1]).max())
                if not op["grad"]:
                    e[3] -= 0 if defined else np.inf
                    if not e[3] == e[3]:
                        e[3] = np.inf
            done += 1
            last = (name, b, k, op)
        elif name == "vertex":
            # singular position: an error, or non-finite numbers; then go on
            v = Bs[b].faces[op["v"] % len(Bs[b].faces)][0][op["v"] % 3].astype(float)
            try:
                P.get_gravity(v, op["rho"], op["gc"], op["grad"])
            except Exception:  # noqa: BLE001
                fails += 1
        elif name == "badlist":
            tmp = Station(np.array(o))
            try:
                tmp.compute_gravity([P, "not a body"], op["rho"], op["gc"],
                                    gradient=op["grad"])
            except Exception:  # noqa: BLE001
                fails += 1
        elif name == "badcoord":
            try:
                P.get_gravity(np.array(o)[:2], op["rho"], op["gc"], op["grad"])
            except Exception:  # noqa: BLE001
                fails += 1
        elif name == "scribble" and handed:
            # results belong to the caller
            h = handed.pop()
            try:
                h[0][...] = 12345.0
                h[2][...] = -777.0
            except ValueError:
                pass
        for k2, s in enumerate(S):
            e = tot[k2]
            cmp("%s: accumulated gravity of station %d" % (what, k2), s.G, e[0], e[2])
            if np.isfinite(e[3]):
                cmp("%s: accumulated tensor of station %d" % (what, k2), s.T, e[1], e[3])
        for a, c in zip(arrs + coords, snap_a + snap_c):
            if not np.array_equal(a, c):
                fail("%s changed the coordinates given by the caller", what)
        for p, c in zip(Ps, snap_a):
            if not np.array_equal(np.asarray(p.points), c):
                fail("%s changed the points of a body", what)
        for s, c in zip(S, snap_c):
            if not np.array_equal(np.asarray(s.coord), c):
                fail("%s changed the position of a station", what)
        for G, G1, T, T1, m in handed:
            if not (np.array_equal(G, G1) and np.array_equal(T, T1, equal_nan=True)):
                fail("%s changed the result handed out in step %d", what, m)
    ctx.label("requests:%d" % min(done, 5), "failed:%d" % min(fails, 3))
    ctx.hit(done >= 2)


@st.composite
def c07_long_cases(draw):
    n = draw(st.integers(1, 3))
    bs = [draw(gens.bodies(nmax=6, round_max=6, offsets=False, scales=[1.0, 1.0, 7.3]))
          for _ in range(n)]
    sts = [draw(gens.station_for(draw(st.sampled_from(bs))["pts"]))[1]
           for _ in range(draw(st.integers(1, 6)))]
    return {"bodies": bs, "stations": sts,
            "step": draw(st.sampled_from([0.0, 0.0, 1e-6, 1e-3, 0.5])),
            "rho": draw(st.lists(st.sampled_from([1000.0, 2670.0, -350.0, 1.0]), min_size=1,
                                 max_size=3)),
            "grad": draw(st.lists(st.booleans(), min_size=1, max_size=5)),
            "total": draw(st.booleans()), "new": draw(st.sampled_from([0, 0, 0, 7, 40])),
            "n": draw(st.integers(20, 400))}


def c07_long(case, ctx):
    """many requests in a row: every answer is the reference's"""
    Polyhedron, Station = _geec()
    bs, sts = case["bodies"], case["stations"]
    Bs = [body(b["pts"]) for b in bs]
    Ps = [poly(b["pts"]) for b in bs]
    known = {}
    where = [Station(np.array(o)) for o in sts]
    tot = [[np.zeros(3), np.zeros((3, 3)), 0.0, 0.0, True] for _ in sts]
    done = 0
    for i in range(case["n"]):
        # bodies, stations, densities and flags take turns, each at its own pace
        b = (i // 2) % len(bs)
        k = i % len(sts)
        j = 0 if case["total"] else (i // len(sts)) % 50
        o = np.array(sts[k]) + case["step"] * j * np.array([1.0, 0.5, -0.25])
        rho = case["rho"][(i // 3) % len(case["rho"])]
        grad = case["grad"][(i // 5) % len(case["grad"])]
        if (b, k, j) not in known:
            B = Bs[b]
            known[b, k, j] = None if B.edge_distance(o) < 1e-6 * B.size else (
                *B.field(o), tol_g(B, o), tol_t(B, o), t_defined(B, o))
        if known[b, k, j] is None:
            continue
        g, t, lg, lt, on = known[b, k, j]
        f = rho * gens.GC
        lg = abs(f) * 1e5 * (lg + 1e-10 * float(np.linalg.norm(g)))
        lt = abs(f) * 1e9 * (lt + 1e-9 * float(np.abs(t).max()))
        if case["new"] and i % case["new"] == 0:
            Ps[b] = poly(bs[b]["pts"])
        done += 1
        what = "request %d (body %d at %s)" % (i, b, o.tolist())
        if not case["total"]:
            G, T = call(what, Ps[b].get_gravity, o, rho, gens.GC, grad)
            cmp("gravity of " + what, G, f * 1e5 * g, lg)
            if not grad:
                cmp("tensor of " + what, np.zeros((3, 3)) + T, np.zeros((3, 3)), 0.0)
            elif on:
                cmp("tensor of " + what, T, f * 1e9 * t, lt)
            continue
        call(what, where[k].compute_gravity, Ps[b], rho, gens.GC, gradient=grad)
        e = tot[k]
        e[0] = e[0] + f * 1e5 * g
        e[2] += lg + 1e-15 * float(np.abs(e[0]).max())
        if grad:
            e[1] = e[1] + f * 1e9 * t
            e[3] += lt + 1e-15 * float(np.abs(e[1]).max())
            e[4] = e[4] and on
        cmp("total gravity after " + what, where[k].G, e[0], e[2])
        if e[4]:
            cmp("total tensor after " + what, where[k].T, e[1], e[3])
    ctx.label("requests:%d" % min(7, done.bit_length()), "total" if case["total"] else "single")
    ctx.hit(done > 50)


def C07():
    return [Sub("long", c07_long_cases, c07_long, 96, 2000,
                "20-400 requests to 1-3 bodies at 1-6 stations (or up to 50 positions each beside "
                "them); non-trivial: more than 50"),
            Sub("history", c07_cases, c07, 1000, 20000,
                "1-2 shared bodies, 1-3 stations, 2-8 operations with failing requests in "
                "between; non-trivial: at least two requests that must succeed")]


# --- C08 ----------------------------------------------------------------------
@st.composite
def c08_cases(draw):
    b = draw(gens.bodies(nmax=10, round_max=14))
    n = len(b["pts"])
    sts = [draw(gens.station_for(b["pts"])) for _ in range(draw(st.integers(1, 2)))]
    keys = draw(st.lists(st.integers(0, 999), min_size=n, max_size=n))
    dup = draw(st.lists(st.integers(0, n - 1), max_size=4))
    extra = draw(st.lists(st.fixed_dictionaries({
        "kind": st.sampled_from(["inside", "inside", "face", "edge"]),
        "i": st.integers(0, 99), "w": st.lists(st.integers(1, 8), min_size=12, max_size=12)}),
        max_size=3))
    return {"body": b, "stations": sts, "keys": keys, "dup": dup, "extra": extra,
            "layout": draw(st.sampled_from(["C", "C", "F", "strided", "reversed",
                                            "readonly", "int", "int", "bigendian"])),
            "dtype": draw(st.sampled_from(["int64", "int8", "uint8", "int16", "int32", ">i4",
                                           "float32", "float32"])),
            "mix": draw(st.integers(0, 5)), "rho": draw(gens.densities), "gc": draw(gens.constants),
            "grad": draw(st.booleans()), "via": draw(vias)}


def relist(case):
    pts = [list(p) for p in case["body"]["pts"]]
    B = body(pts)
    V = np.unique(np.array([v for W, _ in B.faces for v in W.astype(float)]), axis=0)
    order = sorted(range(len(pts)), key=lambda i: (case["keys"][i], i))
    new = [pts[i] for i in order]
    for d in case["dup"]:
        new.insert((d * 7 + case["mix"]) % (len(new) + 1), list(pts[d]))
    for e in case["extra"]:
        w = np.array(e["w"], dtype=float)
        if e["kind"] == "inside":
            ww = np.resize(w, len(V))
            p = (ww / ww.sum()) @ V
        else:
            W = B.faces[e["i"] % len(B.faces)][0].astype(float)
            if e["kind"] == "edge":
                k = int(w[1]) % len(W)
                p = W[k] + (W[(k + 1) % len(W)] - W[k]) * (w[0] / 9.0)
            else:
                ww = np.resize(w, len(W))
                p = (ww / ww.sum()) @ W
        new.insert((e["i"] + case["mix"]) % (len(new) + 1), p.tolist())
    return new


def typed(X, dtype):
    """X as an array of that type, if it holds the same numbers"""
    with np.errstate(all="ignore"):
        Y = X.astype(dtype)
    return Y if np.array_equal(Y.astype(float), X) else X


def layout(X, how, dtype="int64"):
    X = np.array(X, dtype=float)
    if how == "int":
        Y = typed(X, dtype)
        return typed(X, "int64") if Y is X else Y
    if how == "bigendian":
        return X.astype(">f8")
    if how == "F":
        return np.asfortranarray(X)
    if how == "strided":
        Y = np.full((len(X) * 2, 5), 1e9)
        Y[::2, 1:4] = X
        return Y[::2, 1:4]
    if how == "reversed":
        return X[::-1][::-1].copy()[::-1]
    if how == "readonly":
        X.setflags(write=False)
    return X


def c08(case, ctx):
    Polyhedron, _ = _geec()
    B = body(case["body"]["pts"])
    new = relist(case)
    X = layout(new, case["layout"], case.get("dtype", "int64"))
    keep = np.array(X)
    P = poly(case["body"]["pts"])
    Q = call("building the re-listed body", Polyhedron, X)
    if not np.array_equal(keep, X):
        fail("building the body changed the given points")
    try:
        B2 = gens.Body(np.array(new))
    except gens.Degenerate:
        B2 = B
    rho, gc = case["rho"], case["gc"]
    surf = any(e["kind"] != "inside" for e in case["extra"])
    ctx.label("layout:" + case["layout"], "surface-extra" if surf else "no-surface-extra",
              "dup" if case["dup"] else "nodup")
    for kind, o in case["stations"]:
        oo = np.array(o)
        if case["layout"] == "int":
            oo = typed(oo, case.get("dtype", "int64"))
            oo = typed(oo, "int64") if oo.dtype == float else oo
            ctx.label("station of %s" % oo.dtype, "points of %s" % X.dtype)
        if B2.edge_distance(o) < 1e-6 * B.size:
            continue
        G, T = field(P, o, rho, gc, case["grad"], case["via"])
        G2, T2 = field(Q, oo, rho, gc, case["grad"], case["via"])
        g, t = B.field(o)
        lg = lim_g(B, o, rho, gc, g) + lim_g(B2, o, rho, gc, g)
        ctx.label("station:" + kind)
        ctx.hit(sharp(lg, rho * gc * 1e5 * g))
        cmp("gravity of the re-listed body at %s" % o, G2, G, lg)
        cmp("gravity of the re-listed body at %s" % o, G2, rho * gc * 1e5 * g, lg)
        if case["grad"] and t_defined(B, o) and \
                B.surface_distance(o) > 1e3 * EPS * np.abs(B.pts).max():
            lt = lim_t(B, o, rho, gc, t) + lim_t(B2, o, rho, gc, t)
            cmp("tensor of the re-listed body at %s" % o, T2, T, lt)


@st.composite
def c08_crowd_cases(draw):
    b = draw(gens.bodies(nmax=8, round_max=10, scales=[1.0, 1.0, 7.3, 1000.0]))
    return {"body": b, "stations": [draw(gens.station_for(b["pts"])) for _ in range(2)],
            "seed": draw(st.integers(0, 9999)),
            "count": draw(st.one_of(st.integers(5, 100), st.integers(60, 600),
                                    st.integers(600, 3000))),
            "rho": draw(gens.densities), "gc": draw(gens.constants),
            "grad": draw(st.booleans()), "via": draw(vias)}


def c08_crowd(case, ctx):
    """many more points inside the body, all shuffled"""
    Polyhedron, _ = _geec()
    B = body(case["body"]["pts"])
    P = poly(case["body"]["pts"])
    Q = call("building the body with %d more points inside" % case["count"], Polyhedron,
             gens.crowd(case["body"]["pts"], case["seed"], case["count"]))
    rho, gc = case["rho"], case["gc"]
    ctx.label("extra:%d" % (case["count"] // 100 * 100))
    for kind, o in case["stations"]:
        if B.edge_distance(o) < 1e-6 * B.size:
            continue
        G, T = field(P, o, rho, gc, case["grad"], case["via"])
        G2, T2 = field(Q, o, rho, gc, case["grad"], case["via"])
        g, t = B.field(o)
        lg = 2 * lim_g(B, o, rho, gc, g)
        ctx.label("station:" + kind)
        ctx.hit(sharp(lg, rho * gc * 1e5 * g))
        cmp("gravity with %d more points inside, at %s" % (case["count"], o), G2, G, lg)
        cmp("gravity with %d more points inside, at %s" % (case["count"], o), G2,
            rho * gc * 1e5 * g, lg)
        if case["grad"] and t_defined(B, o) and \
                B.surface_distance(o) > 1e3 * EPS * np.abs(B.pts).max():
            cmp("tensor with %d more points inside, at %s" % (case["count"], o), T2, T,
                2 * lim_t(B, o, rho, gc, t))


def C08():
    return [Sub("crowd", c08_crowd_cases, c08_crowd, 240, 4800,
                "body and 5-3000 more points inside it, shuffled; non-trivial as for relist"),
            Sub("relist", c08_cases, c08, 2000, 40000,
                "body and a re-listing (order, repeats, extra points inside / on faces / on "
                "edges, array layout, integer type), 1-2 stations; non-trivial: bound below "
                "1e-3 of gravity")]


# --- C09 ----------------------------------------------------------------------
@st.composite
def c09_cases(draw):
    return {"body": draw(gens.bodies(nmax=20, round_max=30)), "mix": draw(st.integers(0, 3))}


@st.composite
def c09_many_cases(draw):
    if draw(st.booleans()):
        return {"n": draw(st.integers(71, 300)), "r": [draw(gens.posdec) for _ in range(3)],
                "turn": draw(st.integers(0, 99)), "off": draw(st.sampled_from([0.0, 40.0])),
                "seed": draw(st.integers(0, 9999)),
                "count": draw(st.sampled_from([0, 0, 20, 300]))}
    return {"body": draw(gens.bodies(nmax=12, round_max=20)),
            "seed": draw(st.integers(0, 9999)), "count": draw(st.integers(5, 500))}


def c09_many(case, ctx):
    from refgrav import round_faces

    if "n" in case:
        X = gens.spiral(case["n"], case["r"], case["turn"], case["off"])
        B = gens.Body(X, round_faces)
    else:
        X = np.array(case["body"]["pts"], dtype=float)
        B = body(case["body"]["pts"])
    X = gens.crowd(X, case["seed"], case["count"])
    ctx.label("points:%d00" % (len(X) // 100), "many corners" if "n" in case else "crowd")
    surface(X, B, ctx)


def c09(case, ctx):
    B = body(case["body"]["pts"])
    ctx.label("body:" + case["body"]["kind"].split("/")[0],
              "off:" + case["body"]["kind"].split("=")[-1], "faces:%d" % min(len(B.faces), 20))
    surface(np.array(case["body"]["pts"], dtype=float), B, ctx)


def surface(pts, B, ctx):
    P = poly(pts)
    size = B.size
    # round-off of coordinates, as a length
    pe = 50 * EPS * float(np.abs(pts).max()) + 1e-12 * size
    given = {tuple(p) for p in pts}
    faces = list(P.faces)
    if len(faces) < 4:
        fail("only %d faces", len(faces))
    if getattr(P, "nfaces", len(faces)) != len(faces):
        fail("nfaces is %s, there are %d faces", P.nfaces, len(faces))
    edges = {}
    vol = 0.0
    area = 0.0
    c = B.center
    flux = np.zeros(3)
    for i, f in enumerate(faces):
        V = np.asarray(f.points, dtype=float)
        n = np.asarray(f.un, dtype=float)
        for v in V:
            if tuple(v) not in given:
                fail("face %d has a corner %s that is not a given point", i, v.tolist())
        if abs(float(np.linalg.norm(n)) - 1) > 1e-9:
            fail("normal of face %d has length %r", i, float(np.linalg.norm(n)))
        W = V - V[0]
        a = np.zeros(3)
        for j in range(1, len(V) - 1):
            a += np.cross(W[j], W[j + 1])
        ar = float(np.linalg.norm(a)) / 2
        L = max(float(np.linalg.norm(W[j])) for j in range(1, len(V)))
        thick = 2 * ar / L
        nerr = min(2.0, pe / max(thick, 1e-300) * 4)  # how well the normal is defined
        if nerr < 0.1:
            ctx.hit()
            if float(n @ a) <= 0:
                fail("corners of face %d do not run counter-clockwise about its normal", i)
            if float(np.linalg.norm(n - a / (2 * ar))) > 10 * nerr + 1e-9:
                fail("normal of face %d is not perpendicular to it", i)
            D = (pts - V[0]) @ n
            if D.max() > 4 * (pe + nerr * size):
                fail("point %s lies %.3g outside face %d", pts[int(D.argmax())].tolist(),
                     D.max(), i)
        area += ar
        flux += a / 2
        for j in range(1, len(V) - 1):
            vol += float((V[0] - c) @ np.cross(V[j] - c, V[j + 1] - c)) / 6
        es = list(f.edges)
        if len(es) != len(V):
            fail("face %d has %d corners and %d edges", i, len(V), len(es))
        want = {(tuple(V[j]), tuple(V[(j + 1) % len(V)])) for j in range(len(V))}
        have = {(tuple(np.asarray(e.start, dtype=float)), tuple(np.asarray(e.end, dtype=float)))
                for e in es}
        if want != have:
            fail("edges of face %d do not run around its corners", i)
        for e in es:
            s, t = np.asarray(e.start, dtype=float), np.asarray(e.end, dtype=float)
            v = np.asarray(e.vector, dtype=float)
            if float(np.abs(v - (t - s)).max()) > 4 * EPS * float(np.abs(pts).max()):
                fail("vector of an edge of face %d is not end - start", i)
            if abs(float(e.length) - float(np.linalg.norm(t - s))) > pe:
                fail("length of an edge of face %d is %r", i, float(e.length))
            key = (tuple(s), tuple(t))
            edges[key] = edges.get(key, 0) + 1
    nv = len({v for k in edges for v in k})
    for (s, t), m in edges.items():
        if m != 1 or edges.get((t, s), 0) != 1:
            fail("edge %s -> %s occurs %d times, its reverse %d times", s, t, m,
                 edges.get((t, s), 0))
    if nv - len(edges) // 2 + len(faces) != 2:
        fail("surface is not a sphere: %d corners, %d edges, %d faces", nv, len(edges) // 2,
             len(faces))
    A = sum(float(_area(V)) for V, _ in B.faces)
    if abs(area - A) > 1e-9 * A + 40 * pe * size:
        fail("area of the faces is %r, of the hull %r", area, A)
    if abs(vol - B.volume()) > 1e-9 * B.volume() + 10 * pe * A:
        fail("faces enclose %r, the hull has %r", vol, B.volume())
    if float(np.abs(flux).max()) > 1e-9 * A + 10 * pe * size:
        fail("surface is not closed: sum of area vectors %s", flux.tolist())
    # every corner of the true hull is a corner of the surface
    corners = np.array(sorted({v for k in edges for v in k}))
    for V, _ in B.faces:
        for v in V.astype(float):
            if float(np.abs(corners - v).max(axis=1).min()) > 10 * pe + 1e-11 * size:
                fail("corner %s of the hull is not on the surface", v.tolist())
    ctx.label("coplanar" if len(faces) > sum(1 for _ in B.faces) else "simplicial")


def _area(V):
    from refgrav import _area as a

    return a(V)


def C09():
    return [Sub("surface", c09_cases, c09, 2600, 60000,
                "generated point set; non-trivial: at least one face with a well-defined "
                "normal (all of them in practice)"),
            Sub("many", c09_many_cases, c09_many, 200, 4000,
                "71-300 points on an ellipsoid, or 5-500 points inside a body in addition to "
                "its corners, shuffled; non-trivial as for surface")]


# --- C10 ----------------------------------------------------------------------
@st.composite
def c10_cases(draw):
    b = draw(gens.bodies())
    sts = [draw(gens.station_for(b["pts"], gens.STATION_KINDS + ["diag", "line", "plane"]))
           for _ in range(draw(st.integers(1, 3)))]
    return {"body": b, "stations": sts, "rho": draw(gens.densities),
            "gc": draw(gens.constants), "via": draw(vias),
            "numpy": draw(st.booleans()),
            "flags": draw(st.lists(st.sampled_from([True, False, None]), min_size=1,
                                   max_size=5))}


def c10(case, ctx):
    _, Station = _geec()
    B = body(case["body"]["pts"])
    P = poly(case["body"]["pts"])
    rho, gc = case["rho"], case["gc"]
    notes(ctx, case, B)
    for kind, o in case["stations"]:
        if B.edge_distance(o) < 1e-6 * B.size:
            continue
        G0, T0 = field(P, o, rho, gc, False, case["via"])
        G1, T1 = field(P, o, rho, gc, True, case["via"])
        if T0.any():
            fail("tensor without request at %s is not zero: %s", o, T0.tolist())
        lg = 5e-2 * abs(rho * gc) * 1e5 * tol_g(B, o) + 1e-11 * float(np.abs(G0).max())
        cmp("gravity with the gradient requested at %s" % o, G1, G0, lg)
        on = t_defined(B, o)
        if on and not np.isfinite(T1).all():
            fail("tensor at %s is not finite", o)
        ctx.label("station:" + kind)
        ctx.hit(lg < 1e-4 * float(np.abs(G0).max()))
        # a sequence of calls on one station: only requested tensors are added
        s = Station(np.array(o))
        n = k = 0
        for fl in case["flags"]:
            if fl is None:  # default
                call("field at %s (default flag)" % o, s.compute_gravity, P, rho, gc)
            else:
                call("field at %s" % o, s.compute_gravity, P, rho, gc,
                     gradient=np.bool_(fl) if case.get("numpy") else fl)
            n += 1
            k += fl is True
        cmp("gravity after %d calls at %s" % (n, o), s.G, n * G0, 10 * n * lg)
        if on:
            lt = 5e-2 * abs(rho * gc) * 1e9 * tol_t(B, o) + 1e-9 * float(np.abs(T1).max())
            cmp("tensor after %d calls, %d with gradient, at %s" % (n, k, o), s.T, k * T1,
                10 * k * lt)
        G2, T2 = call("field at %s (default flag)" % o, P.get_gravity, np.array(o), rho, gc)
        G2, T2 = clean(G2, T2, "field at %s (default flag)" % o)
        if T2.any():
            fail("tensor is not zero by default at %s", o)
        cmp("gravity with the default flag at %s" % o, G2, G0, lg)


def C10():
    return [Sub("flag", c10_cases, c10, 1500, 30000,
                "body with 1-3 stations (special positions included) and a sequence of "
                "gradient flags; non-trivial: bound below 1e-4 of gravity")]


# --- C11 ----------------------------------------------------------------------
JUNK = ["str", "none", "list", "tuple", "array", "number", "dict", "faces", "class"]


def junk(kind, P):
    return {"str": "cube", "none": None, "list": [P], "tuple": (P,),
            "array": np.zeros((4, 3)), "number": 7.0, "dict": {"poly": P},
            "faces": P.faces if P is not None else [], "class": type(P)}[kind]


@st.composite
def c11_list_cases(draw):
    n = draw(st.integers(0, 3))
    b = draw(gens.bodies(nmax=6, round_max=6, offsets=False, scales=[1.0]))
    bad = draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from(JUNK)), min_size=1,
                        max_size=2))
    return {"body": b, "n": n, "bad": bad, "station": draw(gens.station_for(b["pts"])),
            "before": draw(st.integers(0, 2)), "alone": draw(st.booleans()),
            "grad": draw(st.booleans()), "rho": draw(gens.densities), "gc": gens.GC}


def refused(what, types, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except types:
        return
    except Exception as e:  # noqa: BLE001
        fail("%s raised %s (%s), expected %s", what, type(e).__name__, str(e)[:120],
             "/".join(t.__name__ for t in types))
    else:
        fail("%s was accepted (result of type %s)", what, type(r).__name__)


def c11_list(case, ctx):
    _, Station = _geec()
    P = poly(case["body"]["pts"])
    o = case["station"][1]
    B = body(case["body"]["pts"])
    s = Station(np.array(o))
    for _ in range(case["before"]):
        call("field at %s" % o, s.compute_gravity, P, case["rho"], case["gc"], gradient=True)
    G0, T0 = np.array(s.G), np.array(s.T)
    if case["alone"]:
        k = case["bad"][0][1]
        arg = junk(k, P)
        if k in ("list",):
            arg = [arg]
        if k == "faces":
            arg = P.faces
        name = "a request with %s instead of a body" % k
    else:
        arg = [P] * case["n"]
        for pos, k in case["bad"]:
            arg.insert(min(pos, len(arg)), junk(k, P))
        name = "a list with %s in place %s" % ([k for _, k in case["bad"]],
                                               [p for p, _ in case["bad"]])
    refused(name, (TypeError,), s.compute_gravity, arg, case["rho"], case["gc"],
            gradient=case["grad"])
    if not (np.array_equal(G0, s.G) and np.array_equal(T0, s.T, equal_nan=True)):
        fail("%s was refused but changed the station's field from %s to %s", name,
             G0.tolist(), np.array(s.G).tolist())
    if not np.array_equal(np.asarray(s.coord), np.array(o)):
        fail("%s moved the station", name)
    # the objects still work
    if B.edge_distance(o) > 1e-6 * B.size:
        s2 = Station(np.array(o))
        call("a valid request afterwards", s2.compute_gravity, P, case["rho"], case["gc"])
        g = B.field(o)[0]
        cmp("gravity after a refused request", s2.G, case["rho"] * case["gc"] * 1e5 * g,
            lim_g(B, o, case["rho"], case["gc"], g))
    ctx.label("alone" if case["alone"] else "in list", *["junk:" + k for _, k in case["bad"]])
    ctx.hit(case["before"] > 0 or len(case["bad"]) + case["n"] > 1)


@st.composite
def c11_shape_cases(draw):
    kind = draw(st.sampled_from(["list", "tuple", "listoftuples", "none", "str", "few",
                                 "coplanar", "coplanar", "collinear", "coincident",
                                 "nan", "inf", "2d", "scalar", "1d", "3d", "4columns",
                                 "empty", "objects", "structured", "station-list",
                                 "station-tuple", "station-none", "station-number"]))
    pts = draw(st.lists(st.tuples(*[st.integers(-5, 5)] * 3), min_size=4, max_size=9))
    return {"kind": kind, "pts": pts, "q": draw(gens.quats), "s": draw(
        st.sampled_from([1.0, 1.0, 0.1, 100.0])), "ax": draw(st.integers(0, 2)),
        "i": draw(st.integers(0, 30)), "rot": draw(st.booleans())}


def refused_apart(what, fn, *a):
    """the same in a process of its own, which may crash"""
    pid = os.fork()
    if not pid:
        try:
            fn(*a)
        except Exception:  # noqa: BLE001
            os._exit(0)
        finally:
            os._exit(1)
    code = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(code):
        fail("%s ends the program with signal %d", what, os.WTERMSIG(code))
    if code:
        fail("%s was accepted", what)


def c11_shape(case, ctx):
    Polyhedron, Station = _geec()
    kind = case["kind"]
    cube = [(float(x), float(y), float(z)) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
    ctx.label(kind)
    ctx.hit()
    X = np.array(case["pts"], dtype=float) * case["s"]
    what = "a body from " + kind
    if kind == "list":
        return refused(what, (KeyError, TypeError, ValueError), Polyhedron,
                       [list(p) for p in cube])
    if kind == "tuple":
        return refused(what, (KeyError, TypeError, ValueError), Polyhedron, tuple(cube))
    if kind == "listoftuples":
        return refused(what, (KeyError, TypeError, ValueError), Polyhedron, cube)
    if kind == "none":
        return refused(what, (KeyError, TypeError, ValueError), Polyhedron, None)
    if kind == "str":
        return refused(what, (KeyError, TypeError, ValueError), Polyhedron, "points")
    if kind.startswith("station-"):
        arg = {"station-list": [0.5, 1.0, 2.0], "station-tuple": (0.5, 1.0, 2.0),
               "station-none": None, "station-number": 3.0}[kind]
        return refused("a station from " + kind[8:], (KeyError, TypeError, ValueError),
                       Station, arg)
    if kind == "few":
        X = X[: case["i"] % 4]
        X = X.reshape(-1, 3)
    elif kind == "coplanar":
        X[:, case["ax"]] = X[0, case["ax"]]
        if case["rot"]:
            X = X @ gens.quat(case["q"]).T
    elif kind == "collinear":
        d = np.array(case["pts"][0], dtype=float)
        if not d.any():
            d[0] = 1.0
        X = np.outer(np.arange(len(X)) - 2.0, d) * case["s"]
    elif kind == "coincident":
        X[:] = X[0]
    elif kind in ("nan", "inf"):
        X = np.vstack([X, np.array(cube)])
        X[case["i"] % len(X), case["ax"]] = math.nan if kind == "nan" else math.inf
    elif kind == "2d":
        X = X[:, :2]
        X = np.vstack([X, [[0, 0], [1, 0], [0, 1]]])
    elif kind == "scalar":
        X = np.array(5.0)
    elif kind == "empty":
        X = np.zeros((0, case["i"] % 5))
    elif kind == "4columns":
        X = np.vstack([np.zeros(4), np.eye(4), np.hstack([X, X[:, :1] ** 2])])
    else:  # a good body, in a form that is no list of points
        X = np.array(cube) * case["s"]
        if kind == "1d":
            X = X.ravel()
        elif kind == "objects":
            X = X.astype(object)
            X[case["i"] % 8, case["ax"]] = [None, "a", [1.0]][case["i"] % 3]
        elif kind == "structured":
            X = np.array([tuple(p) for p in X], dtype=[("x", float), ("y", float), ("z", float)])
        elif kind == "3d":
            X = X.reshape([(1, 8, 3), (2, 4, 3), (8, 3, 1), (8, 1, 3), (4, 2, 3)][case["i"] % 5])
            return refused_apart(what + " of shape %s" % (X.shape,), Polyhedron, X)
    try:
        P = Polyhedron(X)
    except Exception:  # noqa: BLE001
        return None
    if kind == "2d":
        # a polygon is no body: it must at least not yield a field
        try:
            P.get_gravity(np.array([1.0, 2.0, 3.0]), 1.0, 1.0)
        except Exception:  # noqa: BLE001
            return None
    fail("%s (%s) was accepted", what, X.tolist())


def C11():
    return [
        Sub("arguments", c11_list_cases, c11_list, 900, 12000,
            "station with 0-2 earlier contributions, list with 1-2 invalid items at any "
            "position; non-trivial: earlier contributions or valid items present"),
        Sub("bodies", c11_shape_cases, c11_shape, 1600, 16000,
            "generated invalid containers, flat, collinear, coincident, too few, non-finite "
            "point sets; all non-trivial"),
    ]


# --- C12 ----------------------------------------------------------------------
def c12(case, ctx):
    B = body(case["body"]["pts"])
    notes(ctx, case, B)
    P = poly(case["body"]["pts"])
    rho, gc = case["rho"], case["gc"]
    for kind, o in case["stations"]:
        G, T = field(P, o, rho, gc, case["grad"], case["via"])
        g, t = B.field(o)
        lim = lim_g(B, o, rho, gc, g)
        ctx.label("station:" + kind)
        d = B.plane_distances(o)
        R = float(np.linalg.norm(B.pts - o, axis=1).max())
        inplane = int((np.abs(d) < 1e-10 * R).sum())
        exact = int((d == 0).sum())
        ctx.label("planes:%d" % min(inplane, 3), "exact" if exact else "inexact")
        ctx.hit(inplane > 0 and sharp(lim, rho * gc * 1e5 * g))
        cmp("gravity at the special point %s (%s)" % (o, kind), G, rho * gc * 1e5 * g, lim)
        if case["grad"] and t_defined(B, o):
            lt = lim_t(B, o, rho, gc, t)
            cmp("tensor at the special point %s (%s)" % (o, kind), T, rho * gc * 1e9 * t, lt)


@st.composite
def c12_limit_cases(draw):
    b = draw(gens.bodies(offsets=False))
    k, o = draw(gens.station_for(b["pts"], gens.SPECIAL_KINDS))
    u = draw(st.tuples(*[st.integers(-5, 5)] * 3))
    if not any(u):
        u = (1, 2, -1)
    return {"body": b, "station": [k, o], "u": u, "via": draw(vias),
            "h": draw(st.sampled_from([1e-4, 1e-5, 1e-6])), "rho": draw(gens.densities),
            "gc": draw(gens.constants), "grad": draw(st.booleans())}


def c12_limit(case, ctx):
    """gravity is continuous: at the special point it is close to gravity nearby"""
    B = body(case["body"]["pts"])
    kind, o = case["station"]
    o = np.array(o)
    h = case["h"] * B.size
    if B.edge_distance(o) < 10 * h:
        return
    u = np.array(case["u"], dtype=float)
    o2 = o + h * u / np.linalg.norm(u)
    P = poly(case["body"]["pts"])
    rho, gc = case["rho"], case["gc"]
    G, _ = field(P, o, rho, gc, case["grad"], case["via"])
    G2, _ = field(P, o2, rho, gc, case["grad"], case["via"])
    f = abs(rho * gc) * 1e5
    # |T| <= 4 pi + sum over edges of log terms
    tmax = 13 + 6 * len(B.edges) * math.log(2 + 2 * B.size / B.edge_distance(o))
    lim = f * (h * tmax + tol_g(B, o) + tol_g(B, o2))
    g = B.field(o)[0]
    ctx.label("station:" + kind)
    ctx.hit(lim < 0.2 * f * float(np.abs(g).max()))
    cmp("gravity at the special point %s and %.1e away" % (o.tolist(), h), G, G2, lim)


def C12():
    kinds = gens.SPECIAL_KINDS + ["axis", "face", "line"]
    return [
        Sub("special", lambda: cases(kinds), c12, 2600, 60000,
            "stations constructed in line with edges or diagonals, in face planes, on plane "
            "intersections, on faces, on grids; non-trivial: in the plane of at least one "
            "face (to 1e-10) and bound below 1e-3 of gravity"),
        Sub("limit", c12_limit_cases, c12_limit, 700, 12000,
            "special point and a neighbour; non-trivial: bound below 20% of gravity"),
    ]


# --- C27 -----------------------------------------------------------------------
@st.composite
def c27_cases(draw):
    b = draw(gens.bodies(nmax=10, round_max=14))
    return {"body": b, "station": draw(gens.station_for(b["pts"]))[1],
            "times": draw(st.integers(1, 2)), "used": draw(st.booleans())}


@st.composite
def c27_large_cases(draw):
    return {"body": {"kind": "large", "pts": gens.spiral(
        draw(st.integers(40, 130)), [draw(gens.posdec) for _ in range(3)],
        draw(st.integers(0, 99))).tolist()}, "station": [30.0, 20.5, 10.25], "times": 1,
        "used": False}


def c27(case, ctx):
    import plotly.basedatatypes as pb
    import plotly.graph_objects as go
    import plotly.io as pio

    if case["body"]["kind"] == "large":
        from refgrav import round_faces

        B = gens.Body(np.array(case["body"]["pts"]), round_faces)
    else:
        B = body(case["body"]["pts"])
    pts = np.array(case["body"]["pts"], dtype=float)
    P = poly(pts)
    o = np.array(case["station"], dtype=float)
    ok = B.edge_distance(o) > 1e-6 * B.size
    before = call("field", P.get_gravity, o, 1000.0, gens.GC, False)[0].copy() if ok else None
    shown = []
    keep = [(c, c.show) for c in (pb.BaseFigure, go.Figure)] + [(pio, pio.show)]
    for c, _ in keep:
        c.show = lambda fig, *a, **k: shown.append(fig)
    try:
        for _ in range(case["times"]):
            call("plot", P.plot)
    finally:
        for c, f in keep:
            c.show = f
        if "show" in vars(go.Figure):
            del go.Figure.show
    if len(shown) != case["times"]:
        fail("%d views shown for %d calls", len(shown), case["times"])
    tol = 1e-9 * B.size + 8 * EPS * float(np.abs(pts).max())
    for fig in shown:
        seg = []
        for tr in fig.data:
            if getattr(tr, "x", None) is None or tr.type != "scatter3d" or \
                    "lines" not in (tr.mode or "lines"):
                continue
            if not len(tr.x) == len(tr.y) == len(tr.z):
                fail("a line with %d, %d, %d coordinates", len(tr.x), len(tr.y), len(tr.z))
            line = list(zip(tr.x, tr.y, tr.z))
            for p, q in zip(line, line[1:]):
                if None in p or None in q or p != p or q != q:
                    continue  # a gap
                seg.append((p, q))
        if not seg:
            fail("the view has no line")
        S = np.array([s_ for s_, _ in seg], dtype=float)
        E = np.array([e for _, e in seg], dtype=float)
        N = np.array([n for _, n in B.faces], dtype=float)
        W = np.array([w[0] for w, _ in B.faces], dtype=float)
        for t in (0.0, 0.37, 1.0):
            # on the surface of a convex body: in the plane of a face, outside of none
            h = ((S + t * (E - S))[:, None, :] - W[None]) * N[None]
            h = np.abs(h.sum(2).max(1))
            for s_, e, d in zip(S, E, h):
                if not d <= tol:
                    fail("the view has a line from %s to %s, off the surface of the body",
                         s_.tolist(), e.tolist())
        L = E - S
        L2 = np.maximum((L * L).sum(1), 1e-300)
        for a, b in B.edges:
            a, b = a.astype(float), b.astype(float)
            for t in (0.02, 0.31, 0.5, 0.83, 0.98):
                m = a + t * (b - a)
                u = np.clip(((m - S) * L).sum(1) / L2, 0, 1)
                d = np.linalg.norm(S + u[:, None] * L - m, axis=1).min()
                if not d <= 10 * tol:
                    fail("the view lacks the edge from %s to %s", a.tolist(), b.tolist())
    if not np.array_equal(np.asarray(P.points, dtype=float), pts):
        fail("plotting changed the points of the body")
    if ok:
        g = call("field", P.get_gravity, o, 1000.0, gens.GC, False)[0]
        if not np.array_equal(g, before):
            fail("plotting changed the field from %s to %s", before.tolist(), g.tolist())
    ctx.label("body:" + case["body"]["kind"].split("/")[0])
    ctx.hit(len(B.faces) > 4)


def C27():
    return [Sub("view", c27_cases, c27, 240, 4000,
                "lines handed to plotly compared with the edges of the reference body; "
                "non-trivial: more than four faces"),
            Sub("large", c27_large_cases, c27, 16, 300,
                "the same for bodies of 40-130 corners")]
