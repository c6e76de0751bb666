"""C18..C24: configuration, coordinate sources, command line, result files.

The commands run in-process (typer's test runner) in a scratch directory with a scratch
HOME; log files go to the scratch directory too.
"""
import csv
import io
import math
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import boot
import gens
import geo
import refgeo as R
from gens import body, tol_g, tol_t
from grav import cmp, t_defined
from harness import Sub, call, fail

GC = gens.GC


def warm():
    import grav

    geo.warm()
    grav.warm()
    import pandas  # noqa: F401
    import typer.testing  # noqa: F401
    import yaml  # noqa: F401


class Box:
    """scratch folder with a home and a working directory of its own"""

    def __init__(self, shell=False):
        self.shell = shell  # start the program as 'python -m geec' does
        self.places = None  # a list: note where the program wants its logs
        self.dir = os.path.join(boot.scratch(), "box")
        shutil.rmtree(self.dir, ignore_errors=True)
        self.home = os.path.join(self.dir, "home")
        self.cwd = os.path.join(self.dir, "work")
        os.makedirs(self.home)
        os.makedirs(self.cwd)

    def __enter__(self):
        self.old = os.getcwd()
        self.env = os.environ.get("HOME")
        os.environ["HOME"] = self.home
        os.chdir(self.cwd)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        if self.env is not None:
            os.environ["HOME"] = self.env
        from loguru import logger

        logger.remove()
        shutil.rmtree(self.dir, ignore_errors=True)

    def userconf(self, data):
        d = os.path.join(self.home, ".config", "geec")
        os.makedirs(d, exist_ok=True)
        self.write(os.path.join(d, "config.yaml"), data)

    def write(self, path, data):
        import yaml

        with open(path, "w") as f:
            if isinstance(data, str):
                f.write(data)
            else:
                yaml.safe_dump(data, f, default_flow_style=None, allow_unicode=True)
        return path

    def snapshot(self):
        out = {}
        for base, dirs, files in os.walk(self.dir):
            rel = os.path.relpath(base, self.dir)
            if rel.startswith("log") or rel.startswith(os.path.join("home", ".config")):
                continue
            for f in files:
                with open(os.path.join(base, f), "rb") as fh:
                    out[os.path.normpath(os.path.join(rel, f))] = fh.read()
        return out


def command(box, *args):
    """run the command line program, in this process"""
    import geec.api
    import geec.cli
    from loguru import logger
    from pathlib import Path
    from typer.testing import CliRunner

    log = os.path.join(box.dir, "log")

    def logdir():
        os.makedirs(log, exist_ok=True)
        return Path(log)

    OWN.setdefault("setup_logdir", getattr(geec.api, "setup_logdir", None))
    if box.places is None:
        geec.api.setup_logdir = logdir
        redirect(log)
    else:  # the program's own log folder, which is not made
        geec.api.setup_logdir = OWN["setup_logdir"]
        redirect(log, box.places)
        make = os.mkdir

        def mkdir(path, *a, **k):
            if not os.path.abspath(os.fspath(path)).startswith(os.path.realpath(boot.REPO)):
                make(path, *a, **k)

        os.mkdir = mkdir
        try:
            return CliRunner().invoke(geec.cli.app, list(args))
        finally:
            os.mkdir = make
            logger.remove()
    if box.shell:
        return shell(args)
    r = CliRunner().invoke(geec.cli.app, list(args))
    logger.remove()
    return r


REAL_LOG = os.path.join(os.path.realpath(boot.REPO), "log")


OWN = {}  # replaced functions


def redirect(log, places=None):
    """log files meant for the package's own log folder go to the scratch folder, whatever
    way the package finds that folder; places: the folders they were meant for (all files)"""
    from loguru import logger

    cls = type(logger)
    if not hasattr(cls, "add_"):
        cls.add_ = cls.add

    def add(self, sink, *a, **k):
        if isinstance(sink, (str, os.PathLike)):
            p = os.path.abspath(os.fspath(sink))
            if places is not None:
                places.append(os.path.dirname(p))
                p = os.path.join(log, os.path.basename(p))
            for r in (REAL_LOG, os.path.join(os.path.abspath(boot.REPO), "log")):
                if p.startswith(r + os.sep):
                    p = os.path.join(log, os.path.relpath(p, r))
            sink = p
        return self.add_(sink, *a, **k)

    cls.add = add


class Ended:
    def __init__(self, code, text):
        self.exit_code, self.text, self.exception = code, text, None


def shell(args):
    """the program in a process of its own, as 'python -m geec ARGS' (imports are done)"""
    import runpy
    import sys
    import tempfile
    import traceback

    sys.stdout.flush()
    sys.stderr.flush()
    out = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.dup2(out.fileno(), 1)
            os.dup2(out.fileno(), 2)
            sys.stdout = os.fdopen(1, "w", closefd=False)
            sys.stderr = os.fdopen(2, "w", closefd=False)
            sys.argv = ["geec"] + list(args)
            try:
                runpy.run_module("geec", run_name="__main__", alter_sys=True)
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 255)
    _, st_ = os.waitpid(pid, 0)
    out.seek(0)
    text = out.read().decode("utf-8", "replace")
    out.close()
    return Ended(os.waitstatus_to_exitcode(st_), text)


def must(box, *args):
    r = command(box, *args)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        import traceback

        tb = traceback.extract_tb(r.exception.__traceback__)
        fail("'geec %s' raised %s: %s (at %s:%d)", " ".join(args), type(r.exception).__name__,
             str(r.exception)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno)
    if r.exit_code != 0:
        fail("'geec %s' ended with code %s%s", " ".join(args), r.exit_code,
             ": " + r.text[-300:] if box.shell else "")
    return r


# --- configuration layers (C18) --------------------------------------------------
NAMES = ["wgs84", "airy", "grs80", "clarke1866", "bessel", "hayford"]
num = st.sampled_from([0.0, 1.0, 917.5, 2670.0, -350.0, 1000, 3300.25, 12])
trip = st.tuples(*[st.integers(-50, 50).map(lambda i: i / 4)] * 3).map(list)
POINTS = st.lists(trip, min_size=1, max_size=3)
CRSL = {
    "ref": st.sampled_from(["cart", "ellps", "ecef", "CART", "Ellps", None]),
    "name": st.sampled_from(NAMES + [None]),
    "semimajor_axis": st.sampled_from([None, 6378137.0, 6377000.5]),
    "semiminor_axis": st.sampled_from([None, 6356752.0, 6355000.25]),
    "longitude_origin": st.sampled_from([None, 0.0, 12.5, 180.0]),
    "latitude_origin": st.sampled_from([None, -33.0, 45.25]),
    "altitude_origin": st.sampled_from([None, 0, 150.5]),
}
MASSL = {"points": st.one_of(st.none(), POINTS), "file_path": st.sampled_from(
    [None, "/nowhere/a.csv", "b.csv"]), "density": num,
    "gravity_constant": st.sampled_from([GC, 1.0, 6.67e-11]),
    "crs": dict(CRSL, vdatum=st.sampled_from(["ellps", "egm96", "egm84", "egm2008", None]))}
GRIDL = {"xstart_xend_xstep": trip, "ystart_yend_ystep": trip, "zstart_zend_zstep": trip}
OBSL = {"points": st.one_of(st.just([]), POINTS), "file_path": st.sampled_from(
    [None, "", "obs.csv"]), "grid": GRIDL, "crs": CRSL}


@st.composite
def tree(draw, schema, p):
    out = {}
    for k in sorted(schema):
        v = schema[k]
        if draw(st.integers(0, 9)) >= p:
            continue
        if isinstance(v, dict):
            t = draw(tree(v, p))
            if t:
                out[k] = t
        else:
            out[k] = draw(v)
    return out


@st.composite
def layer(draw):
    p = draw(st.sampled_from([2, 5, 8, 10]))
    out = {}
    if draw(st.booleans()):
        n = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 6]))
        out["masses"] = [draw(tree(MASSL, p)) for _ in range(n)]
        if draw(st.integers(0, 14)) == 11:  # a dozen: the first ones again, with changes
            out["masses"] += [{**out["masses"][i % n], "density": 100.5 + i}
                              for i in range(draw(st.integers(5, 12)))]
    if draw(st.booleans()):
        t = draw(tree(OBSL, p))
        if t:
            out["observers"] = t
    return out


def leaves(d, path=()):
    if isinstance(d, dict):
        for k in d:
            yield from leaves(d[k], path + (k,))
    elif isinstance(d, list) and path and path[-1] == "masses":
        for i, v in enumerate(d):
            yield from leaves(v, path + (i,))
    else:
        yield path


MISSING = object()


def lookup(d, path):
    for k in path:
        if isinstance(d, dict):
            if k not in d:
                return MISSING
            d = d[k]
        elif isinstance(d, list) and isinstance(k, int):
            if k >= len(d):
                return MISSING
            d = d[k]
        else:
            return MISSING
    return d


def default_config():
    import yaml

    with open(os.path.join(boot.REPO, "geec", "cfg", "config_default.yaml")) as f:
        return yaml.safe_load(f)


# how the argument file is named on the command line, in the working directory
ARGNAMES = ["ABS/arg.yaml", "arg.yaml", "./arg.yaml", "sub/my settings.yaml", "a.yml", "plain",
            "config.v2.yaml", "../up.yaml", "ABS/arg.conf"]


@st.composite
def c18_cases(draw):
    return {"user": draw(st.one_of(st.none(), layer(), layer())),
            "arg": draw(st.one_of(st.none(), layer(), layer(), layer())),
            "name": draw(st.sampled_from(ARGNAMES)),
            "decoy": draw(st.lists(st.sampled_from(["config.yaml", "geec.yaml", "sub/arg.yaml"]),
                                   max_size=2))}


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or \
            isinstance(a, str) or isinstance(b, str):
        return a == b and type(a) is type(b)
    return float(a) == float(b)


def setup(box, case):
    import geec.config

    if case["user"] is not None:
        box.userconf(case["user"])
    path = None
    if case["arg"] is not None:
        path = case.get("name", "ABS/arg.yaml").replace("ABS", box.cwd)
        os.makedirs(os.path.join(box.cwd, "sub"), exist_ok=True)
        box.write(path, case["arg"])
    for d in case.get("decoy", []):  # other configuration files nobody asked for
        d = os.path.join(box.cwd, d)
        if not os.path.exists(d):
            os.makedirs(os.path.dirname(d), exist_ok=True)
            box.write(d, {"masses": [{"density": -77.0, "points": [[7.0, 7.0, 7.0]]}] * 5,
                          "observers": {"points": [[7.0, 7.0, 7.0]]}})
    return call("reading the configuration", geec.config.setup, path)


def c18(case, ctx):
    dflt = default_config()
    layers = [x for x in (case["arg"], case["user"], dflt) if x is not None]
    with Box() as box:
        cfg = setup(box, case)
        paths = []
        for ly in layers:
            for p in leaves(ly):
                if p not in paths:
                    paths.append(p)
        over = 0
        for p in paths:
            want = MISSING
            for ly in layers:
                want = lookup(ly, p)
                if want is not MISSING:
                    over += ly is not layers[-1] and lookup(layers[-1], p) is not MISSING
                    break
            view = cfg
            for k in p:
                view = view[k]
            got = call("reading %s" % (p,), view.get)
            if not same(got, want):
                fail("setting %s is %r, expected %r (argument file %r, user file %r)",
                     "/".join(map(str, p)), got, want,
                     None if case["arg"] is None else lookup(case["arg"], p),
                     None if case["user"] is None else lookup(case["user"], p))
        nm = next(len(ly["masses"]) for ly in layers if "masses" in ly)
        got = len(list(cfg["masses"]))
        if got != nm:
            fail("%d masses, expected %d", got, nm)
    both = case["arg"] is not None and case["user"] is not None
    ctx.label("arg" if case["arg"] is not None else "no arg",
              "user" if case["user"] is not None else "no user",
              "overrides:%d" % min(over, 5))
    ctx.hit(over > 0 or (both and len(paths) > 30))


# what the program makes of layered settings
@st.composite
def c18_eff_cases(draw):
    def one(required):
        m = draw(tree(MASSL, draw(st.sampled_from([2, 5, 10]))))
        m.pop("file_path", None)
        if m.get("points", 1) is None:
            m.pop("points")
        c = m.get("crs", {})
        c.pop("semimajor_axis", None)
        c.pop("semiminor_axis", None)
        if required and "points" not in m:
            m["points"] = draw(POINTS)
        return m

    def obs():
        o = draw(tree(OBSL, draw(st.sampled_from([2, 5, 10]))))
        o.pop("file_path", None)
        o.pop("grid", None)
        c = o.get("crs", {})
        c.pop("semimajor_axis", None)
        c.pop("semiminor_axis", None)
        if o.get("points") == []:
            o.pop("points")
        return o

    where = draw(st.sampled_from(["arg", "user", "both"]))
    user = {"masses": [one(where == "user")], "observers": obs()} if draw(
        st.booleans()) or where != "arg" else None
    arg = {"masses": [one(where != "user")], "observers": obs()}
    # further masses say everything
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        m = draw(tree(MASSL, 10))
        m.update(file_path=None, points=draw(POINTS))
        m["crs"].update(semimajor_axis=None, semiminor_axis=None)
        arg["masses"].append(m)
    if len(arg["masses"]) > 1 and draw(st.integers(0, 3)) == 2:
        arg["masses"] += [{**arg["masses"][1], "density": 100.5 + i}
                          for i in range(draw(st.integers(1, 14)))]
    pl = draw(POINTS)
    (arg if where != "user" else user)["observers"]["points"] = pl
    return {"user": user, "arg": arg}


def c18_eff(case, ctx):
    import geec.mass
    import geec.observer

    dflt = default_config()
    layers = [x for x in (case["arg"], case["user"], dflt) if x is not None]

    def val(*p):
        for ly in layers:
            v = lookup(ly, p)
            if v is not MISSING:
                return v
        return None

    with Box() as box:
        cfg = setup(box, case)
        ms = call("reading the masses", geec.mass.get_masses, cfg)
        ob = call("reading the observers", geec.observer.get_observer, cfg)
        n = len(case["arg"]["masses"])
        if len(ms) != n:
            fail("%d masses, expected %d", len(ms), n)
        for i, m in enumerate(ms):
            for what, got, key in (("density", m.density, "density"),
                                   ("gravity constant", m.gravity_constant, "gravity_constant")):
                if float(got) != float(val("masses", i, key)):
                    fail("%s of mass %d is %r, expected %r", what, i, got,
                         val("masses", i, key))
        for what, ds, root in [("mass %d" % i, m.dataset, ("masses", i))
                               for i, m in enumerate(ms)] + [
                                   ("observer", ob.dataset, ("observers",))]:
            want = np.array(val(*root, "points"), dtype=float)
            if not np.array_equal(np.array(ds.coords, dtype=float), want):
                fail("%s points are %s, expected %s", what, np.array(ds.coords).tolist(),
                     want.tolist())
            ref = (val(*root, "crs", "ref") or "ellps").lower()
            if str(ds.crs.name.value) != ref:
                fail("%s is %s, expected %s", what, ds.crs.name, ref)
            if ref == "ellps":
                nm = val(*root, "crs", "name") or "wgs84"
                a, b = geo.models()[nm]
                if abs(ds.crs.ellps.semimajor_axis - a) > 1e-6 or \
                        abs(ds.crs.ellps.semiminor_axis - b) > 1e-6:
                    fail("%s ellipsoid is %s, expected %s", what, ds.crs.ellps, nm)
                vd = (val(*root, "crs", "vdatum") or "ellps")
                if str(ds.crs.vdatum.value) != vd:
                    fail("%s vertical datum is %s, expected %s", what, ds.crs.vdatum, vd)
    ctx.label("user" if case["user"] else "no user", "masses:%d" % min(n, 5))
    ctx.hit(case["user"] is not None or n > 1)


def C18():
    return [
        Sub("layers", c18_cases, c18, 1600, 24000,
            "partial user and argument files over the packaged default, every leaf compared; "
            "non-trivial: some setting of the default is overridden, or both files present"),
        Sub("effective", c18_eff_cases, c18_eff, 800, 12000,
            "1-17 masses and the observers as read from layered files; non-trivial: both files "
            "present or several masses"),
    ]


# --- C19 -----------------------------------------------------------------------
def cased(draw, s):
    how = draw(st.sampled_from(["lower", "upper", "title", "mixed"]))
    if how == "lower":
        return s
    if how == "upper":
        return s.upper()
    if how == "title":
        return s.title()
    k = draw(st.integers(1, 255))
    return "".join(ch.upper() if (k >> i) & 1 else ch for i, ch in enumerate(s))


BADREF = ["cartesian", "wgs84", "enu2", "ecf", "geo", "ellipsoid", "lla", "utm", " ellps",
          "ellps ", "name", "crs", "egm96", "car", "xyz", 5, 1.5]
BADVD = ["egm", "egm2009", "msl", "wgs84", "egm 96", "egm1996", "geoid", "enu", "cart", 96,
         "egm96 ", "navd88"]
BADELL = ["wgs85", "earth", "ellps", "wgs_84", "clarke", "cart", "xyz", "egm96", "grs"]


@st.composite
def c19_cases(draw):
    kind = draw(st.sampled_from(["ok"] * 8 + ["badref", "badvd", "badell", "badorigin"]))
    ref = draw(st.sampled_from(["cart", "ecef", "ellps", "ellps", "enu", "enu", None,
                                "missing"]))
    vd = draw(st.sampled_from(["ellps", "egm84", "egm96", "egm2008", None, "missing"]))
    ell = draw(st.one_of(st.none(), st.sampled_from(sorted(geo.models())),
                         st.tuples(st.floats(3e6, 8e6), st.floats(0.9, 1.0)).map(
                             lambda t: [t[0], t[0] * t[1]])))
    org = draw(geo.origins)
    if draw(st.booleans()):
        org = [int(v) for v in org]
    c = {"name": None, "semimajor_axis": None, "semiminor_axis": None,
         "longitude_origin": org[0], "latitude_origin": org[1], "altitude_origin": org[2]}
    if kind == "badref":
        ref = draw(st.sampled_from(BADREF))
        c["ref"] = ref
    elif ref is None:
        c["ref"] = None
    elif ref != "missing":
        c["ref"] = cased(draw, ref)
    if kind in ("badvd", "badell"):
        c["ref"] = ref = draw(st.sampled_from(["ellps", "enu"]))
    if kind == "badvd":
        vd = draw(st.sampled_from(BADVD))
        c["vdatum"] = vd
    elif vd is None:
        c["vdatum"] = None
    elif vd != "missing":
        c["vdatum"] = cased(draw, vd)
    if isinstance(ell, str):
        c["name"] = ell
        if draw(st.integers(0, 3)) == 0:  # the name goes before axes
            c["semimajor_axis"], c["semiminor_axis"] = 6.0e6, 5.9e6
    elif ell:
        c["semimajor_axis"], c["semiminor_axis"] = ell
        if draw(st.integers(0, 3)) == 2:  # one axis alone: the default ellipsoid
            c[draw(st.sampled_from(["semimajor_axis", "semiminor_axis"]))] = None
            ell = None
    if kind == "badell":
        c["name"] = draw(st.sampled_from(BADELL))
    if kind == "badorigin":
        c["ref"] = ref = "enu"
        c[draw(st.sampled_from(["longitude_origin", "latitude_origin",
                                "altitude_origin"]))] = draw(st.sampled_from(
                                    [None, "greenwich", [1.0]]))
    if ref in ("cart", "ecef") and draw(st.booleans()):
        for k in ("longitude_origin", "latitude_origin", "altitude_origin"):
            c[k] = None
    return {"kind": kind, "ref": ref, "vd": vd, "ell": ell, "crs": c, "org": org}


def mass_entry(pts, c, rho=1000.0, gc=GC, path=None):
    return {"points": pts, "file_path": path, "density": rho, "gravity_constant": gc, "crs": c}


FULLCRS = {"ref": "cart", "name": None, "semimajor_axis": None, "semiminor_axis": None,
           "longitude_origin": None, "latitude_origin": None, "altitude_origin": None,
           "vdatum": None}


def c19(case, ctx):
    import confuse
    import geec.config
    import geec.crs

    with Box() as box:
        # second mass: nothing of it comes from the packaged default
        f = box.write(os.path.join(box.cwd, "c.yaml"), {"masses": [
            mass_entry([[0.0, 0.0, 0.0]], dict(FULLCRS)),
            mass_entry([[0.0, 0.0, 0.0]], case["crs"])]})
        cfg = call("reading the configuration", geec.config.setup, f)
        view = cfg["masses"][1]["crs"]
        ctx.label(case["kind"], "ref:%s" % (case["ref"],) if case["kind"] == "ok" else "refused")
        if case["kind"] != "ok":
            ctx.hit()
            try:
                got = geec.crs.get_crs(view)
            except confuse.ConfigError:
                return
            except Exception as e:  # noqa: BLE001
                fail("%s gives %s: %s, expected a configuration error", case["crs"],
                     type(e).__name__, str(e)[:150])
            fail("%s was accepted as %s", case["crs"], got)
        crs = call("coordinate system %s" % case["crs"], geec.crs.get_crs, view)
    ref = case["ref"] if case["ref"] in ("cart", "ecef", "enu") else "ellps"
    if crs.name != geec.crs.CRSEnum(ref):
        fail("%s is read as %s, expected %s", case["crs"], crs.name, ref)
    if ref in ("ellps", "enu"):
        ctx.hit()
        vd = case["vd"] if case["vd"] not in (None, "missing") else "ellps"
        if str(crs.vdatum.value) != vd:
            fail("%s: vertical datum read as %s, expected %s", case["crs"], crs.vdatum, vd)
        ell = case["ell"]
        a, b = geo.models()["wgs84"] if ell is None else \
            geo.models()[ell] if isinstance(ell, str) else ell
        for e in [crs.ellps] + ([crs.enu.ellps] if ref == "enu" else []):
            if e.semimajor_axis != a or e.semiminor_axis != b:
                fail("%s: ellipsoid with axes %r, %r, expected %r, %r", case["crs"],
                     e.semimajor_axis, e.semiminor_axis, a, b)
        if isinstance(ell, str) and crs.ellps.name != ell:
            fail("%s: ellipsoid named %r", case["crs"], crs.ellps.name)
    if ref == "enu":
        got = [crs.enu.longitude_origin, crs.enu.latitude_origin, crs.enu.altitude_origin]
        if got != case["org"]:
            fail("%s: origin %s", case["crs"], got)


ellipsoid_args = st.one_of(
    st.just({}), st.sampled_from(sorted(geo.models())).map(lambda n: {"name": n}),
    st.tuples(st.floats(3e6, 8e6), st.floats(0.9, 1.0)).map(
        lambda t: {"semimajor_axis": t[0], "semiminor_axis": t[0] * t[1]}),
    st.floats(3e6, 8e6).map(lambda a: {"semimajor_axis": a}),
    st.floats(3e6, 8e6).map(lambda a: {"semiminor_axis": a}))


@st.composite
def c19_label_cases(draw):
    one = draw(ellipsoid_args)
    return {"system": one, "origin": draw(st.one_of(st.just(one), st.just(one), ellipsoid_args)),
            "vd": draw(st.sampled_from(["ellps", "egm84", "egm96", "egm2008"])),
            "org": draw(geo.origins)}


def c19_label(case, ctx):
    """labels made by hand: an ellipsoid has the axes asked for; a local system whose origin
    refers to another ellipsoid is refused"""
    import geec.crs as c

    def axes(a):
        if "name" in a:
            return geo.models()[a["name"]]
        if len(a) == 2:
            return (a["semimajor_axis"], a["semiminor_axis"])
        return geo.models()["wgs84"]

    made = []
    for a in (case["system"], case["origin"]):
        e = call("ellipsoid %s" % a, c.Ellipsoid, **a)
        if (e.semimajor_axis, e.semiminor_axis) != tuple(axes(a)):
            fail("ellipsoid %s has axes %r, %r", a, e.semimajor_axis, e.semiminor_axis)
        made.append(e)
    o = case["org"]
    n = call("origin", c.ENU, ellps=made[1], longitude_origin=o[0], latitude_origin=o[1],
             altitude_origin=o[2])
    vd = c.VDatumEnum(case["vd"])
    for name in (c.CRSEnum.ENU, c.CRSEnum.ELLPS):
        other = tuple(axes(case["system"])) != tuple(axes(case["origin"]))
        ctx.label("differ" if other else "same")
        ctx.hit(other)
        if name == c.CRSEnum.ENU and other:
            try:
                got = c.CRS(name=name, ellps=made[0], enu=n, vdatum=vd)
            except ValueError:
                continue
            fail("a local system on %s with an origin on %s was accepted: %s", case["system"],
                 case["origin"], got)
        if name == c.CRSEnum.ENU and case["system"] != case["origin"]:
            continue  # the same axes under two names
        k = call("coordinate system", c.CRS, name=name, ellps=made[0],
                 enu=n if name == c.CRSEnum.ENU else None, vdatum=vd)
        if k.name != name or k.vdatum != vd or k.ellps != made[0] or (
                name == c.CRSEnum.ENU and (k.enu.longitude_origin, k.enu.latitude_origin,
                                           k.enu.altitude_origin) != tuple(o)):
            fail("coordinate system made as %s", k)


def C19():
    return [Sub("labels", c19_label_cases, c19_label, 1200, 20000,
                "ellipsoids and systems made by hand; non-trivial: origin and system on "
                "different ellipsoids"),
            Sub("crs", c19_cases, c19, 2400, 40000,
                "generated 'crs' settings (documented names in any letter case, null, missing, "
                "custom axes, origins; unknown names); non-trivial: an ellipsoid is involved "
                "or the setting must be refused")]


# --- C20 -----------------------------------------------------------------------
xs = st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6, allow_nan=False),
               st.integers(-10 ** 6, 10 ** 6).map(lambda i: i / 1000.0),
               st.sampled_from([0.0, 1e-9, -1e-12, 6378137.0, 1e5, -0.5, 1e-300, 3]))
small = st.integers(0, 3)
coords = st.one_of(*[st.lists(st.tuples(xs, xs, xs).map(list), min_size=1, max_size=8)] * 3,
                   st.lists(st.tuples(small, small, small).map(list), min_size=1, max_size=8),
                   st.lists(st.sampled_from([[0, 1, 2], [1, 2, 3], [0, 0, 0], [0.0, 1.0, 2.0],
                                             [2, 1, 0], [1, 1, 1], [-1, 0, 1]]),
                            min_size=1, max_size=8))


def longlist(t):
    n, a, b = t
    return [[a + i * 0.37, (b * (i + 1) * 0.618034) % 100.0, -i / 7.0] for i in range(n)]


long_coords = st.tuples(st.one_of(st.integers(100, 1500), st.integers(1500, 12000)), st.integers(-50, 50), st.integers(1, 99)).map(
    longlist)
FMT = ["repr", "e17", "spaces", "plus", "intish"]


def csv_text(pts, fmt, eol="\n", last=True):
    rows = []
    for p in pts:
        if fmt == "repr":
            rows.append(",".join(repr(v) for v in p))
        elif fmt == "e17":
            rows.append(",".join("%.17e" % v for v in p))
        elif fmt == "spaces":
            rows.append(",  ".join(repr(float(v)) for v in p))
        elif fmt == "plus":
            rows.append(", ".join("%+.17g" % v for v in p))
        else:
            rows.append(",".join(repr(int(v)) if float(v) == int(v) else repr(v) for v in p))
    return eol.join(rows) + (eol if last else "")


def downwards(draw, a):
    """an axis of a grid, now and then from top to bottom"""
    if draw(st.integers(0, 4)) != 3:
        return a
    start, end, step, n = a
    return [start, start - (end - start), -step, n]


@st.composite
def grids(draw):
    g = []
    if draw(st.integers(0, 3)) == 2:  # whole numbers
        for _ in range(3):
            n, start = draw(st.integers(1, 4)), draw(st.integers(-20, 20))
            step = draw(st.sampled_from([1, 2, 3, 100]))
            g.append([start, start + n * step - draw(st.integers(0, step - 1)), step, n])
        return [downwards(draw, a) for a in g]
    for _ in range(3):
        step = draw(st.sampled_from([1, 0.1, 0.7, 2.5, 100, 0.25, 3]))
        n = draw(st.integers(1, 4)) if draw(st.integers(0, 15)) else draw(st.integers(5, 40))
        start = draw(st.one_of(st.integers(-20, 20), st.integers(-200, 200).map(
            lambda i: i / 10.0)))
        frac = draw(st.sampled_from([0.1, 0.5, 0.9]))
        if isinstance(step, int) and isinstance(start, int) and draw(st.booleans()):
            end = start + n * step  # exact, excluded
        else:
            end = start + (n - 1 + frac) * step
        g.append([start, end, step, n])
    return [downwards(draw, a) for a in g]


@st.composite
def c20_cases(draw):
    many = draw(st.integers(0, 19)) == 13
    return {"points": draw(coords), "filepts": draw(long_coords if many else coords),
            "grid": draw(grids()), "src": draw(st.sampled_from(["points", "file", "grid", "points+file",
                                         "points+grid", "file+grid", "all", "none",
                                         "missing", "missing+grid"])),
            "name": draw(st.sampled_from(["pts.csv", "pts.csv", "pts.txt", "points", "pts.dat",
                                          "my points.csv", "points-\u00e9t\u00e9.csv", "sub/x.csv",
                                          "../y.csv", "a.b.c", "PTS.CSV", "#1.csv", "x.csv.txt"])),
            "blank": draw(st.lists(st.sampled_from(["start", "middle", "end"]), max_size=2))
            if draw(st.booleans()) else [],
            "fmt": draw(st.sampled_from(FMT)), "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "last": draw(st.booleans()), "role": draw(st.sampled_from(["observer", "mass",
                                                                       "mass2"])),
            "empty": draw(st.sampled_from([None, []])), "rel": draw(st.booleans())}


def grid_points(g):
    ax = [[s + i * d for i in range(n)] for s, e, d, n in g]
    return [[x, y, z] for x in ax[0] for y in ax[1] for z in ax[2]]


def c20(case, ctx):
    import geec.config
    import geec.dataset
    import geec.mass
    import geec.observer

    src = case["src"]
    role = case["role"]
    if role != "observer" and ("grid" in src or src == "all"):
        role = "observer"
    with Box() as box:
        has_p = src in ("points", "points+file", "points+grid", "all")
        has_f = "file" in src or src == "all" or "missing" in src
        has_g = "grid" in src or src == "all"
        path = os.path.normpath(os.path.join(box.cwd, case.get("name", "pts.csv")))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if "missing" in src:
            path = os.path.join(box.cwd, "absent.csv")
        elif has_f:
            with open(path, "w", newline="") as f:
                t = csv_text(case["filepts"], case["fmt"], case["eol"], case["last"])
                blank = case.get("blank", [])
                if "end" in blank:
                    t += case["eol"] * 2
                if "start" in blank:
                    t = case["eol"] + t
                if "middle" in blank:
                    t = t.replace(case["eol"], case["eol"] * 2, 1)
                f.write(t)
        if case["rel"]:
            path = os.path.relpath(path, box.cwd)
        d = {"points": case["points"] if has_p else case["empty"],
             "file_path": path if has_f else None, "crs": dict(FULLCRS)}
        if role == "observer":
            d["grid"] = {k: g[:3] for k, g in zip(
                ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"), case["grid"])} \
                if has_g else {}
            if not has_g and not has_p and not has_f:
                # an empty mapping would fall back to the packaged grid: read a mass instead
                role = "mass"
                d.pop("grid")
        if role != "observer":
            d.update(density=1000.0, gravity_constant=GC)
            other = mass_entry([[9.0, 9.0, 9.0]], dict(FULLCRS))
            conf = {"masses": [d] if role == "mass" else [other, d]}
        else:
            conf = {"observers": d}
        cfg = call("reading the configuration", geec.config.setup,
                   box.write(os.path.join(box.cwd, "c.yaml"), conf))

        def read():
            if role == "observer":
                return geec.observer.get_observer(cfg).dataset
            return geec.mass.get_masses(cfg)[-1].dataset

        ctx.label("src:" + src, "role:" + role, "fmt:" + case["fmt"])
        if "missing" in src:
            ctx.hit()
            try:
                read()
            except FileNotFoundError:
                return
            except Exception as e:  # noqa: BLE001
                fail("a missing file gives %s: %s", type(e).__name__, str(e)[:150])
            fail("a missing file was accepted")
        if not (has_p or has_f or has_g):
            ctx.hit()
            try:
                r = read()
            except Exception:  # noqa: BLE001
                return
            fail("no source of points was accepted: %s", r.coords)
        ds = call("reading coordinates (%s)" % src, read)
    X = np.array(ds.coords)
    if X.dtype.kind != "f":
        fail("coordinates have type %s", X.dtype)
    if has_p:
        want, tol = np.array(case["points"], dtype=float), 0.0
    elif has_f:
        want, tol = np.array(case["filepts"], dtype=float), 1e-13
    else:
        want, tol = np.array(grid_points(case["grid"]), dtype=float), 1e-9
        ctx.label("grid:%d" % min(len(want), 8))
    if X.shape != want.shape:
        fail("read %d points (shape %s), expected %d: %s", len(X), X.shape, len(want), src)
    # (the reader of files keeps 17 digits, leading zeros included: 0.000299... loses some)
    lim = tol * (np.abs(want) + (1.0 if tol == 1e-9 else 0.0)) + (1e-15 if tol else 0.0)
    if not (np.abs(X - want) <= lim).all():
        k = int(np.argmax(np.abs(X - want) - lim)) // 3
        fail("point %d read as %s, expected %s (%s)", k, X[k].tolist(), want[k].tolist(), src)
    for i, nm in enumerate(("lon", "lat", "alt")):
        if not np.array_equal(np.array(getattr(ds, nm)), X[:, i]):
            fail("%s of the dataset is not column %d", nm, i)
    ctx.hit(len(want) > 1 or src in ("all", "points+file", "points+grid", "file+grid"))


def C20():
    return [Sub("sources", c20_cases, c20, 2400, 40000,
                "points inline, in a file (13 kinds of name, 5 number formats, line ends, empty lines) or as a "
                "grid, in all combinations, for observers and masses; non-trivial: more than "
                "one point, several sources, or an error expected")]


def in_shell(cases):
    return cases.map(lambda c: dict(c, shell=True))


# --- C21 -----------------------------------------------------------------------
XYZ = (["x_mes", "y_mes", "z_mes"], ["(m)"] * 3)
LLH = (["lon_mes", "lat_mes", "alt_mes"], ["(degree_east)", "(degree_north)", "(m)"])
GT = (["Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"], ["(mGal)"] * 3 + ["(E)"] * 6)


def read_csv(path):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    return rows


def table(what, path, head):
    if not os.path.isfile(path):
        fail("%s: no file %s", what, os.path.basename(path))
    rows = read_csv(path)
    if len(rows) < 2:
        fail("%s: %d lines", what, len(rows))
    if rows[0] != head[0] + GT[0]:
        fail("%s: columns %s, expected %s", what, rows[0], head[0] + GT[0])
    if rows[1] != head[1] + GT[1]:
        fail("%s: units %s, expected %s", what, rows[1], head[1] + GT[1])
    try:
        return np.array([[float(v) for v in r] for r in rows[2:]], dtype=float).reshape(-1, 12)
    except ValueError as e:
        fail("%s: %s", what, e)


def sym(v):
    return np.array([[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]])


def close_by(draw, o, size):
    d = draw(st.sampled_from([1e-2, 1e-3, 3e-4, 1e-4, 1e-5, 1e-6, 1e-7])) * size
    u = draw(st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 1, 1), (1, 1, -1)]))
    return [float(v + d * w) for v, w in zip(o, u)]


@st.composite
def c21_cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 6]))
    bs = []
    for _ in range(n):
        b = draw(gens.bodies(nmax=8, round_max=8, offsets=False, scales=[1.0, 1.0, 0.1]))
        sh = [v * 0.5 for v in draw(st.tuples(*[st.integers(-16, 16)] * 3))]
        bs.append({"kind": b["kind"], "pts": (np.array(b["pts"]) + sh).tolist()})
    if n > 1 and draw(st.integers(0, 4)) > 2:
        # the same body twice, or one that is easily taken for it
        bs[-1] = gens.relative(draw, bs[0]["pts"]) if draw(st.integers(0, 2)) else bs[0]
    if draw(st.integers(0, 19)) == 13:  # a dozen masses, copies of the first ones beside them
        bs += [{"kind": "copy", "pts": (np.array(bs[i % n]["pts"]) + [0.5 * i, -3, i % 5]).tolist()}
               for i in range(draw(st.integers(5, 12)))]
    rho = [draw(st.sampled_from([1000.0, 2670.0, -350.0, 917.5, 1, 3300, 0.5])) for _ in bs]
    gcs = [draw(st.sampled_from([GC, GC, 6.6743e-11, 1.0e-3, 6.67e-8])) for _ in bs]
    obs = [draw(gens.station_for(draw(st.sampled_from(bs))["pts"]))[1]
           for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 2)) == 2:  # close to another one
        obs.append(close_by(draw, obs[0], 1.0))
    return {"bodies": bs, "rho": rho, "gc": gcs, "obs": obs,
            "grid": [[s + 0.037, s + 0.037 + (n - 0.5) * d, d, n]
                     for s, e, d, n in draw(grids())],
            "osrc": draw(st.sampled_from(["points", "points", "file", "grid"])),
            "msrc": [draw(st.sampled_from(["points", "file"])) for _ in bs],
            "fmt": draw(st.sampled_from(["repr", "e17", "spaces"])),
            "gradient": draw(st.sampled_from([None, "--gradient", "--gradient",
                                              "--no-gradient"])),
            "out": draw(st.sampled_from(["out", "res.csv", "sub/dir/out", "abs"])),
            "user": draw(st.sampled_from([None, None, "below", "only"])),
            "ref": draw(st.sampled_from(["cart", "CART"])),
            "many": draw(st.integers(0, 11)) == 7, "intobs": draw(st.booleans()),
            "again": draw(st.integers(0, 3)) == 3}


def run_case(box, conf, out, gradient, user=False):
    """run the command on a configuration; the path of the result"""
    if out == "abs":
        out = os.path.join(box.dir, "elsewhere", "r")
    args = ["run", out]
    if user:
        box.userconf(conf)
    else:
        args += ["--config", box.write(os.path.join(box.cwd, "conf.yaml"), conf)]
    args += [gradient] if gradient else []
    must(box, *args)
    p = out if out.endswith(".csv") else out + ".csv"
    return os.path.join(box.cwd, p)


def c21(case, ctx):
    Bs = [body(b["pts"]) for b in case["bodies"]]
    grad = case["gradient"] == "--gradient"
    obs = case["obs"]
    if case["intobs"] and case["osrc"] == "points":
        obs = [[int(round(v)) for v in o] for o in obs]
    if case["osrc"] == "grid":
        obs = grid_points(case["grid"])
        if len(obs) > 150:
            return
    elif case["many"]:
        obs = obs + [[3.3 + 0.41 * i, -7.7 + 0.13 * i, 5.2 - 0.09 * i] for i in range(
            120 if len(Bs) > 1 else 270)]
    if case["again"] and case["osrc"] != "grid":
        obs = obs + obs[:2]  # an observer may be listed twice
    for o in obs:
        if any(B.edge_distance(o) < 1e-6 * B.size for B in Bs):
            return
    with Box(case.get("shell", False)) as box:
        conf = {"masses": [], "observers": {
            "points": obs if case["osrc"] == "points" else [], "file_path": None,
            "grid": {k: g[:3] for k, g in zip(
                ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"), case["grid"])},
            "crs": dict(FULLCRS, ref=case["ref"])}}
        conf["observers"]["crs"].pop("vdatum")
        if case["osrc"] == "file":
            p = os.path.join(box.cwd, "obs.csv")
            with open(p, "w") as f:
                f.write(csv_text(obs, case["fmt"]))
            conf["observers"]["file_path"] = p
        for i, b in enumerate(case["bodies"]):
            m = mass_entry(b["pts"], dict(FULLCRS, ref=case["ref"]), case["rho"][i],
                           case["gc"][i])
            if case["msrc"][i] == "file":
                p = os.path.join(box.cwd, "m%d.csv" % i)
                with open(p, "w") as f:
                    f.write(csv_text(b["pts"], case["fmt"]))
                m.update(points=None, file_path=p)
            conf["masses"].append(m)
        if case["user"] == "below":
            box.userconf({"masses": [{"density": 5.0, "gravity_constant": 3.0}]})
        path = run_case(box, conf, case["out"], case["gradient"], case["user"] == "only")
        D = table("result of the run", path, XYZ)
    if len(D) != len(obs):
        fail("%d rows for %d observers", len(D), len(obs))
    for o, row in zip(obs, D):
        if float(np.abs(row[:3] - o).max()) > 1e-9 * (1 + float(np.abs(o).max())):
            fail("row of observer %s has coordinates %s", o, row[:3].tolist())
        g, t, lg, lt, on = np.zeros(3), np.zeros((3, 3)), 0.0, 0.0, True
        for B, rho, gc in zip(Bs, case["rho"], case["gc"]):
            gi, ti = B.field(o)
            f = rho * gc
            g += f * 1e5 * gi
            t += f * 1e9 * ti
            lg += abs(f) * 1e5 * (2 * tol_g(B, o) + 1e-9 * float(np.abs(gi).max()))
            lt += abs(f) * 1e9 * (2 * tol_t(B, o) + 1e-8 * float(np.abs(ti).max()))
            # coordinates read from files or grids may be off by a few ulp
            on = on and B.surface_distance(o) > 1e-7 * B.size
        cmp("gravity of observer %s" % o, row[3:6], g, lg)
        if not grad:
            if row[6:].any():
                fail("gradient not requested, but columns are %s", row[6:].tolist())
        elif on:
            cmp("gradient of observer %s" % o, sym(row[6:]), t, lt)
    ctx.label("masses:%d" % len(Bs), "osrc:" + case["osrc"], "gradient" if grad else "plain",
              "rows:%d" % min(len(obs), 8), "user:%s" % case["user"])
    ctx.hit(len(Bs) > 1 or len(obs) > 1)


@st.composite
def c21_many_cases(draw):
    c = draw(c21_cases())
    n = draw(st.sampled_from([1, 1, 2]))
    T = np.array([[0, 0, 0], [1, 0.25, 0], [0.125, 1, 0], [0.25, 0.125, 1]])
    for k in ("rho", "gc", "msrc"):
        c[k] = (c[k] * 2)[:n]
    c["bodies"] = [{"kind": "tetra", "pts": (T * draw(st.integers(1, 6)) - 2 * i).tolist()}
                   for i in range(n)]
    m, a, b = draw(st.tuples(st.integers(400, 1500), st.integers(-50, 50), st.integers(1, 99)))
    c["obs"] = [[a / 10.0 + 0.037 * i, (b * (i + 1) * 0.618034) % 17.0 - 8.0,
                 9.0 - (i * 0.7548777) % 21.0] for i in range(m)]
    c.update(osrc=draw(st.sampled_from(["points", "file"])), many=False, again=draw(st.booleans()),
             gradient=draw(st.sampled_from([None, None, "--gradient"])))
    return c


def C21():
    return [Sub("run", c21_cases, c21, 700, 12000,
                "1-6 masses with densities and constants of their own, 1-276 observers from "
                "points, files or grids, end to end; non-trivial: several masses or observers"),
            Sub("many", c21_many_cases, c21, 24, 400,
                "one or two masses, 400-1500 observers; non-trivial: all"),
            Sub("shell", lambda: in_shell(c21_cases()), c21, 160, 2000,
                "the same, each run a process of its own started as 'python -m geec'; "
                "non-trivial: several masses or observers")]


# --- C22 -----------------------------------------------------------------------
@st.composite
def describe(draw, who):
    ref = draw(st.sampled_from(["ellps", "ellps", "enu", "ecef"]))
    d = {"ref": ref}
    if ref != "ecef":
        d["ellps"] = draw(st.one_of(st.just({"name": "wgs84"}), geo.ellipsoids()))
    if ref == "ellps":
        d["east"] = draw(st.booleans())  # longitudes 0..360
        d["vdatum"] = draw(st.sampled_from(["ellps", "egm84", "egm96", "egm2008"])) \
            if who == "mass" else "ellps"
    if ref == "enu":
        d["shift"] = [draw(st.integers(-3, 3)) / 10.0, draw(st.integers(-3, 3)) / 10.0,
                      draw(st.integers(-5, 5)) * 100.0]
    return d


@st.composite
def c22_cases(draw):
    lon = draw(st.one_of(st.sampled_from([0.0, 179.9, -179.9, 90.0, -75.25]),
                         st.integers(-1790, 1790).map(lambda i: i / 10.0)))
    lat = draw(st.one_of(st.sampled_from([0.0, 45.0, -60.0, 88.0, -89.5, 90.0, -90.0]),
                         st.integers(-880, 880).map(lambda i: i / 10.0)))
    S = draw(st.sampled_from([100.0, 1000.0, 1000.0, 20000.0]))
    n = draw(st.integers(1, 3))
    bs = []
    for _ in range(n):
        kind = draw(st.sampled_from(["tetra", "hexa"]))
        sh = np.array(draw(st.tuples(*[st.integers(-4, 4)] * 3)), dtype=float)
        sh[2] -= 2
        k = draw(st.tuples(*[st.integers(2, 9)] * 6))
        if kind == "tetra":
            P = np.array([[0, 0, 0], [k[0], 0.3, 0.2], [0.4, k[1], -0.3], [0.3, 0.1, -k[2]]])
        else:
            P = np.array([[k[0], 0.3, 0.1], [-k[1], -0.2, 0.3], [0.2, k[2], -0.1],
                          [-0.1, -k[3], 0.2], [0.3, 0.1, k[4]], [-0.2, 0.25, -k[5]]])
        bs.append(((P / 4.0 + sh) * S).tolist())
    obs = [[v * S / 8.0 for v in draw(st.tuples(*[st.integers(-40, 40)] * 3))]
           for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 3)) == 2:
        obs.append(close_by(draw, obs[0], draw(st.sampled_from([1.0, S]))))
    return {"lon": lon, "lat": lat, "S": S, "bodies": bs, "obs": obs,
            "mdesc": [draw(describe("mass")) for _ in bs], "odesc": draw(describe("obs")),
            "rho": [draw(st.sampled_from([1000.0, 2670.0, -350.0])) for _ in bs],
            "gc": [draw(st.sampled_from([GC, GC, 6.6743e-11, 5e-11])) for _ in bs],
            "gradient": draw(st.sampled_from([None, "--gradient"])),
            "file": draw(st.booleans()),
            "osrc": draw(st.sampled_from(["points", "points", "file", "grid"])),
            "ngrid": [draw(st.integers(1, 3)) for _ in range(3)],
            "down": [draw(st.integers(0, 3)) == 3 for _ in range(3)]}


def write_as(d, X):
    """coordinates and full description for Earth-centred positions X"""
    d = dict(d)
    if d["ref"] == "ecef":
        d["pts"] = geo.on_axis(X).tolist()
        return d
    a, b = geo.axes(d["ellps"])
    if d["ref"] == "enu":
        c = R.geodetic(X.mean(axis=0)[None], a, b)[0]
        o = [float(round(c[0] + d["shift"][0], 4)),
             float(min(90.0, max(-90.0, round(c[1] + d["shift"][1], 4)))),
             float(d["shift"][2])]
        d["origin"] = o
        d["pts"] = R.to_enu(X, *o, a, b).tolist()
        return d
    L = R.geodetic(X, a, b)
    if d["vdatum"] != "ellps":
        L[:, 2] -= [geo.geoid(d["vdatum"], p[0], p[1]) for p in L]
    if d["east"]:
        L[L[:, 0] < 0, 0] += 360.0
    d["pts"] = L.tolist()
    return d


def crs_entry(d):
    c = dict(FULLCRS, ref=d["ref"], vdatum=d.get("vdatum"))
    e = d.get("ellps", {})
    c["name"] = e.get("name")
    c["semimajor_axis"], c["semiminor_axis"] = e.get("a"), e.get("b")
    if "origin" in d:
        c["longitude_origin"], c["latitude_origin"], c["altitude_origin"] = d["origin"]
    return c


def c22(case, ctx):
    lon, lat = case["lon"], case["lat"]
    masses = [write_as(d, R.from_enu(b, lon, lat, 0.0, R.A84, R.B84))
              for d, b in zip(case["mdesc"], case["bodies"])]
    od = write_as(case["odesc"], R.from_enu(case["obs"], lon, lat, 0.0, R.A84, R.B84))
    grid = None
    if case["osrc"] == "grid":
        # a regular grid, in the units of the observers' system, from the first observer on
        m = case["S"] / 1.3
        deg = m / 111e3
        step = [deg / max(0.02, math.cos(math.radians(lat))), deg, m] \
            if od["ref"] == "ellps" else [m, m, m]
        p0 = [float(v) for v in od["pts"][0]]
        if od["ref"] == "ellps" and abs(p0[1]) + 4 * step[1] > 90:
            return
        step = [-d if down else d for d, down in zip(step, case.get("down", [0, 0, 0]))]
        grid = [[p, p + (n - 0.5) * d, d, n] for p, d, n in zip(p0, step, case["ngrid"])]
        od["pts"] = grid_points(grid)
        if od["ref"] == "ellps" and not all(-180 <= p[0] <= 360 for p in od["pts"]):
            return
    Bs = [body(geo.truth(d).tolist()) for d in masses]
    O = geo.truth(od)
    for o in O:
        if any(B.edge_distance(o) < 1e-2 * case["S"] for B in Bs):
            return
    grad = case["gradient"] is not None
    with Box() as box:
        oc = crs_entry(od)
        oc.pop("vdatum")
        conf = {"masses": [], "observers": {"points": od["pts"], "file_path": None,
                                            "crs": oc}}
        if grid:
            conf["observers"].update(points=[], grid={k: g[:3] for k, g in zip(
                ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"), grid)})
        elif case["osrc"] == "file":
            p = os.path.join(box.cwd, "o.csv")
            with open(p, "w") as f:
                f.write(csv_text(od["pts"], "repr"))
            conf["observers"].update(points=None, file_path=p)
        for i, d in enumerate(masses):
            m = mass_entry(d["pts"], crs_entry(d), case["rho"][i], case["gc"][i])
            if case["file"] and i == 0:
                p = os.path.join(box.cwd, "m.csv")
                with open(p, "w") as f:
                    f.write(csv_text(d["pts"], "repr"))
                m.update(points=None, file_path=p)
            conf["masses"].append(m)
        D = table("result of the run", run_case(box, conf, "out", case["gradient"]), LLH)
    if len(D) != len(O):
        fail("%d rows for %d observers", len(D), len(O))
    # metres: conversions to geographic coordinates and back
    pt = geo.ptol(O)[:, 0] * 2
    dx = float(max(pt.max(), *[2 * geo.ptol(B.pts).max() for B in Bs]))
    for o, row, po in zip(O, D, pt):
        if not (abs(row[0]) <= 360 and abs(row[1]) <= 90):
            fail("observer reported at longitude %r, latitude %r", row[0], row[1])
        P = R.ecef(row[None, :3], R.A84, R.B84)[0]
        if float(np.abs(P - o).max()) > po:
            fail("observer at %s reported as %s: %.3g m away", o.tolist(), row[:3].tolist(),
                 float(np.abs(P - o).max()))
        g, t, lg, lt, on = np.zeros(3), np.zeros((3, 3)), 0.0, 0.0, True
        for B, rho, gc in zip(Bs, case["rho"], case["gc"]):
            gi, ti = B.field(o)
            f = rho * gc
            ed = B.edge_distance(o)
            amp = 13 + 6 * len(B.edges) * math.log(2 + 2 * B.size / ed)
            g += f * 1e5 * gi
            t += f * 1e9 * ti
            lg += abs(f) * 1e5 * (tol_g(B, o) + dx * amp)
            lt += abs(f) * 1e9 * (tol_t(B, o) + dx * 12 * len(B.edges) / ed +
                                  1e-8 * float(np.abs(ti).max()))
            on = on and B.surface_distance(o) > 1e-2 * case["S"]
        ctx.hit(lg < 1e-2 * float(np.abs(g).max()))
        cmp("gravity of observer %s" % o.tolist(), row[3:6], g, lg)
        if not grad:
            if row[6:].any():
                fail("gradient not requested, but columns are %s", row[6:].tolist())
        elif on:
            cmp("gradient of observer %s" % o.tolist(), sym(row[6:]), t, lt)
    ctx.label("masses:%d" % len(Bs), "obs:" + od["ref"], "osrc:" + case["osrc"], *["mass:" + d["ref"] for d in masses])
    ctx.label(*["vdatum:" + d["vdatum"] for d in masses if d["ref"] == "ellps"])


def C22():
    return [Sub("scene", c22_cases, c22, 900, 16000,
                "one scene of 1-3 bodies and 1-3 observers somewhere on Earth, each described "
                "in a generated system; non-trivial: bound below 1% of gravity")]


# --- C23 -----------------------------------------------------------------------
vals = st.one_of(st.floats(allow_nan=False, allow_infinity=False),
                 st.floats(-1e-3, 1e-3, allow_nan=False), st.sampled_from(
                     [0.0, -0.0, 1e-300, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3,
                      123456789.123456789, -2.5e-8, 1e22, 1e16, 9007199254740993.0, 1e-5]))
PATHS = ["out", "out.csv", "out.dat", "a/b/c/res", "a/res.csv", "name.v2.csv", "dir.x/out",
         "~/res", "~/deep/er/res.csv", "./rel/../rel2/out", "ABS/x/y", "with space/o ut", "name.v2", ".hid",
         ".hid.csv", "OUT.CSV", "x.tar.gz", "caf\u00e9/\u00fcber", "dir.x/deep.y/o", "res-1.2",
         "a//b///c.csv", "%d{x}", "csv", "x.csv.csv"]


@st.composite
def c23_cases(draw):
    n = draw(st.integers(1, 5))
    return {"writes": [{"rows": [draw(st.lists(vals, min_size=12, max_size=12))
                                 for _ in range(draw(st.integers(1, n)))],
                        "path": draw(st.sampled_from(PATHS)),
                        "times": draw(st.integers(0, 24).map(lambda i: 700 if i == 17 else 1)),
                        "geo": draw(st.booleans())} for _ in range(draw(st.integers(1, 3)))],
            "other": draw(st.lists(st.sampled_from(["out.txt", "out", "a/keep.csv",
                                                    "res.csv", "out.dat"]), max_size=3)),
            # files beside the result
            "near": draw(st.lists(st.sampled_from([
                "%s.tmp", "%s.bak", "%s.csv.tmp", "%s.csv.bak", "%s.csv~", "%s.part", "%s.csv.part",
                "%s.old", "%s.lock", ".%s.tmp", ".%s.csv.swp", "%s.xlsx", "%s.json", "%s.yaml",
                "%s", "%s.txt", "%s_1.csv", "tmp", "tmp.csv", "temp.csv", "%s.csv.gz", "~%s.csv",
                "%s.new", "%s_new.csv", "%s_old.csv", "%s.log"]), max_size=12)),
            "empty": draw(st.booleans())}


def bits(v):
    return np.float64(v).tobytes()


def c23(case, ctx):
    import geec.api
    import pandas as pd

    with Box() as box:
        for o in case["other"]:
            p = os.path.join(box.cwd, o)
            if os.path.exists(p):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("precious " + o)
        done = 0
        for w in case["writes"]:
            w = dict(w, rows=w["rows"] * w["times"])
            head = LLH if w["geo"] else XYZ
            cols = pd.MultiIndex.from_tuples(zip(head[0] + GT[0], head[1] + GT[1]))
            df = pd.DataFrame(np.array(w["rows"], dtype=float), columns=cols)
            keep = df.to_numpy().copy()
            out = w["path"].replace("ABS", os.path.join(box.dir, "abs"))
            real = os.path.normpath(os.path.join(box.cwd, os.path.expanduser(out)))
            base, ext = os.path.splitext(real)
            real = base + ".csv"
            if os.path.isdir(real):
                continue
            blocked = os.path.dirname(real)
            while len(blocked) > len(box.dir):
                if os.path.isfile(blocked):
                    break
                blocked = os.path.dirname(blocked)
            if os.path.isfile(blocked):
                continue  # a file stands where a folder is needed
            for o in case.get("near", []):
                o = os.path.join(os.path.dirname(base), o.replace("%s", os.path.basename(base)))
                if os.path.isdir(os.path.dirname(o)) and not os.path.exists(o):
                    with open(o, "w") as f:
                        f.write("precious")
            before = box.snapshot()
            call("writing to %s" % w["path"], geec.api.write_file, df, out)
            after = box.snapshot()
            key = os.path.normpath(os.path.relpath(real, box.dir))
            for k in set(before) | set(after):
                if k != key and before.get(k) != after.get(k):
                    fail("writing %s changed %s", w["path"], k)
            if key not in after:
                fail("writing %s made no file %s", w["path"], key)
            rows = list(csv.reader(io.StringIO(after[key].decode("utf-8"), newline="")))
            if rows[:2] != [head[0] + GT[0], head[1] + GT[1]]:
                fail("header lines are %s", rows[:2])
            if len(rows) != 2 + len(w["rows"]):
                fail("%d lines for %d rows", len(rows), len(w["rows"]))
            for r, want in zip(rows[2:], w["rows"]):
                if len(r) != len(want):
                    fail("a line has %d fields", len(r))
                for a, b in zip(r, want):
                    if bits(float(a)) != bits(b):
                        fail("%r written as %r", b, a)
            if not np.array_equal(df.to_numpy(), keep):
                fail("writing changed the results")
            done += 1
        if case["empty"]:
            before = box.snapshot()
            df = pd.DataFrame(np.zeros((1, 2)), columns=["a", "b"])
            call("writing to no path", geec.api.write_file, df, "")
            if box.snapshot() != before:
                fail("writing to no path made a file")
    ctx.label("writes:%d" % done, *["path:" + w["path"] for w in case["writes"]])
    ctx.hit(done > 0)


# the numbers in the file are those the program computes
@st.composite
def c23_run_cases(draw):
    b = draw(gens.bodies(nmax=6, round_max=6, offsets=False, scales=[1.0]))
    obs = [draw(gens.station_for(b["pts"]))[1] for _ in range(draw(st.integers(1, 4)))]
    return {"body": b, "obs": obs, "rho": draw(st.sampled_from([1000.0, 917.5, -350.0])),
            "gradient": draw(st.booleans()), "twice": draw(st.booleans()),
            "out": draw(st.sampled_from(["out", "out.csv", "x/y/out"]))}


def c23_run(case, ctx):
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    B = body(case["body"]["pts"])
    if any(B.edge_distance(o) < 1e-6 * B.size for o in case["obs"]):
        return
    oc = dict(FULLCRS)
    oc.pop("vdatum")
    with Box() as box:
        conf = {"masses": [mass_entry(case["body"]["pts"], dict(FULLCRS), case["rho"])],
                "observers": {"points": case["obs"], "file_path": None, "crs": oc}}
        if case["twice"]:
            old = dict(conf, observers={"points": [[50.0, 60.0, 70.0]] * 9, "file_path": None,
                                        "crs": oc})
            run_case(box, old, case["out"], None)
        p = run_case(box, conf, case["out"], "--gradient" if case["gradient"] else None)
        D = table("result of the run", p, XYZ)
        made = [k for k in box.snapshot() if k.endswith(".csv")]
    if len(made) != 1:
        fail("result files: %s", made)
    P = Polyhedron(np.array(case["body"]["pts"], dtype=float))
    if len(D) != len(case["obs"]):
        fail("%d rows for %d observers", len(D), len(case["obs"]))
    for o, row in zip(case["obs"], D):
        s = Station(np.array(o, dtype=float))
        call("field", s.compute_gravity, P, case["rho"], GC, gradient=case["gradient"])
        want = np.concatenate([o, s.G, np.array(s.T).flatten()[[0, 1, 2, 4, 5, 8]]])
        scale = np.concatenate([np.abs(o), np.full(3, np.abs(s.G).max()),
                                np.full(6, np.abs(s.T).max() if np.isfinite(s.T).all() else
                                        np.inf)])
        lim = 1e-13 * scale
        lim[3:6] += 5e-3 * abs(case["rho"] * GC) * 1e5 * tol_g(B, o)
        lim[6:] += 5e-3 * abs(case["rho"] * GC) * 1e9 * tol_t(B, o)
        if not t_defined(B, o):
            lim[6:] = np.inf
        bad = ~(np.abs(row - want) <= lim)
        bad &= np.isfinite(lim)
        if bad.any():
            fail("file has %s, the station reports %s", row.tolist(), want.tolist())
    ctx.label("rows:%d" % len(D), "replaced" if case["twice"] else "new")
    ctx.hit()


def C23():
    return [
        Sub("write", c23_cases, c23, 1200, 20000,
            "1-3 writes of tables with arbitrary finite doubles to 12 kinds of path among "
            "other files; non-trivial: at least one write checked"),
        Sub("run", c23_run_cases, c23_run, 400, 6000,
            "run of the program, file compared with the station's numbers (1e-13); all "
            "non-trivial"),
    ]


# --- C25 -----------------------------------------------------------------------
FAULTS = ["mass ref", "mass ref", "obs ref", "mass ellipsoid", "obs ellipsoid", "mass vdatum",
          "mass origin", "obs origin", "mass no file", "obs no file", "mass text", "obs text",
          "mass few", "mass flat", "mass no points", "density", "constant", "no config",
          "yaml", "none", "none", "obs columns", "mass dir", "yaml list", "obs folder",
          "obs corner", "obs corner", "out blocked", "out is folder", "mass blank", "mass nan",
          "mass ragged", "obs ragged", "obs empty file",
          "mass latitude", "interrupt", "interrupt", "interrupt"]


ERRORS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
          "ZeroDivisionError": ZeroDivisionError, "OSError": OSError, "SystemExit": SystemExit}


class Interrupted:
    """the n-th computation of a field does not end"""

    def __init__(self, n, error):
        from geec.polyhedron import Polyhedron

        self.cls, self.left, self.error = Polyhedron, n, ERRORS[error]
        self.hit = False

    def __enter__(self):
        self.real = real = self.cls.get_gravity

        def get_gravity(*a, **k):
            if self.left == 0:
                self.hit = True
                raise self.error(*([3] if self.error is SystemExit else []))
            self.left -= 1
            return real(*a, **k)

        self.cls.get_gravity = get_gravity
        return self

    def __exit__(self, *a):
        self.cls.get_gravity = self.real


@st.composite
def c25_cases(draw):
    n = draw(st.integers(1, 3))
    bs = []
    for _ in range(n):
        b = draw(gens.bodies(nmax=6, round_max=6, offsets=False, scales=[1.0]))
        sh = [v * 0.5 for v in draw(st.tuples(*[st.integers(-16, 16)] * 3))]
        bs.append((np.array(b["pts"]) + sh).tolist())
    return {"bodies": bs, "fault": draw(st.sampled_from(FAULTS)),
            "at": draw(st.integers(0, n - 1)), "old": draw(st.booleans()),
            "out": draw(st.sampled_from(["out", "res.csv", "sub/dir/out", "abs"])),
            "gradient": draw(st.sampled_from([None, "--gradient"])),
            "file": draw(st.booleans()), "bad": draw(st.sampled_from(BADREF[:9])),
            "call": draw(st.integers(0, 99)), "error": draw(st.sampled_from(sorted(ERRORS))),
            "obs": [[v / 4.0 for v in draw(st.tuples(*[st.integers(60, 120)] * 3))]
                    for _ in range(draw(st.integers(1, 3)))]}


def c25(case, ctx):
    fault, at = case["fault"], case["at"]
    with Box(case.get("shell", False)) as box:
        conf = {"masses": [mass_entry(b, dict(FULLCRS)) for b in case["bodies"]],
                "observers": {"points": case["obs"], "file_path": None, "crs": dict(FULLCRS)}}

        def put(name, text):
            p = os.path.join(box.cwd, name)
            with open(p, "w") as f:
                f.write(text)
            return p

        if case["file"]:
            for i, m in enumerate(conf["masses"]):
                m.update(points=None, file_path=put("m%d.csv" % i, csv_text(m["points"], "repr")))
            conf["observers"].update(points=[], file_path=put("o.csv", csv_text(
                case["obs"], "repr")))
        m, o = conf["masses"][at], conf["observers"]
        who = o if fault.startswith("obs") else m
        geog = {"longitude_origin": 1.0, "latitude_origin": 2.0, "altitude_origin": 3.0}
        kind = fault.split(" ", 1)[-1] if fault[:4] in ("mass", "obs ") else fault
        if kind == "ref":
            who["crs"]["ref"] = case["bad"]
        elif kind == "ellipsoid":
            who["crs"].update(geog, ref="ellps" if case["old"] else "enu", name="no such")
        elif kind == "vdatum":
            who["crs"].update(ref="ellps", vdatum="egm2009")
        elif kind == "origin":
            who["crs"].update(geog, ref="enu")
            who["crs"][sorted(geog)[at % 3]] = None
            who["crs"]["longitude_origin"] = None
        elif kind == "no file":
            who.update(points=[], file_path=os.path.join(box.cwd, "absent.csv"))
        elif kind in ("dir", "folder"):
            os.makedirs(os.path.join(box.cwd, "folder"))
            who.update(points=[], file_path=os.path.join(box.cwd, "folder"))
        elif kind == "text":
            who.update(points=[], file_path=put("text.csv", "1,2,3\n4,five,6\n7,8,9\n1,1,1\n"))
        elif kind == "corner":
            # on a corner of a body, where the field is singular: may fail half way
            o.update(points=case["obs"] + [case["bodies"][at][0]] + case["obs"][:1],
                     file_path=None)
        elif kind == "blank":
            m.update(points=[], file_path=put("blank.csv", "0,0,0\n1,0,0\n0,,1\n0,1,0\n0,0,1\n"))
        elif kind == "nan":
            m.update(points=[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0],
                             [0.0, float("nan"), 1.0], [0.0, 0.0, 1.0]], file_path=None)
        elif kind == "ragged":
            who.update(points=[[0.0, 0.0, 0.0], [1.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
                       file_path=None)
        elif kind == "empty file":
            o.update(points=[], file_path=put("empty.csv", ""))
        elif kind == "latitude":
            m["crs"].update(ref="ellps", name="wgs84", vdatum="egm96")
            m.update(points=[[0.0, 88.0, 0.0], [1.0, 89.0, 0.0], [0.0, 95.0, 0.0],
                             [0.0, 89.0, 1.0e4]], file_path=None)
        elif kind == "columns":
            o.update(points=[], file_path=put("two.csv", "1.5,2.5\n3.5,4.5\n"))
        elif kind == "few":
            m.update(points=[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], file_path=None)
        elif kind == "flat":
            m.update(points=[[0.0, 0.0, 2.0], [1.0, 0.0, 2.0], [0.0, 1.0, 2.0], [3.0, 4.0, 2.0],
                             [-1.0, 0.5, 2.0]], file_path=None)
        elif kind == "no points":
            m.update(points=None, file_path=None)
        elif kind == "density":
            m["density"] = "heavy"
        elif kind == "constant":
            m["gravity_constant"] = [1.0]
        cfgfile = os.path.join(box.cwd, "conf.yaml")
        if kind == "yaml":
            put("conf.yaml", "masses: [\n  - {points: 3\n")
        elif kind == "yaml list":
            put("conf.yaml", "- 1\n- 2\n")
        elif kind != "no config":
            box.write(cfgfile, conf)
        out = os.path.join(box.dir, "elsewhere", "r") if case["out"] == "abs" else case["out"]
        real = os.path.join(box.cwd, out if out.endswith(".csv") else out + ".csv")
        if fault == "out blocked":  # a file stands where a folder is needed
            put("file.txt", "text\n")
            out = "file.txt/sub/out"
        elif fault == "out is folder":
            os.makedirs(os.path.join(real, "x"))
        elif case["old"]:
            os.makedirs(os.path.dirname(real), exist_ok=True)
            with open(real, "w") as f:
                f.write("an earlier result\n")
        before = box.snapshot()
        args = ["run", out, "--config", cfgfile] + (
            [case["gradient"]] if case["gradient"] else [])
        ctx.label("fault:" + fault, "old" if case["old"] else "new")
        if fault == "none":
            must(box, *args)
            after = box.snapshot()
            key = os.path.normpath(os.path.relpath(real, box.dir))
            for k in set(before) | set(after):
                if k != key and before.get(k) != after.get(k):
                    fail("a run changed %s", k)
            if key not in after or after[key] == before.get(key):
                fail("a run left no result")
            ctx.hit(case["old"])
            return
        if fault == "interrupt":
            with Interrupted(case["call"] % (len(case["bodies"]) * len(case["obs"])),
                             case["error"]) as it:
                r = command(box, *args)
            if not it.hit:
                return  # (computed in some other way)
            ctx.label("interrupted by " + case["error"])
        else:
            r = command(box, *args)
        ctx.hit()
        if r.exit_code == 0 and kind == "corner":
            return
        if r.exit_code == 0:
            fail("a run with a fault (%s) ended with code 0", fault)
        after = box.snapshot()
        for k in set(before) | set(after):
            if before.get(k) != after.get(k):
                fail("a run with a fault (%s) %s %s", fault,
                     "changed" if k in before and k in after else
                     "created" if k in after else "removed", k)


def C25():
    return [Sub("failing", c25_cases, c25, 1600, 24000,
                "a valid Cartesian scene with one of 30 faults in a mass, the observers, the "
                "configuration file or the output path; with or without an earlier result; "
                "non-trivial: a fault, or an earlier result to be replaced"),
            Sub("shell", lambda: in_shell(c25_cases()), c25, 320, 4000,
                "the same, each run a process of its own started as 'python -m geec': its exit "
                "status")]


# --- C24 -----------------------------------------------------------------------
CPATHS = [None, "cfg", "cfg.yaml", "cfg.yml", "my.config.yaml", "sub/cfg", "~/mycfg", "ABS/t",
          "./x", "sub/../y.txt"]


@st.composite
def c24_cases(draw):
    return {"ops": draw(st.lists(st.sampled_from(CPATHS), min_size=1, max_size=3)),
            "user": draw(st.one_of(st.none(), layer())),
            "decoys": draw(st.lists(st.sampled_from(DECOYS), max_size=2, unique=True)),
            "old": draw(st.booleans()), "cfgs": draw(st.lists(
                st.sampled_from(["cfg.yaml", "config_template.yaml", "other.yaml"]),
                max_size=2))}


# files nobody asked for
DECOYS = ["home/.config/geec/config_template.yaml", "home/config_template.yaml",
          "home/.config/config_template.yaml", "home/.config/geec/config_default.yaml",
          "home/.config/geec/template.yaml", "cwd/cfg/config_template.yaml", "cwd/template.yaml",
          "cwd/config_default.yaml"]


def template_text():
    with open(os.path.join(boot.REPO, "geec", "cfg", "config_template.yaml"), "rb") as f:
        return f.read()


def c24(case, ctx):
    want = template_text()
    with Box(case.get("shell", False)) as box:
        for d in ("sub", os.path.join(box.dir, "abs")):
            os.makedirs(os.path.join(box.cwd, d), exist_ok=True)
        for c in case["cfgs"]:
            with open(os.path.join(box.cwd, c), "w") as f:
                f.write("old: content\n" * 500)
        for c in case.get("decoys", []):
            where, rest = c.split("/", 1)
            p = os.path.join(box.home if where == "home" else box.cwd, rest)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("masses: []\n")
        if case["user"] is not None:
            box.userconf(case["user"])
        uc = os.path.join(box.home, ".config", "geec", "config.yaml")
        user0 = open(uc, "rb").read() if os.path.exists(uc) else None
        pk = os.path.join(boot.REPO, "geec", "cfg")
        for p in case["ops"]:
            out = None if p is None else p.replace("ABS", os.path.join(box.dir, "abs"))
            real = os.path.join(box.cwd, "config_template.yaml") if out is None else \
                os.path.normpath(os.path.join(box.cwd, os.path.expanduser(out)))
            real = os.path.splitext(real)[0] + ".yaml"
            before = box.snapshot()
            must(box, *(["config"] + ([] if out is None else ["--output", out])))
            after = box.snapshot()
            key = os.path.normpath(os.path.relpath(real, box.dir))
            for k in set(before) | set(after):
                if k != key and before.get(k) != after.get(k):
                    fail("'geec config' (%s) changed %s", p, k)
            if key not in after:
                fail("'geec config' (%s) made no file %s", p, key)
            if after[key] != want:
                fail("'geec config' (%s) wrote something else than the template", p)
        if (open(uc, "rb").read() if os.path.exists(uc) else None) != user0:
            fail("'geec config' changed the user's configuration")
        if template_text() != want or not os.path.isdir(pk):
            fail("'geec config' changed the packaged template")
    ctx.label("ops:%d" % len(case["ops"]), "user" if case["user"] is not None else "no user")
    ctx.hit(len(case["ops"]) > 1 or case["user"] is not None or bool(case["cfgs"]) or
            bool(case.get("decoys")))


EDITS = [(("masses", 0) + k, s) for k, s in [
    (("density",), num), (("gravity_constant",), st.sampled_from([1.0, 6.67e-11])),
    (("points",), POINTS), (("file_path",), st.sampled_from(["x.csv", None])),
    (("crs", "ref"), CRSL["ref"]), (("crs", "name"), CRSL["name"]),
    (("crs", "semimajor_axis"), CRSL["semimajor_axis"]),
    (("crs", "longitude_origin"), CRSL["longitude_origin"]),
    (("crs", "vdatum"), MASSL["crs"]["vdatum"])]] + [
    (("observers",) + k, s) for k, s in [
        (("points",), POINTS), (("file_path",), st.sampled_from(["o.csv", None])),
        (("grid", "xstart_xend_xstep"), trip), (("grid", "zstart_zend_zstep"), trip),
        (("crs", "ref"), CRSL["ref"]), (("crs", "name"), CRSL["name"]),
        (("crs", "altitude_origin"), CRSL["altitude_origin"])]]


@st.composite
def c24_edit_cases(draw):
    ks = draw(st.lists(st.integers(0, len(EDITS) - 1), min_size=0, max_size=4, unique=True))
    return {"edits": [[list(EDITS[k][0]), draw(EDITS[k][1])] for k in ks],
            "user": draw(st.one_of(st.none(), layer()))}


def c24_edit(case, ctx):
    import geec.config
    import geec.mass
    import geec.observer
    import yaml

    with Box() as box:
        if case["user"] is not None:
            box.userconf(case["user"])
        must(box, "config", "--output", "t.yaml")
        with open(os.path.join(box.cwd, "t.yaml"), "rb") as f:
            T = yaml.safe_load(f.read().decode("utf-8"))
        for p, v in case["edits"]:
            d = T
            for k in p[:-1]:
                d = d[k]
            if p[-1] not in d:
                fail("the template has no setting %s", p)
            d[p[-1]] = v
        cfg = call("reading the edited template", geec.config.setup,
                   box.write(os.path.join(box.cwd, "e.yaml"), T))
        for p in leaves(T):
            view = cfg
            for k in p:
                view = view[k]
            got = call("reading %s" % (p,), view.get)
            if not same(got, lookup(T, p)):
                fail("setting %s is %r, the edited template says %r", p, got, lookup(T, p))
        if not case["edits"]:
            # as delivered: accepted as a description of masses and observers
            t = call("reading the template", geec.config.setup,
                     os.path.join(box.cwd, "t.yaml"))
            ms = call("masses of the template", geec.mass.get_masses, t)
            ob = call("observers of the template", geec.observer.get_observer, t)
            if len(ms) != len(T["masses"]):
                fail("%d masses, the template lists %d", len(ms), len(T["masses"]))
            if not np.array_equal(np.array(ms[0].dataset.coords, dtype=float),
                                  np.array(T["masses"][0]["points"], dtype=float)):
                fail("points of the template read as %s", ms[0].dataset.coords)
            if len(ob.dataset.coords) < 1:
                fail("no observers in the template")
            g = T["observers"]["grid"]
            n = 1
            for k in ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"):
                s, e, d = g[k]
                n *= math.ceil((e - s) / d - 1e-9)
            if len(ob.dataset.coords) != n:
                fail("%d observers, the template's grid has %d", len(ob.dataset.coords), n)
    ctx.label("edits:%d" % len(case["edits"]))
    ctx.hit(bool(case["edits"]) or case["user"] is not None)


def C24():
    return [
        Sub("template", c24_cases, c24, 1000, 12000,
            "1-3 template commands to 10 kinds of path, with and without older files, "
            "files of similar names and a user configuration; non-trivial: several commands, a user configuration or "
            "older files"),
        Sub("shell", lambda: in_shell(c24_cases()), c24, 160, 2000,
            "the same, each command a process of its own started as 'python -m geec'"),
        Sub("edit", c24_edit_cases, c24_edit, 800, 10000,
            "0-4 edits of the delivered template, loaded over a user configuration; "
            "non-trivial: an edit or a user configuration"),
    ]


# --- C26 -----------------------------------------------------------------------
@st.composite
def c26_cases(draw):
    cart = draw(st.booleans())
    if cart:
        c = draw(c21_cases())
        sc = {"bodies": [b["pts"] for b in c["bodies"]], "rho": c["rho"], "gc": c["gc"]}
        obs = c["obs"] + [[v / 4.0 for v in draw(st.tuples(*[st.integers(-40, 40)] * 3))]
                          for _ in range(draw(st.integers(1, 4)))]
    else:
        c = draw(c22_cases())
        sc = {k: c[k] for k in ("lon", "lat", "S", "bodies", "mdesc", "odesc", "rho", "gc")}
        obs = c["obs"] + [[v * c["S"] / 8.0 for v in draw(st.tuples(*[st.integers(-40, 40)] * 3))]
                          for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        obs.append(close_by(draw, obs[-1], 1.0 if cart else draw(st.sampled_from([1.0, c["S"]]))))
    k = len(obs)
    return dict(sc, cart=cart, obs=obs, gradient=draw(st.sampled_from([None, "--gradient"])),
                rows=[draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=2 * k))
                      for _ in range(draw(st.integers(1, 2)))],
                perm=draw(st.permutations(range(len(sc["bodies"])))),
                file=draw(st.booleans()), split=draw(st.booleans()),
                more=draw(st.sampled_from([0, 0, 0, 70, 150])),
                first=draw(st.sampled_from([None, "--gradient"])))


def c26(case, ctx):
    k = len(case["obs"])
    if case["cart"]:
        masses = [{"pts": b, "crs": dict(FULLCRS)} for b in case["bodies"]]
        opts, oc = case["obs"], dict(FULLCRS)
        Bs = [body(b) for b in case["bodies"]]
        O = np.array(opts, dtype=float)
        head, dx = XYZ, 0.0
    else:
        lon, lat = case["lon"], case["lat"]
        md = [write_as(d, R.from_enu(b, lon, lat, 0.0, R.A84, R.B84))
              for d, b in zip(case["mdesc"], case["bodies"])]
        od = write_as(case["odesc"], R.from_enu(case["obs"], lon, lat, 0.0, R.A84, R.B84))
        masses = [{"pts": d["pts"], "crs": crs_entry(d)} for d in md]
        opts, oc = od["pts"], crs_entry(od)
        Bs = [body(geo.truth(d).tolist()) for d in md]
        O = geo.truth(od)
        head, dx = LLH, 2e-8
    oc.pop("vdatum")
    # round-off that may differ between runs: a small part of what is allowed in all
    lim = np.zeros((k, 12))
    for j, o in enumerate(O):
        lim[j, :3] = 1e-12 * (1 + float(np.abs(o).max())) if case["cart"] else (1e-8, 1e-10, 1e-6)
        for B, rho, gc in zip(Bs, case["rho"], case["gc"]):
            ed = B.edge_distance(o)
            if ed < (1e-6 * B.size if case["cart"] else 1e-2 * case["S"]):
                return
            sd = B.surface_distance(o)
            f = abs(rho * gc)
            amp = 13 + 6 * len(B.edges) * math.log(2 + 2 * B.size / ed)
            lim[j, 3:6] += f * 1e5 * (0.05 * tol_g(B, o) + dx * amp)
            if sd > (1e-9 * B.size if case["cart"] else 1e-2 * case["S"]):
                lim[j, 6:] += f * 1e9 * (0.05 * tol_t(B, o) + dx * 12 * len(B.edges) / ed)
            elif case["gradient"]:
                lim[j, 6:] = np.inf

    def conf(box, who, pts, file):
        c = {"masses": [mass_entry(masses[i]["pts"], masses[i]["crs"], case["rho"][i],
                                   case["gc"][i]) for i in who],
             "observers": {"points": pts, "file_path": None, "crs": oc}}
        if file:
            p = os.path.join(box.cwd, "o.csv")
            with open(p, "w") as f:
                f.write(csv_text(pts, "repr"))
            c["observers"].update(points=[], file_path=p)
        return c

    def same_rows(what, got, idx, want, extra=1.0):
        if len(got) != len(idx):
            fail("%s: %d rows for %d observers", what, len(got), len(idx))
        for n, (i, row) in enumerate(zip(idx, got)):
            l = extra * lim[i] + 1e-13 * np.abs(want[i])
            bad = ~(np.abs(row - want[i]) <= l) & np.isfinite(l)
            if bad.any():
                fail("%s: row %d (observer %s) is %s, expected %s", what, n, opts[i],
                     row.tolist(), want[i].tolist())

    everyone = list(range(len(masses)))
    grad = case["gradient"]
    with Box() as box:
        p0 = run_case(box, conf(box, everyone, opts, False), "base", grad)
        D0 = table("first run", p0, head)
        if len(D0) != k:
            fail("%d rows for %d observers", len(D0), k)
        first = open(p0, "rb").read()
        for n, idx in enumerate(case["rows"]):
            if n == 0 and case["more"] and case["cart"]:
                idx = (idx * case["more"])[:case["more"]]
            D = table("run", run_case(box, conf(box, everyone, [opts[i] for i in idx],
                                                case["file"] and n == 0), "v%d" % n, grad), head)
            same_rows("run with observers %s" % idx[:12], D, idx, D0)
        if len(everyone) > 1:
            D = table("run", run_case(box, conf(box, case["perm"], opts, False), "perm", grad),
                      head)
            same_rows("masses in order %s" % case["perm"], D, range(k), D0)
            if case["split"]:
                S = D0.copy()
                S[:, 3:] = 0.0
                for i in everyone:
                    D = table("run", run_case(box, conf(box, [i], opts, False), "one%d" % i,
                                              grad), head)
                    if len(D) != k:
                        fail("%d rows for %d observers", len(D), k)
                    S[:, 3:] += D[:, 3:]
                same_rows("sum of runs with one mass each", S, range(k), D0, 2.0)
        # again: after all these, and in a process of its own
        p1 = run_case(box, conf(box, everyone, opts, False), "again", grad)
        same_rows("the same run again", table("run", p1, head), range(k), D0)
        box.shell = True
        p1 = run_case(box, conf(box, everyone, opts, False), "shell", grad)
        same_rows("the same run in another process", table("run", p1, head), range(k), D0)
        if open(p0, "rb").read() != first:
            fail("a later run changed the file of the first one")
    ctx.label("cart" if case["cart"] else "geo", "masses:%d" % len(masses), "observers:%d" % k)
    ctx.hit(k > 1)


def C26():
    return [Sub("rows", c26_cases, c26, 400, 6000,
                "a run and its variants: observers picked, repeated, reordered (up to 150) or "
                "read from a file, masses reordered or in runs of their own, the same again "
                "here and in a process of its own; non-trivial: several observers")]


# --- C28 -----------------------------------------------------------------------
LOGM = ["density", "gravity_constant", "points", "file_path", "ref", "name", "semimajor_axis",
        "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin", "vdatum"]
LOGO = ["points", "file_path", "xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep",
        "ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin",
        "latitude_origin", "altitude_origin"]
INCRS = LOGO[5:] + ["vdatum"]


@st.composite
def c28_cases(draw):
    n = draw(st.integers(1, 4))
    ms = []
    for _ in range(n):
        m = draw(tree(MASSL, 10))
        m["points"] = draw(st.one_of(POINTS, st.just(
            [[0.0, 0.0, 0.0], [1, 0.5, 0], [0, 1, 0.25], [0.1, 0.2, 3]])))
        ms.append(m)
    if draw(st.integers(0, 14)) == 11:
        ms += [{**ms[i % n], "density": 100.5 + i} for i in range(draw(st.integers(7, 12)))]
    o = draw(tree(OBSL, draw(st.sampled_from([5, 10]))))
    o["points"] = draw(POINTS)
    # a run that fails on the way
    bad = draw(st.sampled_from([None, None, None, "ref", "name", "vdatum", "density", "file_path",
                                "observers", "gravity_constant"]))
    m = draw(st.sampled_from(ms))
    if bad in ("ref", "name", "vdatum"):
        m["crs"] = {**m["crs"], "ref": "ellps", bad: "nonsense"}
    elif bad == "file_path":
        m.update(points=[], file_path="absent.csv")
    elif bad == "observers":
        o.update(points=[], file_path="absent.csv")
    elif bad:
        m[bad] = "heavy"
    return {"conf": {"masses": ms, "observers": o}, "bad": bad,
            "user": draw(st.one_of(st.none(), layer())), "runs": draw(st.integers(1, 2)),
            "before": draw(st.sampled_from([0] * 12 + [7, 30, 120])),
            "many": draw(st.integers(0, 29).map(lambda i: 1500 if i == 23 else 0)),
            "corners": draw(st.integers(0, 14).map(lambda i: 300 if i == 11 else 0)),
            "gradient": draw(st.sampled_from([None, "--gradient"]))}


def logged(text):
    """(key, value) of the messages 'key: value' of a log, in order, by section"""
    out = {"masses": [], "observers": None}
    cur = None
    for line in text.splitlines():
        if " - " not in line:
            continue
        msg = line.split(" - ", 1)[1].strip()
        if msg == "Mass Bodies":
            cur = "masses"
        elif msg == "Observers" and cur is not None:
            cur = out["observers"] = {}
        if cur is None or ":" not in msg:
            continue
        k, v = (x.strip() for x in msg.split(":", 1))
        if k == "density" and out["observers"] is None:
            cur = {}
            out["masses"].append(cur)
        if isinstance(cur, dict) and k in LOGM + LOGO and k not in cur:
            cur[k] = v
    return out


def c28(case, ctx):
    import ast

    conf = case["conf"]
    if case.get("many") and conf["observers"]["points"]:  # a long log
        o = conf["observers"]["points"]
        conf = {**conf, "observers": {**conf["observers"], "points": [
            [i + v for v in o[i % len(o)]] for i in range(case["many"])]}}
    if case.get("corners"):  # masses with many points
        conf = {**conf, "masses": [{**m, "points": [
            m["points"][i * i % len(m["points"])] for i in range(case["corners"])] + m["points"]}
            if m["points"] else m for m in conf["masses"]]}
    layers = [x for x in (conf, case["user"], default_config()) if x is not None]

    def val(*p):
        for ly in layers:
            v = lookup(ly, p)
            if v is not MISSING:
                return v
        return MISSING

    def check(what, got, root, keys):
        for k in keys:
            p = root + (("crs", k) if k in INCRS else ("grid", k) if "start" in k else (k,))
            want = val(*p)
            if want is MISSING:
                continue
            if k not in got:
                fail("the log does not say %s of %s", k, what)
            v = got[k]
            if k == "density":
                v = v.split()[0]
            elif k == "gravity_constant":
                v = v.split()[0]
            try:
                v = ast.literal_eval(v)
            except (ValueError, SyntaxError):
                pass
            if not same(v, want):
                fail("the log says %s of %s is %r, it is %r", k, what, v, want)

    with Box() as box:
        if case["user"] is not None:
            box.userconf(case["user"])
        f = box.write(os.path.join(box.cwd, "c.yaml"), conf)
        d = os.path.join(box.dir, "log")

        def read_logs():
            return {x: open(os.path.join(d, x), encoding="utf-8").read()
                    for x in (os.listdir(d) if os.path.isdir(d) else [])}

        # logs of earlier runs, made long ago
        for n in range(case.get("before", 0)):
            command(box, "run", "out", "--config", "none.yaml")
        seen = read_logs()
        if len(seen) != case.get("before", 0):
            fail("%d runs left %d logs", case["before"], len(seen))
        for x in seen:
            os.utime(os.path.join(d, x), (1.6e9, 1.6e9))
        for n in range(case["runs"]):
            command(box, *(["run", "out%d" % n, "--config", f] + (
                [case["gradient"]] if case["gradient"] else [])))
            logs = read_logs()
            for x, t in seen.items():
                if logs.get(x) != t:
                    fail("a later run changed or removed the log %s", x)
            new = [x for x in logs if x not in seen]
            if len(new) != 1:
                fail("a run made %d log files", len(new))
            got = logged(logs[new[0]])
            seen = logs
            if len(got["masses"]) != len(case["conf"]["masses"]):
                fail("the log lists %d masses, there are %d", len(got["masses"]),
                     len(case["conf"]["masses"]))
            for i, m in enumerate(got["masses"]):
                check("mass %d" % i, m, ("masses", i), LOGM)
            if got["observers"] is None:
                fail("the log does not list the observers")
            check("the observers", got["observers"], ("observers",), LOGO)
        if case["gradient"]:
            r = must(box, "--log")
            said = {os.path.realpath(w) for x in r.stdout.splitlines()
                    for w in (x.strip(), x.split(":", 1)[-1].strip())}
            if not said & {os.path.realpath(d), REAL_LOG}:
                fail("--log says %r, logs are in %s", r.stdout, d)
            if read_logs() != logs:
                fail("--log changed the logs")
    ctx.label("masses:%d" % len(case["conf"]["masses"]), "user" if case["user"] else "no user",
              "bad:%s" % case.get("bad"))
    ctx.hit(len(case["conf"]["masses"]) > 1 or case["user"] is not None)


@st.composite
def c28_place_cases(draw):
    return {"runs": draw(st.lists(st.tuples(st.sampled_from([".", "a", "a/b", "log"]),
                                            st.booleans(), st.sampled_from([
                                                None, "--gradient", "--help", "bad"]),
                                            st.booleans()).map(list),
                                  min_size=1, max_size=4))}


def c28_place(case, ctx):
    """all runs log to the one folder that --log names"""
    said, kinds = [], set()
    with Box() as box:
        box.places = []
        conf = {"masses": [mass_entry([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
                                      dict(FULLCRS, ref="cart"), 1000.0, GC)],
                "observers": {"points": [[3.0, 2.0, 1.0]], "crs": {"ref": "cart"}}}
        c = box.write(os.path.join(box.dir, "c.yaml"), conf)
        before = box.snapshot()
        for n, (where, other, opt, ask) in enumerate(case["runs"]):
            d = os.path.join(box.cwd, where)
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            if other:  # somebody else runs it
                os.environ["HOME"] = os.path.join(box.dir, "other")
            made = len(box.places)
            bad = opt in ("bad", "--help")
            r = command(box, "run", os.path.join(box.dir, "out%d" % n), "--config",
                        "missing.yaml" if opt == "bad" else c, *([] if opt in (None, "bad")
                                                                  else [opt]))
            if not bad and r.exit_code:
                fail("run %d ended with %s (%r)", n, r.exit_code, r.exception)
            kinds.add((where, other))
            if opt != "--help" and len(box.places) == made and not box.shell:
                fail("run %d has no log file", n)
            if ask or n == 0:
                r = command(box, "--log")
                if r.exit_code:
                    fail("--log ended with %s (%r)", r.exit_code, r.exception)
                said.append({os.path.realpath(w) for x in r.stdout.splitlines()
                             for w in (x.strip(), x.split(":", 1)[-1].strip())})
        after = box.snapshot()
        changed = {x for x in set(before) | set(after) if before.get(x) != after.get(x)}
        changed = {x for x in changed if not (x.startswith("out") and x.endswith(".csv"))}
        if changed:
            fail("runs changed %s", sorted(changed)[:5])
        at = {os.path.realpath(x) for x in box.places}
        if len(at) > 1:
            fail("runs log to different folders: %s", sorted(at))
        for x in said:
            if at and not at & x:
                fail("--log says %s, logs are in %s", sorted(x), sorted(at))
    ctx.label("runs:%d" % len(case["runs"]))
    ctx.hit(len(kinds) > 1)


def C28():
    return [Sub("place", c28_place_cases, c28_place, 120, 2000,
                "1-4 runs in different working directories and homes, with the program's own "
                "log folder (not made): non-trivial: more than one directory or home"),
            Sub("log", c28_cases, c28, 600, 8000,
                "runs (successful or not) of generated layered settings, log read back; "
                "non-trivial: several masses or a user configuration")]
