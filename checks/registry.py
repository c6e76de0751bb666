import importlib

MOD = {"grav": ["C%02d" % i for i in range(1, 13)] + ["C27"],
       "geo": ["C%02d" % i for i in range(13, 18)] + ["C29"],
       "app": ["C%02d" % i for i in range(18, 27)] + ["C28"]}
NEED_CRS = set(MOD["geo"] + MOD["app"])


def load(prop):
    for m, ids in MOD.items():
        if prop in ids:
            mod = importlib.import_module(m)
            return getattr(mod, prop)(), getattr(mod, "warm29" if prop == "C29" else "warm", None)
    raise SystemExit("unknown property " + prop)
