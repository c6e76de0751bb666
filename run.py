#!/opt/venv/bin/python
"""run.py <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)
run.py --setup
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import boot  # noqa: E402


def main(argv):
    if argv[:1] == ["--setup"]:
        boot.deps()
        import hypothesis

        print("hypothesis", hypothesis.__version__)
        return 0
    prop = argv[0]
    import registry

    boot.start(crs=prop in registry.NEED_CRS)
    import harness

    subs, warm = registry.load(prop)
    if "--replay" in argv:
        if warm:
            warm()
        return harness.replay(prop, subs, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    return harness.run_property(prop, subs, tier, seed, jobs, warm)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
