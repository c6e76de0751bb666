#!/usr/bin/env python3
"""Try the planted bugs of seeded/ in a scratch copy of /repo.

usage: tools/bugs.py [--demo-only] [--all-checks] [ID ...]

For each: patch applies, stable tests pass, demo is 0 without and not 0 with the patch, then
the check of its property (or all checks) runs on the copy.  Nothing in /repo changes.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True)


def tests(w):
    r = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--ignore=tests/test_crs.py",
            "--ignore=tests/test_geec.py"], w, {"PYTHONPATH": w})
    return "11 passed" in r.stdout and "failed" not in r.stdout


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = {a for a in sys.argv[1:] if a.startswith("--")}
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    missed = 0
    for i in ids:
        s = os.path.join(HERE, "seeded", i)
        prop = json.load(open(s + "/meta.json"))["property"]
        top = tempfile.mkdtemp(prefix="geec-bug-")
        w = os.path.join(top, "repo")
        demo = os.path.join(top, "demo")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
            shutil.copytree(s, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            d0 = sh(["bash", demo + "/demo.sh"], w)
            if subprocess.run(["git", "-C", w, "apply", s + "/patch.diff"]).returncode:
                print("%-20s %s INVALID: patch does not apply" % (i, prop), flush=True)
                continue
            d1 = sh(["bash", demo + "/demo.sh"], w)
            t = tests(w)
            ok = d0.returncode == 0 and d1.returncode != 0 and t
            line = "%-20s %s %s" % (i, prop, "valid" if ok else "INVALID demo %d/%d tests %s" % (d0.returncode, d1.returncode, t))
            if not ok:
                line += "\n" + d0.stdout[-500:] + d0.stderr[-800:] + d1.stderr[-300:]
            elif "Traceback" in d1.stderr:
                line += " (demo: exception %s)" % d1.stderr.strip().splitlines()[-1][:80]
            if "--demo-only" not in opts:
                hit = []
                for p in props if "--all-checks" in opts else [prop]:
                    r = sh([PY, "run.py", p], HERE, {"VERIF_REPO": w, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick", "VERIF_OUT": top})
                    if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout:
                        hit.append(p)
                    elif r.returncode:
                        hit.append("%s:error %d %s" % (p, r.returncode, r.stderr[-300:]))
                if prop not in hit:
                    missed += 1
                line += "  caught by: %s" % (" ".join(hit) or "NONE")
            print(line, flush=True)
        finally:
            shutil.rmtree(top, ignore_errors=True)
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main())
