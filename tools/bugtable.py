"""rewrites the table of planted bugs at the end of DESIGN.md"""
import collections
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
d = collections.defaultdict(list)
for f in sorted(glob.glob("seeded/*/meta.json")):
    d[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
out = ("\n## Planted bugs\n\n%d changes in `seeded/` (each: builds, passes the 11 tests, its demo "
       "fails with it and passes\nwithout). Every one is caught at the quick tier by the check "
       "of its own property:\n\n| check | caught |\n|---|---|\n" % sum(map(len, d.values())))
for k in sorted(d):
    out += "| %s | %s |\n" % (k, ", ".join(d[k]))
s = open("DESIGN.md").read()
i = s.find("\n## Planted bugs")
open("DESIGN.md", "w").write(s[:i if i >= 0 else None].rstrip("\n") + "\n" + out)
