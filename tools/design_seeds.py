"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs\n"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read().split(MARK)[0].replace("SEEDS\n", "").rstrip("\n")
rows = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |\n" % (f.split("/")[-2], m["property"],
                                       m["needs"].replace("|", "/")))
open(p, "w").write(s + "\n\n" + MARK + "\nEach is caught by the quick check "
                   "of the property in the second column "
                   "(`python3 tools/seed.py test`).\n\n| bug | caught by | "
                   "needs |\n|---|---|---|\n" + "".join(rows))
