"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "DESIGN.md")
rows = ["| id | property | needs | caught by |", "|----|----|----|----|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(f)), m["property"],
        m["needs"].replace("|", "/").replace("\n", " "),
        m.get("caught_by", m["property"])))
text = open(path).read()
text = re.sub(r"<!-- SEEDED -->.*<!-- /SEEDED -->",
              lambda _: "<!-- SEEDED -->\n" + "\n".join(rows) + "\n<!-- /SEEDED -->",
              text, flags=re.S)
open(path, "w").write(text)
