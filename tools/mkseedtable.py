"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import re
from pathlib import Path

TOP = Path(__file__).resolve().parent.parent
path = TOP / "DESIGN.md"
rows = []
for f in glob.glob(str(TOP / "seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append((d["property"], Path(f).parent.name, d["needs"]))
t = "<!-- seeds -->\nEach of these is caught by the check of the property it names.\n\n" \
    "| check | planted bug | needs |\n|---|---|---|\n" + "".join(
        "| %s | %s | %s |\n" % r for r in sorted(rows)) + "<!-- /seeds -->"
path.write_text(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t,
                       path.read_text(), flags=re.S))
