"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was strengthened for those missed when first run
MISSED = {
    "C03-listing-cache": "missed; listings are now read between the steps",
    "C07-votes-overflow": "missed; bins with hundreds of votes added",
    "C13-intercept": "missed; declared range shifted against the truth",
    "C15-worst-peak": "missed; *few* and *crowded* added",
    "C19-fit-basis": "missed; *curved* added",
    "C19-unknown": "missed; extended and cut names added",
    "C27-first-type": "missed; several types in any order",
    "C02-brightest-zero": "missed; a request for no lines added",
    "C08-json-name": "missed; names with dots and directories added",
    "C21-exact-refit": "missed; exact and few pairs refitted",
    "C28-filter-off": "missed; booleans set back and forth",
}
rows = ["| id | property | needs | first run |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append(
        "| %s | %s | %s | %s |"
        % (
            i,
            m["property"],
            re.sub(r"\s+", " ", m["needs"]).replace("|", "/"),
            MISSED.get(i, "caught"),
        )
    )
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a = s.index("<!-- seeded -->") + len("<!-- seeded -->")
b = s.index("<!-- /seeded -->")
s = s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:]
open(p, "w").write(s)
