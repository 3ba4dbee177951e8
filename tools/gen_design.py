#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md."""

import json
import pathlib
import re

VERIF = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted((VERIF / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
p = VERIF / "DESIGN.md"
p.write_text(re.sub(r"<!-- seeds -->.*<!-- end -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", p.read_text(), flags=re.S))
