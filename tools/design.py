#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md and the meta.json files of the planted bugs."""
import json
import pathlib
V = pathlib.Path(__file__).resolve().parent.parent
MISSED = set("c09-f32 c21-nan c23-env c25-version-first c26-stale".split()) | set((V / "tools/missed.txt").read_text().split())
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s%s | %s | %s |" % (d.name, "*" if d.name in MISSED else "", m["property"], m["what_it_breaks"].replace("|", "/")))
s = (V / "tools/design_head.md").read_text()
(V / "DESIGN.md").write_text(s.replace("@@TABLE@@", "\n".join(rows)))
