"""writes the table of the planted bugs at the end of DESIGN.md (run by hand, no check uses it)"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
# what had to be added to a check that missed the bug when it was planted
MISSED = json.loads((ROOT / "tools" / "missed.json").read_text())
rows = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    if d.name in MISSED:
        note = "after: " + MISSED[d.name]
    else:
        note = "yes"
    rows.append(f"| {d.name} | {m['needs'].replace('|', '/')} | {note} |")
text = (ROOT / "DESIGN.md").read_text()
head = text[:text.index("| bug |")] if "| bug |" in text else text
(ROOT / "DESIGN.md").write_text(head + "| bug | needs | caught by its property's check |\n|---|---|---|\n" + "\n".join(rows) + "\n")
