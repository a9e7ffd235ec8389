"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for meta in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {m['needs']} | {m.get('caught_by', m['property'])}{' (' + m['note'] + ')' if m.get('note') else ''} |")
p = ROOT / "DESIGN.md"
p.write_text(re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda x: x[1] + "\n".join(rows) + "\n" + x[2], p.read_text(), flags=re.S))
