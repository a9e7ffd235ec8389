"""Generates properties.jsonl and MANIFEST.json from tools/props.py (kept in step by construction)."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
import props  # noqa: E402

lines, checks, na = [], [], []
for p in props.PROPS:
    lines.append(
        json.dumps(
            {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                },
            },
            ensure_ascii=False,
        )
    )
    assert len(p["title"]) <= 80, p["id"]
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not (ROOT / "checks" / f"{p['id'].lower()}.py").exists():
        na.append({"property": p["id"], "reason": "planned: its check is not built yet"})
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "technique": p["tech"],
            "level": p.get("level", "model_checking"),
            "level_note": p["note"],
        }
    )
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks run the code in /repo directly (editable import path), bounded-exhaustively; see DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(lines), "properties", len(checks), "checks", len(na), "not claimed")
