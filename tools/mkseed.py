"""tools/mkseed.py FILE: writes seeded/<id>/ from a Python file which defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO."""
import json
import runpy
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
for name in sys.argv[1:]:
    ns = runpy.run_path(name)
    d = ROOT / "seeded" / ns["ID"]
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
        for file, old, new in ns["EDITS"]:
            p = Path(t) / file
            s = p.read_text()
            assert s.count(old) == 1, (ns["ID"], file, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True, check=True).stdout
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(json.dumps({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    print(ns["ID"])
