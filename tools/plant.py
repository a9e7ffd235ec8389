"""tools/plant.py ID [--tests] [--checks C01,C02]: tries a planted bug in a private mount and network namespace,
where a patched copy lies at /repo. Prints: demo clean/patched, stable tests lost, verdict of the checks."""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
ident = sys.argv[1]
seed = ROOT / "seeded" / ident
meta = json.loads((seed / "meta.json").read_text())
work = Path(f"/tmp/x/plant-{ident}-{os.getpid()}")
shutil.rmtree(work, ignore_errors=True)
work.mkdir(parents=True)
checks = meta["property"]
for arg in sys.argv[2:]:
    if arg.startswith("--checks="):
        checks = arg.split("=")[1]


def inside(repo, cmd, timeout=900):
    script = f"ip link set lo up; mount --bind {repo} /repo && mount -t tmpfs none /verif/evidence && cd /repo && {cmd}"
    p = subprocess.run(["unshare", "-Urmn", "bash", "-c", script], capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


try:
    for name in ("clean", "patched"):
        subprocess.run(["cp", "-a", "/repo", str(work / name)], check=True)
    p = subprocess.run(["git", "apply", str(seed / "patch.diff")], cwd=work / "patched", capture_output=True, text=True)
    if p.returncode:
        print(ident, "PATCH DOES NOT APPLY", p.stderr)
        sys.exit(1)
    shutil.copytree(seed, work / "demo")
    for f in ("patch.diff", "meta.json"):
        os.unlink(work / "demo" / f)
    demo = f"timeout 300 bash {work}/demo/demo.sh"
    a, out_a = inside(work / "clean", demo)
    b, out_b = inside(work / "patched", demo)
    print(ident, "demo clean", a, "patched", b, "" if a == 0 and b else "  <<< BAD\n" + out_a[-1500:] + "\n---\n" + out_b[-1500:])
    for c in checks.split(","):
        if c:
            rc, out = inside(work / "patched", f"/verif/check {c} quick")
            print(ident, c, "exit", rc, [line for line in out.splitlines() if line.startswith("VIOLATION")][:2], "CAUGHT" if rc == 1 else "MISSED " + out[-600:])
    if "--tests" in sys.argv:
        rc, out = inside(work / "patched", f"bash /opt/vp/test.sh {work}/out.json")
        got = json.loads((work / "out.json").read_text())
        lost = sorted(set(json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]) - set(got["passed"]))
        print(ident, "stable tests lost:", lost[:5], len(lost), "<<< BAD" if lost else "ok")
finally:
    shutil.rmtree(work, ignore_errors=True)
