"""Plants bugs: python3 notes/plant.py SPEC.py [ids]; SPEC defines BUGS = [dict(id, prop, file|edits, old, new, demo, needs, breaks)].
Makes the patch in a scratch copy of /repo and checks the demonstration there with and without it."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {tmp}", shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=tmp, check=True)
        d = ROOT / "seeded" / b["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.py").write_text(b["demo"].strip() + "\n")
        (d / "demo.sh").write_text('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env/env.sh\nexport PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        run = lambda: subprocess.run(["bash", str(d / "demo.sh")], cwd=tmp, capture_output=True, text=True)
        r0 = run()
        for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            p = Path(tmp) / f
            s = p.read_text()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True, text=True).stdout
        r1 = run()
        ok = r0.returncode == 0 and r1.returncode != 0
        print(b["id"], "OK" if ok else "BAD", r0.returncode, r1.returncode, (r1.stderr + r1.stdout).strip().splitlines()[-1:] if ok else r0.stderr[-800:] + r1.stderr[-300:])
        (d / "patch.diff").write_text(diff)
        (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    finally:
        shutil.rmtree(tmp)
