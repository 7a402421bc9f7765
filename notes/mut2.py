"""python3 notes/mut2.py MUTS.py [n...]: like mut.py, but on copies of /repo and /verif in /tmp/mut, leaving both alone."""
import os, shutil, subprocess, sys
from pathlib import Path
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = set(map(int, sys.argv[2:]))
root = Path(os.environ.get("MUTROOT", "/tmp/mut"))
shutil.rmtree(root, ignore_errors=True)
root.mkdir()
subprocess.run(["cp", "-a", "/repo", str(root / "repo")], check=True)
(root / "verif").mkdir()
for x in ("bin", "vlib", "spec", "known_findings.txt", "properties.jsonl", "notes"):
    subprocess.run(["cp", "-a", f"/verif/{x}", str(root / "verif")], check=True)
for f in ("bin/check", "vlib/core.py"):
    p = root / "verif" / f
    p.write_text(p.read_text().replace("/repo", str(root / "repo")))
for i, (prop, f, old, new) in enumerate(ns["MUTS"]):
    if sel and i not in sel:
        continue
    p = root / "repo" / f
    s = p.read_text()
    if s.count(old) != 1:
        print(i, prop, "NOT APPLICABLE", s.count(old), repr(old)[:60], flush=True); continue
    p.write_text(s.replace(old, new))
    try:
        r = subprocess.run(["bin/check", prop], cwd=root / "verif", capture_output=True, text=True, timeout=600)
        l = (r.stdout.strip().splitlines() or [r.stderr[-200:]])
        print(i, prop, "caught" if r.returncode == 1 else f"MISSED rc={r.returncode}", "|", new.strip().splitlines()[0][:60] if new.strip() else "(deleted)", "|", l[0][:150], flush=True)
    except subprocess.TimeoutExpired:
        print(i, prop, "TIMEOUT", flush=True)
    finally:
        p.write_text(s)
shutil.rmtree(root)
