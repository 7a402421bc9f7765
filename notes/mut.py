"""python3 notes/mut.py MUTS.py [n...]: MUTS = [(prop, file, old, new)]; applies each to /repo, runs the quick check, undoes it."""
import subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = set(map(int, sys.argv[2:]))
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True).stdout == b""
for i, (prop, f, old, new) in enumerate(ns["MUTS"]):
    if sel and i not in sel:
        continue
    p = "/repo/" + f
    s = open(p).read()
    if s.count(old) != 1:
        print(i, prop, "NOT APPLICABLE", s.count(old), repr(old)[:60]); continue
    try:
        open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["bin/check", prop], cwd="/verif", capture_output=True, text=True)
        l = (r.stdout.strip().splitlines() or ["?"])
        print(i, prop, "caught" if r.returncode == 1 else f"MISSED rc={r.returncode}", "|", new.strip().splitlines()[0][:60], "|", l[0][:150], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
