"""MUTROOT=... python3 notes/automut.py OUT N SEED FILE:PROP,PROP[,...] ...
Draws N random small edits over the files (in a copy of /repo) and runs the checks of the listed properties until one notices."""
import ast, os, random, shutil, subprocess, sys
from pathlib import Path

SKIP = {"__repr__", "get_device"}


def cands(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, why):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, n.lineno, why))

    def walk(n, fn):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.FunctionDef):
            if n.name in SKIP or any("overload" in ast.dump(d) or "abstract" in ast.dump(d) for d in n.decorator_list):
                return
            for s in n.body:
                walk(s, n.name)
            for d in n.args.defaults + n.args.kw_defaults:
                if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int)):
                    walk(d, fn)
            return
        if isinstance(n, ast.ClassDef):
            if any("Protocol" in ast.dump(x) for x in n.bases):
                return
            for s in n.body:
                walk(s, fn)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                walk(n.value, fn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if fn is None and not isinstance(n, ast.Module):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            o = m[type(n.ops[0])]
            add(n, f"{txt(n.left)} {o} {txt(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
            if type(n.op) in m and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(getattr(n.left, "value", None), (int, float)) and type(n.op) in m:
                add(n, f"({txt(n.left)} {m[type(n.op)]} {txt(n.right)})", "arith")
                add(n, f"({txt(n.left)})", "left")
                add(n, f"({txt(n.right)})", "right")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(txt(v) for v in n.values) + ")", "bool")
            for v in n.values:
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(txt(w) for w in n.values if w is not v) + ")", "drop-cond")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({txt(n.operand)})", "not")
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, f"(not ({txt(n.test)}))", "if-not")
            add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                add(n, str(n.value - 1) if n.value > 0 else "(-1)", "const")
        if isinstance(n, ast.AugAssign):
            m = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}
            if type(n.op) in m:
                add(n, f"{txt(n.target)} {m[type(n.op)]} {txt(n.value)}", "aug")
                add(n, f"{txt(n.target)} = {txt(n.value)}", "aug=")
                add(n, "pass", "del")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = txt(n)
            if "super().__init__" not in t and "warn" not in t and "log" not in t:
                add(n, "pass", "del")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) and fn != "__init__":
            add(n, "pass", "del")
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "break" if isinstance(n, ast.Continue) else "continue", "loop")
            add(n, "pass", "loop")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s, e = pos(k)
                    while b[e:e + 1] in (b" ", b"\n"):
                        e += 1
                    if b[e:e + 1] == b",":
                        out.append((s, e + 1, "", n.lineno, "drop-kw"))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "clone", "detach", "flatten", "squeeze", "item"):
                add(n, txt(n.func.value) if n.func.attr != "deepcopy" else txt(n.args[0]) if n.args else txt(n), "drop-call")
            if isinstance(n.func, ast.Name) and n.func.id in ("deepcopy", "copy", "min", "max", "np.max", "int", "bool", "sorted") and n.args:
                r = {"min": "max", "max": "min"}.get(n.func.id)
                add(n, f"{r}({', '.join(txt(a) for a in n.args)})" if r else txt(n.args[0]), "call")
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, (ast.Tuple,)) and len(n.value.elts) == 2:
            pass
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("ValueError", "TypeError"):
            return
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, None)
    ok = []
    for s, e, new, ln, why in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(t)
            ok.append((t, ln, why, lines[ln - 1].strip()[:80], new[:60].replace("\n", " ")))
        except SyntaxError:
            pass
    return ok


def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    root = Path(os.environ.get("MUTROOT", "/tmp/amut"))
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir()
    subprocess.run(["cp", "-a", "/repo", str(root / "repo")], check=True)
    (root / "verif").mkdir()
    for x in ("bin", "vlib", "spec", "known_findings.txt", "properties.jsonl", "notes"):
        subprocess.run(["cp", "-a", f"/verif/{x}", str(root / "verif")], check=True)
    for f in ("bin/check", "vlib/core.py"):
        p = root / "verif" / f
        p.write_text(p.read_text().replace("/repo", str(root / "repo")))
    alls = []
    for a in sys.argv[4:]:
        f, ps = a.split(":")
        f, _, rest = f.partition("@")
        lo, hi = (map(int, rest.split("-")) if rest else (0, 10**9))
        src = (root / "repo" / f).read_text()
        alls += [(f, ps.split(","), src, c) for c in cands(src) if lo <= c[1] <= hi]
    rng.shuffle(alls)
    log = open(outp, "a")
    print(len(alls), "candidates", file=log, flush=True)
    for k, (f, ps, src, (t, ln, why, line, new)) in enumerate(alls[:n]):
        p = root / "repo" / f
        p.write_text(t)
        res = "MISSED"
        try:
            for q in ps:
                try:
                    r = subprocess.run(["bin/check", q], cwd=root / "verif", capture_output=True, text=True, timeout=500)
                except subprocess.TimeoutExpired:
                    res = f"TIMEOUT {q}"
                    break
                if r.returncode == 1:
                    res = f"caught {q}"
                    break
                if r.returncode != 0:
                    res = f"rc={r.returncode} {q}"
                    break
        finally:
            p.write_text(src)
        print(f"{k} {res} | {f}:{ln} {why} | {line} => {new}", file=log, flush=True)
    shutil.rmtree(root)


main()
