"""Shared machinery of the checks: running drivers against the real code, running TLC
on a specification, validating recorded traces with TLC, writing evidence."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
REPO = Path("/repo")
EVID = ROOT / "evidence"
WEIRD = -999983  # stands for an observed value that is not of the expected kind
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar"


class Ctx:
    """One run of one check."""

    def __init__(self, prop: str, tier: str, seed: int):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        (EVID / "replay" / f"{prop}.json").unlink(missing_ok=True)
        self.scratch = Path(tempfile.mkdtemp(prefix=f"vf_{prop}_"))
        self.violations: list[dict] = []
        self.known: list[str] = []
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "events_validated": 0,
            "spec_generated_schedules": 0,
            "spec_edges_replayed": 0,
            "models": [],
            "trace_modules": [],
            "samples": 0,
        }
        self.assumptions: list[str] = []
        self.ncpu = min(8, os.cpu_count() or 1)

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, what: str, detail) -> None:
        self.violations.append({"what": what, "detail": detail})

    # ---------------------------------------------------------------- TLC
    def tlc(self, module: str, cfg: str, env=None, workers=None, timeout=600, heap="4g", extra=()):
        """Run TLC in spec/; returns (stdout, returncode). returncode None: time out."""
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = [
            "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
            "-Dtlc2.tool.impl.Tool.cdot=true", f"-Djava.io.tmpdir={meta}",
            "-cp", _classpath(), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
            "-workers", str(workers or self.ncpu), "-deadlock", "-config", cfg, *extra, module,
        ]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out = x.stdout or ""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            rc = None
        shutil.rmtree(meta, ignore_errors=True)
        return out, rc

    def model_check(self, module: str, cfg: str | None = None, workers=None, timeout=600, edges=False, consts=None):
        """Exhaustively check a model. A failure here means that the specification itself does not
        have the property, it is reported as a violation as well. Returns edges when asked for."""
        cfg = cfg or f"{module}.cfg"
        env = {"VF_EDGES": "1" if edges else "0"}
        env.update(consts or {})
        out, rc = self.tlc(f"{module}.tla", cfg, env=env, workers=1 if edges else workers, timeout=timeout)
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        gen = dist = 0
        for m in re.finditer(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out):
            gen, dist = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
        ok = rc == 0 and "No error has been found" in out
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"module": module, "cfg": cfg, "states": dist, "transitions": gen,
                                   "consts": consts or {}})
        if not ok:
            self.violation(f"model {module} with {cfg} {consts or ''} does not satisfy its invariants",
                           "\n".join(l for l in out.splitlines() if not l.startswith('"VE|'))[-6000:])
        if not edges:
            return ok
        es = []
        for line in out.splitlines():
            if line.startswith('"VE|'):
                s = json.loads(line)  # TLC prints a TLA+ string, whose escapes are those of JSON
                _, f, a, t = s.split("|", 3)
                es.append((f, a, t))
        return es

    def schedules(self, module, cfg=None, consts=None, max_edges=None, max_len=60, timeout=600):
        """Walks through the state graph of a model that cover each of its transitions."""
        es = self.model_check(module, cfg, edges=True, consts=consts, timeout=timeout)
        walks, covered, total = cover(es, max_len=max_len, budget=max_edges, seed=self.seed)
        self.cov["spec_generated_schedules"] += len(walks)
        self.cov["spec_edges_replayed"] += covered
        return [[json.loads(a) for a in w] for w in walks]

    def validate(self, module: str, traces: list, cfg: str | None = None, timeout=800, label="", env=None) -> list[dict]:
        """Let TLC decide whether each recorded trace is a behaviour of the specification.
        Reports violations (one per failing trace) and returns them."""
        cfg = cfg or f"{module}.cfg"
        traces = [t for t in traces if t]
        if not traces:
            return []
        f = self.scratch / f"tr_{module}_{len(os.listdir(self.scratch))}.json"
        f.write_text(json.dumps(traces))
        e = {"TRACE_FILE": str(f)}
        e.update(env or {})
        out, rc = self.tlc(f"{module}.tla", cfg, env=e, timeout=timeout)
        fails, done = {}, set()
        for line in out.splitlines():
            m = re.match(r'^"VF\|FAIL\|(\d+)\|(\d+)\|(.*)"$', line)
            if m:
                fails.setdefault(int(m[1]), (int(m[2]), m[3]))
            m = re.match(r'^"VF\|DONE\|(\d+)"$', line)
            if m:
                done.add(int(m[1]))
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["events_validated"] += sum(len(t) for t in traces)
        if module not in self.cov["trace_modules"]:
            self.cov["trace_modules"].append(module)
        bad = []
        err = None
        for k in range(1, len(traces) + 1):
            if k in fails:
                i, clause = fails[k]
                bad.append({"trace": k, "event": i, "clause": clause, "rec": traces[k - 1]})
            elif k not in done:
                if err is None:
                    err = [l for l in out.splitlines() if not l.startswith('"VF|')][-60:]
                bad.append({"trace": k, "event": 0,
                            "clause": "the specification cannot evaluate this trace: " + " / ".join(err)[:1500],
                            "rec": traces[k - 1]})
        for b in bad:
            tr = b["rec"]
            i = b["event"]
            self.violation(
                f"{label or module}: trace {b['trace']} event {i}: {b['clause']}",
                {"clause": b["clause"], "event": tr[i - 1] if i else None, "first": tr[0], "prefix": tr[:i] if i else tr},
            )
        f.unlink()
        return bad

    # ---------------------------------------------------------------- drivers
    def run_jobs(self, fn, args: list, timeout=300, label="driver") -> list:
        """Run fn(*a) for each a in forked processes. A job that raises, dies or hangs is a violation."""
        res: list = [None] * len(args)
        pend = list(enumerate(args))[::-1]
        live: dict = {}
        ctx = mp.get_context("fork")
        while pend or live:
            while pend and len(live) < self.ncpu:
                i, a = pend.pop()
                out = self.scratch / f"job_{label}_{i}_{time.monotonic_ns()}.json"
                p = ctx.Process(target=_job, args=(fn, a, str(out)))
                p.start()
                live[i] = (p, out, time.time(), a)
            time.sleep(0.02)
            for i in list(live):
                p, out, t, a = live[i]
                if p.is_alive() and time.time() - t < timeout:
                    continue
                hung = p.is_alive()
                _kill(p)
                del live[i]
                if out.exists():
                    r = json.loads(out.read_text())
                    out.unlink()
                else:
                    r = {"err": "timed out after %d s" % timeout if hung else f"process ended with {p.exitcode}"}
                if "err" in r:
                    self.violation(f"{label} {_short(a)} did not complete: {r['err'].strip().splitlines()[-1]}", r["err"])
                else:
                    res[i] = r["ok"]
        return [r for r in res if r is not None]

    # ---------------------------------------------------------------- end
    def finish(self, level="model_checking") -> int:
        known = []
        kf = known_findings(self.prop)
        new = []
        for v in self.violations:
            new.append(v)
        for k in self.known:
            if k in kf:
                known.append(k)
                print(f"KNOWN-FINDING: property={self.prop} {kf[k]}")
            else:
                new.append({"what": f"finding {k} is not listed", "detail": k})
        EVID.mkdir(exist_ok=True)
        self.cov["samples"] = self.cov["traces_validated_against_impl"]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": self.cov,
            "assumptions": self.assumptions or ["the harness observes the real objects through their public API"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [v["what"][:500] for v in new],
        }
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        rc = 0
        if new:
            rd = EVID / "replay"
            rd.mkdir(exist_ok=True)
            rp = rd / f"{self.prop}.json"
            rp.write_text(json.dumps({"property": self.prop, "tier": self.tier, "seed": self.seed,
                                      "violations": new[:20]}, indent=1, default=str))
            for v in new[:8]:
                print("  " + v["what"][:400])
            print(f"VIOLATION property={self.prop} replay={rp}")
            rc = 1
        else:
            c = self.cov
            print(f"OK property={self.prop} tier={self.tier} states={c['states']} transitions={c['transitions']} "
                  f"traces={c['traces_validated_against_impl']} events={c['events_validated']} "
                  f"wall={ev['wall_s']}s")
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def known_findings(prop: str) -> dict[str, str]:
    """known_findings.txt: 'known: property=<id> <key> <what fails>' and 'fixed: ...' lines."""
    res = {}
    f = ROOT / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m[1] == prop:
                res[m[2]] = m[3]
    return res


_CP = None


def _classpath() -> str:
    global _CP
    if _CP is None:
        txt = Path(shutil.which("tlc")).read_text()
        m = re.search(r"-cp\s+\"?([^\s\"]+)", txt)
        _CP = m[1] if m else JAVA_CP
    return _CP


def _short(a):
    s = str(a)
    return s if len(s) < 160 else s[:160] + "..."


def _kill(p):
    if p.is_alive():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            p.kill()
    p.join(10)


def _job(fn, a, out):
    try:
        os.setsid()
    except OSError:
        pass
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        import random
        import zlib

        h = zlib.crc32(repr(a)[:4000].encode())   # the same job draws the same numbers
        random.seed(h)
        if "numpy" in sys.modules:
            sys.modules["numpy"].random.seed(h)
        if "torch" in sys.modules:
            sys.modules["torch"].manual_seed(h)
        r = {"ok": fn(*a)}
        s = json.dumps(r)
    except BaseException:
        s = json.dumps({"err": traceback.format_exc()})
    tmp = out + ".tmp"
    Path(tmp).write_text(s)
    os.replace(tmp, out)
    os._exit(0)


def cover(es, max_len=60, budget=None, seed=0):
    """Greedy walks from the initial node(s) that cover all edges. Nodes are state strings."""
    import random

    rnd = random.Random(seed)
    ids: dict[str, int] = {}
    succ: dict[int, list] = {}
    indeg: dict[int, int] = {}
    seen = set()
    for f, a, t in es:
        u, v = ids.setdefault(f, len(ids)), ids.setdefault(t, len(ids))
        if (u, a, v) in seen:
            continue
        seen.add((u, a, v))
        succ.setdefault(u, []).append((a, v))
        indeg[v] = indeg.get(v, 0) + 1
    if not es:
        return [], 0, 0
    init = ids[es[0][0]]
    # BFS tree from init
    par = {init: None}
    q = [init]
    for u in q:
        for a, v in succ.get(u, []):
            if v not in par:
                par[v] = (u, a)
                q.append(v)
    depth = {init: 0}
    for u in q[1:]:
        depth[u] = depth[par[u][0]] + 1

    def path(u):
        p = []
        while par[u] is not None:
            u, a = par[u]
            p.append(a)
        return p[::-1]

    todo = {u: [(a, v) for a, v in succ[u]] for u in succ}
    for u in todo:
        rnd.shuffle(todo[u])
    total = len(seen)
    left = total if budget is None else min(total, budget)
    covered = 0
    walks = []
    order = sorted(todo, key=lambda u: depth.get(u, 10**9))
    if budget is not None and budget < total:
        rnd.shuffle(order)
    oi = 0
    while covered < left:
        while oi < len(order) and not todo[order[oi]]:
            oi += 1
        if oi >= len(order):
            break
        u = order[oi]
        if u not in par:
            oi += 1
            continue
        w = path(u)
        while len(w) < max_len:
            if todo.get(u):
                a, v = todo[u].pop()
                covered += 1
                w.append(a)
                u = v
                continue
            # look for a nearby node with uncovered edges
            prev = {u: None}
            fr = [u]
            hit = None
            while fr and hit is None and len(prev) < 200:
                nf = []
                for x in fr:
                    for a, v in succ.get(x, []):
                        if v not in prev:
                            prev[v] = (x, a)
                            if todo.get(v):
                                hit = v
                                break
                            nf.append(v)
                    if hit is not None:
                        break
                fr = nf
            if hit is None:
                break
            seg = []
            x = hit
            while prev[x] is not None:
                x, a = prev[x]
                seg.append(a)
            if len(w) + len(seg) >= max_len:
                break
            w += seg[::-1]
            u = hit
        walks.append(w)
    return walks, covered, total


# -------------------------------------------------------------------- canonical values
def iv(x) -> int:
    """An exact integer or WEIRD."""
    try:
        import numpy as np

        if isinstance(x, (list, tuple)):
            return WEIRD
        a = np.asarray(x)
        if a.size != 1:
            return WEIRD
        if a.dtype == object:
            a = np.asarray(a.item())
            if a.dtype == object:
                return WEIRD
        if a.dtype == bool:
            return int(a.reshape(())[()])
        f = float(a.reshape(())[()])
        if f != f or abs(f) > 2**31 - 1 or f != int(f):
            return WEIRD
        return int(f)
    except Exception:
        return WEIRD


def il(xs) -> list:
    """A flat list of exact integers; anything else becomes [WEIRD]."""
    try:
        import numpy as np
        import torch

        if isinstance(xs, torch.Tensor):
            xs = xs.detach().cpu().numpy()
        a = np.asarray(xs)
        if a.ndim == 0:
            return [WEIRD]
        return [iv(v) for v in a.reshape(-1)] if a.dtype != object else [iv(v) for v in a.reshape(-1)]
    except Exception:
        return [WEIRD]


def scaled(x, scale=1000000, tol=0.02) -> int:
    """round(x*scale) when x*scale is close to an integer, else WEIRD."""
    try:
        f = float(x) * scale
        r = round(f)
        if abs(f - r) > tol or abs(r) > 2**31 - 1:
            return WEIRD
        return int(r)
    except Exception:
        return WEIRD
