"""Drives real statistics objects; the events are judged by spec/StatsTrace.tla."""
from __future__ import annotations

import random

import gymnasium as gym
import numpy as np
import torch

from tianshou.data import SequenceSummaryStats
from tianshou.data.stats import compute_dim_to_summary_stats
from tianshou.env import DummyVectorEnv, VectorEnvNormObs
from tianshou.utils import MovAvg, RunningMeanStd
from vlib.core import WEIRD, iv

CLIP = 100000


def th(x):
    """thousandths"""
    try:
        f = float(x) * 1000
        return int(round(f)) if f == f and abs(f) < 2e9 else WEIRD
    except Exception:
        return WEIRD


class EmitEnv(gym.Env):
    """Emits random observations and remembers them."""

    def __init__(self, d, seed, typ):
        self.r = random.Random(seed)
        self.d, self.typ = d, typ
        self.observation_space = gym.spaces.Box(-1000, 1000, (d,) if d else ())
        self.action_space = gym.spaces.Discrete(2)
        self.log: list = []
        self.k = 0

    def emit(self):
        row = [self.r.choice([-7, -3, -1, 0, 1, 2, 4, 12]) if self.r.random() < 0.9 else self.r.choice([-60, 60])
               for _ in range(self.d)]
        self.log.append(row)
        return np.array(row, self.typ)

    def reset(self, *, seed=None, options=None):
        self.k = 0
        return self.emit(), {"n": len(self.log)}

    def step(self, a):
        self.k += 1
        return self.emit(), float(10 * len(self.log) + a), self.k >= 3, False, {"n": len(self.log)}


class StatDriver:
    def __init__(self, seed, d=1, num=2, objs=None, upd=(1, 0), size=0, flat=False, clip=10):
        self.r = random.Random(seed)
        self.d, self.num = d, num
        self.flat = flat  # one-dimensional stream of scalars
        objs = objs or [{"d": d, "m0": 0, "s0": 1, "clip": 10} for _ in upd] + [{"d": d, "m0": 2, "s0": 3, "clip": clip}]
        self.ev = [{"op": "start", "objs": objs, "upd": list(upd), "size": size, "err": ""}]
        self.envs, self.w, self.rms = [], [], []
        typ = self.r.choice(["float64", "float64", "int64"])
        for k, u in enumerate(upd):
            es = [EmitEnv(d, seed * 100 + k * 10 + j, typ) for j in range(num)]
            v = VectorEnvNormObs(DummyVectorEnv([lambda e=e: e for e in es]), update_obs_rms=bool(u))
            self.envs.append(es)
            self.w.append(v)
            self.rms.append(v.get_obs_rms())
        for o in objs[len(upd):]:
            self.rms.append(RunningMeanStd(mean=float(o["m0"]), std=float(o["s0"]), clip_max=float(o["clip"]) if o["clip"] else None))
        self.nenv = len(upd)
        self.started = [[0] * num for _ in upd]
        self.ma = MovAvg(size=size) if size >= 0 else MovAvg()

    def run(self, e, fn):
        try:
            fn()
            e["err"] = ""
        except Exception as x:
            e["err"] = type(x).__name__
        self.ev.append(e)

    def stat(self, e, rms):
        e["n"] = iv(rms.count)
        m, v = np.asarray(rms.mean, float), np.asarray(rms.var, float)
        if self.d and m.ndim == 0:
            m, v = np.full(self.d, m), np.full(self.d, v)
        e["m"], e["v"] = [th(x) for x in m.reshape(-1)], [th(x) for x in v.reshape(-1)]

    def denorm(self, rms, out, raw):
        out = np.asarray(out, float)
        res = []
        if out.shape != (len(raw), self.d):
            return [[WEIRD] * self.d for _ in raw]
        m = np.broadcast_to(np.asarray(rms.mean, float), out.shape)
        v = np.broadcast_to(np.asarray(rms.var, float), out.shape)
        c = rms.clip_max
        for j in range(len(raw)):
            row = []
            for k in range(self.d):
                o = out[j, k]
                if c and abs(abs(o) - c) < 1e-9:
                    row.append(CLIP if o > 0 else -CLIP)
                else:
                    x = o * np.sqrt(v[j, k] + rms.eps) + m[j, k]
                    row.append(int(round(x)) if abs(x - round(x)) < 1e-6 else WEIRD)
            res.append(row)
        return res

    def update(self, o, rows):
        e = {"op": "upd", "w": o + 1, "raw": rows, "n": 0, "m": [], "v": [], "vals": []}
        a = np.array(rows, self.r.choice(["float64", "int64", "float64"]))

        def go():
            b = a.copy()
            self.rms[o].update(b)
            assert (a == b).all()
            self.stat(e, self.rms[o])
        self.run(e, go)

    def norm(self, o, rows):
        e = {"op": "norm", "w": o + 1, "raw": rows, "n": 0, "m": [], "v": [], "vals": []}

        def go():
            a = np.array(rows, float)
            out = self.rms[o].norm(a)
            assert (a == np.array(rows, float)).all()
            e["vals"] = self.denorm(self.rms[o], out, rows)
            self.stat(e, self.rms[o])
        self.run(e, go)

    def env(self, w, ids=None, reset=False):
        sub = list(range(self.num)) if ids is None else ids
        if any(not self.started[w][i] for i in sub):
            reset = True
        e = {"op": "env", "w": w + 1, "raw": [], "n": 0, "m": [], "v": [], "vals": [], "same": 0}

        def go():
            before = [len(self.envs[w][i].log) for i in sub]
            if reset:
                out, info = self.w[w].reset(ids)
                ok = 1
            else:
                acts = np.array([self.r.randint(0, 1) for _ in sub])
                out, rew, term, trunc, info = self.w[w].step(acts, ids)
                ok = int([iv(x) for x in rew] == [10 * (b + 1) + int(a) for a, b in zip(acts, before)]
                         and [bool(x) for x in term] == [self.envs[w][i].k >= 3 for i in sub] and not any(trunc))
            e["raw"] = [self.envs[w][i].log[b] for i, b in zip(sub, before)]
            e["same"] = int(ok and all(len(self.envs[w][i].log) == b + 1 for i, b in zip(sub, before))
                            and [iv(x["n"]) for x in info] == [b + 1 for b in before])
            rms = self.w[w].get_obs_rms()
            e["vals"] = self.denorm(rms, out, e["raw"])
            self.stat(e, rms)
            for i in sub:
                self.started[w][i] = 1
        self.run(e, go)

    def share(self, w, o):
        self.run({"op": "share", "w": w + 1, "x": o + 1}, lambda: self.w[w].set_obs_rms(self.rms[o]))

    def switch(self, w):
        def go():
            self.w[w].update_obs_rms = not self.w[w].update_obs_rms
        self.run({"op": "switch", "w": w + 1}, go)

    # ---------------------------------------------------------------- moving averages and summaries
    def special(self):
        return self.r.choice([float("nan"), np.nan, np.float32("nan"), np.float64("nan"), float("inf"), -np.inf, np.float32("inf")])

    def add(self, k=None):
        r = self.r
        form = r.choice(["scalar", "list", "array", "tensor", "npscalar", "tensor0", "tensor2"])
        k = 1 if form in ("scalar", "npscalar", "tensor0") else r.randint(0, 4)
        if form == "tensor2":
            k = 4
        fin = [int(r.random() < 0.75) for _ in range(k)]
        vals = [r.randint(-9, 15) for _ in range(k)]
        raw = [v if f else self.special() for v, f in zip(vals, fin)]
        x = {"scalar": lambda: raw[0], "npscalar": lambda: np.float64(raw[0]), "list": lambda: raw,
             "array": lambda: np.array(raw, r.choice(["float64", "float32"])), "tensor": lambda: torch.tensor(raw, dtype=torch.float64),
             "tensor0": lambda: torch.tensor(raw[0]), "tensor2": lambda: torch.tensor(raw).reshape(2, 2)}[form]()
        e = {"op": "add", "vals": vals, "fin": fin, "form": form, "mean": 0, "got": 0, "var": 0}

        def go():
            e["mean"] = th(self.ma.add(x))
            e["got"] = th(self.ma.get())
            if th(self.ma.mean()) != e["got"]:
                e["got"] = WEIRD
            e["var"] = th(self.ma.std() ** 2)
        self.run(e, go)

    def summary(self):
        r = self.r
        form = r.choice(["list", "array", "array", "two", "dims"])
        k = r.choice([0, 1, 2, 3, 5, 8])
        vals = [r.randint(-9, 15) for _ in range(k)]

        def ev(vals, s):
            e = {"op": "summary", "vals": vals, "form": form, "mean": th(s.mean), "var": th(s.std ** 2), "min": th(s.min),
                 "max": th(s.max), "err": ""}
            self.ev.append(e)
        try:
            if form == "dims":
                n, d = r.randint(1, 4), r.randint(1, 3)
                a = np.array([[r.randint(-9, 15) for _ in range(n)] for _ in range(d)])
                res = compute_dim_to_summary_stats(a if r.random() < 0.5 else a.tolist())
                assert list(res) == list(range(d))
                for j in range(d):
                    ev(a[j].tolist(), res[j])
            else:
                if form == "two":
                    vals = [r.randint(-9, 15) for _ in range(6)]
                x = vals if form == "list" else np.array(vals, r.choice(["float64", "int64", "float32"]))
                ev(vals, SequenceSummaryStats.from_sequence(x.reshape(2, 3) if form == "two" else x))
        except Exception as x:
            self.ev.append({"op": "summary", "vals": vals, "form": form, "err": type(x).__name__})


def sched_trace(walk, seed):
    d = StatDriver(seed, d=1 + seed % 2, num=2)
    r = random.Random(seed)
    for a in walk:
        w = a["w"] - 1
        if a["op"] == "give":
            d.env(w, None if a["x"] == 2 and r.random() < 0.5 else r.sample([0, 1], a["x"]), r.random() < 0.3)
        elif a["op"] == "share":
            d.share(w, a["x"] - 1)
        elif a["op"] == "switch":
            d.switch(w)
        if r.random() < 0.2:
            d.norm(r.randrange(2), d_rows(r, d.d))
    return d.ev


def d_rows(r, dd, k=None):
    return [[r.choice([-9, -2, 0, 1, 3, 12]) if r.random() < 0.8 else r.choice([-200, 200]) for _ in range(dd)]
            for _ in range(k or r.randint(1, 4))]


def random_trace(seed, nops):
    r = random.Random(seed)
    d = StatDriver(seed, d=r.randint(1, 3), num=r.randint(1, 4), upd=r.choice([(1, 0), (1, 1), (0, 1)]),
                   size=r.choice([-1, 0, 1, 2, 3, 7]) if False else r.choice([0, 1, 2, 3, 7]), clip=r.choice([0, 1, 2, 10]))
    rows = 0
    for _ in range(nops):
        x = r.random()
        if x < 0.4 and rows < 55:
            ids = None if r.random() < 0.4 else r.sample(range(d.num), r.randint(1, d.num))
            d.env(r.randrange(2), ids, r.random() < 0.25)
            rows += d.num
        elif x < 0.5 and rows < 50:
            k = r.randint(1, 6)
            d.update(2, [[r.randint(-12, 12) for _ in range(d.d)] for _ in range(k)])
            rows += k
        elif x < 0.62:
            d.norm(r.randrange(3), d_rows(r, d.d))
        elif x < 0.66:
            d.share(r.randrange(2), r.randrange(2))
        elif x < 0.7:
            d.switch(r.randrange(2))
        elif x < 0.9:
            d.add()
        else:
            d.summary()
    return d.ev
