"""Drives real hindsight replay buffers (events judged by spec/HerTrace.tla)."""
from __future__ import annotations

import random

import numpy as np

from vlib.bufdrv import Driver, Layout, Reg, clone_buf, ints
from vlib.core import WEIRD, iv

from tianshou.data import Batch, HERReplayBuffer, HERReplayBufferManager, HERVectorReplayBuffer, ReplayBuffer


def reward_fn(ag, g):
    return ((7 * ag + 3 * g) % 1009).reshape(len(ag), -1)[:, 0].astype(float)


class HerLayout(Layout):
    def __init__(self, dim):
        super().__init__()
        self.dim = dim

    def goal(self, v):
        return np.full((self.dim,), v, dtype=np.float64)

    def one(self, t):
        x = t["x"]
        return {
            "obs": {"observation": np.array([x, x]), "achieved_goal": self.goal(2 * x), "desired_goal": self.goal(t["dg"])},
            "obs_next": {"observation": np.array([x, -x]), "achieved_goal": self.goal(2 * x + 1),
                         "desired_goal": self.goal(t["dg"])},
            "act": np.int64(x + 100000), "rew": np.float64(t["r"][0]), "terminated": np.bool_(t["te"]),
            "truncated": np.bool_(t["tr"]), "info": {},
        }

    def batch(self, ts, stacked):
        rows = [self.one(t) for t in ts]
        return Batch.stack([Batch(r) for r in rows]) if stacked else Batch(rows[0])


class HerDriver(Driver):
    def hnew(self, r, kind, caps, k2, horizon, ign):
        kw = {"compute_reward_fn": reward_fn, "horizon": horizon, "future_k": k2 / 2, "ignore_obs_next": bool(ign)}
        if kind == "plain":
            buf = HERReplayBuffer(caps[0], **kw)
        elif len(set(caps)) == 1:
            buf = HERVectorReplayBuffer(sum(caps), len(caps), **kw)
        else:
            buf = HERReplayBufferManager([HERReplayBuffer(c, **kw) for c in caps])
        self.k2 = k2
        self.regs[r] = Reg(buf, kind, caps, 1, 0, ign, 1)
        self.ev.append({"op": "new", "r": r, "kind": kind, "caps": caps, "stack": 1, "avail": 0, "ign": ign, "rdim": 1})

    def trans(self, d, hk=None, hp=None):
        t = super().trans(d, 0, 0)
        t["dg"] = 50000 + t["x"]
        return t

    def gl(self, a):
        a = np.asarray(a)
        if a.ndim != 2 or a.shape[1] != self.lay.dim:
            return [WEIRD]
        return [iv(v[0]) if (v == v[0]).all() else WEIRD for v in a]

    def read(self, e, b):
        e["og"], e["ag"] = self.gl(b.obs.desired_goal), self.gl(b.obs.achieved_goal)
        e["nog"], e["nag"] = self.gl(b.obs_next.desired_goal), self.gl(b.obs_next.achieved_goal)
        e["rew"], e["act"] = ints(b.rew), ints(b.act)

    def blank(self, op, r):
        return {"op": op, "r": r, "idx": [], "og": [], "nog": [], "ag": [], "nag": [], "rew": [], "act": [], "err": "", "n": -1,
                "k2": self.k2}

    def hsample(self, r, n):
        g = self.regs[r]
        if not g.valid():
            return
        e = self.blank("hsample", r)
        e["n"] = n
        try:
            b, ix = g.buf.sample(n)
            e["idx"] = ints(ix)
            self.read(e, b)
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def rewrite(self, r, idx):
        """Relabel exactly these rows."""
        g = self.regs[r]
        e = self.blank("hsample", r)
        try:
            g.buf.sample_indices(-1)  # restores what was relabelled before
            g.buf.rewrite_transitions(np.array(idx))
            e["idx"] = list(idx)
            self.read(e, g.buf[np.array(idx)])
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def hrows(self, r):
        """Read everything; only right after an operation that restores the original data."""
        g = self.regs[r]
        v = g.valid()
        if not v:
            return
        e = self.blank("hrows", r)
        try:
            e["idx"] = v
            self.read(e, g.buf[np.array(v)])
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)


def random_trace(seed, nops):
    rnd = random.Random(seed)
    np.random.seed(seed % 2**32)
    d = HerDriver(HerLayout(rnd.choice([1, 2])), rnd)
    kind = rnd.choice(["plain", "vec"])
    m = rnd.choice([1, 2, 3, 4, 5, 7, 9])
    caps = [m] if kind == "plain" else [m] * rnd.randrange(1, 4) if rnd.random() < 0.6 else [rnd.randrange(1, 7) for _ in range(3)]
    k2 = rnd.choice([2, 3, 4, 4, 8, 16])
    ign = int(rnd.random() < 0.4)
    # horizon: at least the length of any stored piece of an episode
    d.hnew(1, kind, caps, k2, max(caps) + rnd.choice([0, 0, 1, 5]), ign)
    pd = rnd.choice([0.15, 0.3, 0.5])
    live = [1]
    for _ in range(nops):
        r = rnd.choice(live)
        g = d.regs[r]
        op = rnd.choices(["add", "sample", "reset", "clone", "move"], [10, 7, 0.3, 0.4, 0.3])[0]
        if op == "add":
            envs = list(range(1, len(caps) + 1))
            rnd.shuffle(envs)
            envs = envs[: rnd.randrange(1, len(envs) + 1)]
            d.add(r, envs, [rnd.choice([1, 2]) if rnd.random() < pd else 0 for _ in envs])
            if rnd.random() < 0.4:
                d.hrows(r)
        elif op == "sample":
            for _ in range(rnd.randrange(1, 4)):
                d.hsample(r, rnd.choice([0, 1, 2, 3, 5, 12]))
        elif op == "reset":
            d.reset(r, rnd.random() < 0.5)
        elif op == "clone":
            dst = rnd.choice([k for k in (1, 2, 3) if k != r])
            d.clone(dst, r, rnd.choice(["hdf5", "pickle", "deepcopy"]))
            if dst not in live:
                live.append(dst)
            if d.ev[-1]["how"] == "hdf5":
                d.hrows(dst)
            d.hsample(dst, rnd.choice([0, 2]))
        elif any(g.size):
            # move everything into a fresh plain buffer (original goals, whatever was sampled before)
            d.regs[4] = Reg(ReplayBuffer(rnd.randrange(1, 12), ignore_obs_next=bool(ign)), "plain", [0], 1, 0, ign, 1)
            d.regs[4].caps = [d.regs[4].buf.maxsize]
            d.ev.append({"op": "new", "r": 4, "kind": "plain", "caps": d.regs[4].caps, "stack": 1, "avail": 0, "ign": ign,
                         "rdim": 1})
            d.update(4, r)
            d.hrows(4)
    return d.ev


def sched_trace(walk, cap, ign, seed):
    rnd = random.Random(seed)
    np.random.seed(seed % 2**32)
    d = HerDriver(HerLayout(1), rnd)
    d.hnew(1, "plain", [cap], 4, cap, ign)
    for a in walk:
        if a["op"] == "add":
            d.add(1, [1], [a["d"]])
            d.hrows(1)
        else:
            d.rewrite(1, a["idx"])
    return d.ev
