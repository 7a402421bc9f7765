"""Drives the mapping of actions, explorations and action wrappers (R05); judged by spec/ActTrace.tla."""
from __future__ import annotations

import copy
import random
import warnings
from typing import Any

import gymnasium as gym
import numpy as np
import torch
from gymnasium.spaces import Box, Discrete, MultiBinary, MultiDiscrete

from tianshou.data import AsyncCollector, Batch, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.env import ContinuousToDiscrete, DummyVectorEnv, MultiDiscreteToDiscrete, SubprocVectorEnv, TruncatedAsTerminated
from tianshou.exploration import GaussianNoise
from tianshou.policy import BasePolicy, DDPGPolicy, DQNPolicy, MARLRandomPolicy, SACPolicy, TD3Policy
from tianshou.policy.modelfree.bdq import BranchingDQNPolicy
from vlib import nets as N
from vlib.core import WEIRD, iv
from vlib.poldrv import DiscreteBCQPolicy, DiscreteCQLPolicy, QRDQNPolicy

warnings.simplefilter("ignore")
S = 64
CAP = 2**20


class P(BasePolicy):
    """answers what it was told to"""

    def forward(self, batch, state=None, **kw):
        n = len(batch.obs)
        a = self.say(n)
        return Batch(act=a)

    def learn(self, batch, *a, **kw):
        raise NotImplementedError


def sc(x, k):
    """nested list of numbers scaled by k and rounded"""
    if isinstance(x, torch.Tensor):
        x = x.detach().numpy()
    a = np.asarray(x, dtype=np.float64)
    return [[WEIRD if not np.isfinite(v) or abs(v * k) > 2**30 else int(round(float(v) * k)) for v in row] for row in a.reshape(len(a), -1)] if a.ndim else []


class Map:
    """One policy over one space."""

    def __init__(self, r, c, nd):
        self.r, self.c = r, c
        k = c["kind"]
        if k == "box":
            self.space = Box(np.array([x / S for x in c["lo"]], np.float32), np.array([x / S for x in c["hi"]], np.float32), (nd,))
        else:
            self.space = {"disc": Discrete(4), "multi": MultiDiscrete([3] * nd), "bin": MultiBinary(nd)}[k]
        kw = {} if c["bound"] == "none" and r.random() < 0 else {"action_bound_method": None if c["bound"] == "none" else c["bound"]}
        self.p = P(action_space=self.space, action_scaling=bool(c["scale"]), **kw)
        self.nd = nd
        self.ev = [dict(op="conf", err="", **c)]

    def wrap(self, x, how):
        if how == "list":
            return [[float(v) for v in row] for row in x]
        if how == "tuple":
            return tuple(tuple(float(v) for v in row) for row in x)
        if how.startswith("np"):
            return np.array(x, dtype={"np32": np.float32, "np64": np.float64, "npint": np.int64}[how])
        t = torch.tensor(x, dtype=torch.float32 if how == "t32" else torch.float64)
        return t.requires_grad_() if how == "tgrad" else t

    def some(self):
        return self.r.choice(["list", "tuple", "np32", "np64", "t32", "t64", "tgrad"])

    def raw(self, rows):
        """rows of raw actions as floats"""
        if self.c["kind"] == "box":
            return [[v / S if abs(v) < CAP else (float("inf") if v > 0 else float("-inf")) for v in row] for row in rows]
        return rows

    def inside(self, m):
        m = np.asarray(m, dtype=np.float64)
        return int(bool((m >= self.space.low).all() and (m <= self.space.high).all())) if isinstance(self.space, Box) else 1

    def call(self, op, rows, how=None, flat=False):
        box = self.c["kind"] == "box"
        how = how or (self.some() if box else self.r.choice(["npint", "np64", "t64", "list"]))
        x = self.raw(rows) if op == "map" else [[v / S for v in row] for row in rows] if box else rows
        a = self.wrap(x, how)
        if flat:
            a = a[0]
        b = copy.deepcopy(a.detach() if isinstance(a, torch.Tensor) else a)
        e: dict[str, Any] = dict(op=op, rows=rows, how=how, err="", out=[], inside=1, shape=[], shape0=[1], same=1, trip=0)
        try:
            m = getattr(self.p, "map_action" if op == "map" else "map_action_inverse")(a)
            e["shape"], e["shape0"] = list(np.shape(m)), list(np.shape(b))
            mm = np.asarray(m)[None] if flat else m
            if not box:
                e["out"] = [[iv(v) for v in row] for row in np.asarray(mm).reshape(len(rows), -1)]
            else:
                e["out"] = sc(mm, 8192 * S if op == "map" else 65536)
                if op == "map":
                    e["inside"] = self.inside(mm)
                else:
                    back = self.p.map_action(np.array(m, copy=True))
                    e["trip"] = self.trip(b, back)
            z = a.detach() if isinstance(a, torch.Tensor) else a
            e["same"] = int(np.array_equal(np.asarray(z), np.asarray(b), equal_nan=True))
        except Exception as x:
            e["err"] = type(x).__name__
            e["msg"] = str(x)[:100]
        self.ev.append(e)

    def trip(self, b, back):
        b, back = np.asarray(b, dtype=np.float64), np.asarray(back, dtype=np.float64)
        lo, hi = self.space.low.astype(np.float64), self.space.high.astype(np.float64)
        mag = np.maximum(1e-3, np.maximum(np.abs(lo), np.abs(hi)))
        q = np.abs(b - back) / mag * 2**20
        return int(min(1e6, np.ceil(q.max()))) if np.isfinite(q).all() else WEIRD

    def compute(self, row):
        box = self.c["kind"] == "box"
        e: dict[str, Any] = dict(op="compute", rows=[row], err="", out=[], isint=1)
        x = self.raw([row])
        how = self.r.choice(["np32", "np64", "t32", "tgrad"]) if box else self.r.choice(["npint", "t64"])
        self.p.say = lambda n: self.wrap(x, how)[:, 0] if self.c["kind"] == "disc" else self.wrap(x, how)
        try:
            m = self.p.compute_action([0.0, 1.0])
            e["isint"] = int(type(m) is int)
            e["out"] = sc(np.reshape(m, (1, -1)), 8192 * S) if box else [[iv(v) for v in np.reshape(m, -1)]]
        except Exception as x2:
            e["err"] = type(x2).__name__
        self.ev.append(e)

    def collect(self, rand, asyn, nenv, steps):
        """what the environments are given and what the buffer keeps"""
        r, c = self.r, self.c
        got: dict[int, list] = {}
        said: dict[float, list] = {}
        space = self.space

        class Env(gym.Env):
            def __init__(self, i):
                self.i, self.k = i, 0
                self.action_space, self.observation_space = space, Box(-1000, 1000, (1,))

            def tok(self):
                return np.array([self.i * 100.0 + self.k])

            def reset(self, *, seed=None, options=None):
                self.action_space.seed(r.randrange(1000))
                self.k += 1
                return self.tok(), {}

            def step(self, a):
                got[int(self.tok()[0])] = np.array(a, dtype=np.float64).reshape(-1).tolist()
                self.k += 1
                return self.tok(), 0.0, r.random() < 0.3, False, {}

        choices = [-96, -64, -40, -8, 0, 16, 48, 64] + ([] if c["bound"] == "none" and c["scale"] else [80, 200])
        if c["bound"] == "none" and c["scale"]:
            choices.remove(-96)

        def forward(batch, state=None, **kw):
            rows = []
            for o in batch.obs:
                row = [r.choice(choices) for _ in range(self.nd)]
                said[int(o[0])] = row
                rows.append([v / S for v in row])
            return Batch(act=np.array(rows, dtype=np.float32))

        self.p.forward = forward
        e: dict[str, Any] = dict(op="collect", rand=int(rand), err="", kept=[], got=[], said=[], inside=1, trip=0)
        try:
            envs = DummyVectorEnv([lambda i=i: Env(i) for i in range(nenv)], **({"wait_num": 1} if asyn else {}))
            col = (AsyncCollector if asyn else Collector)(self.p, envs, VectorReplayBuffer(60 * nenv, nenv))
            col.reset()
            col.collect(n_step=steps * nenv, random=rand)
            buf = col.buffer
            b = buf[buf.sample_indices(0)]
            toks = [int(o[0]) for o in b.obs]
            e["kept"] = sc(b.act, S) if not rand else [[0] * self.nd for _ in toks]
            e["got"] = sc(np.array([got[t] for t in toks]), 8192 * S)
            e["inside"] = int(all(self.inside(got[t]) for t in toks)) if c["scale"] or rand else 1
            if rand:
                back = self.p.map_action(np.array(b.act, copy=True))
                e["trip"] = self.trip(np.array([got[t] for t in toks]), back)
            else:
                e["said"] = [said[t] for t in toks]
        except Exception as x:
            e["err"], e["msg"] = type(x).__name__, str(x)[:200]
        self.ev.append(e)


def rough(r, nd):
    """Any box of floats."""
    span = r.choice([1e-3, 0.1, 1.0, 3.0, 1e3, 1e6])
    lo = np.array([r.uniform(-span, span) for _ in range(nd)], np.float32)
    hi = np.array([v + abs(r.choice([span, span / 7, span * 3]) * r.random()) for v in lo], np.float32)
    hi = np.maximum(hi, lo)
    bound = r.choice(["clip", "clip", "tanh"])
    p = P(action_space=Box(lo, hi, (nd,)), action_scaling=True, action_bound_method=bound)
    e = dict(op="rough", err="", inside=1, trip=0, ends=1, order=1)
    try:
        dt = r.choice([np.float32, np.float64])
        a = np.array([[r.choice([1.0, -1.0, 0.0, np.inf, -np.inf, 1e30, -1e30, 1 + 1e-7, -1 - 1e-7, r.uniform(-1, 1), r.gauss(0, 3), 1e-40]) for _ in range(nd)] for _ in range(8)], dtype=dt)
        m = p.map_action(a)
        e["inside"] = int(bool((m >= lo).all() and (m <= hi).all()))
        k = max(1e-3, float(np.abs(np.concatenate([lo, hi])).max()))
        big = p.map_action(np.full((1, nd), 1e9, dt))[0]
        sml = p.map_action(np.full((1, nd), -1e9, dt))[0]
        e["ends"] = int(bool((np.abs(big - hi) <= 4e-6 * k).all() and (np.abs(sml - lo) <= 4e-6 * k).all()))
        o = np.argsort(a, axis=0, kind="stable")
        e["order"] = int(bool((np.diff(np.take_along_axis(np.asarray(m, np.float64), o, 0), axis=0) >= -4e-6 * k).all()))
        t = np.array([[r.choice([l, h, l + (h - l) * r.random(), (l + h) / 2]) for l, h in zip(lo, hi)] for _ in range(6)], dtype=np.float32)
        t = np.clip(t, lo, hi)
        back = p.map_action(p.map_action_inverse(t))
        q = np.abs(np.asarray(back, np.float64) - t) / k * 2**18
        e["trip"] = int(np.ceil(q.max())) if np.isfinite(q).all() else WEIRD
    except Exception as x:
        e["err"], e["msg"] = type(x).__name__, str(x)[:100]
    return e


def explorers(r):
    """a policy of the DQN family, the number of its actions, whether it explores"""
    disc = gym.spaces.Discrete(N.A)
    q = N.QNet([1, 0, 0, 0, 3])
    f = r.choice(["dqn", "dqn", "qr", "dcql", "bdq", "dbcq"])
    o = torch.optim.SGD(q.parameters(), lr=0.1)
    if f == "dqn":
        return f, DQNPolicy(model=q, optim=o, action_space=disc)
    if f in ("qr", "dcql"):
        m = N.QRNet([1, 0, 0, 0, 3])
        return f, (QRDQNPolicy if f == "qr" else DiscreteCQLPolicy)(model=m, optim=torch.optim.SGD(m.parameters(), lr=0.1), num_quantiles=N.NQ, action_space=disc)
    if f == "dbcq":
        return f, DiscreteBCQPolicy(model=q, imitator=N.QNet([0, 0, 1, 0, 3]), optim=o, action_space=disc, target_update_freq=1)
    m = N.BDQNet([1, 0, 0, 0, 3])
    return f, BranchingDQNPolicy(model=m, optim=torch.optim.SGD(m.parameters(), lr=0.1), action_space=disc)


def obs(n, masks, with_mask):
    o = np.arange(n)[:, None]
    if not with_mask:
        return o
    return Batch(obs=o, mask=np.array([[a in m for a in range(N.A)] for m in masks]))


class Explore:
    def __init__(self, r):
        self.r = r
        self.ev = [dict(op="conf", kind="disc", bound="none", scale=0, lo=[], hi=[], err="")]

    def some(self, k):
        r = self.r
        return [sorted(r.sample(range(N.A), r.randint(1, N.A))) for _ in range(k)]

    def one(self):
        r = self.r
        f, p = explorers(r)
        eps = r.choice([0, 1, 1, 2])
        n = r.choice([1, 2, 5, 40])
        wm = f not in ("bdq", "dbcq") and r.random() < 0.6
        masks = self.some(n) if wm else [list(range(N.A))] * n
        how = r.choice(["np", "np", "np", "t", "list"])
        e: dict[str, Any] = dict(op="explore", fam=f, eps=eps, masks=masks, err="", act=[], out=[], same=1, kind=int(how == "np"))
        try:
            b = Batch(obs=obs(n, masks, wm), info=[None] * n)
            if f != "bdq":
                with torch.no_grad():
                    p(b)
            p.set_eps({0: 0.0, 1: r.choice([0.1, 0.5, 0.9]), 2: 1.0}[eps])
            k = 2 if f == "bdq" else 1
            act = [[r.choice(m) for _ in range(k)] for m in masks]
            e["act"] = act if f == "bdq" else [a[0] for a in act]
            x: Any = np.array(e["act"])
            if how == "t":
                x = torch.as_tensor(x)
            elif how == "list":
                x = x.tolist()
            c = copy.deepcopy(b)
            y = p.exploration_noise(x, b)
            e["out"] = np.asarray(y).tolist()
            e["same"] = int(bool(np.array_equal(np.asarray(c.obs.mask if wm else c.obs), np.asarray(b.obs.mask if wm else b.obs))))
            if f == "bdq":  # every branch for itself
                e["act"] = [v for row in e["act"] for v in row]
                e["out"] = [v for row in e["out"] for v in row]
                e["masks"] = [m for m in masks for _ in range(2)]
                if eps == 1:
                    pass
        except Exception as x2:
            e["err"], e["msg"] = type(x2).__name__, str(x2)[:100]
        self.ev.append(e)

    def often(self):
        r = self.r
        f, p = explorers(r)
        wm = f not in ("bdq", "dbcq") and r.random() < 0.6
        base = self.some(4) if wm else [list(range(N.A))] * 4
        greedy = [r.choice(m) for m in base]
        eps4 = r.choice([1, 2, 3, 4])
        n = 1600
        masks = base * n
        e: dict[str, Any] = dict(op="often", fam=f, eps4=eps4, masks=base, greedy=greedy, n=n, tol=140, count=[[0] * N.A for _ in range(4)], err="")
        b = Batch(obs=obs(4 * n, masks, wm), info=[None] * (4 * n))
        if f != "bdq":
            with torch.no_grad():
                p(b)
        p.set_eps(eps4 / 4)
        x = np.array(greedy * n)
        if f == "bdq":
            x = np.stack([x, x], 1)
        y = p.exploration_noise(x, b)
        y = np.asarray(y).reshape(4 * n, -1)[:, -1]
        for i in range(4):
            for a in range(N.A):
                e["count"][i][a] = int((y[i::4] == a).sum())
        self.ev.append(e)

    def random(self):
        r = self.r
        n = r.choice([1, 3, 30])
        masks = self.some(n)
        e: dict[str, Any] = dict(op="random", masks=masks, out=[], err="")
        try:
            p = MARLRandomPolicy(action_space=Discrete(N.A))
            e["out"] = [iv(v) for v in p(Batch(obs=obs(n, masks, True))).act]
        except Exception as x:
            e["err"] = type(x).__name__
        self.ev.append(e)

    def noise(self):
        """without spread the noise is its mean"""
        r = self.r
        mu = r.choice([-3, 0, 2])
        kw: dict[str, Any] = dict(action_space=Box(-1, 1, (1,)), exploration_noise=GaussianNoise(mu=float(mu), sigma=0.0))
        a, c = N.Actor([1, 0, 0, 0, 3]), N.Critic([1, 0, 0, 0, 3])
        o = lambda m: torch.optim.SGD(m.parameters(), lr=0.1)  # noqa: E731
        cls = r.choice([DDPGPolicy, TD3Policy, SACPolicy])
        p = cls(actor=a if cls is not SACPolicy else N.SActor([1, 0, 0, 0, 3]), actor_optim=o(a), critic=c, critic_optim=o(c), **kw)
        off = r.random() < 0.3
        if off:
            p.set_exp_noise(None)
            mu = 0
        x = np.array([[float(r.randint(-2, 2))] for _ in range(3)])
        y = x.copy()
        e: dict[str, Any] = dict(op="noise", mu=mu, act=[iv(v) for v in x[:, 0]], out=[], same=1, err="")
        try:
            z = p.exploration_noise(x, Batch(obs=np.zeros((3, 1))))
            e["out"] = [iv(v) for v in np.asarray(z)[:, 0]]
            e["same"] = int(np.array_equal(x, y))
        except Exception as x2:
            e["err"] = type(x2).__name__
        self.ev.append(e)


class Flat(gym.Env):
    def __init__(self, space, res=None):
        self.action_space, self.observation_space = space, Box(-1, 1, (1,))
        self.res = res
        self.last = None

    def reset(self, *, seed=None, options=None):
        return np.zeros(1), {}

    def step(self, a):
        self.last = a
        return self.res or (np.zeros(1), 0.0, False, False, {})


def wrappers(r):
    ev = []
    nd = r.randint(1, 3)
    per = [r.choice([1, 2, 3, 5]) for _ in range(nd)]
    lo = [r.randint(-4, 2) for _ in range(nd)]
    hi = [x + r.randint(1, 4) for x in lo]
    e: dict[str, Any] = dict(op="points", per=per, lo=lo, hi=hi, act=[], out=[], err="", inside=1, space=[])
    try:
        sp = Box(np.array(lo, np.float32), np.array(hi, np.float32), (nd,))
        raw = Flat(sp)
        if len(set(per)) == 1 and r.random() < 0.5:
            env = ContinuousToDiscrete(raw, per[0])
        else:
            env = ContinuousToDiscrete(raw, per)
        e["space"] = [int(v) for v in env.action_space.nvec]
        act = [[r.randrange(k) for k in per] for _ in range(3)]
        e["act"] = act
        if r.random() < 0.5:
            out = np.array(env.action(np.array(act)))
        else:
            env.reset()
            rows = []
            for a in act:
                env.step(np.array(a))
                rows.append(raw.last)
            out = np.array(rows)
        e["out"] = sc(out.astype(float), 1024)
        e["inside"] = int(bool((out >= sp.low).all() and (out <= sp.high).all()))
    except Exception as x:
        e["err"], e["msg"] = type(x).__name__, str(x)[:100]
    ev.append(e)
    nvec = [r.choice([1, 2, 3, 4]) for _ in range(r.randint(1, 4))]
    e = dict(op="digits", nvec=nvec, n=-1, out=[], batch=[], err="")
    try:
        raw = Flat(MultiDiscrete(nvec))
        env = MultiDiscreteToDiscrete(raw)
        n = int(env.action_space.n)
        e["n"] = n
        env.reset()
        for a in range(n):
            env.step(r.choice([a, np.int64(a), np.array(a)]))
            e["out"].append([iv(v) for v in raw.last])
        e["batch"] = [[iv(v) for v in row] for row in env.action(np.arange(n))]
    except Exception as x:
        e["err"], e["msg"] = type(x).__name__, str(x)[:100]
    ev.append(e)
    t, u = r.randint(0, 1), r.randint(0, 1)
    res = (np.array([0.5]), r.choice([1.0, -2.0]), bool(t), bool(u), {"x": 1})
    env = TruncatedAsTerminated(Flat(Discrete(2), res))
    env.reset()
    o = env.step(0)
    ev.append(dict(op="ended", before=[t, u], after=[int(o[2]), int(o[3])], rest=int(o[0] is res[0] and o[1] == res[1] and o[4] == res[4]), err=""))
    return ev


def conf(r, nd, kind=None):
    kind = kind or r.choice(["box", "box", "box", "box", "disc", "multi", "bin"])
    c = dict(kind=kind, bound=r.choice(["clip", "clip", "tanh", "none"]), scale=int(r.random() < 0.7), lo=[], hi=[])
    if kind == "box":
        c["lo"] = [S * r.randint(-4, 3) + r.choice([0, 0, 16]) for _ in range(nd)]
        c["hi"] = [x + S * r.choice([0, 1, 1, 2, 3, 5]) for x in c["lo"]]
    else:
        c["scale"] = 0
    return c


def raws(r, c, nd, n):
    if c["kind"] != "box":
        hi = {"disc": 4, "multi": 3, "bin": 2}[c["kind"]]
        return [[r.randrange(hi) for _ in range(nd if c["kind"] != "disc" else 1)] for _ in range(n)]
    v = [8 * k for k in range(-20, 21)] + [S, -S, 0, CAP, -CAP]
    if c["bound"] == "none":
        v = [x for x in v if abs(x) <= S] * 3 + ([S + 8, -S - 8] if c["scale"] else [2 * S])
    return [[r.choice(v) for _ in range(nd)] for _ in range(n)]


def cql_range(r):
    """the random actions with which CQL compares"""
    from tianshou.policy import CQLPolicy

    lo = r.choice([-3, -1, 0, 1])
    hi = lo + r.choice([1, 2, 4])
    a, c = N.SActor([1, 0, 0, 0, 3]), N.Critic([1, 0, 0, 0, 3])
    c.f32 = True
    o = lambda m: torch.optim.SGD(m.parameters(), lr=0.0)  # noqa: E731
    p = CQLPolicy(actor=a, actor_optim=o(a), critic=c, critic_optim=o(c), action_space=Box(lo, hi, (1,)), min_action=float(lo), max_action=float(hi), calibrated=False, num_repeat_actions=20)
    seen = []
    f = p.calc_random_values
    p.calc_random_values = lambda obs, act: (seen.append(act.detach().numpy().copy()), f(obs, act))[1]
    e: dict[str, Any] = dict(op="range", lo=lo * 64, hi=hi * 64, err="", ends=[])
    try:
        n = 6
        b = Batch(obs=np.arange(n)[:, None].astype(np.float64), obs_next=np.arange(n)[:, None].astype(np.float64), act=np.zeros((n, 1)), rew=np.zeros(n), terminated=np.zeros(n, bool), truncated=np.zeros(n, bool),
                  done=np.zeros(n, bool), info=Batch())
        p.learn(p.process_fn(b, ReplayBuffer(3), np.arange(n)))
    except Exception as x:
        e["err"], e["msg"] = type(x).__name__, str(x)[:100]
    if seen:
        v = np.concatenate([x.reshape(-1) for x in seen])
        e["ends"] = [int(np.floor(v.min() * 64)), int(np.ceil(v.max() * 64))]
    return e


def random_trace(seed, nops):
    r = random.Random(seed)
    np.random.seed(seed)
    torch.manual_seed(seed)
    x = r.random()
    if x < 0.25:
        e = Explore(r)
        for _ in range(nops):
            r.choice([e.one, e.one, e.one, e.random, e.noise])()
        e.often()
        e.ev.append(cql_range(r))
        for _ in range(3):
            e.ev += wrappers(r)
        return e.ev
    nd = r.choice([1, 1, 2, 3])
    c = conf(r, nd)
    m = Map(r, c, nd)
    for _ in range(nops):
        y = r.random()
        n = r.choice([1, 1, 2, 4])
        if y < 0.4:
            m.call("map", raws(r, c, nd, n))
        elif y < 0.5:
            m.call("map", raws(r, c, nd, 1), flat=True)
        elif y < 0.7:
            if c["kind"] == "box":
                rows = [[r.choice([lo, hi, (lo + hi) // 2, lo + (hi - lo) // 4]) for lo, hi in zip(c["lo"], c["hi"])] for _ in range(n)]
                if c["bound"] == "tanh" and not c["scale"]:
                    rows = [[r.choice([-48, -8, 0, 8, 48]) for _ in range(nd)] for _ in range(n)]
            else:
                rows = raws(r, c, nd, n)
            m.call("inv", rows)
        elif y < 0.8:
            row = raws(r, c, nd, 1)[0]
            if c["kind"] != "box" or c["bound"] != "none" or not c["scale"] or all(abs(v) <= S for v in row):
                m.compute(row)
        else:
            m.ev.append(rough(r, r.choice([1, 2, 3])))
    if c["kind"] == "box" and (c["bound"] != "none" or c["scale"]) and r.random() < 0.5:
        nenv = r.choice([1, 2, 3])
        m.collect(r.random() < 0.4 and bool(c["scale"]), r.random() < 0.3, nenv, r.choice([1, 3, 6]))
    return m.ev


def sched_trace(walk, seed):
    """a behaviour of spec/MCAction.tla"""
    r = random.Random(seed)
    m = None
    for a in walk:
        if a["op"] == "conf":
            c = a["c"]
            m = Map(r, dict(kind="box", bound=c["bound"], scale=int(c["scale"]), lo=[c["lo"]], hi=[c["hi"]]), 1)
        elif a["op"] == "map":
            m.call("map", [[a["v"]]], flat=r.random() < 0.3)
        elif a["op"] == "inv":
            if m.c["scale"] or m.c["bound"] != "tanh" or abs(a["v"]) < S:
                m.call("inv", [[a["v"]]])
    return m.ev


def bdq_mask_leaves():
    """BranchingDQNPolicy adds the mask to the numbers of its random actions."""
    m = N.BDQNet([1, 0, 0, 0, 3])
    p = BranchingDQNPolicy(model=m, optim=torch.optim.SGD(m.parameters(), lr=0.1), action_space=gym.spaces.Discrete(N.A))
    p.set_eps(1.0)
    y = p.exploration_noise(np.zeros((200, 2), int), Batch(obs=Batch(obs=np.zeros((200, 1)), mask=np.ones((200, 2), bool))))
    return bool((y >= N.A).any())
