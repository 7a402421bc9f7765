"""Drives policy modes and policy updates of the real code; judged by spec/UpdateTrace.tla."""
from __future__ import annotations

import random
import warnings

import gymnasium as gym
import numpy as np
import torch

from tianshou.data import (Batch, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, ReplayBufferManager,
                           VectorReplayBuffer)
from tianshou.policy import A2CPolicy, BasePolicy, GAILPolicy, ICMPolicy, NPGPolicy, PGPolicy, PPOPolicy, TRPOPolicy
from tianshou.policy.base import TrainingStats
from tianshou.utils import MultipleLRSchedulers
from tianshou.utils.net.discrete import IntrinsicCuriosityModule
from tianshou.utils.torch_utils import policy_within_training_step, torch_train_mode
from vlib.core import WEIRD, iv

warnings.simplefilter("ignore")


class Boom(Exception):
    pass


class Boom2(BaseException):
    pass


class Sched(torch.optim.lr_scheduler.LambdaLR):
    def __init__(self, drv, k, period):
        self.drv, self.k = None, k
        self.opt = torch.optim.SGD([torch.zeros(1, requires_grad=True)], lr=1024.0)
        super().__init__(self.opt, lambda n: 0.5 ** (n // period))
        self.drv = drv

    def step(self, *a):
        if self.drv is not None:
            self.drv.call("lr", [self.k], [])
            self.drv.boom("lr")
        super().step(*a)

    def state_dict(self):
        d = super().state_dict()
        for k in ("drv", "opt", "k"):
            d.pop(k, None)
        return d


def recording(cls):
    class Rec(cls):
        drv = None

        def sample(self, batch_size):
            d = self.drv
            if d is None:
                return super().sample(batch_size)
            try:
                d.boom("sample")
                b, i = super().sample(batch_size)
            except BaseException:
                d.call("sample", [-1 if batch_size is None else iv(batch_size)], [])
                raise
            d.call("sample", [-1 if batch_size is None else iv(batch_size)], i)
            d.sampled = b
            return b, i

    if hasattr(cls, "update_weight"):
        def update_weight(self, index, new_weight):
            if self.drv is not None:
                self.drv.call("weight", index, np.asarray(new_weight))
            return super(Rec, self).update_weight(index, new_weight)
        Rec.update_weight = update_weight
    Rec.__name__ = cls.__name__
    return Rec


REC = {c: recording(c) for c in (ReplayBuffer, VectorReplayBuffer, ReplayBufferManager, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer)}


class P(BasePolicy):
    """A policy that only records."""

    def __init__(self, drv, sched):
        super().__init__(action_space=gym.spaces.Discrete(2), lr_scheduler=sched)
        self.net = torch.nn.Linear(1, 1)
        self.drv = [drv]

    def forward(self, batch, state=None, **kw):
        return Batch(act=np.zeros(len(batch)))

    def process_fn(self, batch, buffer, indices):
        d = self.drv[0]
        d.call("process", batch.obs, indices, buffer is d.buf and batch is d.sampled)
        d.boom("process")
        d.processed = Batch(obs=batch.obs, extra=np.arange(len(indices))) if d.new else batch
        return d.processed

    def learn(self, batch, *args, **kw):
        d = self.drv[0]
        d.call("learn", batch.obs, [kw.get("a", -9), kw.get("b", -9)], batch is d.processed and not args)
        if d.flip:
            self.train(d.flip == "train")
        d.boom("learn")
        if d.ws is not None:
            batch.weight = d.ws
        d.learned = batch
        d.stats = TrainingStats()
        return d.stats

    def post_process_fn(self, batch, buffer, indices):
        d = self.drv[0]
        d.call("post", batch.obs, indices, buffer is d.buf and batch is d.learned)
        d.boom("post")
        super().post_process_fn(batch, buffer, indices)


class UpdDriver:
    def __init__(self, seed, caps, prio=False, lrp=(2,), train=True):
        self.rng = random.Random(seed)
        np.random.seed(seed % 2**32)
        torch.manual_seed(seed)
        self.caps, self.prio = caps, prio
        if prio:
            assert len(set(caps)) == 1
            c = PrioritizedReplayBuffer if len(caps) == 1 and self.rng.random() < 0.5 else PrioritizedVectorReplayBuffer
            kw = dict(alpha=0.6, beta=0.4)
        elif len(caps) == 1 and self.rng.random() < 0.6:
            c, kw = ReplayBuffer, {}
        elif len(set(caps)) == 1:
            c, kw = VectorReplayBuffer, {}
        else:
            c, kw = ReplayBufferManager, {}
        self.plain = c in (ReplayBuffer, PrioritizedReplayBuffer)
        if self.plain:
            self.buf = REC[c](caps[0], **kw)
        elif c is ReplayBufferManager:
            self.buf = REC[c]([ReplayBuffer(x) for x in caps])
        else:
            self.buf = REC[c](sum(caps), len(caps), **kw)
        self.calls, self.fail, self.new, self.ws, self.flip = [], "", 0, None, ""
        self.sampled = self.processed = self.learned = self.stats = None
        self.scheds = [Sched(self, k + 1, p) for k, p in enumerate(lrp)]
        ms = None if not lrp else self.scheds[0] if len(lrp) == 1 and self.rng.random() < 0.5 else MultipleLRSchedulers(*self.scheds)
        self.ms = ms
        self.p = P(self, ms)
        self.p.train(train)
        self.ctx = []
        self.k = self.nlr = 0
        self.ev = [{"op": "start", "caps": caps, "prio": int(prio), "lrp": list(lrp), "tr": int(train), "err": "", "kind": c.__name__}]

    # -- recording
    def modes(self):
        p = self.p
        return {"w": int(bool(p.is_within_training_step)), "tr": int(p.training), "up": int(bool(p.updating)), "sub": int(p.net.training)}

    def call(self, s, x, y, z=True):
        f = [iv(v) for v in np.asarray(x).reshape(-1)]
        g = [iv(v) for v in np.asarray(y).reshape(-1)]
        self.calls.append({"s": s, "x": f, "y": g, "z": int(bool(z)), **self.modes()})

    def boom(self, s):
        if self.fail == s:
            raise (Boom2 if self.base else Boom)(s)

    # -- events
    def add(self, j=None, n=1):
        for _ in range(n):
            self.k += 1
            jj = j or self.rng.randint(1, len(self.caps))
            done = self.rng.random() < 0.4
            b = Batch(obs=np.array([self.k]), act=np.array([self.rng.randrange(2)]), rew=np.array([1.0 + self.k % 3]), terminated=np.array([done]), truncated=np.array([False]),
                      obs_next=np.array([self.k + 1]), info=np.array([{}]))
            pos = (self.buf.add(b[0]) if self.plain else self.buf.add(b, [jj - 1]))[0]
            self.ev.append({"op": "add", "j": jj, "tok": self.k, "pos": iv(pos), "err": ""})

    def enter(self, k, v):
        x = {"op": "enter", "k": k, "v": int(v), "err": ""}
        try:
            cm = policy_within_training_step(self.p, v) if k == "step" else torch_train_mode(self.p, v)
            cm.__enter__()
            self.ctx.append(cm)
        except Exception as e:
            x["err"] = type(e).__name__
        self.ev.append({**x, **self.modes()})

    def exit(self, exc):
        x = {"op": "exit", "exc": int(exc), "prop": 0, "err": ""}
        cm = self.ctx.pop()
        if exc:
            t = self.rng.choice([Boom("x"), Boom2("x"), StopIteration("x")])
            try:
                r = cm.__exit__(type(t), t, None)
                x["prop"] = int(not r)
            except BaseException as e:
                if e is t:
                    x["prop"] = 1
                else:
                    x["err"] = type(e).__name__
        else:
            try:
                cm.__exit__(None, None, None)
            except BaseException as e:
                x["err"] = type(e).__name__
        self.ev.append({**x, **self.modes()})

    def set(self, k, v):
        if k == "step":
            self.p.is_within_training_step = bool(v)
        else:
            self.p.train(bool(v))
        self.ev.append({"op": "set", "k": k, "v": int(v), "err": "", **self.modes()})

    def save(self):
        if isinstance(self.ms, MultipleLRSchedulers):
            self.saved = [dict(d) for d in self.ms.state_dict()]
            self.nsaved = self.nlr
            self.ev.append({"op": "save", "err": ""})

    def load(self):
        x = {"op": "load", "err": ""}
        try:
            self.ms.load_state_dict(self.saved)
            self.nlr = self.nsaved
        except Exception as e:
            x["err"] = type(e).__name__
        self.ev.append(x)

    def update(self, size=0, nobuf=False, fail="", new=None, setw=None, flip=None):
        r = self.rng
        self.calls, self.fail = [], fail
        self.base = r.random() < 0.3
        self.new = int(r.random() < 0.3) if new is None else new
        setw = r.random() < 0.6 if setw is None else setw
        self.flip = r.choice(["", "", "eval", "train"]) if flip is None else flip
        n = len(self.buf) if not size else size
        w = [r.randint(1, 50) for _ in range(n)]
        self.ws = r.choice([np.array, torch.tensor])(w) if setw else None
        kw = {"a": r.randint(0, 5), "b": r.randint(0, 5)}
        x = {"op": "update", "size": -1 if size is None else size, "none": int(size is None), "nobuf": int(nobuf), "fail": fail, "setw": int(setw), "ws": w,
             "new": self.new, "kw": list(kw.values()), "ret": 0, "rates": [], "err": ""}
        self.buf.drv = self
        try:
            s = self.p.update(size, None if nobuf else self.buf, **kw)
            if s is self.stats and s is not None and s.train_time >= 0:
                x["ret"] = 1
            elif type(s) is TrainingStats and s.train_time == 0:
                x["ret"] = 2
            self.nlr += 1
        except Exception as e:
            x["err"] = "Boom" if isinstance(e, Boom) else type(e).__name__
            x["msg"] = str(e)[:80]
        except Boom2:
            x["err"] = "Boom"
        self.buf.drv = None
        x["calls"] = self.calls
        for s in self.scheds:
            v = s.opt.param_groups[0]["lr"] * 1024
            x["rates"].append(int(v) if v == int(v) else WEIRD)
        self.stats = None
        self.ev.append({**x, **self.modes()})

    def mini(self, name, bs, rep):
        r = self.rng
        n = len(self.buf)
        x = {"op": "mini", "name": name, "bs": bs or 0, "rep": rep, "groups": [], "same": 1, "mode": 1, "gs": -1, "fin": 1, "found": 1, "kept": 1, "err": ""}
        torch.manual_seed(self.k)
        np.random.seed(self.k)
        try:
            with torch.enable_grad():
                run_mini(self, x, name, bs, rep, n, r)
        except Exception as e:
            x["err"] = type(e).__name__
            x["msg"] = str(e)[:100]
        self.ev.append(x)


class Tok(torch.nn.Module):
    """A small network on tokens that remembers what it was given."""

    def __init__(self, out, log, name, flat=False):
        super().__init__()
        self.w = torch.nn.Parameter(torch.randn(3, out) * 0.3)
        self.log, self.name, self.flat = log, name, flat
        self.max_action, self.output_dim, self.device = 1.0, out, "cpu"

    def forward(self, obs, state=None, info=None, act=None):
        o = torch.as_tensor(np.asarray(obs), dtype=torch.float32).reshape(len(obs), -1)[:, 0]
        if torch.is_grad_enabled():
            self.log.append((self.name, [int(v) for v in o], self.training))
        f = torch.stack([o * 0 + 1, (o % 3) / 3, (o % 5) / 5], 1) @ self.w
        return (f, None) if self.name == "actor" else f


class Opt(torch.optim.SGD):
    def __init__(self, params, log, groups, x):
        super().__init__(params, lr=0.01)
        self.log, self.groups, self.x = log, groups, x

    def step(self, *a, **k):
        seen = {}
        for nm, toks, tr in self.log:
            seen[nm] = toks
            if not tr:
                self.x["mode"] = 0
        if len({tuple(v) for v in seen.values()}) > 1:
            self.x["same"] = 0
        self.groups.append(list(seen.values())[-1] if seen else [WEIRD])
        self.log.clear()
        return super().step(*a, **k)


def run_mini(d, x, name, bs, rep, n, r):
    log, groups = [], []
    actor, critic = Tok(2, log, "actor"), Tok(1, log, "critic")
    opt = Opt([*actor.parameters(), *critic.parameters()], log, groups, x)
    space = gym.spaces.Discrete(2)
    kw = dict(actor=actor, optim=opt, dist_fn=lambda lg: torch.distributions.Categorical(logits=lg), action_space=space, action_scaling=False,
              discount_factor=0.9, reward_normalization=r.random() < 0.3 and n > 1)
    ck = dict(critic=critic, max_batchsize=r.choice([1, 2, 3, 256]), gae_lambda=0.8)
    na = n > 1 and bs != 1 and r.random() < 0.5
    disc = None
    if name == "pg":
        p = PGPolicy(**kw)
    elif name == "a2c":
        p = A2CPolicy(**kw, **ck, max_grad_norm=r.choice([None, 0.5]))
    elif name in ("ppo", "icm"):
        p = PPOPolicy(**kw, **ck, max_grad_norm=r.choice([None, 0.5]), recompute_advantage=name == "ppo" and r.random() < 0.5, value_clip=r.random() < 0.5, dual_clip=r.choice([None, 2.0]),
                      advantage_normalization=na)
    elif name == "npg":
        p = NPGPolicy(**kw, **ck, advantage_normalization=False, optim_critic_iters=1)
    elif name == "trpo":
        p = TRPOPolicy(**kw, **ck, advantage_normalization=False, optim_critic_iters=1, max_backtracks=r.choice([1, 2, 10]), max_kl=r.choice([0.01, 1e-7]))
    if name == "icm":
        ilog, ig, ix = [], [], {"mode": 1, "same": 1}
        m = IntrinsicCuriosityModule(torch.nn.Linear(1, 2), 2, 2, hidden_sizes=[])
        q = p
        iopt = torch.optim.SGD(m.parameters(), lr=0.01)
        p = ICMPolicy(policy=q, model=m, optim=iopt, lr_scale=0.1, reward_scale=0.1, forward_loss_weight=0.5, action_space=space)
    if name in ("npg", "trpo") and r.random() < 0.3:   # a saturated policy has no gradient
        with torch.no_grad():
            actor.w *= 10000
    w0 = actor.w.detach().clone()
    p.train(r.random() < 0.5)
    # observations have to be arrays of numbers for networks
    with policy_within_training_step(p):
        if name == "icm":
            b, i = d.buf.sample(0)
            b.obs, b.obs_next = b.obs.reshape(-1, 1).astype(np.float32), b.obs_next.reshape(-1, 1).astype(np.float32)
            b = p.process_fn(b, d.buf, i)
            log.clear()
            with torch_train_mode(p):
                s = p.learn(b, batch_size=bs, repeat=rep)
        else:
            s = p.update(0, d.buf, batch_size=bs, repeat=rep)
    x["fin"] = int(all(bool(torch.isfinite(q).all()) for q in p.parameters()))
    if name == "trpo" and len(groups) == 1 and s.step_size.mean == 0:   # the line search failed
        x["found"] = 0
        x["kept"] = int(bool((actor.w == w0).all()))
    if hasattr(s, "gradient_steps"):
        x["gs"] = iv(s.gradient_steps)
    x["groups"] = groups


MINIS = ["pg", "a2c", "ppo", "ppo", "npg", "trpo", "icm"]


def sched_trace(walk, seed):
    r = random.Random(seed)
    d = UpdDriver(seed, r.choice([[3], [2, 2], [1, 3]]), lrp=[r.choice([1, 2])])
    d.add(n=r.randint(1, 5))
    for a in walk:
        if a["op"] == "enter":
            d.enter(a["k"], a["v"])
        elif a["op"] == "exit":
            d.exit(a["exc"])
        elif a["op"] == "set":
            d.set(a["k"], a["v"])
        elif a["op"] == "update":
            d.update(r.choice([0, None, 1, 3]), a["nobuf"], a["fail"])
    return d.ev


def random_trace(seed, nops, minis=True):
    r = random.Random(seed)
    k = r.choice([1, 1, 2, 3])
    prio = r.random() < 0.4
    caps = [r.randint(1, 8)] * k if prio or r.random() < 0.6 else [r.randint(1, 8) for _ in range(k)]
    d = UpdDriver(seed, caps, prio, [r.choice([1, 2, 3]) for _ in range(r.choice([0, 1, 1, 2, 3]))], r.random() < 0.5)
    d.add(n=r.randint(1, 3))
    for _ in range(nops):
        x = r.random()
        if x < 0.15:
            d.add(n=r.randint(1, 4))
        elif x < 0.27:
            if len(d.ctx) < 4:
                d.enter(r.choice(["step", "mode"]), r.random() < 0.7)
        elif x < 0.39:
            if d.ctx:
                d.exit(r.random() < 0.4)
        elif x < 0.5:
            d.set(r.choice(["step", "step", "mode"]), r.random() < 0.7)
        elif x < 0.85:
            if d.nlr < 19:
                w = bool(d.p.is_within_training_step)
                d.update(r.choice([0, None, 1, 2, 5, 9]), r.random() < 0.05, r.choice(["sample", "process", "learn", "post", "lr"]) if w and r.random() < 0.3 and d.scheds else
                         r.choice(["sample", "process", "learn", "post"]) if w and r.random() < 0.2 else "")
        elif x < 0.88:
            d.save()
        elif x < 0.91:
            if hasattr(d, "saved"):
                d.load()
        elif minis:
            n = len(d.buf)
            d.mini(r.choice(MINIS), r.choice([None, 1, 2, 3, n, n + 1, max(1, n // 2)]), r.randint(1, 3))
    return d.ev
