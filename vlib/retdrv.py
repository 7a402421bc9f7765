"""Drives the return and advantage computations of the real code; judged by spec/RetTrace.tla."""
from __future__ import annotations

import random
import warnings

import gymnasium as gym
import numpy as np
import torch

from tianshou.data import Batch, PrioritizedVectorReplayBuffer, ReplayBuffer, ReplayBufferManager, VectorReplayBuffer
from tianshou.data.collector import EpisodeRolloutHookMCReturn
from tianshou.policy import A2CPolicy, BasePolicy, CQLPolicy, NPGPolicy, PGPolicy, PPOPolicy
from tianshou.policy.base import episode_mc_return_to_go
from vlib.core import WEIRD, iv

warnings.simplefilter("ignore")
GAMMAS = [(0, 1), (1, 1), (1, 2), (1, 2), (3, 4), (1, 4)]


def val(t):
    return (t * 7 + 3) % 6 - 1


def lp(t, a):
    return (t * 5 + a * 3) % 3 + 1


def ints(x, scale, tol=0.02):
    """values times scale, which have to be integers"""
    r = []
    for v in np.asarray(x, float).reshape(-1):
        f = v * scale
        r.append(int(round(f)) if abs(f) < 2**31 and abs(f - round(f)) <= tol else WEIRD)
    return r


class Net(torch.nn.Module):
    """Critic or actor that remembers which observations it was given."""

    def __init__(self, kind):
        super().__init__()
        self.kind, self.seen, self.ver = kind, [], 0
        self.p = torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))
        self.max_action = 1.0

    def toks(self, obs):
        return [iv(x) for x in np.asarray(obs).reshape(-1)]

    def forward(self, obs, state=None, info=None, act=None):
        t = self.toks(obs)
        self.seen.append(t)
        if self.kind == "critic":
            return torch.tensor([[float(val(x) + self.ver)] for x in t], dtype=torch.float64) + self.p * 0
        return torch.tensor(t, dtype=torch.float64) + self.p * 0, None


class Dist:
    def __init__(self, toks):
        self.t = toks

    def sample(self):
        return torch.zeros(len(self.t))

    mode = property(sample)

    def log_prob(self, act):
        a = act.detach().reshape(-1)
        return torch.tensor([float(lp(int(t), int(x))) for t, x in zip(self.t, a)], dtype=torch.float64) + 0 * self.t

    def entropy(self):
        return 0 * self.t


class Opt:
    def __init__(self, critic):
        self.c = critic

    def zero_grad(self):
        pass

    def step(self):
        self.c.ver += 1


class RetDriver:
    def __init__(self, seed, caps, kind="vec"):
        self.rng = random.Random(seed)
        self.caps = caps
        self.len1 = len(caps) == 1
        if kind == "prio":
            assert len(set(caps)) == 1
            self.buf = PrioritizedVectorReplayBuffer(sum(caps), len(caps), alpha=0.5, beta=0.5)
        elif kind == "vec" and len(set(caps)) == 1:
            self.buf = VectorReplayBuffer(sum(caps), len(caps))
        elif self.len1:
            self.buf = ReplayBuffer(caps[0])
        else:
            self.buf = ReplayBufferManager([ReplayBuffer(c) for c in caps])
        self.plain = type(self.buf) is ReplayBuffer
        self.ev = [{"op": "start", "caps": caps, "err": "", "kind": type(self.buf).__name__}]
        self.k = 0
        self.run = [0] * len(caps)  # length of the current episode
        self.rows = {}

    def add(self, j, rew, t, u):
        """j counts from 1"""
        if self.run[j - 1] >= 7:
            u = 1
        self.run[j - 1] = 0 if t or u else self.run[j - 1] + 1
        tok, act = self.k * 2, self.rng.randrange(3)
        self.k += 1
        b = Batch(obs=np.array([[tok]]), act=np.array([act]), rew=np.array([float(rew)]), terminated=np.array([bool(t)]),
                  truncated=np.array([bool(u)]), obs_next=np.array([[tok + 1]]), info=np.array([{}]))
        x = {"op": "add", "j": j, "rew": rew, "t": t, "u": u, "v": val(tok), "w": val(tok + 1), "tok": tok, "lp": lp(tok, act), "pos": -1, "err": ""}
        try:
            x["pos"] = iv((self.buf.add(b[0]) if self.plain else self.buf.add(b, [j - 1]))[0])
        except Exception as e:
            x["err"] = type(e).__name__
        self.ev.append(x)

    def nstep(self, idx, n, gam, cols=1, torch32=False):
        g, d = gam
        x = {"op": "nstep", "idx": [int(i) for i in idx], "n": n, "g": g, "d": d, "q": [], "asked": [], "ret": [], "wok": 0, "calls": 0, "err": ""}
        qs = [[self.rng.choice([-3, -1, 0, 1, 2, 5]) for _ in range(cols)] for _ in idx]
        idx = np.array(idx)

        def target(buffer, indices):
            x["calls"] += 1
            x["asked"] = [iv(i) for i in np.asarray(indices).reshape(-1)]
            q = torch.tensor(qs, dtype=torch.float32 if torch32 else torch.float64)
            return q.flatten() if cols == 1 and self.rng.random() < 0.5 else q
        try:
            b = self.buf[idx]
            w = np.array([1.0 + k for k in range(len(idx))])
            b.weight = w.copy()
            r = BasePolicy.compute_nstep_return(b, self.buf, idx, target, g / d, n)
            a = r.returns.numpy().reshape(len(idx), -1)
            x["ret"] = [ints(row, d**n) for row in a]
            x["q"] = qs
            x["wok"] = int(isinstance(r.weight, torch.Tensor) and np.array_equal(r.weight.numpy(), w))
        except Exception as e:
            x["err"] = type(e).__name__
            x["msg"] = str(e)[:100]
        self.ev.append(x)

    def listing(self):
        return [int(i) for i in self.buf.sample_indices(0)]

    def episodes(self):
        """the stored transitions as pieces of episodes"""
        res, cur, last = [], [], None
        edges = np.asarray(self.buf.subbuffer_edges)
        for i in self.listing():
            sub = int(np.searchsorted(edges, i, side="right"))
            if cur and sub != last:
                res.append(cur)
                cur = []
            cur.append(i)
            last = sub
            if self.buf.done[i]:
                res.append(cur)
                cur = []
        return res + ([cur] if cur else [])

    def batch_idx(self):
        r = self.rng.random()
        if r < 0.5:
            return self.listing()
        if r < 0.7:
            li = self.listing()
            a = self.rng.randrange(len(li))
            return li[a: a + self.rng.randint(1, len(li))]
        ep = self.episodes()
        self.rng.shuffle(ep)
        return sum(ep[: self.rng.randint(1, len(ep))], [])

    def gl(self):
        g, d = self.rng.choice(GAMMAS)
        lm = self.rng.choice([(1, 1), (0, 1), (1, 2)] if d <= 2 else [(1, 1), (0, 1)])
        return g, d, *lm

    def gae(self, idx, glm=None, ws=1, vs=1):
        g, d, l, m = glm or self.gl()
        H = 8
        x = {"op": "gae", "idx": idx, "g": g, "d": d, "l": l, "m": m, "H": H, "ws": ws, "vs": vs, "adv": [], "ret": [], "err": ""}
        S = d * (d * m) ** H
        try:
            i = np.array(idx)
            b = self.buf[i]
            v = np.array([float(val(iv(o))) for o in b.obs.reshape(-1)])
            w = np.array([float(val(iv(o))) for o in b.obs_next.reshape(-1)])
            f = self.rng.choice([lambda q: q, torch.tensor, lambda q: torch.tensor(q)[:, None], lambda q: q.astype(np.float32)])
            ret, adv = BasePolicy.compute_episodic_return(b, self.buf, i, f(w) if ws else None, f(v) if vs else None, g / d, l / m)
            x["adv"], x["ret"] = ints(adv, S), ints(ret, S)
        except Exception as e:
            x["err"] = type(e).__name__
            x["msg"] = str(e)[:100]
        self.ev.append(x)

    def togo(self):
        g, d = self.rng.choice(GAMMAS)
        rews = [self.rng.randint(-2, 4) for _ in range(self.rng.randint(1, 9))]
        x = {"op": "togo", "rews": rews, "g": g, "d": d, "ret": [], "hook": [], "full": [], "err": ""}
        S = d ** (len(rews) - 1)
        try:
            r = np.array(rews, float)
            x["ret"] = ints(episode_mc_return_to_go(r, g / d), S)
            o = EpisodeRolloutHookMCReturn(g / d)(Batch(rew=r))
            x["hook"], x["full"] = ints(o["mc_return_to_go"], S), ints(o["full_episode_mc_return"], S)
        except Exception as e:
            x["err"] = type(e).__name__
        self.ev.append(x)

    def cql(self):
        g, d = self.rng.choice(GAMMAS)
        idx = self.listing()
        x = {"op": "cql", "idx": idx, "g": g, "d": d, "l": 1, "m": 1, "H": 8, "ret": [], "err": ""}
        try:
            net = Net("actor")
            opt = torch.optim.SGD(net.parameters(), lr=0.1)
            p = CQLPolicy(actor=net, actor_optim=opt, critic=net, critic_optim=opt, action_space=gym.spaces.Box(-1, 1, (1,)),
                          gamma=g / d, calibrated=True)
            buf = p.process_buffer(self.buf)
            x["ret"] = ints(buf[np.array(idx)].calibration_returns, d ** 9)
        except Exception as e:
            x["err"] = type(e).__name__
            x["msg"] = str(e)[:100]
        self.ev.append(x)

    def policy(self, name, learn):
        r = self.rng
        g, d, l, m = (r.randint(0, 1), 1, r.randint(0, 1), 1) if learn or r.random() < 0.3 else self.gl()
        if name == "pg":
            l, m = 1, 1
        norm = int(r.random() < 0.5)
        sd = r.choice([1, 2]) if norm and not learn else 1
        idx = self.listing() if learn or r.random() < 0.5 else self.batch_idx()
        x = {"op": "policy", "name": name, "idx": idx, "g": g, "d": d, "l": l, "m": m, "H": 8, "norm": norm, "sd": sd,
             "mean": r.choice([-1, 0, 2]) if norm else 0, "rec": int(name == "ppo" and learn and r.random() < 0.6), "rep": int(learn and r.random() < 0.5),
             "adv": [], "ret": [], "vs": [], "lp": [], "rm": 0, "rv": 0, "rc": 0, "groups": [], "al": [], "vl": [], "err": ""}
        S = d * (d * m) ** 8
        if norm and learn and x["rec"]:
            norm = x["norm"] = 0
            x["mean"] = 0
        try:
            critic, actor = Net("critic"), Net("actor")
            opt = Opt(critic)
            kw = dict(actor=actor, optim=opt, dist_fn=Dist, action_space=gym.spaces.Box(-1, 1, (1,)), discount_factor=g / d,
                      reward_normalization=bool(norm), action_scaling=False)
            mb = r.choice([1, 2, 3, 256])
            if name == "pg":
                p = PGPolicy(**kw)
            elif name == "a2c":
                p = A2CPolicy(critic=critic, gae_lambda=l / m, max_batchsize=mb, max_grad_norm=r.choice([None, 0.5]), **kw)
            elif name == "npg":
                p = NPGPolicy(critic=critic, gae_lambda=l / m, max_batchsize=mb, advantage_normalization=False, **kw)
            else:
                p = PPOPolicy(critic=critic, gae_lambda=l / m, max_batchsize=mb, advantage_normalization=False,
                              recompute_advantage=bool(x["rec"]), dual_clip=r.choice([None, 3.0]), **kw)
            if norm:
                p.ret_rms.mean, p.ret_rms.var = float(x["mean"]), float(sd**2)
            i = np.array(idx)
            b = p.process_fn(self.buf[i], self.buf, i)
            x["ret"] = ints(b.returns, S * sd, 0.2)
            if name != "pg":
                x["adv"], x["vs"] = ints(b.adv, S, 0.2), ints(b.v_s, 1)
            if "logp_old" in b.get_keys():
                x["lp"] = ints(b.logp_old, 1)
            x["rc"], x["rm"], x["rv"] = iv(p.ret_rms.count), int(round(float(p.ret_rms.mean) * 1000)), int(round(float(p.ret_rms.var) * 1000))
            if learn and not (norm and name == "pg" and sd != 1):
                actor.seen.clear()
                critic.seen.clear()
                n = len(idx)
                bs = None if x["rep"] else (n + 1) // 2
                critic.ver = 0
                with torch.enable_grad():
                    s = p.learn(b, bs, 2 if x["rep"] else 1)
                x["groups"] = list(actor.seen)
                if name != "pg" and x["rec"] == 0 and critic.seen != actor.seen:
                    x["groups"] = [[WEIRD]]
                f = float(np.prod([len(q) for q in x["groups"]]))
                al = s.loss if name == "pg" else s.actor_loss if name == "a2c" else s.clip_loss
                x["al"] = ints([al.min * f, al.max * f], 1, 0.05)
                if name != "pg":
                    x["vl"] = ints([s.vf_loss.min * f, s.vf_loss.max * f], 1, 0.05)
        except Exception as e:
            x["err"] = type(e).__name__
            x["msg"] = str(e)[:100]
        self.ev.append(x)

    # ------------------------------------------------ queries after an addition
    def query(self, prop, full=False):
        r = self.rng
        if prop == "R01":
            li = self.listing()
            for n, gam in [(r.randint(1, 4), r.choice(GAMMAS)) for _ in range(2 if full else 1)]:
                idx = li if r.random() < 0.7 else [r.choice(li) for _ in range(r.randint(1, 6))]
                self.nstep(idx, n, gam, r.choice([1, 1, 3]), r.random() < 0.4)
        else:
            k = r.random()
            if k < 0.5:
                ws, vs = r.choice([(1, 1), (1, 1), (1, 0), (0, 0), (0, 1)])
                glm = self.gl()
                if not ws:
                    glm = (glm[0], glm[1], 1, 1)
                self.gae(self.batch_idx(), glm, ws, vs)
            elif k < 0.6:
                self.togo()
            elif k < 0.65:
                self.cql()
            else:
                self.policy(r.choice(["pg", "a2c", "ppo", "ppo", "npg"] if k < 0.85 else ["pg", "a2c", "ppo", "ppo"]), k >= 0.85)


def sched_trace(walk, seed, prop, caps):
    d = RetDriver(seed, caps, random.Random(seed).choice(["vec", "vec", "man"]))
    for a in walk:
        if a["op"] == "add":
            d.add(a["j"], a["rew"], a["t"], a["u"])
            d.query(prop)
    return d.ev


def random_trace(seed, nops, prop):
    r = random.Random(seed)
    k = r.choice([1, 1, 2, 3])
    caps = [r.randint(1, 7)] * k if r.random() < 0.6 else [r.randint(1, 7) for _ in range(k)]
    d = RetDriver(seed, caps, r.choice(["vec", "man", "prio"]) if len(set(caps)) == 1 else "man")
    pe = r.choice([0.1, 0.3, 0.5])
    for _ in range(nops):
        for _ in range(r.randint(1, 4)):
            x = r.random()
            t, u = (1, 0) if x < pe * 0.5 else (0, 1) if x < pe * 0.9 else (1, 1) if x < pe else (0, 0)
            d.add(r.randint(1, k), r.randint(-1, 3), t, u)
        d.query(prop, True)
    return d.ev
