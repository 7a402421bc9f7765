"""Drives real policies with small integer-valued networks: target networks, bootstrap values,
TD errors; judged by spec/PolTrace.tla."""
from __future__ import annotations

import copy
import math
import random
import types
import warnings

import gymnasium as gym
import numpy as np
import torch

from tianshou.data import Batch, ReplayBuffer, ReplayBufferManager, VectorReplayBuffer
from tianshou.exploration import GaussianNoise
from tianshou.policy import (
    BCQPolicy, BranchingDQNPolicy, C51Policy, CQLPolicy, DDPGPolicy, DiscreteBCQPolicy, DiscreteCQLPolicy, DiscreteCRRPolicy, DiscreteSACPolicy, DQNPolicy, FQFPolicy,
    IQNPolicy, QRDQNPolicy, RainbowPolicy, REDQPolicy, SACPolicy, TD3BCPolicy, TD3Policy,
)
from vlib import nets as N
from vlib.core import WEIRD, iv
from vlib.retdrv import ints

warnings.simplefilter("ignore")
HARD = ["dqn", "qrdqn", "c51", "rainbow", "iqn", "fqf", "bdq", "dcql", "dbcq", "crr"]
SOFT = ["ddpg", "td3", "td3bc", "sac", "dsac", "redq", "cql", "bcq"]
QR = {"qrdqn", "iqn", "fqf", "dcql"}
BOX = {"ddpg", "td3", "td3bc", "sac", "redq", "cql", "bcq"}
LOSSY = {"crr", "cql", "bcq"}  # compute the target while learning
ATTR = {"q": "model", "qt": "model_old", "im": "imitator", "a": "actor", "at": "actor_old", "c": "critic", "ct": "critic_old", "c2": "critic2", "c2t": "critic2_old"}
QT, QO, QE = 4, 3, 5  # quantiles of targets, of the online network in training and in evaluation


def conf(r, prop, fam=None):
    fam = fam or r.choice(HARD + SOFT)
    hard = fam in HARD
    c = {"fam": fam, "hard": int(hard), "k": r.choice([0, 1, 2, 3, 5]) if hard else r.choice([1, 2, 3]), "d": 1 if hard else r.choice([1, 2, 2, 4]),
         "dbl": int(r.random() < 0.6), "ent": int(r.random() < 0.4), "mask": 0, "auto": 0, "real": 0, "sub": 0, "min": 0, "pn": 0, "det": 1}
    if fam == "dbcq":
        c["k"] = max(1, c["k"])
    if fam in ("dqn", "qrdqn", "c51", "rainbow", "iqn", "fqf", "dcql"):
        c["mask"] = int(r.random() < 0.4)
    g, d = r.choice([(0, 1), (1, 1), (1, 2), (1, 2), (3, 4)])
    n = r.choice([1, 1, 2, 3])
    if fam in ("bdq", "crr", "cql", "bcq"):
        n = 1
    if fam in ("cql", "bcq") and d == 4:
        g, d = 1, 2
    c.update(g=g, gd=d, n=n)
    if fam in ("sac", "dsac", "redq") and r.random() < 0.4:
        c["auto"] = 1
        c["ent"] = 1
    if fam not in ("sac", "dsac", "redq", "crr"):
        c["ent"] = 0
    if fam in ("td3", "td3bc"):
        c["pn"] = int(r.random() < 0.4)
    if fam in ("td3", "td3bc", "sac", "dsac", "cql", "bcq"):
        c["real"] = int(r.random() < 0.3)
    if fam == "redq":
        c["sub"], c["min"] = r.choice([1, 2, 2, 3]), int(r.random() < 0.6)
    # scale of the networks' values
    c["S"] = 1 if hard else 16384 if prop == "R04" else 64
    c["z"] = 2 if fam == "bdq" else 3 if fam in ("dsac", "crr") and c["ent"] else c["sub"] if fam == "redq" and not c["min"] else 4 if fam == "bcq" else 1
    c["qt"], c["qo"], c["qe"] = (QT, QO, QE) if fam == "iqn" else (N.NQ, N.NQ, N.NQ)
    c["lim"] = 1000 if c["d"] == 1 else {64: {2: 6, 4: 3}, 16384: {2: 14, 4: 7}}[c["S"]][c["d"]]
    c["lo"] = r.choice([-1, 0])
    p = []
    if hard and fam != "crr":
        p = [["q", "qt"]] if c["k"] else []
    elif fam == "crr":
        p = [["a", "at"], ["c", "ct"]] if c["k"] else []
    elif fam in ("sac", "dsac", "cql"):
        p = [["c", "ct"], ["c2", "c2t"]]
    elif fam == "redq":
        p = [["c", "ct"]]
    else:
        p = [["a", "at"], ["c", "ct"]] + ([] if fam == "ddpg" else [["c2", "c2t"]])
    c["pairs"] = p
    online = [x[0] for x in p] or (["a", "c"] if fam == "crr" else ["q"])
    if fam == "dbcq":
        online.append("im")
    if fam in ("sac", "dsac", "cql", "redq"):
        online.append("a")
    late = ["a"] if fam in ("td3", "td3bc", "redq") else []
    c["late"] = late
    c["always"] = [x for x in online if x not in late]
    c["dk"] = c["k"] if late else 1
    c["d0"] = c["k"] - 1 if fam == "redq" else 0
    c["sdue"] = int(fam in ("td3", "td3bc"))
    c["np"] = 4
    return c


class PolDriver:
    def __init__(self, seed, c, caps):
        self.rng = r = random.Random(seed)
        np.random.seed(seed % 2**32)
        torch.manual_seed(seed)
        self.c, self.caps = c, caps
        if len(caps) == 1:
            self.buf = ReplayBuffer(caps[0])
        elif len(set(caps)) == 1:
            self.buf = VectorReplayBuffer(sum(caps), len(caps))
        else:
            self.buf = ReplayBufferManager([ReplayBuffer(x) for x in caps])
        self.force = None
        self.k = 0
        self.run = [0] * len(caps)
        self.attr = dict(ATTR)
        if c["fam"] == "bcq":
            self.attr.update(a="actor_perturbation", at="actor_perturbation_target", ct="critic_target", c2t="critic2_target")
        self.names = sorted({x for q in c["pairs"] for x in q} | set(c["always"]) | set(c["late"]))
        self.build()
        self.ev = [{"op": "start", "caps": caps, "c": c, "tr": int(self.p.training), "err": ""}, {"op": "create", "nets": self.nets(), "alias": self.aliased(), **self.flags()}]

    def net(self, cls):
        r = self.rng
        n = cls([r.choice([0, 0, 1, 2]), r.choice([-1, 0, 1]), r.choice([0, 1]), r.choice([-1, 0, 0, 2]), r.choice([3, 5])])
        n.train(r.random() < 0.5)
        return n

    def sgd(self, *ms):
        return torch.optim.SGD([p for m in ms for p in m.parameters()], lr=0.0)

    def build(self):
        c, f, r = self.c, self.c["fam"], self.rng
        disc, box = gym.spaces.Discrete(N.A), gym.spaces.Box(-1, 1, (1,))
        gam = c["g"] / c["gd"]
        kw = {"action_space": disc, "discount_factor": gam, "target_update_freq": c["k"]}
        ns = {"estimation_step": c["n"], "is_double": bool(c["dbl"])}
        if f in ("dqn", "bdq"):
            m = self.net(N.QNet if f == "dqn" else N.BDQNet)
            cls = DQNPolicy if f == "dqn" else BranchingDQNPolicy
            self.p = cls(model=m, optim=self.sgd(m), **kw, **ns)
        elif f in ("qrdqn", "dcql"):
            m = self.net(N.QRNet)
            self.p = (QRDQNPolicy if f == "qrdqn" else DiscreteCQLPolicy)(model=m, optim=self.sgd(m), num_quantiles=N.NQ, **kw, **ns)
        elif f in ("c51", "rainbow"):
            m = self.net(N.C51Net)
            self.p = (C51Policy if f == "c51" else RainbowPolicy)(model=m, optim=self.sgd(m), num_atoms=N.NQ, v_min=float(c["lo"]), v_max=float(c["lo"] + N.NQ - 1), **kw, **ns)
        elif f == "iqn":
            m = self.net(N.IQNNet)
            self.p = IQNPolicy(model=m, optim=self.sgd(m), sample_size=QE, online_sample_size=QO, target_sample_size=QT, num_quantiles=QT, **kw, **ns)
        elif f == "fqf":
            m, fr = self.net(N.FQFNet), N.Frac()
            self.p = FQFPolicy(model=m, optim=self.sgd(m), fraction_model=fr, fraction_optim=self.sgd(fr), num_fractions=N.NQ, **kw, **ns)
        elif f == "dbcq":
            m, im = self.net(N.QNet), self.net(N.QNet)
            self.p = DiscreteBCQPolicy(model=m, imitator=im, optim=self.sgd(m, im), unlikely_action_threshold=0.3, **kw, **ns)
        elif f == "crr":
            a, cr = self.net(N.DActor), self.net(N.Critic)
            a.ent = bool(c["ent"])
            self.p = DiscreteCRRPolicy(actor=a, critic=cr, optim=self.sgd(a, cr), min_q_weight=0.0, policy_improvement_mode=r.choice(["exp", "binary", "all"]), **kw)
        else:
            a = self.net({"dsac": N.DActor, "bcq": N.Pert, "sac": N.SActor, "redq": N.SActor, "cql": N.SActor}.get(f, N.Actor))
            a.ent = bool(c["ent"])
            cr, c2 = self.net(N.Ens if f == "redq" else N.Critic), self.net(N.Critic)
            cr.f32 = c2.f32 = f in ("cql", "bcq")
            kw = {"action_space": disc if f == "dsac" else box, "tau": 1 / c["d"], "gamma": gam}
            if f == "bcq":
                v = N.Vae()
                kw.update(actor_perturbation=a, actor_perturbation_optim=self.sgd(a), vae=v, vae_optim=self.sgd(v), forward_sampled_times=2, num_sampled_action=2)
            else:
                kw.update(actor=a, actor_optim=self.sgd(a), estimation_step=c["n"])
                if f != "dsac":
                    kw.update(action_scaling=False)
            kw.update(critic=cr, critic_optim=self.sgd(cr))
            if f not in ("ddpg", "redq") and not c["real"]:
                kw.update(critic2=c2, critic2_optim=self.sgd(c2))
            if f in ("sac", "dsac", "redq", "cql"):
                alpha = (1.0 / math.log(N.A) if f == "dsac" else 1.0) if c["ent"] else 0.0
                if c["auto"]:
                    la = torch.full((1,), math.log(alpha), dtype=torch.float64, requires_grad=True)
                    alpha = (-1.0, la, torch.optim.SGD([la], lr=0.0))
                kw.update(alpha=alpha)
            if f in ("td3", "td3bc"):
                kw.update(update_actor_freq=c["k"], policy_noise=100.0 if c["pn"] else 0.0, noise_clip=0.4)
            if f == "redq":
                kw.update(ensemble_size=N.Ens.E, subset_size=c["sub"], actor_delay=c["k"], target_mode="min" if c["min"] else "mean")
            if f == "cql":
                kw.update(with_lagrange=False, cql_weight=0.0, calibrated=False, num_repeat_actions=2)
            cls = {"ddpg": DDPGPolicy, "td3": TD3Policy, "td3bc": TD3BCPolicy, "sac": SACPolicy, "dsac": DiscreteSACPolicy, "redq": REDQPolicy, "cql": CQLPolicy, "bcq": BCQPolicy}[f]
            self.p = cls(**kw)
        self.p.train(r.random() < 0.5)
        self.hook()

    def mod(self, x):
        return getattr(self.p, self.attr[x])

    def hook(self):
        """The optimisers add an integer to whatever they were given."""
        for nm, o in vars(self.p).items():
            if isinstance(o, torch.optim.Optimizer):
                def step(this, closure=None, nm=nm):
                    ids = {id(p) for g in this.param_groups for p in g["params"]}
                    dv = self.rng.choice([-1, 0, 1, 1, 2]) if self.force is None else self.force
                    mine = []
                    for x in self.names:
                        ps = list(self.mod(x).parameters())
                        hit = [p for p in ps if id(p) in ids]
                        if hit:
                            mine.append(x if len(hit) == len(ps) else "part of " + x)
                            self.dv[x] = self.dv.get(x, 0) + dv
                            h = self.mod(x).head.q.grad
                            self.gh[x] = None if h is None else float(h)
                    for g in this.param_groups:
                        for p in g["params"]:
                            if nm != "alpha_optim":
                                p.data += dv
                    self.steps.append(mine or [{"alpha_optim": "alpha", "cql_alpha_optim": "lagrange"}.get(nm, "other")])
                o.step = types.MethodType(step, o)

    # -- observation
    def vec(self, m):
        S = self.c["S"]
        v = torch.cat([m.p.detach(), m.head.q.detach(), m.stat]).tolist()
        return [int(x * S) if x * S == int(x * S) and abs(x * S) < 2**30 else WEIRD for x in v]

    def nets(self):
        return {x: self.vec(self.mod(x)) for x in self.names}

    def flags(self):
        return {"flags": {x: int(self.mod(x).training and self.mod(x).head.training) if self.mod(x).training == self.mod(x).head.training else 2 for x in self.names},
                "pt": int(self.p.training)}

    def aliased(self):
        """networks that share storage"""
        seen, bad = {}, 0
        for x in self.names:
            for t in [*self.mod(x).parameters(), *self.mod(x).buffers()]:
                bad += seen.setdefault(t.data_ptr(), x) != x
        return bad

    def grads(self):
        return int(any(p.grad is not None and bool((p.grad != 0).any()) for _, t in self.c["pairs"] for p in self.mod(t).parameters()))

    def log(self, op, **x):
        self.ev.append({"op": op, "err": "", **x, "nets": self.nets(), **self.flags()})

    # -- events
    def obs(self, toks, masks):
        o = np.array([[t] for t in toks], dtype=np.float64 if self.c["fam"] in BOX else np.int64)
        if not self.c["mask"]:
            return o
        return Batch(obs=o, mask=np.array([[a in m for a in range(N.A)] for m in masks]))

    def some(self):
        r = self.rng
        return sorted(r.sample(range(N.A), r.choice([1, 2, 2, 3]))) if self.c["mask"] else list(range(N.A))

    def add(self, n=1):
        r, c = self.rng, self.c
        for _ in range(n):
            j = r.randint(1, len(self.caps))
            t = int(r.random() < 0.25)
            u = int(r.random() < 0.2)
            if self.run[j - 1] >= 5:
                u = 1
            self.run[j - 1] = 0 if t or u else self.run[j - 1] + 1
            tok, rew, act, act2, mk, mx = 2 * self.k, r.choice([-2, 0, 1, 3]), r.randrange(N.A), r.randrange(N.A), self.some(), self.some()
            self.k += 1
            a = np.array([[act, act2]]) if c["fam"] == "bdq" else np.array([[act - 1.0]]) if c["fam"] in BOX else np.array([act])
            b = Batch(obs=self.obs([tok], [mk]), act=a, rew=np.array([float(rew)]), terminated=np.array([bool(t)]), truncated=np.array([bool(u)]),
                      obs_next=self.obs([tok + 1], [mx]), info=np.array([{}]))
            pos = (self.buf.add(b[0]) if len(self.caps) == 1 else self.buf.add(b, [j - 1]))[0]
            self.ev.append({"op": "add", "j": j, "rew": rew, "t": t, "u": u, "tok": tok, "nx": tok + 1, "act": act, "act2": act2, "mk": mk, "mx": mx, "pos": iv(pos), "err": ""})

    def K(self):
        return self.c["gd"] ** self.c["n"]

    def process(self, idx):
        """-> batch, returns scaled"""
        c = self.c
        idx = np.array(idx)
        b = self.p.process_fn(self.buf[idx], self.buf, idx)
        if c["fam"] in LOSSY or c["S"] == 16384:  # (too fine a scale to compare)
            return b, []
        z = c["S"] * self.K() * c["z"]
        ret = b.returns.detach().double().reshape(len(idx), -1)
        return b, [ints(row, z) for row in ret]

    def pick(self):
        r = self.rng
        n = len(self.buf)
        ok = [int(i) for i in self.buf.sample_indices(0)]
        if self.c["fam"] in LOSSY:
            ok = [i for i in ok if not self.buf.truncated[i] or self.buf.terminated[i]]
            return [r.choice(ok) for _ in range(r.choice([1, 2]))] if ok else []
        return [r.choice(ok) for _ in range(r.choice([1, 2, 3, 5]))] if n else []

    def do_process(self, idx):
        x = {"idx": idx, "ret": []}
        try:
            x["ret"] = self.process(idx)[1]
        except Exception as e:
            x["err"], x["msg"] = type(e).__name__, str(e)[:120]
        self.log("process", **x, grad=self.grads())

    def learn(self, idx):
        c, f, r = self.c, self.c["fam"], self.rng
        self.dv, self.gh, self.steps = {}, {}, []
        K, S, z = self.K(), c["S"], c["z"]
        x = {"idx": idx, "ret": [], "w": [], "prio": [], "gh": {}, "loss": [], "chk": int(S != 16384), "dv": {}, "steps": []}
        try:
            b, x["ret"] = self.process(idx)
            n = len(idx)
            if r.random() < 0.6:
                x["w"] = [r.choice([1, 2, 3]) for _ in idx]
                w = np.array(x["w"], float)
                b.weight = torch.tensor(w)
            s = self.p.learn(b)
            if x["chk"]:
                if f not in LOSSY | {"dbcq"}:
                    pz = 2 if f in ("td3", "td3bc", "sac", "dsac") else 3 if f == "redq" else 1
                    nq = (c["qo"] if self.p.training else c["qe"])
                    fac = K / math.log(2) if f in ("c51", "rainbow") else 2 * K * K * nq if f in QR else S * K * z * pz
                    x["prio"] = ints(b.weight.detach().numpy(), fac)
                    for m in ("q", "c", "c2"):
                        if self.gh.get(m) is not None and f in ("dqn", "bdq", "ddpg", "td3", "td3bc", "sac", "dsac", "redq"):
                            x["gh"][m] = ints([self.gh[m]], n * S * K * z * (3 if f == "redq" else 1), 0.1)[0]
                if f == "crr":
                    x["loss"] = ints([s.critic_loss], 2 * n * (K * z) ** 2, 0.2)
                elif f in ("cql", "bcq"):
                    x["loss"] = ints([s.critic1_loss, s.critic2_loss], n * (S * K * z) ** 2, 0.3)
        except Exception as e:
            x["err"], x["msg"] = type(e).__name__, str(e)[:120]
        x["dv"] = {m: self.dv.get(m, 0) * S for m in self.names}
        x["steps"] = [t for t in self.steps if t != ["other"]]
        self.log("learn", **x, grad=self.grads())
        self.n = getattr(self, "n", 0) + 1

    def touch(self, m):
        with torch.no_grad():
            x = self.mod(m)
            x.p[self.rng.randrange(3)] += self.rng.choice([-1, 1, 2])
            x.stat += 1
        self.log("touch", net=m, v=self.vec(self.mod(m)))

    def mode(self, v):
        if v:
            self.p.train()
        else:
            self.p.eval()
        self.log("mode", v=int(v))

    def forward(self, toks, old=False, grad=False):
        c, f = self.c, self.c["fam"]
        masks = [self.some() for _ in toks]
        x = {"toks": toks, "masks": masks, "old": int(old), "act": []}
        try:
            with torch.set_grad_enabled(grad and f not in ("c51", "rainbow")):
                b = Batch(obs=self.obs(toks, masks), info=[None] * len(toks))
                kw = {"model": self.attr["at" if f in BOX else "qt"]} if old else {}
                a = self.p(b, **kw).act
            a = a.detach().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)
            a = a.reshape(len(toks), -1)
            x["act"] = [[iv(round(float(v))) + (1 if f in BOX else 0) for v in row] for row in a]
        except Exception as e:
            x["err"], x["msg"] = type(e).__name__, str(e)[:120]
        self.log("forward", **x)

    def explore(self):
        p, r, f = self.p, self.rng, self.c["fam"]
        try:
            if hasattr(p, "set_eps"):
                p.set_eps(r.choice([0.0, 0.5, 1.0]))
            if hasattr(p, "set_exp_noise"):
                p.set_exp_noise(r.choice([None, GaussianNoise(sigma=0.3)]))
            if f not in ("bcq", "crr"):
                n = 3
                a = np.zeros((n, 2), int) if f == "bdq" else np.zeros((n, 1)) if f in BOX else np.zeros(n, int)
                if getattr(p, "max_action_num", 0) is not None:
                    p.exploration_noise(a, Batch(obs=self.obs([0, 1, 2], [[0], [1], [0, 2]]), info=[None] * n))
            err = ""
        except Exception as e:
            err = type(e).__name__ + str(e)[:80]
        self.log("explore", err=err)

    def reload(self):
        sd = {k: v.clone() for k, v in self.p.state_dict().items()}
        with torch.no_grad():
            for t in [*self.p.parameters(), *self.p.buffers()]:
                t += 7
        self.p.load_state_dict(sd)
        self.log("reload")

    def copy(self):
        """goes on with a copy while the original is changed"""
        q = self.p
        for o in vars(q).values():
            if isinstance(o, torch.optim.Optimizer):
                o.__dict__.pop("step", None)
        self.p = copy.deepcopy(q)
        with torch.no_grad():
            for t in [*q.parameters(), *q.buffers()]:
                t += 5
        self.hook()
        self.log("copy", alias=self.aliased())


def random_trace(seed, nops, prop, fam=None):
    r = random.Random(seed)
    c = conf(r, prop, fam)
    d = PolDriver(seed, c, r.choice([[3], [8], [3, 3], [4, 2], [6, 6], [1, 5]]))
    d.add(r.randint(2, 8))
    n = 0
    for _ in range(nops):
        x = r.random()
        idx = d.pick()
        if x < (0.3 if prop == "R07" else 0.1):
            d.add(r.randint(1, 4))
        elif x < 0.5 and prop == "R07" and idx:
            d.do_process(idx)
        elif x < 0.75 and idx:
            if n < c["lim"]:
                d.learn(idx)
                n += 1
        elif x < 0.82:
            d.touch(r.choice(sorted(set(c["always"]) | set(c["late"]))))
        elif x < 0.87:
            d.mode(r.random() < 0.5)
        elif x < 0.93:
            ok = {"dqn", "qrdqn", "c51", "rainbow", "iqn", "fqf", "bdq", "ddpg", "td3", "td3bc", "dcql"}
            d.forward([r.randrange(40) for _ in range(r.randint(1, 4))], bool(c["pairs"]) and c["fam"] in ok and r.random() < 0.4, r.random() < 0.3)
        elif x < 0.95:
            d.explore()
        elif x < 0.97:
            d.reload()
        elif idx and x < 0.99:
            d.copy()
        elif idx:
            d.do_process(idx)
    return d.ev


SCHED = [HARD, ["ddpg", "sac", "dsac", "cql", "bcq"], ["td3", "td3bc"], ["redq"]]


def sched_trace(walk, seed, fam, k, d):
    """A behaviour of spec/MCTarget.tla: learn, touch, mode and the operations that change no network."""
    r = random.Random(seed)
    c = conf(r, "R04", fam)
    c.update(k=k, dk=k if c["late"] else 1, d0=k - 1 if fam == "redq" else 0)
    if c["hard"]:
        c["pairs"] = ([["a", "at"], ["c", "ct"]] if fam == "crr" else [["q", "qt"]]) if k else []
    else:
        c.update(d=d, lim={2: 14, 4: 7}[d])
    dr = PolDriver(seed, c, r.choice([[4], [3, 3]]))
    dr.add(6)
    while not dr.pick():
        dr.add(1)
    n = 0
    online = sorted(set(c["always"]) | set(c["late"]))
    for a in walk:
        op = a["op"]
        if op == "learn":
            if n >= c["lim"]:
                continue
            n += 1
            dr.force = 2 if a["dv"] > 0 else -1
            dr.learn(dr.pick())
        elif op == "touch":
            dr.touch(a["x"] if a["x"] in online else r.choice(online))
        elif op == "mode":
            dr.mode(a["v"])
        elif op == "process":
            dr.do_process(dr.pick())
        elif op == "forward":
            dr.forward([r.randrange(40) for _ in range(2)])
        elif op in ("explore", "reload", "copy"):
            getattr(dr, op)()
    return dr.ev
