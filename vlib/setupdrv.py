"""Builds experiments with the high-level builders and records what their worlds are made of; judged by spec/SetupTrace.tla.

Numbers are recorded as text (exact equality) or, where they are computed from others, in millionths.
"""
from __future__ import annotations

import contextlib
import copy
import dataclasses
import hashlib
import inspect
import io
import logging
import os
import pickle
import random
import shutil
import tempfile
import warnings

import gymnasium as gym
import numpy as np
import torch
from torch import nn

import tianshou.policy as pol
from tianshou.data import Batch
from tianshou.exploration import GaussianNoise
from tianshou.highlevel import experiment as hx
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.env import EnvFactory, EnvFactoryRegistered, EnvMode, VectorEnvType
from tianshou.highlevel.experiment import Experiment, ExperimentConfig
from tianshou.highlevel.module.actor import (ActorFactoryContinuousDeterministicNet, ActorFactoryContinuousGaussianNet, ActorFactoryDefault, ActorFactoryDiscreteNet,
                                             ContinuousActorType, IntermediateModuleFactoryFromActorFactory)
from tianshou.highlevel.module.critic import CriticEnsembleFactoryContinuousNet, CriticFactoryContinuousNet, CriticFactoryDefault, CriticFactoryDiscreteNet
from tianshou.highlevel.optim import OptimizerFactoryAdam, OptimizerFactoryRMSprop, OptimizerFactoryTorch
from tianshou.highlevel.params import policy_params as pp
from tianshou.highlevel.params.alpha import AutoAlphaFactoryDefault
from tianshou.highlevel.params.env_param import MaxActionScaled
from tianshou.highlevel.params.lr_scheduler import LRSchedulerFactory, LRSchedulerFactoryLinear
from tianshou.highlevel.params.noise import MaxActionScaledGaussian
from tianshou.highlevel.params.policy_wrapper import PolicyWrapperFactoryIntrinsicCuriosity
from tianshou.highlevel.trainer import (EpochStopCallbackRewardThreshold, EpochTestCallbackDQNSetEps, EpochTrainCallbackDQNEpsLinearDecay, EpochTrainCallbackDQNSetEps)
from tianshou.policy.base import RandomActionPolicy
from tianshou.utils import MultipleLRSchedulers
from tianshou.utils.net.common import EnsembleLinear
from vlib.core import iv

warnings.simplefilter("ignore")

BUILDER = {"PG": "PG", "A2C": "A2C", "PPO": "PPO", "NPG": "NPG", "TRPO": "TRPO", "DQN": "DQN", "IQN": "IQN", "DDPG": "DDPG", "REDQ": "REDQ", "SAC": "SAC", "DSAC": "DiscreteSAC", "TD3": "TD3", "RND": "RandomAction"}
POLICY = {"DSAC": "DiscreteSACPolicy", "RND": "RandomActionPolicy"}
PARAMS = {"DSAC": "DiscreteSACParams"}
WITH = {"DSAC": "with_sac_params"}
BOTH = ["PG", "A2C", "PPO", "NPG", "TRPO"]
CONT = ["DDPG", "REDQ", "SAC", "TD3"]
DISC = ["DQN", "IQN", "DSAC"]
ALGOS = [*BOTH, *CONT, *DISC, "RND"]
ACTS = {"ReLU": nn.ReLU, "Tanh": nn.Tanh, "ELU": nn.ELU, "Sigmoid": nn.Sigmoid}
SINGLE = ["A2C", "PPO", "NPG", "TRPO", "DDPG"]
DUAL = ["SAC", "DSAC", "TD3"]


def can(v) -> str:
    if v is None or isinstance(v, bool | np.bool_ | str):
        return str(v)
    if isinstance(v, int | float | np.integer | np.floating):
        return "n" + repr(float(v))
    if isinstance(v, torch.Tensor) and v.numel() == 1:
        return "n" + repr(float(v))
    if isinstance(v, tuple | list):
        return "(" + ",".join(can(x) for x in v) + ")"
    return "<" + type(v).__name__ + ">"


def mic(x) -> int:
    return iv(round(float(x) * 1e6))


class Rec:
    """The outermost constructor calls of policies in this process."""
    def __init__(self):
        self.calls, self.made = [], []


R = Rec()
_depth = [0]


def _watch(cls):
    orig = cls.__init__
    sig = inspect.signature(orig)

    def __init__(self, *a, **k):
        if type(self) is cls:
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            d = {n: v for n, v in b.arguments.items() if n not in ("self", "kwargs")}
            d.update(b.arguments.get("kwargs", {}))
            R.calls.append((self, d))
        orig(self, *a, **k)
    cls.__init__ = __init__
    cls._vf_orig = orig


class Env(gym.Env):
    def __init__(self, spec, mode="", render_mode=None, extra="None"):
        self.o, self.render_mode, self.extra, self.mode = spec, render_mode, extra, mode
        shape = tuple(spec["oshape"])
        self.observation_space = gym.spaces.Box(-10, 10, shape)
        self.action_space = gym.spaces.Box(-spec["high"] / 1000, spec["high"] / 1000, (spec["act"],)) if spec["c"] else gym.spaces.Discrete(spec["act"])
        self.seeds, self.t = [], 0

    def reset(self, seed=None, options=None):
        super().reset(seed=seed)
        if seed is not None:
            self.seeds.append(int(seed))
        self.t = 0
        return np.ones(self.observation_space.shape, np.float32), {}

    def step(self, a):
        self.t += 1
        return np.full(self.observation_space.shape, 0.5, np.float32), 1.0, self.t >= 50, False, {}

    def render(self):
        pass


gym.register("VfSetup-v0", entry_point=Env, disable_env_checker=True, order_enforce=False, reward_threshold=7.25)


class Factory(EnvFactory):
    def __init__(self, venv, spec):
        super().__init__(venv)
        self.o = spec

    def create_env(self, mode):
        e = Env(self.o, mode.value)
        R.made.append(e)
        return e


class StepFactory(LRSchedulerFactory):
    """Another schedule: the rate is halved after every step."""
    def create_scheduler(self, optim):
        return torch.optim.lr_scheduler.ExponentialLR(optim, 0.5)


# ---------------------------------------------------------------- random settings
def sizes(rng):
    return [rng.randint(2, 7) for _ in range(rng.randint(1, 3))]


def rate(rng):
    return rng.choice([1e-3, 3e-4, 0.01, 0.05, 0.125, 0.002]) * rng.choice([1, 1, 2, 3])


def value(rng, f, algo, env):
    """A value for the field of the parameters, and how the field is recorded."""
    if f in ("lr", "actor_lr", "critic_lr", "critic1_lr", "critic2_lr"):
        return rate(rng)
    if f.endswith("lr_scheduler_factory"):
        return rng.choice([None, None, "linear", "step"])
    if f in ("action_scaling",):
        return rng.choice(["default", "default", True, False]) if env["c"] else rng.choice(["default", False])
    if f == "action_bound_method":
        return rng.choice(["clip", None]) if algo in CONT else rng.choice(["clip", "tanh", None])
    if f in ("reward_normalization", "deterministic_eval", "value_clip", "advantage_normalization", "recompute_advantage", "is_double", "clip_loss_grad"):
        return rng.random() < 0.5
    if f in ("discount_factor", "gae_lambda", "tau", "gamma", "vf_coef", "ent_coef", "eps_clip", "actor_step_size", "max_kl", "backtrack_coeff"):
        return rng.choice([0.25, 0.5, 0.9, 0.99, 0.123, 0.7, 1.0])
    if f == "max_grad_norm":
        return rng.choice([None, 0.5, 2.0])
    if f == "dual_clip":
        return rng.choice([None, 1.5, 3.0, 5.0])
    if f == "exploration_noise":
        k = rng.choice(["None", "default", "inst", "factory"])
        return (k, rng.choice([50, 100, 250, 400]))
    if f == "alpha":
        return rng.choice([("float", rng.choice([0.1, 0.2, 0.7])), ("auto", rate(rng))])
    if f in ("policy_noise", "noise_clip"):
        return (rng.choice(["float", "scaled"]), rng.choice([100, 200, 300, 700]))
    if f == "target_mode":
        return rng.choice(["mean", "min"])
    if f == "ensemble_size":
        return rng.randint(2, 5)
    if f == "subset_size":
        return rng.randint(1, 2)
    if f == "hidden_sizes":
        return sizes(rng)
    if f == "num_cosines":
        return rng.randint(2, 9)
    if f in ("target_update_freq", "update_actor_freq", "actor_delay", "estimation_step", "max_batchsize", "optim_critic_iters", "max_backtracks", "sample_size", "online_sample_size", "target_sample_size", "num_quantiles"):
        return rng.randint(2, 40)
    raise KeyError(f)


def pcls(algo):
    return getattr(pp, PARAMS.get(algo, algo + "Params"))


def draw_params(rng, algo, env):
    fields = [f.name for f in dataclasses.fields(pcls(algo))]
    out = {}
    for f in fields:
        if rng.random() < 0.8:
            out[f] = value(rng, f, algo, env)
    return out


def make_params(algo, chosen, samp):
    k = {}
    for f, v in chosen.items():
        if f.endswith("lr_scheduler_factory"):
            v = None if v is None else LRSchedulerFactoryLinear(samp) if v == "linear" else StepFactory()
        elif f == "exploration_noise":
            v = {"None": None, "default": "default", "inst": GaussianNoise(sigma=v[1] / 1000), "factory": MaxActionScaledGaussian(v[1] / 1000)}[v[0]]
        elif f == "alpha":
            v = v[1] if v[0] == "float" else AutoAlphaFactoryDefault(lr=v[1])
        elif f in ("policy_noise", "noise_clip"):
            v = v[1] / 1000 if v[0] == "float" else MaxActionScaled(v[1] / 1000)
        k[f] = v
    return pcls(algo)(**k)


def note_params(chosen, p):
    """How parameters are recorded: every field of the object, special ones as they were chosen."""
    d = {}
    for f in [x.name for x in dataclasses.fields(p)]:
        v = chosen.get(f)
        if f.endswith("lr_scheduler_factory"):
            d[f] = str(v)
        elif f == "exploration_noise":
            d[f], d["noise_v"] = v if v else ("None", 0)
        elif f == "alpha":
            k, x = v if v else ("float", getattr(p, f))
            d[f], d["alpha_v"] = k, can(x)
        elif f in ("policy_noise", "noise_clip"):
            d[f], d[f + "_v"] = v if v else ("float", iv(round(getattr(p, f) * 1000)))
        elif f == "hidden_sizes":
            d[f] = list(getattr(p, f))
        elif f in ("num_cosines", "ensemble_size"):
            d[f] = getattr(p, f)
            d["s_" + f] = can(getattr(p, f))
        else:
            d[f] = can(getattr(p, f))
    return d


def slots(algo, env):
    s = ["optim", "name", "samp", "exp", "stop"]
    if algo != "RND":
        s += ["params", "params"]
        if not env["c"]:
            s.append("wrapper")
    if algo in ("DQN", "IQN"):
        s += ["model", "model", "cbtrain", "cbtest"]
    elif algo != "RND":
        s += ["actor", "actor"]
    if algo in SINGLE:
        s += ["critic1", "critic1"]
    if algo in DUAL:
        s += ["critic1", "critic2", "critics"]
    if algo == "REDQ":
        s += ["ensemble"]
    return s


def draw_samp(rng, nt=None):
    spc = rng.randint(1, 9)
    return {"nt": nt or rng.choice([1, 1, 2, 3, 4]), "ne": rng.randint(1, 3), "buffer": rng.randint(9, 40), "stack": rng.choice([1, 1, 1, 2]), "only": rng.random() < 0.3, "ignore": rng.random() < 0.3,
            "seed": rng.randint(0, 500), "epochs": rng.randint(1, 5), "spe": rng.randint(1, 40), "spc": spc}


def samp_of(c):
    return SamplingConfig(num_epochs=c["epochs"], step_per_epoch=c["spe"], num_train_envs=c["nt"], num_test_envs=c["ne"], buffer_size=c["buffer"], step_per_collect=c["spc"],
                          train_seed=c["seed"], replay_buffer_stack_num=c["stack"], replay_buffer_save_only_last_obs=c["only"], replay_buffer_ignore_obs_next=c["ignore"])


def draw_exp(rng):
    return {"seed": rng.randint(0, 6), "watch": rng.random() < 0.4, "train": rng.random() < 0.9}


def exp_of(c):
    return ExperimentConfig(seed=c["seed"], device="cpu", train=c["train"], watch=c["watch"], persistence_enabled=False)


# ---------------------------------------------------------------- what a world is made of
def linear(m):
    out = []
    for x in m.modules():
        if isinstance(x, EnsembleLinear):
            out.append([x.weight.shape[0], x.weight.shape[1], x.weight.shape[2]])
        elif isinstance(x, nn.Linear):
            out.append([0, x.in_features, x.out_features])
    return sorted(out)


def acts(m):
    return sorted(type(x).__name__ for x in m.modules() if type(x).__module__ == "torch.nn.modules.activation")


class World:
    def __init__(self, x: Experiment, w, algo, env, venv):
        self.ids = {}
        self.x, self.w, self.algo, self.env = x, w, algo, env
        self.venv = venv

    def idx(self, params):
        return sorted({self.ids.setdefault(id(p), len(self.ids) + 1) for p in params})

    def opt(self, o):
        g = o.param_groups[0]
        hyper = {k: can(v) for k, v in g.items() if k not in ("params", "lr", "initial_lr")}
        return {"cls": type(o).__name__, "lr": can(g["lr"]), "lr0": mic(g["lr"]), "groups": len(o.param_groups), "hyper": hyper, "params": self.idx(p for q in o.param_groups for p in q["params"])}

    def record(self):
        w, env = self.w, self.env
        p = w.policy
        out = {"cls": type(p).__name__, "wrap": {"on": 0}}
        calls = {id(s): d for s, d in R.calls}
        if type(p).__name__ == "ICMPolicy":
            d = calls[id(p)]
            out["wrap"] = {"on": 1, "inner": int(d["policy"] is p.policy), "lin": linear(d["model"]), "opt": self.opt(d["optim"]), "pars": self.idx(d["model"].parameters()),
                           "lr_scale": can(d["lr_scale"]), "reward_scale": can(d["reward_scale"]), "forward_loss_weight": can(d["forward_loss_weight"]), "space": int(d["action_space"] is w.envs.env.action_space)}
            p = p.policy
            out["cls"] = type(p).__name__
        d = calls[id(p)]
        out["kw"] = {k: can(v) for k, v in d.items() if k not in ("actor", "critic", "critic2", "model", "alpha", "exploration_noise", "lr_scheduler", "policy_noise", "noise_clip", "action_space", "observation_space")
                     and not isinstance(v, torch.optim.Optimizer)}
        out["space"] = int(d["action_space"] is w.envs.env.action_space)
        nets = {k: d[k] for k in ("actor", "critic", "critic2", "model") if d.get(k) is not None}
        out["nets"] = {k: {"lin": linear(m), "acts": acts(m), "pars": self.idx(m.parameters()), "pre": self.idx(m.preprocess.parameters()) if hasattr(m, "preprocess") else []} for k, m in nets.items()}
        opts = {k: v for k, v in d.items() if isinstance(v, torch.optim.Optimizer)}
        out["opts"] = {k: self.opt(v) for k, v in opts.items()}
        out["opts"]["none"] = {"cls": "", "lr": "", "lr0": 0, "groups": 0, "hyper": {"none": ""}, "params": []}
        for k in ("policy_noise", "noise_clip"):
            if k in d:
                out[k] = mic(d[k])
        if "exploration_noise" in d:
            n = d["exploration_noise"]
            q = n((40000,)) if isinstance(n, GaussianNoise) else np.zeros(1)
            out["noise"] = {"cls": n if isinstance(n, str) else type(n).__name__, "sigma": mic(np.std(q)), "mu": mic(np.mean(q))}
        if "alpha" in d:
            a = d["alpha"]
            if isinstance(a, tuple):
                out["alpha"] = {"kind": "auto", "v": "", "te": iv(round(a[0] * 1000)), "zero": int(a[1].numel() == 1 and float(a[1]) == 0.0 and a[1].requires_grad), "pars": self.idx([a[1]]), "opt": self.opt(a[2])}
            else:
                out["alpha"] = {"kind": "float", "v": can(a), "te": 0, "zero": 0, "pars": [], "opt": out["opts"]["none"]}
        self.behave(out, p, nets, d)
        np.random.seed(1)
        out["digest"] = hashlib.sha1(b"".join(v.detach().numpy().tobytes() for _, v in sorted(p.state_dict().items()))).hexdigest()[:16] if nets else "none"
        self.envs(out)
        self.collectors(out, p)
        self.callbacks(out, p)
        self.schedules(out, d.get("lr_scheduler"), opts)
        out["name"] = self.x.name
        return out

    def behave(self, out, p, nets, d):
        """Softmax, bounds of means, distribution of the actor."""
        b = {"soft": -1, "unb": -1, "dist": -1}
        obs = np.random.default_rng(3).normal(size=(4, *self.env["oshape"])).astype(np.float32)
        net = nets.get("actor") or (nets.get("model") if self.algo == "DQN" else None)
        if net is not None:
            a = copy.deepcopy(net)
            with torch.no_grad():
                for m in a.modules():
                    if isinstance(m, nn.Linear):
                        m.weight.mul_(300.0)
                        m.bias.add_(1.7)
                y, _ = a(obs)
            if isinstance(y, tuple):
                b["unb"] = int(bool((y[0].abs() > 1.0).any()))
            elif self.env["c"]:
                b["unb"] = int(bool((y.abs() > 1.0).any()))
            else:
                b["soft"] = int(bool((y >= 0).all() and ((y.sum(-1) - 1).abs() < 1e-4).all()))
        if nets.get("actor") is not None and (self.algo in BOTH or self.algo == "DSAC"):
            with torch.no_grad():
                y, _ = nets["actor"](obs)
                dist = p(Batch(obs=obs, info=Batch())).dist
                if isinstance(y, tuple):
                    base = getattr(dist, "base_dist", None)
                    b["dist"] = int(base is not None and torch.allclose(base.loc, y[0]) and torch.allclose(base.scale, y[1].expand_as(base.scale)) and tuple(dist.event_shape) == (self.env["act"],))
                else:
                    want = y if b["soft"] == 1 else torch.softmax(y, -1)
                    b["dist"] = int(hasattr(dist, "probs") and torch.allclose(dist.probs, want, atol=1e-5))
        b["q"] = []
        act = np.random.default_rng(4).normal(size=(4, self.env["act"])).astype(np.float32)
        for k in ("critic", "critic2"):
            if k in nets:
                try:
                    with torch.no_grad():
                        q = nets[k](obs, act) if self.algo in CONT else nets[k](obs)
                        b["q"].append([iv(x) for x in q.shape])
                except Exception as ex:
                    b["q"].append([repr(ex)[:150]])
        out["beh"] = b

    def envs(self, out):
        e = self.w.envs
        vs = [e.train_envs, e.test_envs, e.watch_env]
        out["venv"] = [type(v).__name__ if v is not None else "None" for v in vs]
        out["nenv"] = [len(v) if v is not None else 0 for v in vs]
        out["shm"] = [int(getattr(v.workers[0], "share_memory", False)) if v is not None else 0 for v in vs]
        regs = []
        for v in vs:
            if v is None or type(v).__name__ != "DummyVectorEnv":
                regs.append([])
                continue
            regs.append([{"seeds": list(k.env.unwrapped.seeds), "render": str(k.env.unwrapped.render_mode), "extra": k.env.unwrapped.extra, "mode": k.env.unwrapped.mode} for k in v.workers])
        out["regs"] = regs
        u = e.env.unwrapped
        out["one"] = {"render": str(u.render_mode), "extra": u.extra, "mode": u.mode, "seeds": list(u.seeds)}

    def collectors(self, out, p):
        tc, sc = self.w.train_collector, self.w.test_collector
        out["train"] = int(tc is not None)
        out["buf"] = {"cls": "", "max": 0, "num": 0, "stack": 0, "ndim": 0, "next": 0, "noise": [0, 0], "envs": 0, "pol": 0}
        if tc is None:
            return
        b = tc.buffer
        tc.collect(n_step=2 * len(self.w.envs.train_envs), random=True)
        out["buf"] = {"cls": type(b).__name__, "max": b.maxsize, "num": getattr(b, "buffer_num", 1), "stack": b.stack_num, "ndim": b._meta.obs.ndim - 1, "next": int("obs_next" in b._meta.get_keys()),
                      "noise": [int(tc.exploration_noise), int(sc.exploration_noise)], "envs": int(tc.env is self.w.envs.train_envs and sc.env is self.w.envs.test_envs),
                      "pol": int(tc.policy is self.w.policy and sc.policy is self.w.policy)}

    def callbacks(self, out, p):
        rng = random.Random(5)
        cb = {"train": [], "test": [], "stop": [], "set": [0, 0, 0]}
        t = self.w.trainer
        if t is not None:
            cb["set"] = [int(f is not None) for f in (t.train_fn, t.test_fn, t.stop_fn)]
            if t.train_fn is not None:
                for k in range(6):
                    s = rng.choice([0, 1, 7, 10, 25, 50, 99, 100, 101, 150, 400])
                    t.train_fn(k + 1, s)
                    cb["train"].append([s, mic(p.eps)])
            if t.test_fn is not None:
                p.set_eps(0.77)
                t.test_fn(1, 5)
                cb["test"].append([5, mic(p.eps)])
            if t.stop_fn is not None:
                for v in (-9.0, 0.0, 1.5, 2.0, 7.0, 7.25, 7.5, 30.0):
                    cb["stop"].append([iv(v * 1000), int(bool(t.stop_fn(v)))])
        out["cb"] = cb

    def schedules(self, out, s, opts):
        name = {id(o): k for k, o in opts.items()}
        subs = [] if s is None else s.schedulers if isinstance(s, MultipleLRSchedulers) else [s]
        out["multi"] = int(isinstance(s, MultipleLRSchedulers))
        out["sched"] = []
        for q in subs:
            lrs = [mic(q.optimizer.param_groups[0]["lr"] / q.base_lrs[0])]
            for _ in range(3):
                q.optimizer.step()
                q.step()
                lrs.append(mic(q.optimizer.param_groups[0]["lr"] / q.base_lrs[0]))
            out["sched"].append({"opt": name.get(id(q.optimizer), "?"), "cls": type(q).__name__, "lrs": lrs})
        out["sched"].sort(key=lambda q: q["opt"])


# ---------------------------------------------------------------- a session with builders
class Session:
    def __init__(self, rng, algo=None, venv=None):
        self.rng = rng
        self.algo = algo or rng.choice(ALGOS)
        c = self.algo in CONT or (self.algo in [*BOTH, "RND"] and rng.random() < 0.5)
        only = rng.random() < 0.25
        oshape = [2, rng.randint(2, 4)] if only else [rng.randint(1, 5)]
        self.env = {"c": int(c), "oshape": oshape, "obs": int(np.prod(oshape)), "act": rng.randint(1, 4) if c else rng.randint(2, 5), "high": rng.choice([1000, 2000, 500, 1500])}
        self.venv = venv or "dummy"
        self.reg = rng.random() < 0.5
        self.regc = {"on": int(self.reg), "train": rng.randint(0, 99), "test": rng.randint(100, 199), "rm": [rng.choice(["None", "rgb_array", "ansi"]), rng.choice(["None", "human"]), rng.choice(["human", "ansi"])],
                     "extra": rng.choice(["None", "x", "yy"])}
        self.b, self.x, self.ev = [], [], []
        self.used = 0
        self.only = only
        self.start()

    def emit(self, **e):
        self.ev.append(e)

    def start(self):
        rng = self.rng
        samp, exp = draw_samp(rng), draw_exp(rng)
        samp["only"] = samp["only"] and self.only
        vt = VectorEnvType(self.venv)
        if self.reg:
            none = lambda v: None if v == "None" else v  # noqa: E731
            r = self.regc
            kw = {} if r["extra"] == "None" else {"extra": r["extra"]}
            f = EnvFactoryRegistered(task="VfSetup-v0", train_seed=r["train"], test_seed=r["test"], venv_type=vt, render_mode_train=none(r["rm"][0]), render_mode_test=none(r["rm"][1]),
                                     render_mode_watch=r["rm"][2], spec=self.env, **kw)
        else:
            f = Factory(vt, self.env)
        cls = getattr(hx, BUILDER[self.algo] + "ExperimentBuilder")
        b = cls(f, exp_of(exp), samp_of(samp))
        self.b.append(b)
        p = note_params({}, pcls(self.algo)()) if self.algo != "RND" else {}
        self.emit(op="begin", algo=self.algo, env=self.env, reg=self.regc, venv=self.venv, samp=samp, exp=exp, params=p)
        self.c = [{"samp": samp}]

    def val(self, slot):
        rng = self.rng
        if slot == "optim":
            k = rng.choice(["Adam", "Adam2", "RMSprop", "SGD"])
            if k in ("Adam", "Adam2"):
                return {"cls": "Adam", "how": k, "hyper": {"betas": rng.choice([(0.9, 0.99), (0.5, 0.7)]), "eps": rng.choice([1e-6, 1e-5]), "weight_decay": rng.choice([0.0, 0.01])}}
            if k == "RMSprop":
                return {"cls": k, "how": k, "hyper": {"alpha": rng.choice([0.9, 0.5]), "eps": rng.choice([1e-6, 1e-5]), "weight_decay": rng.choice([0.0, 0.01]), "momentum": rng.choice([0.0, 0.3]), "centered": rng.random() < 0.5}}
            return {"cls": k, "how": k, "hyper": {"momentum": rng.choice([0.0, 0.3, 0.9]), "weight_decay": rng.choice([0.0, 0.02])}}
        if slot == "name":
            return rng.choice(["alpha", "beta", "gamma"])
        if slot == "samp":
            c = draw_samp(rng)
            c["only"] = c["only"] and self.only
            return c
        if slot == "exp":
            return draw_exp(rng)
        if slot == "params":
            return draw_params(rng, self.algo, self.env)
        if slot == "stop":
            return {"thr": iv(rng.choice([0, 1500, 2000, 7000, 30000]))} if not self.reg or rng.random() < 0.5 else {"thr": -1}
        if slot == "cbtrain":
            return {"kind": rng.choice(["set", "decay"]), "a": rng.choice([1000000, 500000, 800000]), "b": rng.choice([100000, 50000, 0]), "n": rng.choice([10, 50, 100])}
        if slot == "cbtest":
            return {"a": rng.choice([10000, 50000, 0])}
        if slot == "wrapper":
            return {"feat": sizes(rng), "fact": rng.choice(list(ACTS)), "hid": sizes(rng), "lr": rate(rng), "lr_scale": rng.choice([1.0, 0.5]), "reward_scale": rng.choice([0.1, 2.0]), "fw": rng.choice([0.2, 0.6])}
        if slot in ("critic1", "critic2", "critics"):
            k = rng.choice(["default", "default", "reuse", "net"])
            return {"kind": k, "hid": sizes(rng), "act": rng.choice(list(ACTS))}
        if slot == "ensemble":
            return {"kind": rng.choice(["default", "net"]), "hid": sizes(rng), "act": "Tanh"}
        if slot == "model":
            return {"kind": rng.choice(["default", "net"]), "hid": sizes(rng), "act": rng.choice(list(ACTS)), "unb": False, "cs": False}
        if slot == "actor":
            return {"kind": rng.choice(["default", "default", "net"]), "hid": sizes(rng), "act": rng.choice(list(ACTS)), "unb": rng.random() < 0.5, "cs": rng.random() < 0.5}
        raise KeyError(slot)

    def put(self, i, slot, v):
        """Sets a slot of builder i and records the setting."""
        b, algo, c = self.b[i], self.algo, self.env["c"]
        note = v
        if slot == "optim":
            h = v["hyper"]
            if v["how"] == "Adam":
                r = b.with_optim_factory_default(**h)
            else:
                r = b.with_optim_factory(OptimizerFactoryAdam(**h) if v["how"] == "Adam2" else OptimizerFactoryRMSprop(**h) if v["how"] == "RMSprop" else OptimizerFactoryTorch(torch.optim.SGD, **h))
            note = {"cls": v["cls"], "hyper": {k: can(x) for k, x in h.items()}}
        elif slot == "name":
            r = b.with_name(v)
        elif slot == "samp":
            b.sampling_config = samp_of(v)
            self.c[i] = {"samp": v}
            r = b
        elif slot == "exp":
            b.experiment_config = exp_of(v)
            r = b
        elif slot == "params":
            p = make_params(algo, v, b.sampling_config)
            r = getattr(b, WITH.get(algo, f"with_{algo.lower()}_params"))(p)
            note = note_params(v, p)
            s = self.c[i]["samp"]
            note["lin"] = [s["spe"], s["spc"], s["epochs"]]
        elif slot == "stop":
            r = b.with_epoch_stop_callback(EpochStopCallbackRewardThreshold(None if v["thr"] == -1 else v["thr"] / 1000))
            note = {"thr": 7250 if v["thr"] == -1 else v["thr"]}
        elif slot == "cbtrain":
            r = b.with_epoch_train_callback(EpochTrainCallbackDQNSetEps(v["a"] / 1e6) if v["kind"] == "set" else EpochTrainCallbackDQNEpsLinearDecay(v["a"] / 1e6, v["b"] / 1e6, v["n"]))
        elif slot == "cbtest":
            r = b.with_epoch_test_callback(EpochTestCallbackDQNSetEps(v["a"] / 1e6))
        elif slot == "wrapper":
            f = IntermediateModuleFactoryFromActorFactory(ActorFactoryDiscreteNet(v["feat"], softmax_output=False, activation=ACTS[v["fact"]]))
            r = b.with_policy_wrapper_factory(PolicyWrapperFactoryIntrinsicCuriosity(feature_net_factory=f, hidden_sizes=v["hid"], lr=v["lr"], lr_scale=v["lr_scale"], reward_scale=v["reward_scale"], forward_loss_weight=v["fw"]))
            note = {**v, "lr": can(v["lr"]), "lr_scale": can(v["lr_scale"]), "reward_scale": can(v["reward_scale"]), "fw": can(v["fw"])}
        elif slot in ("critic1", "critic2", "critics"):
            n = {"critic1": "critic" if algo in SINGLE else "critic1", "critic2": "critic2", "critics": "common_critic"}[slot]
            if v["kind"] == "default":
                r = getattr(b, f"with_{n}_factory_default")(v["hid"], ACTS[v["act"]])
            elif v["kind"] == "reuse":
                r = getattr(b, f"with_{n}_factory_use_actor")()
            else:
                r = getattr(b, f"with_{n}_factory")((CriticFactoryContinuousNet if c else CriticFactoryDiscreteNet)(v["hid"], ACTS[v["act"]]))
        elif slot == "ensemble":
            r = b.with_critic_ensemble_factory_default(v["hid"]) if v["kind"] == "default" else b.with_critic_ensemble_factory(CriticEnsembleFactoryContinuousNet(v["hid"]))
        elif slot == "model":
            net = IntermediateModuleFactoryFromActorFactory(ActorFactoryDiscreteNet(v["hid"], softmax_output=False, activation=ACTS[v["act"]]))
            if algo == "IQN":
                r = b.with_preprocess_network_factory(net)
            else:
                r = b.with_model_factory_default(v["hid"], ACTS[v["act"]]) if v["kind"] == "default" else b.with_model_factory(net)
        elif slot == "actor":
            note = dict(v)
            det = algo in ("DDPG", "TD3")
            soft = algo != "DSAC"
            if v["kind"] == "default":
                if c and not det:
                    r = b.with_actor_factory_default(v["hid"], ACTS[v["act"]], continuous_unbounded=v["unb"], continuous_conditioned_sigma=v["cs"])
                else:
                    r = b.with_actor_factory_default(v["hid"], ACTS[v["act"]])
            elif not c:
                r = b.with_actor_factory(ActorFactoryDiscreteNet(v["hid"], softmax_output=soft, activation=ACTS[v["act"]]))
            elif det:
                r = b.with_actor_factory(ActorFactoryContinuousDeterministicNet(v["hid"], ACTS[v["act"]]))
            else:
                r = b.with_actor_factory(ActorFactoryContinuousGaussianNet(v["hid"], unbounded=v["unb"], conditioned_sigma=v["cs"], activation=ACTS[v["act"]]))
        self.emit(op="with", b=i + 1, slot=slot, val=note, same=int(r is b))

    def set(self, i, slot):
        self.put(i, slot, self.val(slot))

    def copy(self, i):
        self.b.append(self.b[i].copy())
        self.c.append(self.c[i])
        self.emit(op="copy", b=i + 1)

    def build(self, i):
        x = self.b[i].build()
        self.x.append(x)
        self.emit(op="build", b=i + 1, name=x.name)

    def store(self, k):
        x = self.x[k]
        how = self.rng.choice(["pickle", "copy", "dir"])
        if how == "pickle":
            y = pickle.loads(pickle.dumps(x))
        elif how == "copy":
            y = copy.deepcopy(x)
        else:
            d = tempfile.mkdtemp(prefix="vfsu", dir=os.environ.get("TMPDIR", "/tmp"))
            x.save(d)
            y = Experiment.from_directory(d, restore_policy=False)
            shutil.rmtree(d)
        self.x.append(y)
        self.emit(op="store", x=k + 1)

    def seeded(self, i):
        n = self.rng.randint(1, 4)
        xs = self.b[i].build_seeded_collection(n).experiments
        self.x += xs
        self.emit(op="seeded", b=i + 1, n=n, names=[x.name for x in xs], base=self.b[i].build().name, seeds=[[x.config.seed, x.sampling_config.train_seed, x.sampling_config.test_seed] for x in xs])

    def world(self, k):
        x = self.x[k]
        R.calls, R.made = [], []
        try:
            w = x.create_experiment_world()
        except Exception as ex:
            self.emit(op="failed", x=k + 1, msg=repr(ex)[:300])
            return
        try:
            self.emit(op="world", x=k + 1, w=World(x, w, self.algo, self.env, self.venv).record())
        finally:
            for v in (w.envs.train_envs, w.envs.test_envs, w.envs.watch_env):
                if v is not None:
                    v.close()


def quiet(fn):
    def run(*a, **k):
        logging.disable(logging.CRITICAL)
        for cls in {getattr(pol, n) for n in dir(pol) if n.endswith("Policy")} | {RandomActionPolicy}:
            if isinstance(cls, type) and "_vf_orig" not in cls.__dict__ and "__init__" in cls.__dict__:
                _watch(cls)
        torch.set_num_threads(1)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return fn(*a, **k)
    return run


@quiet
def schedule(walks, seed):
    """Walks of spec/MCSetup.tla: the abstract slots are slots of a builder chosen by the seed."""
    rng = random.Random(seed)
    out = []
    for walk in walks:
        s = Session(rng)
        names = list(dict.fromkeys(slots(s.algo, s.env)))
        rng.shuffle(names)
        memo = {}
        for a in walk:
            if a["op"] == "with":
                slot = names[(a["slot"] - 1) % len(names)]
                key = (slot, a["val"])
                if key not in memo:
                    memo[key] = s.val(slot)
                s.put(a["b"] - 1, slot, memo[key])
            elif a["op"] == "copy":
                s.copy(a["b"] - 1)
            elif a["op"] == "build":
                s.build(a["b"] - 1)
            elif a["op"] == "store":
                s.store(a["x"] - 1)
            elif a["op"] == "world":
                s.world(a["x"] - 1)
        for k in range(len(s.x)):
            s.world(k)
        out.append(s.ev)
    return out


@quiet
def histories(seed, n, length, venvs=()):
    rng = random.Random(seed)
    out = []
    for k in range(n):
        s = Session(rng, algo=ALGOS[(seed + k) % len(ALGOS)])
        names = slots(s.algo, s.env)
        for _ in range(rng.randint(2, length)):
            x = rng.random()
            if x < 0.6:
                s.set(rng.randrange(len(s.b)), rng.choice(names))
            elif x < 0.68 and len(s.b) < 3:
                s.copy(rng.randrange(len(s.b)))
            elif x < 0.82:
                s.build(rng.randrange(len(s.b)))
            elif x < 0.87:
                s.seeded(rng.randrange(len(s.b)))
            elif x < 0.92 and s.x:
                s.store(rng.randrange(len(s.x)))
            elif s.x:
                s.world(rng.randrange(len(s.x)))
        for i in range(len(s.b)):
            s.build(i)
        for j in range(len(s.x)):
            if j >= len(s.x) - 3 or rng.random() < 0.5:
                s.world(j)
        out.append(s.ev)
    for v in venvs:
        s = Session(rng, venv=v)
        s.build(0)
        s.world(0)
        out.append(s.ev)
    return out


@quiet
def seeded_share_envs() -> bool:
    """Known finding seeded-env-seeds: the experiments of a seeded collection use the same environment seeds."""
    seen = []
    f = EnvFactoryRegistered(task="VfSetup-v0", train_seed=5, test_seed=7, venv_type=VectorEnvType.DUMMY, spec={"c": 0, "oshape": [2], "obs": 2, "act": 2, "high": 1000})
    for x in hx.DQNExperimentBuilder(f, exp_of(draw_exp(random.Random(1))), samp_of(draw_samp(random.Random(1)))).build_seeded_collection(2).experiments:
        w = x.create_experiment_world()
        seen.append([list(k.env.unwrapped.seeds) for k in w.envs.train_envs.workers])
        w.envs.train_envs.close()
    return seen[0] == seen[1]
