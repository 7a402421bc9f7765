"""Runs experiments of the high-level interface with a policy that counts its updates; judged by spec/ExperTrace.tla."""
from __future__ import annotations

import contextlib
import inspect
import io
import logging
import os
import random
import shutil
import tempfile
import time
import warnings

import gymnasium as gym
import numpy as np
import torch

from tianshou.data import Batch
from tianshou.evaluation.launcher import JoblibConfig, JoblibExpLauncher, RegisteredExpLauncher, SequentialExpLauncher
from tianshou.highlevel.agent import OffPolicyAgentFactory, OnPolicyAgentFactory
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.env import EnvFactory, EnvMode, VectorEnvType
from tianshou.highlevel.experiment import Experiment, ExperimentCollection, ExperimentConfig
from tianshou.highlevel.optim import OptimizerFactoryAdam
from tianshou.highlevel.persistence import Persistence, PolicyPersistence
from tianshou.highlevel.trainer import EpochStopCallback, EpochTestCallback, EpochTrainCallback, TrainerCallbacks
from tianshou.policy import BasePolicy
from tianshou.policy.base import TrainingStats
from vlib.core import iv

warnings.simplefilter("ignore")
NACT = 100000


class Rec:
    """What is recorded in this process (stub objects find it here, they are stored and restored without it)."""
    def __init__(self):
        self.on, self.ev, self.base, self.acts = False, [], None, []
        self.asked = self.noise = self.tr = 0

    def emit(self, **e):
        if self.on:
            self.ev.append(e)


R = Rec()


class Env(gym.Env):
    def __init__(self, mode, length, scores):
        self.mode, self.length, self.scores = mode, length, scores
        self.observation_space = gym.spaces.Box(-1e6, 1e6, (1,))
        self.action_space = gym.spaces.Discrete(NACT)
        self.t = 0

    def reset(self, seed=None, options=None):
        super().reset(seed=seed)
        self.t = 0
        return np.zeros(1, np.float32), {}

    def step(self, a):
        self.t += 1
        obs = np.full(1, self.t, np.float32)
        if self.mode == EnvMode.TRAIN:
            return obs, 1.0, self.t >= self.length, False, {}
        if self.mode == EnvMode.WATCH:
            R.acts.append(iv(a))
        return obs, float(self.scores[int(a) % len(self.scores)]), True, False, {}

    def render(self):
        pass


def files():
    """Name, versions stored, and files of epochs of every directory of experiments."""
    out = []
    for d in sorted(os.listdir(R.base)):
        p = os.path.join(R.base, d)
        rec = {"name": d, "policy": -1, "state": -1, "ck": [], "pkl": int(os.path.exists(os.path.join(p, "experiment.pkl")))}
        for f in sorted(os.listdir(p)):
            if not f.endswith(".pt"):
                continue
            x = torch.load(os.path.join(p, f), map_location="cpu")
            mode = "state" if isinstance(x, dict) else "policy"
            w = iv(x["w"].item() if isinstance(x, dict) else x.w.item())
            want = "policy_state_dict" if mode == "state" else "policy"
            if f == want + ".pt":
                rec[mode] = w
            elif f.startswith(want + "_epoch_"):
                rec["ck"].append([mode, int(f[len(want) + 7:-3]), w])
            else:
                rec["ck"].append(["misplaced " + f, -1, w])
        out.append(rec)
    return out


class EnvPersistence(Persistence):
    def persist(self, event, world):
        if R.on:
            R.emit(op="persist", files=files())

    def restore(self, event, world):
        R.emit(op="restore", w=iv(world.policy.w.item()))


class Factory(EnvFactory):
    def __init__(self, length, scores):
        super().__init__(VectorEnvType.DUMMY)
        self.length, self.scores = length, scores

    def create_env(self, mode):
        return Env(mode, self.length, self.scores)

    def create_envs(self, *a, **k):
        envs = super().create_envs(*a, **k)
        envs.set_persistence(EnvPersistence())
        return envs


class Counter(BasePolicy):
    """Acts with the number of updates it has seen."""
    def __init__(self, action_space):
        super().__init__(action_space=action_space)
        self.w = torch.nn.Parameter(torch.zeros(1))

    def forward(self, batch, state=None, **kw):
        R.asked, R.tr = 1, int(self.is_within_training_step)
        return Batch(act=np.full(len(batch.obs), int(self.w.item())), state=state)

    def exploration_noise(self, act, batch):
        R.noise = 1
        return act

    def update(self, sample_size, buffer, **kw):
        R.emit(op="upd", ss=iv(sample_size or 0), bs=iv(kw.get("batch_size") or 0), rep=iv(kw.get("repeat") or 0), blen=len(buffer), w=iv(self.w.item()))
        return super().update(sample_size, buffer, **kw)

    def learn(self, batch, *a, **k):
        with torch.no_grad():
            self.w += 1
        return TrainingStats()


def wrap(col, who):
    orig = col.collect
    sig = inspect.signature(orig)

    def collect(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        n = b.arguments
        R.asked = R.noise = R.tr = 0
        w = iv(col.policy.w.item())
        r = orig(*a, **k)
        R.emit(op="collect", who=who, nstep=iv(n["n_step"] or 0), nep=iv(n["n_episode"] or 0), steps=iv(r.n_collected_steps), eps=iv(r.n_collected_episodes),
               blen=len(col.buffer), mean=iv(r.returns_stat.mean) if r.returns_stat else 0, w=w, asked=R.asked, noise=R.noise, tr=R.tr)
        return r
    col.collect = collect


class Mixin:
    def _create_policy(self, envs, device):
        return Counter(envs.get_action_space())

    def create_train_test_collector(self, *a, **k):
        x, y = super().create_train_test_collector(*a, **k)
        wrap(x, "train")
        wrap(y, "test")
        return x, y


class OnFactory(Mixin, OnPolicyAgentFactory):
    pass


class OffFactory(Mixin, OffPolicyAgentFactory):
    pass


class Trf(EpochTrainCallback):
    def callback(self, epoch, env_step, context):
        R.emit(op="rcb", ep=iv(epoch), step=iv(env_step))


class Tef(EpochTestCallback):
    def callback(self, epoch, env_step, context):
        R.emit(op="tcb", ep=iv(epoch), step=iv(env_step))


class Stf(EpochStopCallback):
    def __init__(self, thr):
        self.thr = thr

    def should_stop(self, mean_rewards, context):
        R.emit(op="scb", mean=iv(mean_rewards))
        return mean_rewards >= self.thr


def make(c) -> Experiment:
    M = PolicyPersistence.Mode
    samp = SamplingConfig(num_epochs=c["epochs"], step_per_epoch=c["spe"], batch_size=c["bs"] or None, num_train_envs=c["nt"], num_test_envs=c["ne"],
                          num_test_episodes=c["ntests"], buffer_size=c["buf"], step_per_collect=c["spc"] if c["epc"] == 0 else None, episode_per_collect=c["epc"] or None,
                          repeat_per_collect=c["rep"], update_per_step=c["un"] / 4, start_timesteps=c["start"], start_timesteps_random=c["srand"])
    conf = ExperimentConfig(seed=7, device="cpu", policy_restore_directory=os.path.join(R.base, c["restore"]) if c["restore"] else None, train=c["train"], watch=c["watch"],
                            watch_num_episodes=c["nwatch"], persistence_base_dir=R.base, persistence_enabled=c["persist"], log_file_enabled=False,
                            policy_persistence_mode=M.POLICY if c["mode"] == "policy" else M.POLICY_STATE_DICT)
    agent = (OnFactory if c["kind"] == "on" else OffFactory)(samp, OptimizerFactoryAdam())
    agent.set_trainer_callbacks(TrainerCallbacks(Trf() if c["trf"] else None, Tef() if c["tef"] else None, Stf(c["thr"]) if c["stf"] else None))
    return Experiment(conf, Factory(c["len"], c["scores"]), agent, samp, c["name"])


def settings(x: Experiment, like) -> dict:
    """The settings that a restored experiment has (fields that are arguments of a run are taken over)."""
    s, g = x.sampling_config, x.config
    c = dict(like)
    cb = x.agent_factory.trainer_callbacks
    c.update(kind="on" if isinstance(x.agent_factory, OnPolicyAgentFactory) else "off", epochs=s.num_epochs, spe=s.step_per_epoch, bs=s.batch_size or 0, nt=s.num_train_envs,
             ne=s.num_test_envs, ntests=s.num_test_episodes, buf=s.buffer_size, epc=s.episode_per_collect or 0, rep=s.repeat_per_collect, un=iv(s.update_per_step * 4),
             start=s.start_timesteps, srand=s.start_timesteps_random, train=g.train, watch=g.watch, nwatch=g.watch_num_episodes, persist=g.persistence_enabled,
             mode="policy" if g.policy_persistence_mode == PolicyPersistence.Mode.POLICY else "state",
             restore=os.path.basename(g.policy_restore_directory or ""), trf=cb.epoch_train_callback is not None, tef=cb.epoch_test_callback is not None,
             stf=cb.epoch_stop_callback is not None, thr=cb.epoch_stop_callback.thr if cb.epoch_stop_callback else like["thr"], len=x.env_factory.length, scores=list(x.env_factory.scores))
    if s.step_per_collect is not None:
        c["spc"] = s.step_per_collect
    return c


def info(r):
    return [] if r is None else [iv(r.gradient_step), iv(r.best_reward), iv(r.train_step), iv(r.train_episode), iv(r.test_step), iv(r.test_episode)]


def quiet():
    logging.disable(logging.CRITICAL)
    return contextlib.redirect_stderr(io.StringIO())


class World:
    def __init__(self):
        R.__init__()
        R.base = tempfile.mkdtemp(prefix="vfhl", dir=os.environ.get("TMPDIR", "/tmp"))
        R.ev = [{"op": "begin"}]
        R.on = True
        self.stored = {}

    def close(self):
        for _ in range(50):
            shutil.rmtree(R.base, ignore_errors=True)  # the log's writer may still put down a file
            if not os.path.exists(R.base):
                break
            time.sleep(0.1)
        return R.ev

    def go(self, x, c, name, raises):
        R.acts = []
        try:
            with quiet(), contextlib.redirect_stdout(io.StringIO()):
                r = x.run(run_name=name, raise_error_on_dirname_collision=raises)
            if R.acts:
                R.emit(op="watch", acts=list(R.acts))
            R.emit(op="end", err=0, msg="", res=info(r.trainer_result), w=iv(r.world.policy.w.item()), files=files())
        except Exception as ex:
            R.emit(op="end", err=1, msg=repr(ex)[:200], res=[], w=0, files=files())
        if c["persist"] and os.path.isdir(os.path.join(R.base, name)):
            self.stored.setdefault(name, c)

    def run(self, c):
        R.emit(op="run", c=c)
        x = make(c)
        self.stored_before = set(os.listdir(R.base))
        refused = c["persist"] and c["name"] in self.stored_before and c["raises"]
        self.go(x, c, c["name"], c["raises"])
        if c["persist"] and not refused:
            self.stored[c["name"]] = c

    def again(self, d, rp, name):
        x = Experiment.from_directory(os.path.join(R.base, d), restore_policy=rp)
        like = self.stored[d]
        c = settings(x, like)
        R.emit(op="loaded", dir=d, rp=rp, c=c)
        R.emit(op="again", dir=d, rp=rp, name=name)
        c = {**c, "name": name, "raises": False}
        self.go(x, c, name, False)
        if c["persist"]:
            self.stored[name] = c


def schedule(walks, seed):
    out = []
    for walk in walks:
        w = World()
        for a in walk:
            w.run(a["c"]) if a["op"] == "run" else w.again(a["dir"], a["rp"], a["name"])
        out.append(w.close())
    return out


def draw(rng, names, seen):
    kind = rng.choice(["on", "off"])
    nt = rng.randint(1, 4)
    length = rng.randint(1, 5)
    spc = rng.randint(1, 9)
    epc = rng.choice([0, 0, 0, 1, 2, 3, 5])
    n = epc * length if epc else -(-spc // nt) * nt
    un = rng.choice([1, 2, 3, 4, 6, 8, 1, 2])
    while kind == "off" and (round(un / 4 * n) == 0 or un / 4 * n == 0.5):
        un += 1
    epochs = rng.choice([1, 1, 2, 3, 4])
    spe = rng.randint(1, 16)
    # an environment's part of the buffer holds more than two episodes
    buf = 4000 if epc else nt * (2 * length + 1) + rng.choice([0, 0, 1, 2, 5, 30, 200])
    return {"kind": kind, "nt": nt, "ne": rng.randint(1, 3), "epochs": epochs, "spe": spe, "spc": spc, "epc": epc, "bs": rng.choice([0, 1, 2, 3, 5, 64]) if kind == "on" else rng.choice([1, 2, 5]),
            "rep": rng.choice([1, 1, 2, 3]), "un": un, "ntests": rng.randint(1, 5), "start": rng.choice([0, 0, 1, 2, 5, 8]), "srand": rng.random() < 0.5,
            "train": rng.random() < 0.88, "watch": rng.random() < 0.3, "nwatch": rng.randint(1, 4), "persist": rng.random() < 0.85, "mode": rng.choice(["policy", "policy", "state"]),
            "restore": rng.choice(["", ""] + seen + ["nowhere"][: rng.random() < 0.1]), "name": rng.choice(names), "raises": rng.random() < 0.4, "thr": rng.randint(2, 12), "buf": buf,
            "len": length, "scores": [rng.randint(-3, 9) for _ in range(rng.randint(1, 7))], "trf": rng.random() < 0.5, "tef": rng.random() < 0.5, "stf": rng.random() < 0.4}


def launcher(rng, w: World, joblib=False):
    n = rng.randint(1, 6)
    fails = [int(rng.random() < 0.35) for _ in range(n)]
    if rng.random() < 0.15:
        fails = [1] * n
    ran = []
    exps = []
    for k in range(n):
        c = draw(rng, ["x"], [])
        c["name"] = f"e{k + 1}"
        exps.append(make(c))

    def runner(x):
        k = int(x.name[1:])
        ran.append(k)
        if fails[k - 1]:
            raise rng.choice([ValueError, KeyError, RuntimeError, OSError])("no")
        return k
    err, res = 0, []
    try:
        with quiet():
            res = [iv(v) for v in SequentialExpLauncher(runner).launch(exps)]
    except Exception:
        err = 1
    R.emit(op="launch", fails=fails, ran=ran, err=err, res=res)


def all_of(rng, w: World, joblib):
    """Several experiments handed to a launcher, some of which cannot run."""
    names = [f"l{k}" for k in range(3)]
    cs = []
    for _ in range(rng.randint(2, 4)):
        c = draw(rng, names, [])
        c.update(persist=True, restore="", raises=True, watch=False, train=True, epochs=min(c["epochs"], 2), spe=min(c["spe"], 6))
        cs.append(c)
    if joblib:
        for k, c in enumerate(cs):
            c["name"] = f"j{k}"
    fresh = set(os.listdir(R.base))
    if all(c["name"] in fresh for c in cs):
        cs[0]["name"] = f"m{len(fresh)}"
    xs = [make(c) for c in cs]
    R.on = False
    cwd = os.getcwd()
    try:
        with quiet(), contextlib.redirect_stdout(io.StringIO()):
            if joblib:
                r = JoblibExpLauncher(JoblibConfig(n_jobs=2, verbose=0)).launch(xs)
            else:
                r = ExperimentCollection(xs).run(rng.choice([RegisteredExpLauncher.sequential, SequentialExpLauncher()]))
        res = [info(x) for x in r]
    except Exception as ex:
        res = [[-1], [repr(ex)[:200]]]
    finally:
        os.chdir(cwd)
        R.on = True
    R.emit(op="launchall", cs=cs, res=res, files=files())


def histories(seed, n, length, joblib=0):
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        w = World()
        names = ["a", "b", "c"][: rng.randint(1, 3)]
        for _ in range(rng.randint(1, length)):
            seen = sorted(os.listdir(R.base))
            x = rng.random()
            if seen and x < 0.3:
                w.again(rng.choice(seen), rng.random() < 0.6, rng.choice(names))
            else:
                w.run(draw(rng, names, seen))
        out.append(w.close())
    for k in range(n):
        w = World()
        for _ in range(6):
            launcher(rng, w)
        if k % 2 == 0:
            all_of(rng, w, False)
        out.append(w.close())
    for _ in range(joblib):
        w = World()
        all_of(rng, w, True)
        out.append(w.close())
    return out
