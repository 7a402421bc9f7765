"""Runs the real trainers with scripted environments and records what they do (T01-T03)."""
from __future__ import annotations

import io
import os
import random
import shutil
import tempfile
from contextlib import redirect_stdout
from dataclasses import dataclass
from fractions import Fraction

import gymnasium as gym
import numpy as np
import torch
from torch.utils.tensorboard import SummaryWriter

from tianshou.data import Batch, CollectStats, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.policy import BasePolicy
from tianshou.policy.base import TrainingStats
from tianshou.trainer import OfflineTrainer, OffpolicyTrainer, OnpolicyTrainer
from tianshou.utils import TensorboardLogger

from vlib.core import iv

torch.set_num_threads(1)


class Injected(Exception):
    pass


def frac(x) -> list:
    f = Fraction(float(x)).limit_denominator(400)
    return [f.numerator, f.denominator]


class World:
    """Log of events and the script of the environments."""

    def __init__(self, rnd):
        self.rnd, self.ev = rnd, []
        self.fault = None  # [where, countdown]
        self.plan = {"train": [], "test": []}  # queues of (length, return) of the next episodes
        self.gen = {"train": lambda: (2, 0), "test": lambda: (1, 0)}
        self.pay_first = False
        self.acts = {}
        self.cplan, self.cur = None, [0, -1]
        self.rets = []

    def log(self, **e):
        self.ev.append(e)

    def hit(self, where):
        if self.fault and self.fault[0] == where:
            if self.fault[1] == 0:
                self.fault = None
                raise Injected(where)
            self.fault[1] -= 1


class ScriptEnv(gym.Env):
    def __init__(self, w, role, idx):
        self.w, self.role, self.idx = w, role, idx
        self.action_space = gym.spaces.Discrete(2)
        self.observation_space = gym.spaces.Box(-1000, 1000, (1,))
        self.k = 0
        self.plan = None

    def reset(self, *, seed=None, options=None):
        self.k = 0
        self.plan = None
        self.w.acts[self.role, self.idx] = "reset"
        return np.array([0.0]), {}

    def step(self, action):
        w = self.w
        if self.role == "train" and w.cplan is not None:   # one episode per collection, or none, ending with the collection
            w.acts[self.role, self.idx] = "step"
            self.k += 1
            w.cur[0] -= 1
            last = w.cur[0] == 0 and w.cur[1] >= 0
            if last:
                w.rets.append((self.role, w.cur[1]))
            return np.array([float(self.k)]), float(w.cur[1] if last else 0), last, False, {}
        if self.plan is None:
            q = w.plan[self.role]
            self.plan = q.pop(0) if q else w.gen[self.role]()
        w.acts[self.role, self.idx] = "step"
        self.k += 1
        n, ret = self.plan
        last = self.k >= n
        first = self.k == 1
        r = float(ret) if (first if w.pay_first else last) else 0.0
        if last:
            w.rets.append((self.role, int(ret)))
        return np.array([float(self.k)]), r, last, False, {}


@dataclass
class Loss(TrainingStats):
    loss: float = 0.0


class P(BasePolicy):
    def __init__(self, w):
        super().__init__(action_space=gym.spaces.Discrete(2), action_scaling=False)
        self.w = w
        self.fw = []
        self.lr = []
        self.net = torch.nn.Linear(1, 1)

    def forward(self, batch, state=None, **kw):
        self.fw.append((self.is_within_training_step, self.training or self.net.training, self.updating))
        return Batch(act=np.zeros(len(batch), int))

    def learn(self, batch, *a, **kw):
        self.w.hit("upd")
        loss = self.w.rnd.choice([0, 12, 24, -12])
        self.lr.append((self.is_within_training_step, self.training and self.net.training, self.updating, len(batch), kw, loss))
        return Loss(loss=float(loss))

    def update(self, sample_size, buffer, **kw):
        self.lr.clear()
        res = super().update(sample_size, buffer, **kw)
        lr = self.lr[-1] if self.lr else (False, False, False, 0, {}, 0)
        k = lr[4]
        self.w.log(op="upd", ss=-1 if sample_size is None else sample_size, buf=self.w.which(buffer), bs=iv(k.get("batch_size") or 0),
                   rep=iv(k.get("repeat") or 0), isw=lr[0], ltr=lr[1], lupd=lr[2], rows=lr[3], nl=len(self.lr), loss=lr[5],
                   blen=len(buffer) if buffer is not None else -1)
        return res


class Rec(Collector):
    """A collector that records its calls to collect."""

    def setup(self, w, role):
        self.w, self.role = w, role
        return self

    def collect(self, n_step=None, n_episode=None, *a, **kw):
        w = self.w
        w.hit("test" if self.role == "test" else "coll")
        b0 = len(self.buffer)
        self.policy.fw.clear()
        w.rets.clear()
        # environments that start this collection with a reset since their last step
        fresh = all(w.acts.get((self.role, i)) == "reset" for i in range(self.env_num))
        if self.role == "train" and w.cplan is not None:
            w.cur = [n_step, w.cplan.pop(0) if w.cplan else -1]
        res = super().collect(n_step, n_episode, *a, **kw)
        fw = self.policy.fw
        rets = [r for ro, r in w.rets if ro == self.role]
        e = dict(ns=iv(n_step or 0), ne=iv(n_episode or 0), isw=[bool(any(f[0] for f in fw)), bool(all(f[0] for f in fw))],
                 tr=any(f[1] for f in fw), upd=any(f[2] for f in fw), steps=int(res.n_collected_steps), eps=int(res.n_collected_episodes),
                 rets=rets, fresh=fresh, b0=b0, b1=len(self.buffer), rand=bool(kw.get("random") or (a and a[0])))
        w.log(op="test" if self.role == "test" else "coll", **e)
        return res


class FakeWriter:
    log_dir = "none"

    def add_scalar(self, *a, **k): ...
    def flush(self): ...
    def close(self): ...


def pick(data, *keys):
    return [data.get(k) for k in keys]


class Log(TensorboardLogger):
    w = None

    def write(self, step_type, step, data):
        scope, name = step_type.split("/", 1)
        if scope in ("train", "test", "update", "info"):
            vals = []
            if scope == "train":
                n, e, m = pick(data, "n_collected_steps", "n_collected_episodes", "returns_stat/mean")
                vals = [iv(n), iv(e)] + frac(m)
            elif scope == "test":
                e, m = pick(data, "n_collected_episodes", "returns_stat/mean")
                vals = [iv(e)] + frac(m)
            elif scope == "update":
                vals = frac(data.get("smoothed_loss/loss", 10 ** 6)) + [iv(data.get("loss", 10 ** 6))]
            else:
                vals = info_vals(data.get("gradient_step"), data.get("best_score"), data.get("best_reward"), data.get("best_reward_std"),
                                 data.get("train_step"), data.get("train_episode"), data.get("test_step"), data.get("test_episode"), self.w.ept)
            self.w.log(op="write", scope=scope, step=iv(step), name=name, vals=vals)
        super().write(step_type, step, data)


def info_vals(gr, bs, br, bstd, ts, te, ss, se, ept):
    return [iv(gr), iv(round(float(bs), 6)), iv(round(float(br), 6)), int(round(float(bstd) ** 2 * ept * ept)), iv(ts), iv(te), iv(ss), iv(se)]


def info_of(s, ept):
    return info_vals(s.gradient_step, s.best_score, s.best_reward, s.best_reward_std, s.train_step, s.train_episode, s.test_step, s.test_episode, ept)


KINDS = {0: OnpolicyTrainer, 1: OffpolicyTrainer, 2: OfflineTrainer}


def recording(cls):
    class T(cls):
        def __next__(self):
            w = self.w
            w.log(op="next")
            try:
                s = super().__next__()
            except StopIteration:
                w.log(op="stop", isw=bool(self.policy.is_within_training_step), tr=bool(self.policy.training))
                raise
            cs, ts = s.train_collect_stat, s.test_collect_stat
            w.log(op="epoch", ep=iv(s.epoch), epi=iv(self.env_episode), env=iv(self.env_step), gr=iv(self._gradient_step), cs=int(cs.n_collected_steps), ce=int(cs.n_collected_episodes),
                  cm=frac(cs.returns_stat.mean) if isinstance(cs, CollectStats) and cs.returns_stat is not None else [],
                  test=[] if ts is None else frac(ts.returns_stat.mean), upd=s.training_stat is not None,
                  sm=frac(s.training_stat.smoothed_loss.get("loss", 10 ** 6)) if s.training_stat is not None else [],
                  info=info_of(s.info_stat, w.ept), isw=bool(self.policy.is_within_training_step), tr=bool(self.policy.training))
            return s

    return T


class Session:
    """One configuration: builds trainers, starts runs, injects failures, resumes."""

    def __init__(self, w, c, dirname=None):
        self.w, self.c = w, c
        self.dir = dirname
        self.files = 0
        w.ept = c["ept"]
        self.build(first=True)

    def build(self, first=False, resume=False):
        w, c = self.w, self.c
        self.policy = P(w)
        if c["mode"]:
            self.policy.train()
        else:
            self.policy.eval()
        self.buffer = None
        self.train = self.test = None
        if c["kind"] == 2:
            self.buffer = ReplayBuffer(c["rows"] + 1)
            for k in range(c["rows"]):
                self.buffer.add(Batch(obs=np.array([0.0]), act=0, rew=0.0, terminated=k % 2 == 1, truncated=False, obs_next=np.array([0.0]), info={}))
        else:
            env = DummyVectorEnv([lambda i=i: ScriptEnv(w, "train", i) for i in range(c["nenv"])])
            buf = VectorReplayBuffer(c["cap"] * c["nenv"], c["nenv"]) if c["nenv"] > 1 or c["vbuf"] else ReplayBuffer(c["cap"])
            self.train = Rec(self.policy, env, buf).setup(w, "train")
        if c["test"]:
            env = DummyVectorEnv([lambda i=i: ScriptEnv(w, "test", i) for i in range(c["tenv"])])
            self.test = Rec(self.policy, env, VectorReplayBuffer(100, c["tenv"])).setup(w, "test")
        w.which = lambda b: "given" if b is not None and b is self.buffer else "train" if self.train is not None and b is self.train.buffer else "other"
        writer = SummaryWriter(self.dir) if self.dir else FakeWriter()
        self.logger = Log(writer, train_interval=c["it"], test_interval=c["ie"], update_interval=c["iu"], info_interval=c["ii"], save_interval=c["si"])
        self.logger.w = w
        sign = -1.0 if c["metric"] else 1.0

        def hook(name):
            def f(ep, st):
                w.hit(name)
                w.log(op=name, ep=iv(ep), st=-1 if st is None else iv(st))
            return f

        def save(p):
            w.hit("save")
            w.log(op="save", pol=p is self.policy)

        def ckpt(ep, env, gr):
            w.hit("ckpt")
            w.log(op="ckpt", ep=iv(ep), env=iv(env), gr=iv(gr))
            return "x"

        def score(st):
            if c["score"] == 1:
                return float(np.min(st.returns))
            return -st.returns_stat.mean if c["score"] == 2 else st.returns_stat.mean

        kw = dict(policy=self.policy, max_epoch=c["max"], batch_size=c["bs"] or None, test_collector=self.test, step_per_epoch=c["spe"],
                  episode_per_test=c["ept"], train_fn=hook("trfn") if c["trf"] else None, test_fn=hook("tfn") if c["tef"] else None,
                  stop_fn=(lambda r: r >= c["thr"]) if c["stop"] else None, compute_score_fn=score if c["score"] else None,
                  save_best_fn=save if c["sb"] else None, save_checkpoint_fn=ckpt if c["ck"] else None, resume_from_log=resume,
                  reward_metric=(lambda r: sign * r) if c["metric"] else None, logger=self.logger, verbose=False, show_progress=False,
                  test_in_train=bool(c["tit"]))
        if c["kind"] == 2:
            kw.update(buffer=self.buffer)
            kw.pop("train_fn"), kw.pop("test_in_train")
        else:
            kw.update(train_collector=self.train)
            kw.update(step_per_collect=c["spc"]) if c["spc"] else kw.update(episode_per_collect=c["epc"])
            if c["kind"] == 1:
                kw.update(update_per_step=c["un"] / c["ud"])
            else:
                kw.update(repeat_per_collect=c["rep"])
        self.trainer = recording(KINDS[c["kind"]])(**kw)
        self.trainer.w = w
        if not first:
            w.log(op="new", resume=resume)

    def close(self):
        self.logger.writer.close()

    def renew(self):
        self.close()
        # event files of one second are told apart by a counter, which does not sort beyond nine: give them names that do
        for f in sorted(os.listdir(self.dir)) if self.dir else []:
            if not f.startswith("events.out.tfevents.0"):
                self.files += 1
                os.rename(os.path.join(self.dir, f), os.path.join(self.dir, f"events.out.tfevents.{self.files:010d}.x"))
        self.build(resume=True)

    def start(self, rp=True, rb=False, it=False, epochs=None):
        w = self.w
        w.log(op="start", rp=rp, rb=rb, it=it)
        out = io.StringIO()
        try:
            with redirect_stdout(out):
                if it:
                    for j, _ in enumerate(self.trainer):
                        if epochs is not None and j + 1 >= epochs:
                            break
                else:
                    info = self.trainer.run(reset_prior_to_run=rp, reset_buffer=rb)
                    w.log(op="end", info=info_of(info, w.ept))
        except (Injected, ValueError) as e:
            w.log(op="fail", inj=isinstance(e, Injected), at=str(e) if isinstance(e, Injected) else "", err=type(e).__name__,
                  isw=bool(self.policy.is_within_training_step), tr=bool(self.policy.training), upd=bool(self.policy.updating))
            if not isinstance(e, Injected) and "n_gradient_steps" not in str(e):
                raise
        w.fault = None


KEYS = ["kind", "max", "spe", "spc", "epc", "un", "ud", "bs", "rep", "ept", "test", "stop", "thr", "tit", "sb", "ck", "trf", "tef", "score",
        "metric", "rows", "nenv", "tenv", "cap", "vbuf", "mode", "it", "ie", "iu", "ii", "si"]
RETS = [0, 12, 24, 36]


def conf(r) -> dict:
    kind = r.choice([0, 0, 1, 1, 1, 2])
    nenv = r.choice([1, 1, 2])
    test = r.random() < 0.85
    tenv = r.choice([1, 2])
    c = dict(kind=kind, max=r.choice([1, 2, 3, 4]), spe=r.choice([1, 2, 3, 5, 6, 8]), spc=0, epc=0, un=r.choice([1, 1, 1, 2, 3]), ud=r.choice([1, 1, 2, 4]),
             bs=r.choice([0, 1, 2, 3, 5]), rep=r.choice([1, 2]), ept=r.choice([tenv, tenv + 1, tenv + 2]), test=test, stop=r.random() < 0.7,
             thr=r.choice([12, 24, 36]), tit=r.random() < 0.7, sb=r.random() < 0.8, ck=r.random() < 0.8, trf=r.random() < 0.7, tef=r.random() < 0.7,
             score=r.choice([0, 0, 1, 2]), metric=r.choice([0, 0, 0, 1]), rows=r.choice([2, 4, 5]), nenv=nenv, tenv=tenv, cap=r.choice([9, 40]),
             vbuf=r.random() < 0.5, mode=r.random() < 0.5, it=r.choice([1, 2, 5, 9]), ie=r.choice([1, 3, 7]), iu=r.choice([1, 1, 2, 6]),
             ii=r.choice([1, 1, 2]), si=r.choice([1, 1, 2, 3]))
    if r.random() < 0.6 or nenv > 1 and r.random() < 0.5:
        c["spc"] = nenv * r.choice([1, 2, 3])
    else:
        c["epc"] = nenv + r.choice([0, 0, 1])
    if c["kind"] == 1 and c["bs"] == 0:
        c["bs"] = 2
    if c["metric"]:
        c["thr"] = r.choice([0, -12])
    if c["kind"] == 0 and r.random() < 0.1:
        c["bs"] = -1
    return c


def first_event(c):
    return dict(op="conf", **{k: (int(c[k]) if not isinstance(c[k], bool) else c[k]) for k in KEYS})


def random_trace(seed, nops, prop):
    r = random.Random(seed)
    c = conf(r)
    faults = prop != "T01" and r.random() < 0.6 or r.random() < 0.2
    resume = r.random() < (0.8 if prop == "T03" else 0.2)
    if resume:
        c["ck"] = r.random() < 0.95
    w = World(r)
    lens = r.choice([[1], [1, 2, 3], [2, 5], [1, 1, 7]])
    hi = r.choice([RETS[:2], RETS, RETS[1:], [0, 12, 24]])
    w.gen["train"] = lambda: (r.choice(lens), r.choice(hi))
    w.gen["test"] = lambda: (r.choice(lens), r.choice(hi) // 1)
    starts = r.choice([1, 1, 2, 3]) if not faults else r.choice([2, 3])
    w.pay_first = starts == 1 and r.random() < 0.7
    if starts > 1:   # an aborted run leaves an unfinished episode in the buffer, to which the next one is appended
        c["cap"] = 100
    # the mean of a test's returns has to be an integer
    step = {1: 12, 2: 12, 3: 12, 4: 12}[c["ept"]]
    assert 12 % c["ept"] == 0 and step
    d = tempfile.mkdtemp(prefix="vftb") if resume else None
    try:
        w.log(**first_event(c))
        s = Session(w, c, d)
        for j in range(starts):
            must = False
            if j:
                must = w.ev[-1]["op"] == "fail" and w.ev[-1]["at"] == "ckpt"
                if resume and (must or r.random() < 0.7):
                    s.renew()
                    must = False
                    fresh = True
                else:
                    fresh = False
                if must:
                    break
            else:
                fresh = True
            if faults and j < starts - 1:
                w.fault = [r.choice(["tfn", "test", "save", "trfn", "coll", "upd", "ckpt"]), r.choice([0, 0, 1, 2, 4])]
            rp = fresh or r.random() < 0.7
            if s.test is not None and r.random() < 0.35:
                # the test collector was used for something else in between, its episodes are under way
                st = s.test.collect_step, s.test.collect_episode
                if st == (0, 0):
                    s.test.reset()
                Collector.collect(s.test, n_step=c["tenv"] * r.choice([1, 2, 3]))
                w.log(op="side", steps=int(s.test.collect_step - st[0]), eps=int(s.test.collect_episode - st[1]))
                w.rets.clear()
            if r.random() < 0.35:
                s.start(True, False, True, r.choice([None, None, 1, 2]))
            else:
                s.start(rp, rp and r.random() < 0.3)
            w.fault = None
        s.close()
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return w.ev


def sched_trace(walk, c, seed):
    """walk: actions of MCTrainer; the returns of tests and collections follow the walk."""
    r = random.Random(seed)
    w = World(r)
    d = tempfile.mkdtemp(prefix="vftb") if any(a.get("rs") for a in walk) else None
    runs: list = []
    for a in walk:
        if a["op"] == "start":
            runs.append([a])
        elif runs:
            runs[-1].append(a)
    try:
        w.log(**first_event(c))
        s = Session(w, c, d)
        for j, run in enumerate(runs):
            if run[0]["rs"]:
                s.renew()
            w.plan = {"train": [], "test": [(1, a["r"]) for a in run if a["op"] == "test"]}
            w.cplan = [a["r"] for a in run if a["op"] == "coll"]
            w.gen["test"] = lambda: (1, 0)
            fail = next((a for a in run if a["op"] == "fail"), None)
            if fail:
                at = fail["at"]
                w.fault = [at, sum(1 for a in run if a["op"] == at)]
            s.start(run[0]["rp"], run[0]["rb"])
        s.close()
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return w.ev
