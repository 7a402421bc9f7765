"""Drives the multi-agent policy manager and the PettingZoo adapter; judged by spec/MultiTrace.tla."""
from __future__ import annotations

import contextlib

import io
import logging
import random
import warnings

import gymnasium as gym
import numpy as np
import torch
from pettingzoo.utils.env import AECEnv

from tianshou.data import Batch, Collector, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.env.pettingzoo_env import PettingZooEnv
from tianshou.policy import BasePolicy, MultiAgentPolicyManager
from tianshou.policy.base import TrainingStats
from tianshou.utils.torch_utils import policy_within_training_step, torch_train_mode
from vlib.core import WEIRD, iv

warnings.simplefilter("ignore")
logging.disable(logging.ERROR)
NA = 4  # number of actions of discrete games


class Boom(Exception):
    pass


class Game(AECEnv):
    """A scripted game: who acts, what is seen, allowed and rewarded is drawn at random."""
    metadata = {"name": "game"}

    def __init__(self, rng, names, masked, disc, truth, tokens, pend=0.2, plain=False):
        super().__init__()
        self.rng, self.names, self.masked, self.disc, self.truth, self.tokens, self.pend, self.plain = rng, names, masked, disc, truth, tokens, pend, plain
        self.possible_agents = list(names)
        self.obs_space = gym.spaces.Box(-1e9, 1e9, (2,))
        self.act_space = gym.spaces.Discrete(NA) if disc else gym.spaces.Box(-1e6, 1e6, (1,))

    def observation_space(self, agent):
        return self.obs_space

    def action_space(self, agent):
        return self.act_space

    def _look(self):
        self.agent_selection = self.rng.choice(self.names)
        self.tokens[0] += 1
        self.tok = self.tokens[0]
        self.allowed = sorted(self.rng.sample(range(NA), self.rng.randint(1, NA)))
        order = list(self.names)
        self.rng.shuffle(order)
        self.rewards = {a: self.rng.randint(-50, 50) for a in order}
        self._cumulative_rewards = {a: -777 for a in self.names}
        self.terminations = {a: False for a in self.names}
        self.truncations = {a: False for a in self.names}
        self.infos = {a: {"tok": -1} for a in self.names}
        self.infos[self.agent_selection] = {"tok": self.tok}

    def now(self):
        a = self.agent_selection
        return {"ag": self.names.index(a) + 1, "tok": self.tok,
                "msk": self.allowed if self.masked and self.disc else list(range(NA)) if self.disc else [],
                "rew": [self.rewards[n] for n in self.names], "term": int(self.terminations[a]), "trunc": int(self.truncations[a])}

    def reset(self, seed=None, options=None):
        self.agents = list(self.names)
        self._look()
        self.truth.append(("reset", None, self.now()))

    def observe(self, agent):
        o = np.array([self.tok, self.names.index(agent) + 1], dtype=np.float64)
        if self.masked:
            m = np.zeros(NA, dtype=self.rng.choice([np.int8, np.int64, bool]))
            m[self.allowed] = 1
            return {"observation": o, "action_mask": m}
        return o

    def step(self, action):
        was = self.now()
        self._look()
        x = self.rng.random()
        if x < self.pend:
            self.terminations[self.agent_selection] = True
        if self.pend / 2 < x < self.pend * 1.5:
            self.truncations[self.agent_selection] = True
        self.truth.append(("step", iv(np.asarray(action).reshape(-1)[0]), self.now()))


def allowed(m):
    """Allowed actions of a mask of one row."""
    return [k for k, v in enumerate(np.asarray(m).reshape(-1)) if bool(v)]


def nokeys(b):
    return len(b.get_keys()) == 0


def toks(o):
    if isinstance(o, Batch):
        o = o.obs
    a = np.asarray(o, dtype=np.float64)
    return [iv(v) for v in a.reshape(len(a), -1)[:, 0]]


def col(x):
    try:
        a = np.asarray(x)
        return [iv(v) for v in a] if a.ndim == 1 else [WEIRD]
    except Exception:
        return [WEIRD]


class Sub(BasePolicy):
    """An agent's policy that records what it is given and answers fresh numbers."""

    def __init__(self, drv, pid, space):
        super().__init__(action_space=space)
        self.net = torch.nn.Linear(1, 1)
        self.d = [drv]
        self.pid = pid

    def rec(self, s, batch, **kw):
        d = self.d[0]
        o = batch.obs
        c = {"s": s, "pol": self.pid, "toks": toks(o), "plain": int(not isinstance(o, Batch)), "msk": [], "rew": [], "next": [], "idx": [], "col": [], "st": 0, "kw": [],
             "ans": [], "so": 0, "w": int(bool(self.is_within_training_step)), "tr": int(self.training), "act": []}
        if isinstance(o, Batch) and "mask" in o.get_keys():
            c["msk"] = [allowed(m) for m in o.mask]
        if "rew" in batch.get_keys() and isinstance(batch.rew, np.ndarray):
            c["rew"] = col(batch.rew)
        if "obs_next" in batch.get_keys() and not (isinstance(batch.obs_next, Batch) and nokeys(batch.obs_next)):
            n = batch.obs_next
            if isinstance(n, Batch) and c["plain"] == 1:
                c["next"] = [WEIRD]
            else:
                c["next"] = toks(n)
        c.update(kw)
        d.calls.append(c)
        if d.fail == (s, self.pid):
            raise Boom
        return c

    def forward(self, batch, state=None, **kw):
        d = self.d[0]
        c = self.rec("forward", batch, st=0 if state is None or (isinstance(state, Batch) and nokeys(state)) else iv(state.h[0]) if len(state.h) else WEIRD, kw=[iv(kw.get("a", -9))])
        n = len(batch)
        c["ans"] = [d.fresh(c["msk"][k] if c["msk"] else None) for k in range(n)]
        a = np.array(c["ans"], dtype=d.rng.choice([np.int64, np.int32]) if d.disc else np.float64)
        if not d.disc:
            a = a.reshape(-1, 1)
        act = torch.as_tensor(a.astype(np.int64) if d.disc else a) if d.rng.random() < 0.4 else a
        kind = d.rng.random()
        if d.rnn == self.pid or d.rnn == -1:
            d.n += 1
            c["so"] = d.n
            d.lastout[self.pid] = Batch(act=act, state=Batch(h=np.full(n, float(d.n))), extra=np.arange(n))
        elif kind < 0.5:
            d.lastout[self.pid] = Batch(act=act, state=None)
        else:
            d.lastout[self.pid] = Batch(act=act)
        return d.lastout[self.pid]

    def exploration_noise(self, act, batch):
        d = self.d[0]
        c = self.rec("explore", batch, act=[iv(v) for v in np.asarray(act).reshape(-1)])
        c["ans"] = [d.fresh(c["msk"][k] if c["msk"] else None) for k in range(len(c["toks"]))]
        return np.array(c["ans"], dtype=np.asarray(act).dtype).reshape(np.asarray(act).shape)

    def process_fn(self, batch, buffer, indices):
        d = self.d[0]
        used = [p for p in range(buffer.maxsize) if p in d.used]
        r = buffer.rew
        c = self.rec("process", batch, idx=[iv(v) for v in np.asarray(indices).reshape(-1)],
                     col=col(np.asarray(r)[used]) if isinstance(r, np.ndarray) and r.ndim == 1 else [WEIRD])
        if d.keep:
            batch.tagged = np.arange(len(indices)) + 10
            d.ret[self.pid] = batch
        else:
            d.ret[self.pid] = Batch(obs=batch.obs, ret=np.arange(len(indices)))
        return d.ret[self.pid]

    def learn(self, batch, *args, **kw):
        d = self.d[0]
        mine = d.ret.get(self.pid)
        same = mine is not None and set(batch.get_keys()) == set(mine.get_keys()) and toks(batch.obs) == toks(mine.obs) \
            and all(np.array_equal(batch[k], mine[k]) for k in ("ret", "tagged", "rew", "act") if k in mine.get_keys())
        d.n += 1
        c = self.rec("learn", batch, kw=[iv(kw.get("a", -9)), iv(kw.get("b", -9)), int(same)], so=d.n)
        del c
        n = d.n

        class St(TrainingStats):
            def get_loss_stats_dict(self):
                return {"loss": n, "x/y": n + 1}
        s = St()
        s.train_time = float(d.rng.randint(0, 9))
        return s


class VB(VectorReplayBuffer):
    drv = None

    def sample(self, batch_size):
        b, i = super().sample(batch_size)
        if self.drv is not None:
            self.drv.sampled = [iv(v) for v in i]
        return b, i


class MultiDriver:
    def __init__(self, seed, k=None, masked=None, disc=None):
        self.rng = rng = random.Random(seed)
        np.random.seed(seed % 2**32)
        torch.manual_seed(seed)
        self.k = k or rng.randint(1, 4)
        self.masked = rng.random() < 0.5 if masked is None else masked
        self.disc = rng.random() < 0.7 if disc is None else disc
        if not self.disc:
            self.masked = False
        pool = ["a", "agent_10", "agent_1", "b", "0", "player one", "ab", "z" * 20, "act", "mask", "obs", "agent_2"]
        self.names = rng.sample(pool, self.k)
        self.n, self.tokens, self.truth = 100, [0], []
        self.game = Game(rng, self.names, self.masked, self.disc, self.truth, self.tokens)
        self.env = PettingZooEnv(self.game)
        self.calls, self.fail, self.keep, self.rnn = [], None, True, 0
        self.ret, self.lastout, self.sampled = {}, {}, []
        self.subs = [Sub(self, g + 1, self.env.action_space) for g in range(self.k)]
        self.man = MultiAgentPolicyManager(policies=list(self.subs), env=self.env)
        self.npol = self.k
        self.nb = rng.randint(1, 3)
        self.buf = VB(rng.randint(2, 12) * self.nb, self.nb)
        self.buf.drv = self
        self.used = {}
        self.rows = []
        # a manager of a game with discrete actions always sees masks
        self.hasmask = int(self.disc)
        self.ev = [{"op": "conf", "k": self.k, "hasmask": self.hasmask, "disc": int(self.disc), "err": "",
                    "ids": [self.names.index(s.agent_id) + 1 if s.agent_id in self.names else 0 for s in self.subs]}]

    def fresh(self, ok):
        self.n += 1
        return self.n

    # -- rows
    def obs(self, rows):
        b = {"agent_id": np.array([self.names[r["ag"] - 1] for r in rows], dtype=object) if self.rng.random() < 0.5 else np.array([self.names[r["ag"] - 1] for r in rows]),
             "obs": np.array([[r["tok"], 1.0] for r in rows])}
        if self.hasmask:
            m = np.zeros((len(rows), NA), dtype=bool)
            for i, r in enumerate(rows):
                m[i, r["msk"]] = True
            b["mask"] = m
        return Batch(**b)

    def row(self, ag=None):
        self.tokens[0] += 1
        rng = self.rng
        return {"ag": ag or rng.randint(1, self.k), "tok": self.tokens[0], "msk": sorted(rng.sample(range(NA), rng.randint(1, NA))) if self.hasmask else [],
                "rew": [rng.randint(-99, 99) for _ in range(self.k)]}

    def add(self, ag=None):
        r, n = self.row(ag), self.row()
        r["nxt"] = n["tok"]
        done = self.rng.random() < 0.3
        j = self.rng.randrange(self.nb)
        act = self.fresh(r["msk"] or None)
        b = Batch(obs=self.obs([r]), act=np.array([act] if self.disc else [[float(act)]]), rew=np.array([r["rew"]], dtype=self.rng.choice([np.float64, np.int64]) if not self.used else float),
                  terminated=np.array([done]), truncated=np.array([False]), obs_next=self.obs([n]), info=np.array([{}]))
        pos = iv(self.buf.add(b, [j])[0][0])
        self.used[pos] = r
        self.ev.append({"op": "add", "pos": pos, **r, "err": ""})

    def clean(self):
        self.calls = []
        self.ret, self.lastout, self.sampled = {}, {}, []

    def batch(self, rows, withrew, withnext):
        d = {"obs": self.obs(rows), "info": Batch()}
        if withrew:
            d["rew"] = np.array([r["rew"] for r in rows], dtype=float)
        elif self.rng.random() < 0.5:
            d["rew"] = Batch()
        if withnext:
            d["obs_next"] = self.obs([{**r, "tok": r["nxt"]} for r in rows])
        elif self.rng.random() < 0.5:
            d["obs_next"] = Batch()
        return Batch(**d)

    def bufrows(self):
        """Content of the filled rows of the buffer, in the order of positions."""
        ps = sorted(self.used)
        r = np.asarray(self.buf.rew)
        return [{"pos": p, "tok": iv(self.buf.obs.obs[p][0]), "ag": self.names.index(self.buf.obs.agent_id[p]) + 1 if self.buf.obs.agent_id[p] in self.names else 0,
                 "rew": [iv(v) for v in r[p]] if r.ndim == 2 else [WEIRD], "nxt": iv(self.buf.obs_next.obs[p][0])} for p in ps]

    def pick(self, n):
        ps = list(self.used)
        return [self.rng.choice(ps) for _ in range(n)] if ps else []

    def pids(self):
        return [self.man.policies[n].pid for n in self.names]

    def forward(self, rows=None):
        rng = self.rng
        self.clean()
        if rows is None:
            rows = [{**self.row(), "nxt": 7000 + k} for k in range(rng.randint(1, 7))]
        if not rows:
            return
        wr, wn = rng.random() < 0.5, rng.random() < 0.5
        b = self.batch(rows, wr, wn)
        self.rnn = rng.choice([0, -1, rng.randint(1, self.npol)])
        st, stv = None, [0] * self.k
        if rng.random() < 0.5:
            st = {}
            for g, nm in enumerate(self.names):
                if rng.random() < 0.7:
                    self.n += 1
                    stv[g] = self.n
                    st[nm] = Batch(h=np.full(rng.randint(1, 4), float(self.n)))
                else:
                    st[nm] = Batch()
            if rng.random() < 0.5:
                st = Batch(st)
        before = repr(b)
        kw = {"a": rng.randint(0, 9)} if rng.random() < 0.5 else {}
        if rng.random() < 0.1:
            self.fail = ("forward", rng.choice(self.pids()))
        x = {"op": "forward", "rows": [{"tok": r["tok"], "ag": r["ag"], "msk": r["msk"], "rew": r["rew"], "nxt": r["nxt"]} for r in rows], "hasrew": int(wr), "hasnext": int(wn), "stv": stv, "kw": [kw.get("a", -9)],
             "err": "", "act": [], "so": [], "out": [], "fail": self.fail[1] if self.fail else 0}
        try:
            with contextlib.ExitStack() as es:
                if rng.random() < 0.3:
                    es.enter_context(torch.no_grad())
                r = self.man(b, state=st, **kw)
            x["act"] = [iv(v) for v in np.asarray(r.act).reshape(-1)]
            x["len"] = len(r.act)
            for g, nm in enumerate(self.names):
                s = r.state[nm]
                x["so"].append(0 if s is None or nokeys(s) else iv(s.h[0]))
                o = r.out[nm]
                pid = self.man.policies[nm].pid
                x["out"].append(0 if nokeys(o) else 1 if pid in self.lastout and o.get_keys() == self.lastout[pid].get_keys() and np.array_equal(np.asarray(o.act), np.asarray(self.lastout[pid].act)) else WEIRD)
        except Boom:
            x["err"] = "Boom"
        except Exception as e:
            x["err"] = type(e).__name__
        self.fail = None
        x["same"] = int(repr(b) == before)
        self.ev.append({**x, "calls": self.calls})

    def explore(self, rows=None):
        self.clean()
        if rows is None:
            rows = [{**self.row(), "nxt": 7000 + k} for k in range(self.rng.randint(1, 7))]
        if not rows:
            return
        b = self.batch(rows, False, False)
        act = [self.fresh(None) for _ in rows]
        a = np.array(act) if self.disc else np.array(act, dtype=float).reshape(-1, 1)
        before = repr(b)
        x = {"op": "explore", "rows": [{"tok": r["tok"], "ag": r["ag"], "msk": r["msk"], "rew": r["rew"], "nxt": r["nxt"]} for r in rows], "act": act, "out": [], "err": ""}
        try:
            o = self.man.exploration_noise(a, b)
            x["out"] = [iv(v) for v in np.asarray(o).reshape(-1)]
        except Exception as e:
            x["err"] = type(e).__name__
        x["same"] = int(repr(b) == before)
        self.ev.append({**x, "calls": self.calls})

    def process(self, idx=None, fail=False):
        idx = self.pick(self.rng.randint(1, 8)) if idx is None else idx
        if not idx:
            return
        self.clean()
        self.keep = self.rng.random() < 0.5
        if fail:
            self.fail = ("process", self.rng.choice(self.pids()))
        ind = np.array(idx)
        b = self.buf[ind]
        before = repr(b)
        x = {"op": "process", "idx": idx, "err": "", "ret": [], "fail": self.fail[1] if self.fail else 0}
        try:
            r = self.man.process_fn(b, self.buf, ind)
            for nm in self.names:
                p = self.man.policies[nm].pid
                q = r[nm]
                x["ret"].append(-1 if len(q.get_keys()) == 0 else int(p in self.ret and toks(q.obs) == toks(self.ret[p].obs) and q.get_keys() == self.ret[p].get_keys()))
        except Boom:
            x["err"] = "Boom"
        except Exception as e:
            x["err"] = type(e).__name__
        self.fail = None
        x["same"] = int(repr(b) == before and idx == [iv(v) for v in ind])
        self.ev.append({**x, "calls": self.calls, "buf": self.bufrows(), "wr": int(self.buf.rew.dtype.kind in "if")})

    def update(self, fail=""):
        if not self.used:
            return
        rng = self.rng
        self.clean()
        self.keep = rng.random() < 0.5
        if fail:
            self.fail = (fail, rng.choice(self.pids()))
        n = rng.choice([0, None, rng.randint(1, 9)])
        kw = {"a": rng.randint(0, 9), "b": rng.randint(0, 9)}
        x = {"op": "update", "n": -1 if n is None else n, "err": "", "kw": [kw["a"], kw["b"]], "losses": [], "fail": self.fail[1] if self.fail else 0, "where": self.fail[0] if self.fail else "",
             "tr": int(self.man.training)}
        try:
            with policy_within_training_step(self.man):
                s = self.man.update(n, self.buf, **kw)
            for key, v in s.get_loss_stats_dict().items():
                g = max([g + 1 for g, nm in enumerate(self.names) if key in (nm + "/loss", nm + "/x/y")] + [0])
                x["losses"].append([g, iv(v) - (1 if key.endswith("x/y") else 0)])
        except Boom:
            x["err"] = "Boom"
        except Exception as e:
            x["err"] = type(e).__name__
        self.fail = None
        x["idx"] = self.sampled
        self.ev.append({**x, "calls": self.calls, "buf": self.bufrows(), "modes": self.modes()})

    def modes(self):
        return [[int(bool(p.training)), int(bool(p.is_within_training_step)), int(bool(p.net.training)) if hasattr(p, "net") else int(bool(p.training))]
                for p in [self.man, *[self.man.policies[n] for n in self.names]]]

    def mode(self, m=None):
        m = m or self.rng.choice(["train", "eval", "train1", "train0", "ctx1", "ctx0", "step"])
        x = {"op": "mode", "m": m, "err": "", "inside": []}
        try:
            if m == "train":
                self.man.train()
            elif m == "eval":
                self.man.eval()
            elif m in ("train1", "train0"):
                self.man.train(m == "train1")
            elif m in ("ctx1", "ctx0"):
                with torch_train_mode(self.man, m == "ctx1"):
                    x["inside"] = self.modes()
            else:
                with policy_within_training_step(self.man):
                    x["inside"] = self.modes()
        except Exception as e:
            x["err"] = type(e).__name__
        self.ev.append({**x, "modes": self.modes()})

    def replace(self):
        g = self.rng.randrange(self.k)
        self.npol += 1
        s = Sub(self, self.npol, self.env.action_space)
        s.train(self.man.training)
        x = {"op": "replace", "ag": g + 1, "pol": self.npol, "err": ""}
        try:
            self.man.replace_policy(s, self.names[g])
        except Exception as e:
            x["err"] = type(e).__name__
        self.ev.append({**x, "id": int(s.agent_id == self.names[g])})

    # -- the adapter
    def adapter(self, n=None):
        self.truth.clear()
        kept = []

        def seen(o, rew, term, trunc, info):
            return {"ag": self.names.index(o["agent_id"]) + 1 if o["agent_id"] in self.names else 0, "tok": iv(o["obs"][0]), "msk": allowed(o["mask"]) if "mask" in o else [],
                    "rew": [iv(v) for v in rew], "term": int(bool(term)), "trunc": int(bool(trunc)), "info": iv(info.get("tok", -1)), "bool": int("mask" not in o or (len(o["mask"]) == NA and all(v in (True, False) for v in o["mask"]))),
                    "keys": int(set(o) == ({"agent_id", "obs", "mask"} if self.disc else {"agent_id", "obs"}))}
        x = {"op": "play", "err": "", "steps": []}
        try:
            o, info = self.env.reset()
            x["steps"].append({"op": "reset", "act": 0, "got": 0, "truth": self.truth[-1][2], "seen": seen(o, [], 0, 0, info)})
            for _ in range(n or self.rng.randint(1, 6)):
                a = self.fresh(None)
                o, rew, term, trunc, info = self.env.step(a if self.disc else np.array([float(a)]))
                kept.append((rew, list(rew)))
                x["steps"].append({"op": "step", "act": a, "got": self.truth[-1][1], "truth": self.truth[-1][2], "seen": seen(o, rew, term, trunc, info)})
                if term or trunc:
                    o, info = self.env.reset()
                    x["steps"].append({"op": "reset", "act": 0, "got": 0, "truth": self.truth[-1][2], "seen": seen(o, [], 0, 0, info)})
        except Exception as e:
            x["err"] = type(e).__name__
        x["kept"] = int(all(list(r) == c for r, c in kept))
        self.ev.append(x)

    # -- the whole chain: environments, collector, manager, buffer
    def loop(self):
        rng = self.rng
        self.clean()
        self.rnn = 0
        ne = rng.randint(1, 3)
        logs = [[] for _ in range(ne)]
        games = [Game(rng, self.names, self.masked, self.disc, logs[e], self.tokens) for e in range(ne)]
        venv = DummyVectorEnv([lambda g=g: PettingZooEnv(g) for g in games])
        buf = VectorReplayBuffer(60 * ne, ne)
        expl = int(rng.random() < 0.4)
        col_ = Collector(self.man, venv, buf, exploration_noise=bool(expl))
        x = {"op": "loop", "err": "", "envs": [], "expl": expl, "rets": [], "rand": int(rng.random() < 0.15)}
        for lg in logs:
            lg.clear()
        try:
            with contextlib.redirect_stdout(io.StringIO()), policy_within_training_step(self.man):
                kw = {"n_step": rng.randint(1, 12)} if rng.random() < 0.5 else {"n_episode": rng.randint(1, 4)}
                s = col_.collect(**kw, random=bool(x["rand"]), reset_before_collect=True)
            x["rets"] = sorted([[iv(v) for v in np.asarray(r).reshape(-1)] for r in s.returns])
        except Exception as e:
            x["err"] = type(e).__name__
        for e in range(ne):
            sb = buf.buffers[e]
            rows = []
            for p in range(len(sb)):
                o, m = sb.obs[p], sb.obs_next[p]
                rows.append({"ag": self.names.index(o.agent_id) + 1, "tok": iv(o.obs[0]), "msk": allowed(o.mask) if self.disc else [], "act": iv(np.asarray(sb.act[p]).reshape(-1)[0]),
                             "rew": [iv(v) for v in sb.rew[p]], "nag": self.names.index(m.agent_id) + 1, "ntok": iv(m.obs[0]), "term": int(sb.terminated[p]), "trunc": int(sb.truncated[p])})
            x["envs"].append({"rows": rows, "log": [{"op": k, "act": 0 if a is None else a, **t} for k, a, t in logs[e]]})
        calls, self.calls = self.calls, []
        x["calls"] = [{"s": c["s"], "pol": c["pol"], "toks": c["toks"], "ans": c["ans"], "msk": c["msk"]} for c in calls]
        self.ev.append(x)

    def run(self, n):
        for _ in range(n):
            r = self.rng.random()
            if r < 0.3:
                for _ in range(self.rng.randint(1, 4)):
                    self.add()
            elif r < 0.45:
                self.forward()
            elif r < 0.55:
                self.explore()
            elif r < 0.65:
                self.process(fail=self.rng.random() < 0.3)
            elif r < 0.8:
                self.update(fail=self.rng.choice(["", "", "", "process", "learn"]))
            elif r < 0.88:
                self.mode()
            elif r < 0.91:
                self.replace()
            elif r < 0.96:
                self.adapter()
            else:
                self.loop()
        return self.ev


def random_trace(seed, n):
    with contextlib.redirect_stdout(io.StringIO()):
        return MultiDriver(seed).run(n)


def sched_trace(q, seed, k):
    with contextlib.redirect_stdout(io.StringIO()):
        d = MultiDriver(seed, k=k)
        rows, idx = [], []
        for a in q:
            if a["op"] == "add":
                d.add(a["ag"])
                p = d.ev[-1]["pos"]
                rows.append({**d.used[p]})
                idx.append(p)
            elif a["op"] in ("forward", "explore"):
                getattr(d, a["op"])(rows)
            else:
                # only rows that are still there
                at = [p for p, r in zip(idx, rows) if d.used[p]["tok"] == r["tok"]]
                if a["op"] == "update":
                    d.update()
                else:
                    d.process(at, fail=a["op"] == "fail")
        return d.ev
