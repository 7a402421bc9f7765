"""Drives real collectors; everything the policy, action spaces, environments and hooks see becomes
an event that is judged by spec/CollTrace.tla."""
from __future__ import annotations

import random
import warnings

import gymnasium as gym
import numpy as np
import torch
from torch.distributions import Independent, Normal

from tianshou.data import (
    AsyncCollector,
    Batch,
    CachedReplayBuffer,
    Collector,
    PrioritizedReplayBuffer,
    PrioritizedVectorReplayBuffer,
    ReplayBuffer,
    VectorReplayBuffer,
)
from tianshou.env import BaseVectorEnv, DummyVectorEnv, VectorEnvWrapper
from tianshou.policy import BasePolicy
from vlib import envdrv
from vlib.core import WEIRD, il, iv

warnings.simplefilter("ignore")


class Space(gym.Space):
    """An action space whose samples say where they come from."""

    def __init__(self, idx, log, vec):
        super().__init__((), np.int64)
        self.idx, self.log, self.k, self.vec = idx, log, 0, vec

    def sample(self, mask=None):
        self.k += 1
        v = 500000 + self.idx * 1000 + self.k
        self.log.append(("samp", self.idx, v))
        return np.array([v, v]) if self.vec else np.int64(v)

    def contains(self, x):
        return True


def rew(i, ep, k):
    return 1 + (i * 7 + ep * 3 + k * 5) % 4


class Env(gym.Env):
    def __init__(self, idx, form, lens, log, einfo, vec):
        self.idx, self.form, self.lens, self.log, self.einfo = idx, form, lens, log, einfo
        self.action_space = Space(idx, log, vec)
        self.observation_space = gym.spaces.Box(-10**6, 10**6, (1,))
        self.ep, self.k, self.over = 0, 0, True

    def tok(self):
        return self.idx * 10000 + self.ep * 100 + self.k

    def obs(self):
        t = self.tok()
        if self.form == "vec":
            return np.array([t, t + 1])
        if self.form == "int":
            return t
        if self.form == "mat":
            return np.array([[t, t + 1], [t + 2, t + 3]], float)
        return {"a": np.array([t, t + 1]), "b": {"c": np.array(t + 2)}}

    def reset(self, *, seed=None, options=None):
        o = (options or {}).get("o", 0)
        self.ep += 1
        self.k = 0
        self.log.append(("ereset", self.idx, o))
        return self.obs(), ({} if o == 0 and self.einfo else {"tok": 1000000 * o})

    def step(self, action):
        a = [iv(x) for x in np.asarray(action).reshape(-1)]
        v = a[0] if a and all(x == a[0] for x in a) else WEIRD
        self.log.append(("act", self.idx, v))
        self.k += 1
        n = self.lens[(self.ep - 1) % len(self.lens)]
        over = self.k >= abs(n)
        return self.obs(), float(rew(self.idx, self.ep, self.k)), over and n > 0, over and n < 0, {"tok": self.tok()}

    def render(self, **kw):
        return None


class LogEnv(VectorEnvWrapper):
    """Records which results the vector environment returns."""

    def __init__(self, venv, log):
        super().__init__(venv)
        self.log = log

    def step(self, action, id=None):
        r = self.venv.step(action, id)
        self.log.append(("ret", [iv(i["env_id"]) for i in r[4]]))
        return r


def tok_rows(form, o, n):
    """Observation batch -> one token per row."""
    try:
        if form == "dict":
            a, c = np.asarray(o.a), np.asarray(o.b.c).reshape(n)
            return [iv(x[0]) if iv(x[1]) == iv(x[0]) + 1 and iv(y) == iv(x[0]) + 2 else WEIRD for x, y in zip(a, c)]
        a = np.asarray(o)
        if form == "int":
            return il(a.reshape(n))
        a = a.reshape(n, -1)
        return [iv(x[0]) if all(iv(v) == iv(x[0]) + k for k, v in enumerate(x)) else WEIRD for x in a]
    except Exception:
        return [WEIRD] * n


def all_same(x, n):
    a = x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)
    a = a.reshape(n, -1)
    return [iv(r[0]) if all(v == r[0] for v in r) else WEIRD for r in a]


def hid_rows(h, n):
    try:
        if h is None:
            return [0] * n
        if isinstance(h, Batch):
            if not h.get_keys():
                return [0] * n
            p, q = all_same(h.h, n), all_same(h.c, n)
            return [a if a == b else WEIRD for a, b in zip(p, q)]
        if len(h) != n:
            return [WEIRD] * n
        return all_same(h, n)
    except Exception:
        return [WEIRD] * n


class Policy(BasePolicy):
    def __init__(self, log, form, hid, act, pol, noise, dist):
        super().__init__(action_space=gym.spaces.Box(-1, 1, (1,)), action_scaling=False)
        self.log, self.form, self.hid, self.act, self.pol, self.noise, self.dist = log, form, hid, act, pol, noise, dist
        self.k = 0
        self.p = torch.nn.Linear(1, 1)

    def learn(self, batch, *a, **k):
        raise NotImplementedError

    def map_action(self, act):
        return act + 300000

    def map_action_inverse(self, act):
        return np.asarray(act) - 300000

    def exploration_noise(self, act, batch):
        return act + 100000

    def forward(self, batch, state=None, **kw):
        n = len(batch.obs)
        info = batch.info.get("tok", None) if len(batch.info.get_keys()) else None
        rows = list(map(list, zip(tok_rows(self.form, batch.obs, n), [0] * n if info is None else il(info), hid_rows(state, n))))
        base = 8 * self.k
        self.k += 1
        acts = [base + j + 1 for j in range(n)]
        hids = [base + j + 2 for j in range(n)] if self.hid else [0] * n
        pols = [base + j + 3 for j in range(n)] if self.pol else [0] * n
        self.log.append(("pol", {"rows": rows, "acts": acts, "hids": hids, "pols": pols, "train": int(self.training or self.p.training)}))
        a = np.array(acts)
        a = {"np": lambda: a, "vec": lambda: np.stack([a, a], 1), "torch": lambda: torch.tensor(a)}[self.act]()
        res = Batch(act=a)
        if self.hid:
            h = np.array(hids)
            res.state = {"np": lambda: np.stack([h, h], 1), "torch": lambda: torch.tensor(np.stack([h, h], 1), dtype=torch.float64),
                         "batch": lambda: Batch(h=torch.tensor(h.reshape(n, 1, 1), dtype=torch.float64), c=np.stack([h, h], 1))}[self.hid]()
        if self.pol:
            res.policy = Batch(p=np.array(pols))
        if self.dist:
            m = torch.tensor(acts, dtype=torch.float64)[:, None]
            res.dist = Independent(Normal(m, m % 10 + 1), 1)
        return res


def rows_of(form, b, fields=9):
    """Stored transitions -> rows of tokens."""
    n = len(b)
    try:
        acts = all_same(b.act, n)
        pol = b.policy if "policy" in b.get_keys() and isinstance(b.policy, Batch) else Batch()
        p = il(pol.p) if "p" in pol.get_keys() else [0] * n
        h = hid_rows(pol.hidden_state, n) if "hidden_state" in pol.get_keys() else [0] * n
        info = il(b.info.tok) if "tok" in b.info.get_keys() else [0] * n
        x = il(b.extra) if "extra" in b.get_keys() else [0] * n
        y = [0] * n
        if "eph" in b.get_keys():
            y = il(b.eph)
        fl = [int(bool(t)) + 2 * int(bool(u)) + 4 * int(bool(d)) for t, u, d in zip(b.terminated, b.truncated, b.done)]
        o, o2 = tok_rows(form, b.obs, n), tok_rows(form, b.obs_next, n)
        cols = [o, acts, il(b.rew), fl, o2, info, p, h, x, y]
        return [[c[j] for c in cols][:fields] for j in range(n)]
    except Exception as e:
        return [[WEIRD, type(e).__name__]] * max(n, 1)


class CollDriver:
    def __init__(self, seed, lens, form="vec", hid=None, act="np", pol=True, noise=False, dist=False, buf="vec", cap=20, need=0,
                 sh=False, eh=0, einfo=False, raise_nan=True):
        self.rng = random.Random(seed)
        self.lens, self.form, self.n, self.cap = lens, form, len(lens), cap
        n = self.n
        self.log: list = []
        envs = [Env(i, form, lens[i], self.log, einfo, act == "vec") for i in range(n)]
        fns = [lambda e=e: e for e in envs]
        self.async_ = need > 0
        v = BaseVectorEnv(fns, envdrv.ScriptWorker, wait_num=need) if self.async_ else DummyVectorEnv(fns)
        self.venv = LogEnv(v, self.log)
        self.policy = Policy(self.log, form, hid, act, pol, noise, dist)
        self.bufkind = buf
        self.buffer = {"vec": lambda: VectorReplayBuffer(cap * n, n), "plain": lambda: ReplayBuffer(cap),
                       "more": lambda: VectorReplayBuffer(cap * (n + 1), n + 1),
                       "prio": lambda: PrioritizedVectorReplayBuffer(cap * n, n, alpha=0.6, beta=0.4),
                       "plainprio": lambda: PrioritizedReplayBuffer(cap, 0.6, 0.4),
                       "cached": lambda: CachedReplayBuffer(ReplayBuffer(400), n, 60)}[buf]()
        if buf == "cached":
            self.cap = 400
        kw = {"exploration_noise": noise, "raise_on_nan_in_buffer": raise_nan}
        self.sh, self.eh = sh, eh
        if self.async_:
            self.c = AsyncCollector(self.policy, self.venv, self.buffer, **kw)
        else:
            self.c = Collector(self.policy, self.venv, self.buffer, on_step_hook=self.step_hook if sh else None,
                               on_episode_done_hook=self.ep_hook if eh else None, **kw)
        self.ev = [{"op": "start", "n": n, "lens": lens, "async": int(self.async_), "hid": int(bool(hid)), "pol": int(pol),
                    "cap": self.cap, "noise": int(noise), "dist": int(dist), "sh": int(sh), "eh": eh, "err": "",
                    "cfg": [form, str(hid), act, buf, need]}]
        self.dead = False
        self.policy.train(self.rng.random() < 0.5)
        self.frag = 0  # calls that abandoned episodes since the last one without
        self.nep = 0

    # ------------------------------------------------ hooks
    def step_hook(self, actb, rb):
        n = len(rb)
        rows = rows_of(self.form, rb)
        acts = all_same(actb.act, n)
        if [r[1] for r in rows] != acts or [a + 300000 for a in acts] != all_same(actb.act_normalized, n):
            rows = [[WEIRD]]
        self.log.append(("shook", rows))
        rb.extra = np.array(acts) + 5

    def ep_hook(self, b):
        rows = rows_of(self.form, b)
        self.log.append(("ehook", rows))
        if self.eh == 2:
            return {"eph": np.array([rows[0][0] + 7.0 * k for k in range(len(rows))])}
        return None

    # ------------------------------------------------ events
    def flush(self):
        samp = []
        for x in self.log:
            if x[0] != "samp" and samp:
                self.ev.append({"op": "samp", "rows": samp, "err": ""})
                samp = []
            if x[0] == "samp":
                samp.append([x[1], x[2]])
            elif x[0] == "pol":
                self.ev.append({"op": "pol", **x[1], "err": ""})
            elif x[0] == "act":
                self.ev.append({"op": "act", "i": x[1], "act": x[2], "err": ""})
            elif x[0] == "ereset":
                self.ev.append({"op": "ereset", "i": x[1], "opt": x[2], "err": ""})
            elif x[0] == "ret":
                self.ev.append({"op": "ret", "ids": x[1], "err": ""})
            else:
                self.ev.append({"op": x[0], "rows": x[1], "err": ""})
        if samp:
            self.ev.append({"op": "samp", "rows": samp, "err": ""})
        self.log.clear()

    def content(self):
        res = []
        try:
            for i in range(self.n):
                if self.bufkind == "cached":
                    m = self.buffer.buffers[0]
                    idx = m.sample_indices(0)
                    rows = rows_of(self.form, m[idx], 10) if len(idx) else []
                    rows = [r for r in rows if r[0] // 10000 == i]
                    sub = self.buffer.buffers[i + 1]
                else:
                    rows, sub = [], (self.buffer if self.bufkind.startswith("plain") else self.buffer.buffers[i])
                idx = sub.sample_indices(0)
                if not self.bufkind.startswith("plain"):  # read through the manager
                    idx = idx + int(self.buffer.subbuffer_edges[i + (self.bufkind == "cached")])
                res.append(rows + (rows_of(self.form, self.buffer[idx], 10) if len(idx) else []))
            if self.bufkind == "more" and len(self.buffer.buffers[self.n]):
                return [[[WEIRD]]]
        except Exception as e:
            return [[[WEIRD, type(e).__name__, str(e)[:80]]]]
        return res

    def stat(self, s):
        from vlib.statdrv import th
        return [] if s is None else [th(s.mean), th(s.std ** 2), th(s.min), th(s.max)]

    def kw(self, opt):
        return {"options": {"o": opt}} if opt else None

    def collect(self, n=0, e=0, rand=False, opt=0, rbc=False, script=None):
        if self.dead:
            return
        self.ev.append({"op": "cbegin", "n": n, "e": e, "random": int(rand), "opt": opt, "rbc": int(rbc), "err": ""})
        x = {"op": "cend", "err": "", "train0": int(self.policy.training), "nst": 0, "nep": 0, "rets": [], "lens": [], "rs": [], "ls": [],
             "stds": [], "ss": [], "tstep": 0, "tep": 0, "content": [], "train": 0, "speed": 0}
        if self.async_:
            self.script(script)
        try:
            k = {"n_step": n} if n else {"n_episode": e}
            s = self.c.collect(**k, random=rand, reset_before_collect=rbc, gym_reset_kwargs=self.kw(opt))
            x.update(nst=iv(s.n_collected_steps), nep=iv(s.n_collected_episodes), rets=il(s.returns), lens=il(s.lens),
                     rs=self.stat(s.returns_stat), ls=self.stat(s.lens_stat))
            if s.pred_dist_std_array is not None:
                x["stds"] = il(s.pred_dist_std_array)
                x["ss"] = self.stat(s.pred_dist_std_array_stat[0]) if len(s.pred_dist_std_array_stat) == 1 else [WEIRD]
            x["speed"] = int(s.collect_time > 0 and abs(s.collect_speed * s.collect_time - s.n_collected_steps) < 1e-6)
        except Exception as ex:
            x["err"] = type(ex).__name__
            x["msg"] = str(ex)[:150]
            self.dead = True
        x["train"] = int(self.policy.training)
        x["tstep"], x["tep"] = iv(self.c.collect_step), iv(self.c.collect_episode)
        self.venv_script_off()
        self.flush()
        x["content"] = self.content()
        self.ev.append(x)

    # asynchronous results: a list of lists of ids, or random ones
    def script(self, lists):
        rng, drv = self.rng, self

        def wait(workers, wait_num, timeout=None):
            by = {w.env.unwrapped.idx: w for w in workers}
            if lists:
                res = [by[i] for i in lists.pop(0) if i in by]
            else:
                ids = list(by)
                rng.shuffle(ids)
                res = [by[i] for i in ids[: rng.randint(min(wait_num, len(ids)), len(ids))]]
            if len(res) < min(wait_num, len(workers)):
                res = list(workers)
            return res
        envdrv.ScriptWorker.wait = staticmethod(wait)

    def venv_script_off(self):
        pass

    def reset(self, buffer=True, stats=True, opt=0):
        if self.dead:
            return
        self.ev.append({"op": "rbegin", "opt": opt, "err": ""})
        x = {"op": "rend", "buffer": int(buffer), "stats": int(stats), "obs": [], "err": "", "tstep": 0, "tep": 0, "content": []}
        if self.async_:
            self.script(None)
        try:
            o, i = self.c.reset(reset_buffer=buffer, reset_stats=stats, gym_reset_kwargs=self.kw(opt))
            if self.form == "dict":
                o = Batch(list(o))
            x["obs"] = tok_rows(self.form, o, self.n)
        except Exception as ex:
            x["err"] = type(ex).__name__
            x["msg"] = str(ex)[:150]
            self.dead = True
        x["tstep"], x["tep"] = iv(self.c.collect_step), iv(self.c.collect_episode)
        self.flush()
        x["content"] = self.content()
        self.ev.append(x)

    def clear(self, keep):
        if self.dead:
            return
        x = {"op": "clear", "keep": int(keep), "err": "", "content": []}
        try:
            self.c.reset_buffer(keep_statistics=keep)
        except Exception as ex:
            x["err"] = type(ex).__name__
            self.dead = True
        self.flush()
        x["content"] = self.content()
        self.ev.append(x)

    def bad(self, what):
        if self.dead:
            return
        x = {"op": "bad", "what": what, "err": ""}
        try:
            kw = {"both": {"n_step": 4, "n_episode": 2}, "none": {}, "zero": {"n_step": 0}, "zeroe": {"n_episode": 0},
                  "unreset": {"n_step": 4}, "closed": {"n_step": 2}}[what]
            self.c.collect(**kw)
        except Exception as ex:
            x["err"] = type(ex).__name__
        if what == "closed":  # that the policy is asked in vain does not matter
            self.log[:] = [y for y in self.log if y[0] not in ("pol", "samp")]
        self.flush()
        self.ev.append(x)


FORMS = ["vec", "int", "dict", "mat"]


def random_trace(seed, nops, prop):
    r = random.Random(seed)
    asyn = prop == "C04"
    n = r.choice([1, 2, 3, 3, 4] if not asyn else [2, 3, 4, 5])
    lens = [[r.choice([1, 2, 3, 4, -1, -2, -3]) for _ in range(r.randint(1, 3))] for _ in range(n)]
    hooks = prop == "C03"
    eh = r.choice([0, 1, 2, 2]) if hooks else 0
    buf = r.choice(["vec", "vec", "more", "prio", "cached"] + (["plain", "plainprio"] if n == 1 else []))
    d = CollDriver(seed, lens, form=r.choice(FORMS), hid=r.choice([None, "np", "torch", "batch"]), act=r.choice(["np", "vec", "torch"]),
                   pol=r.random() < 0.7, noise=r.random() < 0.3, dist=not asyn and r.random() < 0.5, buf=buf,
                   cap=r.choice([14, 20]), need=r.randint(1, max(1, n - 1)) if asyn else 0,
                   sh=hooks and r.random() < 0.7, eh=eh, einfo=r.random() < 0.5, raise_nan=r.random() < 0.7)
    if r.random() < 0.2:
        d.bad("unreset")
    if r.random() < 0.8:
        d.reset(opt=r.choice([0, 0, 3]))
        fresh = False
    else:
        fresh = True
    aband = 0
    for _ in range(nops):
        x = r.random()
        rbc = fresh or (r.random() < 0.1 and eh != 2)
        if rbc and not fresh:
            aband += 1
        if aband >= 2 and not fresh:
            d.reset(opt=r.choice([0, 2]))
            aband = 0
            continue
        opt = r.choice([0, 0, 0, 1, 4])
        if x < 0.45 and eh != 2:
            d.collect(n=r.choice([1, 2, 3, n, 2 * n, 5, 9]), rand=r.random() < 0.15, opt=opt, rbc=rbc)
            fresh = False
        elif x < 0.8:
            d.collect(e=r.choice([1, 2, 3, n, n + 1, 2 * n]), rand=r.random() < 0.15, opt=opt, rbc=rbc)
            fresh = False
            if n > 1 and not asyn:
                aband += 1
        elif fresh:
            continue
        elif x < 0.86:
            d.reset(buffer=True, stats=r.random() < 0.7, opt=opt)
            aband = 0
        elif x < 0.89 and eh != 2:
            d.reset(buffer=False, stats=r.random() < 0.5, opt=opt)
            aband += 1
        elif x < 0.96 and eh != 2:
            d.clear(r.random() < 0.7)
        else:
            d.bad(r.choice(["both", "none", "zero", "zeroe"]))
    if eh == 2 and not fresh and r.random() < 0.5:
        d.collect(n=r.choice([n, 3 * n]))
    elif r.random() < 0.2:
        d.c.close()
        d.bad("closed")
    return d.ev


def sched_trace(walk, seed, prop):
    r = random.Random(seed)
    asyn = prop == "C04"
    lens = walk[0]["lens"]
    hooks = prop == "C03"
    d = CollDriver(seed, lens, form=r.choice(FORMS), hid=r.choice([None, "np", "torch", "batch"]), act=r.choice(["np", "vec", "torch"]),
                   buf=r.choice(["vec", "vec", "cached"]), cap=40, need=1 if asyn else 0, sh=hooks, eh=1 if hooks else 0, dist=not asyn)
    d.reset()
    i = 0
    while i < len(walk):
        if walk[i]["op"] == "begin":
            j = i + 1
            its = []
            while j < len(walk) and walk[j]["op"] == "iter":
                its.append(list(walk[j]["ids"]))
                j += 1
            d.collect(n=walk[i]["n"], e=walk[i]["e"], script=its)
            i = j
        else:
            i += 1
    return d.ev
