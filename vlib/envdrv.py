"""Drives real vector environments (events judged by spec/VEnvTrace.tla)."""
from __future__ import annotations

import copy
import multiprocessing
import random
import sys
import types

import gymnasium as gym
import numpy as np

from vlib.core import WEIRD, iv

from tianshou.env import BaseVectorEnv, DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv, VectorEnvWrapper
from tianshou.env.gym_wrappers import TruncatedAsTerminated
from tianshou.env.worker import EnvWorker

FORMS = ["vec", "mat8", "dict", "int", "var", "f32", "reuse"]


def space_of(form):
    B = gym.spaces.Box
    return {
        "vec": B(-1e9, 1e9, (3,), np.float64), "f32": B(-1e9, 1e9, (1, 3), np.float32), "mat8": B(0, 255, (2, 3), np.uint8),
        "dict": gym.spaces.Dict({"a": B(0, 10**6, (3,), np.int64), "b": gym.spaces.Dict({"c": B(0, 10**6, (1,), np.int32)})}),
        "int": gym.spaces.Discrete(10**6), "var": B(-1e9, 1e9, (3,), np.float64), "reuse": B(-1e9, 1e9, (3,), np.float64),
    }[form]


class ScriptEnv(gym.Env):
    """Answers as spec/VEnv.tla's environments."""

    def __init__(self, idx, form, gate=None):
        self.idx, self.form, self.gate = idx, form, gate
        self.observation_space = space_of(form)
        self.action_space = gym.spaces.Discrete(10)
        self.ep = self.k = self.steps = self.attr = 0
        self.seed_ = -1
        self.own = np.zeros(3)

    def obs(self):
        d = [self.idx, self.ep, self.k]
        f = self.form
        if f == "vec":
            return np.array(d, dtype=np.float64)
        if f == "f32":
            return np.array([d], dtype=np.float32)
        if f == "mat8":
            return np.array([d, d], dtype=np.uint8)
        if f == "dict":
            a, b = np.array(d), {"c": np.array([self.k], dtype=np.int32)}
            return {"b": b, "a": a} if (self.idx + self.k) % 2 else {"a": a, "b": b}  # the order of keys means nothing
        if f == "int":
            return self.tok()
        if f == "var":
            return np.array(d + [0] * ((self.idx + self.k) % 3), dtype=np.float64)
        self.own[:] = d  # the environment reuses its array
        return self.own

    def tok(self):
        return self.idx * 10000 + self.ep * 100 + self.k

    def reset(self, seed=None, options=None):
        if seed is not None:
            self.seed_ = seed
        self.ep += 1
        self.k = 0
        return self.obs(), {"seed": self.seed_, "opt": (options or {}).get("o", 0), "env": self.idx}

    def step(self, action):
        if self.gate is not None:
            self.gate.acquire()
        a = int(action)
        self.k += 1
        self.steps += 1
        return (self.obs(), float(7 * self.idx + 3 * a + self.k), self.k % 5 == 4, self.k % 3 == 2,
                {"itok": self.tok() + 1000000 * a, "env": self.idx})

    def render(self, arg=0):
        return 10 * self.tok() + arg


class SeedEnv(ScriptEnv):
    def seed(self, seed=None):
        self.seed_ = -1 if seed is None else seed
        return [seed]


# -------------------------------------------------------------- scripted workers
SCRIPT: list = []  # ids that become ready next, in order


class ScriptWorker(EnvWorker):
    """An in-process worker that delivers results in a scripted order (a legal EnvWorker)."""

    def __init__(self, fn):
        self.env = fn()
        super().__init__(fn)

    def get_env_attr(self, key):
        return getattr(self.env, key)

    def set_env_attr(self, key, value):
        setattr(self.env.unwrapped, key, value)

    def reset(self, **kw):
        return self.env.reset(**kw)

    def send(self, action, **kw):
        self.result = self.env.reset(**kw) if action is None else self.env.step(action)

    @staticmethod
    def wait(workers, wait_num, timeout=None):
        by = {w.env.unwrapped.idx: w for w in workers}
        if timeout is not None and SCRIPT and SCRIPT[0] == "idle":
            SCRIPT.pop(0)
            return []
        res = [by[i] for i in SCRIPT if i in by]
        SCRIPT.clear()
        if len(res) < (1 if timeout is not None else min(wait_num, len(workers))):
            return list(workers)
        return res

    def seed(self, seed=None):
        super().seed(seed)
        if hasattr(self.env, "seed"):
            return self.env.seed(seed)
        self.env.reset(seed=seed)
        return None

    def render(self, **kw):
        return self.env.render(**kw)

    def close_env(self):
        self.env.close()


# -------------------------------------------------------------- a model of ray
def fake_ray():
    """The part of ray's contract the worker relies on: actors run their calls in order, results are copies,
    wait returns exactly num_returns references (fewer after the time out), at most as many as it was given."""
    ray = types.ModuleType("ray")

    class Ref:
        pass

    class Handle:
        def __init__(self, cls, *a):
            self.__dict__["_obj"] = cls(*a)
            self.__dict__["_cls"] = cls

        def __getattr__(self, name):
            if name.startswith("_") or not hasattr(self._cls, name):
                raise AttributeError(name)

            def remote(*a, **kw):
                r = Ref()
                try:
                    r.val, r.err = copy.deepcopy(getattr(self._obj, name)(*copy.deepcopy(a), **copy.deepcopy(kw))), None
                except Exception as e:
                    r.val, r.err = None, e
                r.env = self._obj.unwrapped.idx
                return r

            m = types.SimpleNamespace()
            m.remote = remote
            return m

    class Opt:
        def __init__(self, cls):
            self.cls = cls

        def options(self, **_):
            return self

        def remote(self, *a):
            return Handle(self.cls, *a)

    def get(r):
        if isinstance(r, list):
            return [get(x) for x in r]
        if r.err is not None:
            raise r.err
        return copy.deepcopy(r.val)

    def wait(refs, num_returns=1, timeout=None):
        if len(set(map(id, refs))) != len(refs) or not 0 < num_returns <= len(refs):
            raise ValueError("num_returns")
        order = [r for i in SCRIPT for r in refs if r.env == i]
        SCRIPT.clear()
        order += [r for r in refs if r not in order]
        if timeout is not None and len(order) > 1:
            num_returns = min(num_returns, 1)
        return order[:num_returns], order[num_returns:]

    ray.remote, ray.get, ray.wait = (lambda cls: Opt(cls)), get, wait
    ray.is_initialized, ray.init = (lambda: True), (lambda *a, **k: None)
    return ray


def use_fake_ray():
    import tianshou.env.worker.ray as m
    sys.modules["ray"] = m.ray = fake_ray()
    from tianshou.env import RayVectorEnv
    return RayVectorEnv


# -------------------------------------------------------------- the driver
KINDS = ["dummy", "subproc", "subprocsh", "shmem", "script", "ray"]


class EnvDriver:
    def __init__(self, seed, kind, num, need, timed=False, form="vec", hasseed=True, tat=False, wrap=0, gates=False):
        self.rng = random.Random(seed)
        self.kind, self.num, self.need, self.timed, self.form = kind, num, need, timed, form
        self.async_ = need != num or timed
        self.gates = [multiprocessing.Semaphore(0) for _ in range(num)] if gates else None
        hasseed = hasseed and kind != "ray" and not tat
        cls = SeedEnv if hasseed else ScriptEnv

        def mk(i):
            def fn():
                e = cls(i, form, self.gates[i] if self.gates else None)
                return TruncatedAsTerminated(e) if tat else e
            return fn

        fns = [mk(i) for i in range(num)]
        kw = {}
        if self.async_:
            kw["wait_num"] = need
        if timed:
            kw["timeout"] = 0.02 if kind != "ray" else 5
        if kind == "ray":
            v = use_fake_ray()(fns, **kw)
        elif kind == "script":
            v = BaseVectorEnv(fns, ScriptWorker, **kw)
        else:
            v = {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv,
                 "subprocsh": lambda f, **k: SubprocVectorEnv(f, share_memory=True, context="fork", **k)}[kind](fns, **kw)
        for _ in range(wrap):
            v = VectorEnvWrapper(v)
        self.v = v
        self.wait: list = []
        self.kept: list = []
        self.closed = False
        self.noren = tat
        self.kind = kind
        self.ev = [{"op": "start", "num": num, "need": need, "timed": int(timed), "hasseed": int(hasseed), "tat": int(tat),
                    "err": "", "kind": kind, "form": form, "wrap": wrap}]

    # ------------------------------------------------ reading
    def tok(self, o):
        try:
            f = self.form
            if f == "int":
                return iv(o)
            if f == "dict":
                if set(o) != {"a", "b"} or set(o["b"]) != {"c"} or o["b"]["c"].shape != (1,) or o["a"].shape != (3,):
                    return WEIRD
                d = [iv(x) for x in o["a"]]
                if iv(o["b"]["c"]) != d[2]:
                    return WEIRD
            else:
                o = np.asarray(o)
                if f == "mat8":
                    if o.shape != (2, 3) or o.dtype != np.uint8 or (o[0] != o[1]).any():
                        return WEIRD
                    o = o[0]
                elif f == "f32":
                    if o.shape != (1, 3) or o.dtype != np.float32:
                        return WEIRD
                    o = o[0]
                elif f == "var":
                    if (o[3:] != 0).any() or len(o) != 3 + (int(o[0]) + int(o[2])) % 3:
                        return WEIRD
                    o = o[:3]
                elif o.shape != (3,) or o.dtype != np.float64:
                    return WEIRD
                d = [iv(x) for x in o]
            return d[0] * 10000 + d[1] * 100 + d[2]
        except Exception:
            return WEIRD

    def keep(self, obs):
        self.kept.append(obs)

    def idform(self, ids):
        r = self.rng
        if ids == [-1]:
            return None
        if len(ids) == 1 and r.random() < 0.4:
            return r.choice([ids[0], np.int64(ids[0])])
        return r.choice([list(ids), np.array(ids, dtype=int)])

    def run(self, e, fn):
        e["err"] = ""
        try:
            fn()
        except Exception as x:
            e["err"] = type(x).__name__
            e["msg"] = str(x)[:200]
        self.ev.append(e)
        return e

    # ------------------------------------------------ operations
    def reset(self, ids, seed=None, opt=0):
        e = {"op": "reset", "ids": ids, "seed": -1 if seed is None else seed, "opt": opt, "rows": []}
        kw = {}
        if seed is not None:
            kw["seed"] = seed
        if opt:
            kw["options"] = {"o": opt}

        def fn():
            obs, info = self.v.reset(self.idform(ids), **kw) if ids != [-1] or self.rng.random() < 0.5 else self.v.reset(**kw)
            for o, f in zip(obs, info, strict=True):
                e["rows"].append({"tok": self.tok(o), "seed": iv(f["seed"]), "opt": iv(f["opt"]), "env": iv(f["env"])})
            self.keep(obs)
        self.run(e, fn)

    def step(self, ids, acts, none=False, order=None):
        e = {"op": "step", "ids": [] if none else ids, "acts": [] if none else acts, "none": int(none), "rows": []}
        r = self.rng
        SCRIPT.clear()
        if order is not None:
            if self.timed and self.kind == "script" and r.random() < 0.3:
                SCRIPT.append("idle")
            SCRIPT.extend(order)

        def fn():
            a = None if none else r.choice([np.array(acts), list(acts)])
            if not none and len(acts) == 0:
                a = np.array([], dtype=int)
            obs, rew, te, tr, info = self.v.step(a, self.idform(ids)) if ids != [-1] or r.random() < 0.5 else self.v.step(a)
            for o, w, t1, t2, f in zip(obs, rew, te, tr, info, strict=True):
                e["rows"].append({"tok": self.tok(o), "rew": iv(w), "te": iv(t1), "tr": iv(t2),
                                  "env": iv(f["env_id"]) if iv(f["env_id"]) == iv(f["env"]) else WEIRD, "itok": iv(f["itok"])})
            self.keep(obs)
        self.run(e, fn)
        if not e["err"]:
            sent = [] if none else (list(range(self.num)) if ids == [-1] else list(ids))
            got = {x["env"] for x in e["rows"]}
            self.wait = [i for i in self.wait + sent if i not in got]
        return e

    def get(self, ids, key):
        e = {"op": "get", "ids": ids, "key": key, "vals": []}
        self.run(e, lambda: e["vals"].extend(iv(x) for x in self.v.get_env_attr(key, self.idform(ids))))

    def set(self, ids, val):
        e = {"op": "set", "ids": ids, "val": val}
        self.run(e, lambda: self.v.set_env_attr("attr", val, self.idform(ids)))

    def render(self, arg):
        if self.kind == "ray":
            arg = 0  # the wrapper around Ray's environments takes no arguments for render
        e = {"op": "render", "arg": arg, "vals": []}
        self.run(e, lambda: e["vals"].extend(iv(x) for x in self.v.render(**({"arg": arg} if arg else {}))))

    def seed(self, s):
        n = self.num
        seeds = [-1] * n if s is None else [s + i for i in range(n)] if isinstance(s, int) else list(s)
        e = {"op": "seed", "seeds": seeds, "vals": []}

        def fn():
            for x in self.v.seed(s):
                e["vals"].append(-1 if x is None or list(x) == [None] else iv(x[0]) if len(x) == 1 else WEIRD)
        self.run(e, fn)

    def close(self):
        def fn():
            self.v.close()
            self.closed = True
        self.run({"op": "close"}, fn)

    def recheck(self):
        self.run(e := {"op": "recheck", "obs": []}, lambda: None)
        e["obs"] = [[self.tok(o) for o in obs] for obs in self.kept]

    def length(self):
        self.run(e := {"op": "len", "val": 0}, lambda: e.update(val=len(self.v)))

    # ------------------------------------------------ random histories
    def subset(self, among, most=None):
        c = self.rng.sample(among, self.rng.randint(1, min(len(among), most or len(among))))
        return c

    def random_op(self):
        r = self.rng
        n = self.num
        free = [i for i in range(n) if i not in self.wait]
        x = r.random()
        anyids = list(range(n))

        def pick(p_bad=0.06):
            """Ids to use: mostly of free environments; sometimes all; sometimes including a busy one."""
            if self.wait and r.random() < p_bad:
                return self.subset(anyids)
            if not free:
                return None
            if len(free) == n and r.random() < 0.3:
                return [-1]
            return self.subset(free)

        if x < 0.62:
            if self.async_ and self.wait and (not free or r.random() < 0.3):
                return self.async_step([], True)
            ids = pick()
            if ids is None:
                return None
            m = n if ids == [-1] else len(ids)
            acts = [r.randint(0, 9) for _ in range(m)]
            if r.random() < 0.03:
                acts.append(1)
                return self.step(ids, acts)
            if not self.async_ and r.random() < 0.02:
                return self.step([-1], [], none=True)
            return self.async_step(ids, False, acts) if self.async_ else self.step(ids, acts)
        ids = pick()
        if x < 0.74 and ids is not None:
            self.reset(ids, r.choice([None, None, r.randint(1, 99)]), r.choice([0, 0, 5]))
        elif x < 0.83 and ids is not None:
            self.get(ids, r.choice(["attr", "steps", "ep", "seed_", "idx"]))
        elif x < 0.88 and ids is not None:
            self.set(ids, r.randint(1, 99))
        elif x < 0.92 and not self.noren:
            if not self.wait or r.random() < 0.2:
                self.render(r.choice([0, 3]))
        elif x < 0.95:
            if not self.wait or r.random() < 0.2:
                self.seed(r.choice([None, r.randint(1, 50), [r.randint(1, 50) for _ in range(n)]]))
        elif x < 0.97:
            self.length()
        else:
            self.recheck()

    def async_step(self, ids, none, acts=()):
        """Decide which environments become ready, and let them."""
        r = self.rng
        sent = [] if none else (list(range(self.num)) if ids == [-1] else list(ids))
        busy = [i for i in sent if i in self.wait]
        pend = self.wait + [i for i in sent if i not in self.wait]
        lo = 1 if self.timed else min(self.need, len(pend))
        order = r.sample(pend, r.randint(lo, len(pend)))
        if self.gates and not busy:
            for i in order:
                if i not in self.released:
                    self.gates[i].release()
                    self.released.add(i)
            if len(self.released & set(pend)) < lo:
                raise AssertionError("driver: not enough released")
        e = self.step([-1] if none else ids, list(acts), none=none, order=order)
        if self.gates:
            self.released -= {x["env"] for x in e["rows"]}
        return e

    released: set


def random_trace(seed, nops, kinds=None, asyn=None, form=None):
    r = random.Random(seed * 7 + 1)
    kind = r.choice(kinds or KINDS)
    num = r.randint(1, 5) if kind in ("dummy", "script", "ray") else r.randint(1, 3)
    asyn = r.random() < 0.5 if asyn is None else asyn
    need = r.randint(1, num) if asyn else num
    timed = asyn and (need == num or r.random() < 0.3)
    if kind == "ray" and timed:
        timed = need == num
    form = form or r.choice(FORMS)
    if form in ("reuse", "var") and kind in ("subprocsh", "shmem"):
        form = "vec"
    if form == "reuse" and asyn:
        form = "vec"
    gates = kind in ("subproc", "subprocsh", "shmem") and asyn
    d = EnvDriver(seed, kind, num, need, timed, form, hasseed=r.random() < 0.6, tat=r.random() < 0.25,
                  wrap=r.choice([0, 0, 1, 2]), gates=gates)
    d.released = set()
    d.reset([-1])
    for _ in range(nops):
        d.random_op()
    d.recheck()
    while d.wait:
        d.async_step([], True)
    d.close()
    for op in r.sample(["reset", "step", "get", "set", "render", "seed", "close"], 4):
        {"reset": lambda: d.reset([-1]), "step": lambda: d.step([-1], [1] * num), "get": lambda: d.get([0], "attr"),
         "set": lambda: d.set([0], 5), "render": lambda: d.render(0), "seed": lambda: d.seed(3), "close": d.close}[op]()
    return d.ev


def sched_trace(walk, seed, num, need, timed):
    r = random.Random(seed)
    kind = r.choice(["script", "script", "ray"]) if not timed else "script"
    if all(x["op"] == "reset" or len(x["rs"]) == len(x["ids"]) for x in walk) and need == num and not timed:
        kind = r.choice(["dummy", "script", "ray"])
    d = EnvDriver(seed, kind, num, need, timed, r.choice(FORMS[:-1]), wrap=r.choice([0, 1]))
    d.released = set()
    d.reset([-1])
    for a in walk:
        if a["op"] == "reset":
            d.reset(a["ids"])
        else:
            none = not a["ids"]
            d.step([-1] if none else a["ids"], [r.randint(0, 9) for _ in a["ids"]], none=none, order=a["rs"])
    d.recheck()
    return d.ev
