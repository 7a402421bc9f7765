"""Drives real prioritised buffers and segment trees (events judged by spec/PrioTrace.tla)."""
from __future__ import annotations

import copy
import pickle
import random

import numpy as np
import torch

from vlib.bufdrv import Driver, Layout, Reg, clone_buf, ints, rand_layout
from vlib.core import WEIRD, iv, scaled

from tianshou.data import (
    PrioritizedReplayBuffer,
    PrioritizedReplayBufferManager,
    PrioritizedVectorReplayBuffer,
    SegmentTree,
)


def dec_w(x):
    """A weight that is an integer up to the tiny constant of update_weight."""
    x = float(x)
    r = round(x)
    return int(r) if abs(x - r) < 2e-3 else WEIRD


class PrioDriver(Driver):
    def pnew(self, r, kind, caps, alpha2, beta, norm):
        kw = {"alpha": alpha2 / 2, "beta": float(beta), "weight_norm": bool(norm),
              "save_only_last_obs": self.lay.onlylast > 0}
        e = {"op": "new", "r": r, "kind": kind, "caps": caps, "stack": 1, "avail": 0, "ign": 0, "rdim": self.lay.rdim,
             "a2": alpha2, "beta": beta, "norm": norm, "err": ""}
        try:
            if kind == "plain":
                buf = PrioritizedReplayBuffer(caps[0], **kw)
            elif len(set(caps)) == 1 and norm:
                buf = PrioritizedVectorReplayBuffer(sum(caps), len(caps), **kw)
            else:
                buf = PrioritizedReplayBufferManager([PrioritizedReplayBuffer(c, **kw) for c in caps])
                if kw["weight_norm"] is False:
                    pass
            self.regs[r] = Reg(buf, kind, caps, 1, 0, 0, self.lay.rdim)
            self.regs[r].a2, self.regs[r].norm, self.regs[r].beta, self.regs[r].p = alpha2, norm, beta, {}
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def feeder(self, r, cap, n):
        super().new(r, "plain", [cap])
        self.ev[-1].update(a2=0, beta=0, norm=0, err="")
        for _ in range(n):
            self.add(r, [1], [self.rnd.choice([0, 0, 1])], (1, 1))

    def pclone(self, r, src, how):
        s = self.regs[src]
        e = {"op": "clone", "r": r, "src": src, "how": how, "err": ""}
        try:
            g = s.copy_meta(clone_buf(s.buf, how))
            g.a2, g.norm, g.beta = s.a2, s.norm, s.beta
            self.regs[r] = g
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def pick_w(self, a2):
        return self.rnd.choice([1, 4, 9] if a2 == 1 else [1, 2, 3, 4] if a2 == 4 else [1, 2, 3, 5, 7])

    def weight(self, r, idx=None, ws=None):
        g = self.regs[r]
        v = g.valid()
        if not v:
            return
        if idx is None:
            idx = [self.rnd.choice(v) for _ in range(self.rnd.randrange(1, 6))]
            ws = [self.pick_w(g.a2) * self.rnd.choice([1, 1, -1]) for _ in idx]
        e = {"op": "weight", "r": r, "idx": idx, "ws": ws, "err": ""}
        try:
            w = np.array(ws, dtype=self.rnd.choice([np.float64, np.float32]))
            g.buf.update_weight(np.array(idx), torch.from_numpy(w) if self.rnd.random() < 0.4 else w)
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def beta(self, r, beta):
        self.regs[r].buf.set_beta(float(beta))
        self.ev.append({"op": "beta", "r": r, "beta": beta})

    def wts(self, r):
        g = self.regs[r]
        q = g.valid()
        e = {"op": "wts", "r": r, "q": q, "w": [dec_w(g.buf.weight[i]) for i in q], "tot": dec_w(g.buf.weight.reduce())}
        self.ev.append(e)

    def imp(self, r):
        g = self.regs[r]
        v = g.valid()
        if not v:
            return
        mode = self.rnd.randrange(4)
        e = {"op": "imp", "r": r, "idx": [], "v": [], "norm": g.norm, "err": ""}
        try:
            if mode == 0:
                b, ix = g.buf.sample(self.rnd.randrange(1, 8))
                e["idx"], e["v"] = ints(ix), b.weight
            elif mode == 1:
                ix = [self.rnd.choice(v) for _ in range(self.rnd.randrange(1, 5))]
                e["idx"], e["v"] = ix, g.buf[np.array(ix)].weight
            elif mode == 2:
                e["idx"] = ints(g.buf.sample_indices(0))
                e["v"] = g.buf[:].weight
            else:
                e["idx"], e["v"], e["norm"] = v, g.buf.get_weight(np.array(v)), 0
            e["v"] = [int(round(float(x) * 1000000)) for x in np.asarray(e["v"]).reshape(-1)]
        except Exception as ex:
            e["err"], e["v"] = f"{type(ex).__name__}: {ex}"[:200], []
        self.ev.append(e)

    def draw(self, r, n=2000):
        g = self.regs[r]
        if not g.valid():
            return
        e = {"op": "draw", "r": r, "n": n, "idx": [], "cnt": [], "err": ""}
        try:
            if float(g.buf.weight.reduce()) > 18:
                return
            ix, c = np.unique(g.buf.sample_indices(n), return_counts=True)
            e["idx"], e["cnt"] = ints(ix), ints(c)
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)


def random_trace(seed, nops, withclone=1.0):
    rnd = random.Random(seed)
    np.random.seed(seed % 2**32)
    lay = rand_layout(rnd)
    d = PrioDriver(lay, rnd)
    kind = rnd.choice(["plain", "vec"])
    m = rnd.choice([1, 2, 3, 4, 5, 6])
    caps = [m] if kind == "plain" else [m] * rnd.randrange(1, 4) if rnd.random() < 0.6 else [rnd.randrange(1, 5) for _ in range(3)]
    d.pnew(1, kind, caps, rnd.choice([1, 2, 2, 4]), rnd.choice([0, 1, 1, 2]), int(rnd.random() < 0.7))
    if d.ev[-1]["err"]:
        return d.ev
    live = [1]
    ops = {"add": 8, "weight": 6, "wts": 4, "imp": 4, "draw": 1, "reset": 0.5, "beta": 0.5, "snap": 1, "update": 0.6,
           "clone": 0.5 * withclone}
    for _ in range(nops):
        op = rnd.choices(list(ops), list(ops.values()))[0]
        r = rnd.choice(live)
        g = d.regs[r]
        if op == "add":
            envs = list(range(1, len(caps) + 1))
            rnd.shuffle(envs)
            envs = envs[: rnd.randrange(1, len(envs) + 1)]
            d.add(r, envs, [rnd.choice([1, 2]) if rnd.random() < 0.2 else 0 for _ in envs], (1, 1))
            if rnd.random() < 0.5:
                d.wts(r)
        elif op == "reset":
            d.reset(r, rnd.random() < 0.4)
            d.wts(r)
        elif op == "beta":
            b = rnd.choice([0, 1, 2])
            d.beta(r, b)
        elif op == "update" and kind == "plain":
            d.feeder(4, rnd.randrange(1, 5), rnd.randrange(0, 7))
            d.update(r, 4)
            d.wts(r)
        elif op == "clone":
            dst = rnd.choice([k for k in (1, 2, 3) if k != r])
            d.pclone(dst, r, rnd.choice(["pickle", "deepcopy", "hdf5"]))
            if dst not in live:
                live.append(dst)
            d.wts(dst)
        elif op in ("weight", "wts", "imp", "draw", "snap"):
            getattr(d, op)(r)
    for r in live:
        d.snap(r)
        d.wts(r)
        d.imp(r)
    return d.ev


def sched_trace(walk, kind, caps, seed):
    rnd = random.Random(seed)
    np.random.seed(seed % 2**32)
    d = PrioDriver(Layout(), rnd)
    d.pnew(1, kind, caps, 2, 1, 1)
    for a in walk:
        if a["op"] == "add":
            d.add(1, a["ids"], [0] * len(a["ids"]), (1, 1))
        elif a["op"] == "weight":
            d.weight(1, a["idx"], a["ws"])
        else:
            d.reset(1, False)
        d.wts(1)
        if rnd.random() < 0.3:
            d.imp(1)
    d.snap(1)
    return d.ev


def tree_trace(seed, nops):
    rnd = random.Random(seed)
    d = [{"op": "cfg", "regs": 1}]
    n = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 31, 32, 33])
    t = SegmentTree(n)
    d.append({"op": "tnew", "r": 1, "n": n})
    for _ in range(nops):
        e = {"op": "tset", "r": 1, "idx": [], "val": [], "err": ""}
        k = 1 if rnd.random() < 0.3 else rnd.randrange(1, 2 * n + 1)
        if rnd.random() < 0.15:
            e["idx"] = list(range(n))
        else:
            e["idx"] = [rnd.randrange(n) for _ in range(k)]
        e["val"] = [rnd.choice([0, 0, 1, 2, 3, 5, 9]) for _ in e["idx"]]
        try:
            if len(e["idx"]) == 1 and rnd.random() < 0.5:
                t[e["idx"][0]] = float(e["val"][0])
            elif rnd.random() < 0.2:
                e["val"] = [e["val"][0]] * len(e["idx"])
                t[np.array(e["idx"])] = float(e["val"][0])
            else:
                t[np.array(e["idx"])] = np.array(e["val"], dtype=rnd.choice([np.float64, np.float32]))
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        d.append(e)
        q = {"op": "tget", "r": 1, "n": -1, "all": [], "tot": -1, "sums": [], "pre": [], "err": ""}
        try:
            q["n"] = len(t)
            q["all"] = ints(t[np.arange(n)]) if rnd.random() < 0.7 else [iv(t[i]) for i in range(n)]
            tot = iv(t.reduce())
            q["tot"] = tot
            for _ in range(6):
                a = rnd.randrange(n + 1)
                b = rnd.randrange(a, n + 1)
                if b == n and rnd.random() < 0.5:
                    q["sums"].append([a, n, iv(t.reduce(a))])
                elif b < n and b > a and rnd.random() < 0.3:
                    q["sums"].append([a, b, iv(t.reduce(a, b - n))])  # an end counted from the back
                else:
                    q["sums"].append([a, b, iv(t.reduce(a, b))])
            if tot > 0:
                vs = [rnd.randrange(2 * tot) for _ in range(8)]
                if rnd.random() < 0.5:
                    ks = ints(t.get_prefix_sum_idx(np.array(vs, dtype=np.float64) / 2))
                else:
                    ks = [iv(t.get_prefix_sum_idx(v / 2)) for v in vs]
                q["pre"] = [[v, k] for v, k in zip(vs, ks)]
        except Exception as ex:
            q["err"] = f"{type(ex).__name__}: {ex}"[:200]
        d.append(q)
    return d
