"""Drives real replay buffers and records what they do (events judged by spec/BufTrace.tla)."""
from __future__ import annotations

import copy
import os
import pickle
import random
import tempfile

import numpy as np

from vlib.core import WEIRD, iv

from tianshou.data import Batch, CachedReplayBuffer, ReplayBuffer, ReplayBufferManager, VectorReplayBuffer

OBS_KINDS = ["scalar", "vec", "img", "dict", "str", "float"]


# ------------------------------------------------------------------ values <-> identifiers
def enc_obs(kind, v, last=0):
    """The observation that stands for integer v; last > 0: a stack of `last` frames, v the newest."""
    if kind == "scalar":
        o = np.int64(v)
    elif kind == "float":
        o = np.array([v], dtype=np.float32)
    elif kind == "vec":
        o = np.array([v, -v], dtype=np.int64)
    elif kind == "img":
        o = np.full((1, 2, 2), v, dtype=np.float64)
    elif kind == "str":
        o = f"o{v}"
    else:
        o = {"a": np.int64(v), "b": {"c": np.array([v, v + 1], dtype=np.int64)}}
    if last:
        junk = [enc_obs(kind, 7000000 + v + j) for j in range(last - 1)]
        if kind == "dict":
            fr = [*junk, o]
            return {"a": np.array([f["a"] for f in fr]), "b": {"c": np.stack([f["b"]["c"] for f in fr])}}
        return np.array([*junk, o], dtype=object) if kind == "str" else np.stack([*junk, o])
    return o


def dec_leaf(a):
    """The integer of one observation given as array."""
    a = np.asarray(a)
    if a.size == 0:
        return WEIRD
    vs = a.reshape(-1)
    first = vs[0]
    if isinstance(first, str):
        return int(first[1:]) if a.size == 1 and first[:1] == "o" else WEIRD
    return iv(first)


def dec_obs(kind, o, nlead):
    """All the integers of observations with nlead leading dimensions, as nested lists."""
    if kind == "dict":
        if not isinstance(o, Batch) or set(o.get_keys()) != {"a", "b"} or set(o.b.get_keys()) != {"c"}:
            return WEIRD
        a, c = np.asarray(o.a), np.asarray(o.b.c)
        if a.ndim != nlead or c.ndim != nlead + 1 or c.shape[:-1] != a.shape or c.shape[-1] != 2:
            return WEIRD
        ok = (c[..., 0] == a) & (c[..., 1] == a + 1)
        return np.where(ok, a, WEIRD).tolist()
    a = np.asarray(o)
    tail = {"scalar": (), "float": (1,), "vec": (2,), "img": (1, 2, 2), "str": ()}[kind]
    if a.ndim != nlead + len(tail) or a.shape[nlead:] != tail:
        return WEIRD
    lead = a.shape[:nlead]
    flat = a.reshape((-1, int(np.prod(tail)) if tail else 1)) if a.size else a.reshape((0, 1))
    res = []
    for row in flat:
        if kind == "str":
            s = row[0]
            res.append(int(s[1:]) if isinstance(s, str) and s[:1] == "o" else WEIRD)
        elif kind == "vec":
            res.append(iv(row[0]) if row[0] == -row[1] else WEIRD)
        else:
            res.append(iv(row[0]) if (row == row[0]).all() else WEIRD)
    return np.array(res, dtype=np.int64).reshape(lead).tolist()


class Layout:
    """How transitions look like."""

    def __init__(self, obs="scalar", act="int", onlylast=0, info="int", late=True, rdim=1, rewdt="float", pol="int"):
        self.obs, self.act, self.onlylast, self.info, self.late = obs, act, onlylast, info, late
        self.rdim, self.rewdt, self.pol = rdim, rewdt, pol

    def one(self, t):
        x = t["x"]
        r = np.array(t["r"], dtype=self.rewdt) if self.rdim > 1 else np.dtype(self.rewdt).type(t["r"][0])
        a = x + 100000
        act = {"int": np.int64(a), "vec": np.array([a, a + 1.0]), "dict": {"u": np.int64(a)}}[self.act]
        d = {
            "obs": enc_obs(self.obs, 2 * x, self.onlylast),
            "act": act,
            "rew": r,
            "terminated": np.bool_(t["te"]),
            "truncated": np.bool_(t["tr"]),
            "obs_next": enc_obs(self.obs, 2 * x + 1, self.onlylast),
        }
        inf = {"env_id": np.int64(0)} if self.late else {}
        if t["hk"]:
            k = x + 200000
            if self.info == "int":
                inf["k"] = np.int64(k)
            elif self.info == "deep":
                inf["n"] = {"k": np.array([k, k])}
            else:
                inf["k"] = f"i{k}"
        d["info"] = inf
        if t["hp"]:
            d["policy"] = {"p": np.float64(x + 300000)} if self.pol == "int" else {"q": {"p": np.array([x + 300000.0])}}
        return d

    def batch(self, ts, stacked):
        rows = [self.one(t) for t in ts]
        if not stacked:
            return Batch(rows[0])
        return Batch.stack([Batch(r) for r in rows])

    # -------- reading
    def dec_act(self, a, n):
        if self.act == "dict":
            a = np.asarray(a.u)
        else:
            a = np.asarray(a)
        if self.act == "vec":
            if a.shape != (n, 2):
                return [WEIRD] * n
            return [iv(v[0]) if v[1] == v[0] + 1 else WEIRD for v in a]
        return [iv(v) for v in a] if a.shape == (n,) else [WEIRD] * n

    @staticmethod
    def _dec(get, n, stack):
        """n rows of stack values, each of which get() gives as an array whose last axes are the values'."""
        shape = (n,) if stack == 1 else (n, stack)
        try:
            a = get()
            if a is None:
                return [[0] * stack] * n
            if a.shape != shape:
                return [[WEIRD]] * n
            return a.reshape(n, stack).tolist()
        except Exception:
            return [[WEIRD]] * n

    def dec_info(self, inf, n, stack):
        def get():
            if self.info == "deep":
                if "n" not in inf.get_keys():
                    return None
                a = np.asarray(inf.n.k)
                assert a.shape[-1] == 2
                return np.vectorize(lambda u, v: iv(u) if u == v else WEIRD)(a[..., 0], a[..., 1])
            if "k" not in inf.get_keys():
                return None
            a = np.asarray(inf.k)
            if self.info == "int":
                return np.vectorize(iv)(a)
            return np.vectorize(lambda v: 0 if v is None else int(v[1:]) if isinstance(v, str) and v[:1] == "i" else WEIRD,
                                otypes=[int])(a)
        return self._dec(get, n, stack)

    def dec_pol(self, p, n, stack):
        def get():
            if self.pol != "int":
                if "q" not in p.get_keys():
                    return None
                a = np.asarray(p.q.p)
                assert a.shape[-1] == 1
                a = a[..., 0]
            else:
                if "p" not in p.get_keys():
                    return None
                a = np.asarray(p.p)
            return np.vectorize(iv)(a)
        return self._dec(get, n, stack)

    def rows(self, b, idx, stack):
        n = len(idx)
        lead = 1 if stack == 1 else 2

        def ob(o):
            r = dec_obs(self.obs, o, lead)
            if r == WEIRD:
                return [[WEIRD]] * n
            return [[v] for v in r] if stack == 1 else r

        rew = np.asarray(b.rew)
        if self.rdim == 1:
            rw = [[iv(v)] for v in rew] if rew.shape == (n,) else [[WEIRD]] * n
        else:
            rw = [[iv(v) for v in row] for row in rew] if rew.shape == (n, self.rdim) else [[WEIRD]] * n

        def bl(a):
            a = np.asarray(a)
            return [int(bool(v)) for v in a] if a.shape == (n,) else [WEIRD] * n

        return {
            "idx": [int(v) for v in idx], "obs": ob(b.obs), "onx": ob(b.obs_next), "act": self.dec_act(b.act, n),
            "rew": rw, "te": bl(b.terminated), "tr": bl(b.truncated), "dn": bl(b.done),
            "inf": self.dec_info(b.info, n, stack), "pol": self.dec_pol(b.policy, n, stack),
        }


EMPTY_ROWS = {k: [] for k in ["idx", "obs", "onx", "act", "rew", "te", "tr", "dn", "inf", "pol"]}


def ints(a):
    return [iv(v) for v in np.asarray(a).reshape(-1)]


class Reg:
    """A real buffer with what the driver knows about it (only to choose inputs)."""

    def __init__(self, buf, kind, caps, stack, avail, ign, rdim):
        self.buf, self.kind, self.caps = buf, kind, caps
        self.stack, self.avail, self.ign, self.rdim = stack, avail, ign, rdim
        self.fd = False
        self.size = [0] * len(caps)          # valid rows per part
        self.ep: list = [[] for _ in caps]   # x's of the running episode, None: not known
        self.seqs: list = [[] for _ in caps]  # dones of rows, oldest first

    def copy_meta(self, buf):
        r = Reg(buf, self.kind, self.caps, self.stack, self.avail, self.ign, self.rdim)
        r.fd = self.fd
        r.size, r.ep, r.seqs = list(self.size), copy.deepcopy(self.ep), copy.deepcopy(self.seqs)
        return r

    def valid(self):
        o, res = 0, []
        for c, s in zip(self.caps, self.size):
            res += list(range(o, o + s))
            o += c
        return res


def make(kind, caps, **opt):
    if kind == "plain":
        return ReplayBuffer(caps[0], **opt)
    if kind == "vec":
        if len(set(caps)) == 1 and opt.pop("_via", 1):
            # a total that does not divide evenly is rounded up
            tot = caps[0] * len(caps) - (len(caps) - 1 if caps[0] > 1 or len(caps) == 1 else 0)
            return VectorReplayBuffer(max(tot, 1), len(caps), **opt)
        return ReplayBufferManager([ReplayBuffer(c, **opt) for c in caps])
    return CachedReplayBuffer(ReplayBuffer(caps[0], **opt), len(caps) - 1, caps[1])


class Driver:
    def __init__(self, lay: Layout, rnd: random.Random, regs=4):
        self.lay, self.rnd = lay, rnd
        self.regs: dict[int, Reg] = {}
        self.ev: list = [{"op": "cfg", "regs": regs}]
        self.x = 0

    # ------------------------------------------------------------ operations
    def new(self, r, kind, caps, stack=1, avail=0, ign=0):
        opt = {"stack_num": stack, "sample_avail": bool(avail), "ignore_obs_next": bool(ign),
               "save_only_last_obs": self.lay.onlylast > 0}
        buf = make(kind, caps, **opt)
        self.regs[r] = Reg(buf, kind, caps, stack, avail, ign, self.lay.rdim)
        self.ev.append({"op": "new", "r": r, "kind": kind, "caps": caps, "stack": stack, "avail": avail,
                        "ign": ign, "rdim": self.lay.rdim})

    def trans(self, d, hk=None, hp=None):
        rnd = self.rnd
        self.x += 1
        return {"x": self.x, "r": [rnd.randrange(-3, 9) for _ in range(self.lay.rdim)], "te": int(d in (1, 3)),
                "tr": int(d in (2, 3)), "hk": int(rnd.random() < 0.7) if hk is None else hk,
                "hp": int(rnd.random() < 0.7) if hp is None else hp}

    def add(self, r, ids, ds, uniform=None):
        """ids: positions (1-based) of sub-buffers; ds: 0 running, 1 terminated, 2 truncated, 3 both."""
        g = self.regs[r]
        # keys are the same within one batch
        hk, hp = (int(self.rnd.random() < 0.7), int(self.rnd.random() < 0.7)) if uniform is None else uniform
        ts = [self.trans(d, hk, hp) for d in ds]
        e = {"op": "add", "r": r, "ids": list(ids), "ts": ts, "idx": [], "ret": [], "len": [], "start": [], "err": ""}
        try:
            if g.kind == "plain":
                if self.rnd.random() < 0.5:
                    res = g.buf.add(self.lay.batch(ts, False))
                else:
                    res = g.buf.add(self.lay.batch(ts, True), buffer_ids=self.rnd.choice([[0], np.array([0])]))
            else:
                b = [k - (2 if g.kind == "cached" else 1) for k in ids]
                full = list(range(len(g.caps) - (1 if g.kind == "cached" else 0)))
                if b == full and self.rnd.random() < 0.5:
                    res = g.buf.add(self.lay.batch(ts, True))
                else:
                    res = g.buf.add(self.lay.batch(ts, True), buffer_ids=np.array(b) if self.rnd.random() < 0.6 else b)
            e["idx"], e["len"], e["start"] = ints(res[0]), ints(res[2]), ints(res[3])
            ret = np.asarray(res[1])
            if ret.dtype == object:
                ret = np.array([np.asarray(v) for v in ret])
            e["ret"] = [[iv(v) for v in np.asarray(row).reshape(-1)] for row in ret]
            if self.lay.rdim > 1:
                # running episodes report zeros of any shape
                e["ret"] = [[0] * self.lay.rdim if t["te"] + t["tr"] == 0 and not any(v) else v
                            for v, t in zip(e["ret"], ts)]
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)
        if e["err"]:
            return
        fin = []
        for k, t in zip(ids, ts):
            d = bool(t["te"] or t["tr"])
            k -= 1
            g.size[k] = min(g.size[k] + 1, g.caps[k])
            g.seqs[k] = (g.seqs[k] + [d])[-g.caps[k]:]
            if g.ep[k] is not None:
                g.ep[k].append(t["x"])
            if d:
                fin.append((k, g.ep[k]))
                if g.kind == "cached":
                    g.size[0] = min(g.size[0] + g.size[k], g.caps[0])
                    g.seqs[0] = (g.seqs[0] + g.seqs[k])[-g.caps[0]:]
                    g.size[k], g.seqs[k] = 0, []
                g.ep[k] = []
        if len(fin) == 1 and fin[0][1] is not None:
            k, xs = fin[0]
            j = ids.index(k + 1)
            cap = g.caps[0] if g.kind == "cached" else g.caps[k]
            if len(xs) < cap and (g.kind != "cached" or len(xs) <= g.caps[k]):
                self.epidx(r, e["start"][j], e["idx"][j], xs)

    def epidx(self, r, start, idx, xs):
        e = {"op": "epidx", "r": r, "xs": xs, "idx": [], "err": ""}
        try:
            e["idx"] = ints(self.regs[r].buf.get_buffer_indices(start, idx + 1))
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def reject(self, r, ids):
        """A plain buffer refuses transitions for other buffers."""
        e = {"op": "reject", "r": r, "err": ""}
        try:
            t = [self.trans(0) for _ in ids]
            self.x -= len(ids)
            self.regs[r].buf.add(self.lay.batch(t, True), buffer_ids=ids)
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def reset(self, r, keep):
        g = self.regs[r]
        e = {"op": "reset", "r": r, "keep": int(keep), "err": ""}
        try:
            g.buf.reset(keep_statistics=bool(keep)) if keep or self.rnd.random() < 0.5 else g.buf.reset()
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)
        for k in range(len(g.caps)):
            g.size[k], g.seqs[k] = 0, []
            g.ep[k] = None if keep and g.ep[k] != [] else []

    def update(self, r, src):
        g, s = self.regs[r], self.regs[src]
        e = {"op": "update", "r": r, "src": src, "idx": [], "err": ""}
        try:
            e["idx"] = ints(g.buf.update(s.buf))
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)
        ds = [d for q in s.seqs for d in q]
        if ds:
            g.size[0] = min(g.size[0] + len(ds), g.caps[0])
            g.seqs[0] = (g.seqs[0] + ds)[-g.caps[0]:]
            g.ep[0] = [] if g.ep[0] == [] and ds[-1] else None

    def clone(self, r, src, how):
        s = self.regs[src]
        e = {"op": "clone", "r": r, "src": src, "how": how, "err": ""}
        try:
            self.regs[r] = s.copy_meta(clone_buf(s.buf, how))
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def readrows(self, g, idx):
        if not idx:
            return EMPTY_ROWS
        return self.lay.rows(g.buf[np.array(idx)], idx, g.stack)

    def snap(self, r):
        g = self.regs[r]
        e = {"op": "snap", "r": r, "err": "", "n": -1, "unf": [], "all": [], "q": [], "prev": [], "next": [], "sc": [],
             "rows": EMPTY_ROWS}
        try:
            e["n"] = len(g.buf)
            v = g.valid()
            if v:
                e["unf"] = ints(g.buf.unfinished_index())
                e["all"] = ints(g.buf.sample_indices(0))
                q = list(v)
                self.rnd.shuffle(q)
                q += q[: self.rnd.randrange(3)]
                e["q"] = q
                e["prev"], e["next"] = ints(g.buf.prev(np.array(q))), ints(g.buf.next(np.array(q)))
                e["sc"] = [[i, iv(g.buf.prev(i)), iv(g.buf.next(i))] for i in q[:3]]
                mode = self.rnd.randrange(4)
                if mode == 0 and e["all"]:
                    e["rows"] = self.lay.rows(g.buf[:], e["all"], g.stack)
                elif mode == 1 and g.kind == "plain":
                    a = self.rnd.randrange(len(v))
                    b = self.rnd.randrange(a + 1, len(v) + 1)
                    e["rows"] = self.lay.rows(g.buf[a:b], list(range(a, b)), g.stack)
                elif mode == 2 and e["all"]:
                    b, ix = g.buf.sample(0)
                    e["rows"] = self.lay.rows(b, ints(ix), g.stack)
                else:
                    e["rows"] = self.readrows(g, q)
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def stackget(self, r):
        g = self.regs[r]
        v = g.valid()
        if not v:
            return
        k = self.rnd.randrange(1, 5)
        idx = [self.rnd.choice(v) for _ in range(self.rnd.randrange(1, 5))]
        e = {"op": "stack", "r": r, "k": k, "idx": idx, "obs": [], "err": ""}
        try:
            o = g.buf.get(np.array(idx) if self.rnd.random() < 0.5 else idx, "obs", stack_num=k)
            d = dec_obs(self.lay.obs, o, 1 if k == 1 else 2)
            e["obs"] = [[WEIRD]] if d == WEIRD else [[x] for x in d] if k == 1 else d
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)

    def availn(self, g):
        """Number of rows that may be sampled (only used to choose inputs)."""
        if not (g.stack > 1 and g.avail):
            return sum(g.size)
        n = 0
        for s in g.seqs:
            run = 0
            for d in s:
                n += run >= g.stack - 1
                run = 0 if d else run + 1
        return n

    def sample(self, r, n, full=0):
        g = self.regs[r]
        none = self.availn(g) == 0
        e = {"op": "sample", "r": r, "n": -99 if n is None else n, "full": full, "idx": [], "err": ""}
        try:
            if full or none or n == 0 or (n is not None and n < 0):
                e["idx"] = ints(g.buf.sample_indices(n))
            else:
                b, ix = g.buf.sample(n)
                e["idx"] = ints(ix)
                e["rows"] = self.lay.rows(b, e["idx"], g.stack) if e["idx"] else EMPTY_ROWS
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        if full:  # keep the record short: the set of the indices and one invalid one if there is any
            e["n"] = len(e["idx"]) if len(e["idx"]) == n else -1
            u = sorted(set(e["idx"]))
            e["idx"], e["n"] = u, (len(u) if e["n"] == n else WEIRD)
        self.ev.append(e)

    def fromdata(self, r, n):
        """ReplayBuffer.from_data; recorded as a new buffer into which a full one was moved."""
        ts = [self.trans(self.rnd.choice([0, 0, 1, 2]), 0, 0) for _ in range(n)]
        b = self.lay.batch(ts, True)
        done = np.logical_or(b.terminated, b.truncated)
        e = {"op": "fromdata", "r": r, "ts": ts, "err": "", "rdim": self.lay.rdim}
        try:
            buf = ReplayBuffer.from_data(b.obs, b.act, b.rew, b.terminated, b.truncated, done, b.obs_next)
            g = self.regs[r] = Reg(buf, "plain", [n], 1, 0, 0, self.lay.rdim)
            g.fd = True
            g.size, g.seqs = [n], [[bool(v) for v in done]]
            g.ep = [[] if done[-1] else None]
        except Exception as ex:
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        self.ev.append(e)


def clone_buf(buf, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(buf, protocol=pickle.HIGHEST_PROTOCOL))
    if how == "deepcopy":
        return copy.deepcopy(buf)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "b.hdf5")
        buf.save_hdf5(f, **({"compression": "gzip"} if how == "hdf5z" else {}))
        return type(buf).load_hdf5(f)


# ------------------------------------------------------------------ scenarios
def rand_layout(rnd, simple=False):
    if simple:
        return Layout(obs=rnd.choice(["scalar", "vec"]), rdim=1)
    return Layout(
        obs=rnd.choice(OBS_KINDS), act=rnd.choice(["int", "vec", "dict"]),
        onlylast=rnd.choice([0, 0, 0, 2, 3]), info=rnd.choice(["int", "deep", "str"]), late=rnd.random() < 0.6,
        rdim=rnd.choice([1, 1, 1, 2, 3]), rewdt=rnd.choice(["float64", "float32", "int64"]), pol=rnd.choice(["int", "deep"]),
    )


def rand_caps(rnd, kind, big=False):
    m = 9 if big else 6
    if kind == "plain":
        return [rnd.choice([1, 2, 3, 4, 5, 7, m])]
    if kind == "vec":
        n = rnd.randrange(1, 5)
        return [rnd.randrange(1, m)] * n if rnd.random() < 0.5 else [rnd.randrange(1, m) for _ in range(n)]
    return [rnd.randrange(1, m + 4)] + [rnd.randrange(1, m)] * rnd.randrange(1, 4)


def random_trace(seed, nops, weights, kinds, simple=False):
    """A random history. weights: operation -> weight."""
    rnd = random.Random(seed)
    np.random.seed(seed % 2**32)
    lay = rand_layout(rnd, simple)
    d = Driver(lay, rnd)
    kind = rnd.choice(kinds)
    stack = rnd.choice([1, 1, 2, 3, 4])
    d.new(1, kind, rand_caps(rnd, kind), stack, int(rnd.random() < 0.5), int(rnd.random() < 0.4))
    live = [1]
    pdone = rnd.choice([0.1, 0.25, 0.5])
    uni = rnd.choice([None, (1, 1), (0, 0)])
    ops, ws = zip(*weights.items())
    aligned = rnd.random() < 0.3
    feeder = None
    for _ in range(nops):
        op = rnd.choices(ops, ws)[0]
        r = rnd.choice(live)
        g = d.regs[r]
        if op == "add":
            lo = 2 if g.kind == "cached" else 1
            envs = list(range(lo, len(g.caps) + 1))
            if not aligned:
                rnd.shuffle(envs)
                envs = envs[: rnd.randrange(1, len(envs) + 1)]
            d.add(r, envs, [rnd.choice([1, 2, 3]) if rnd.random() < pdone else 0 for _ in envs], uni)
            if rnd.random() < 0.3:
                d.snap(r)
        elif op == "reset":
            d.reset(r, rnd.random() < 0.5)
        elif op == "snap":
            d.snap(r)
        elif op == "stack":
            d.stackget(r)
        elif op == "sample":
            d.sample(r, rnd.choice([None, -1, -3, 0, 1, 2, 3, 7, 20]))
            if rnd.random() < 0.3:
                d.snap(r)
        elif op == "full":
            n = sum(g.size)
            if n:
                d.sample(r, 64 * n, full=1)
        elif op == "reject" and g.kind == "plain":
            d.reject(r, rnd.choice([[1], [0, 1], [2], [0, 0]]))
            d.snap(r)
        elif op == "clone":
            dst = rnd.choice([k for k in (1, 2, 3, 4) if k not in (r, feeder)])
            d.clone(dst, r, rnd.choice(["pickle", "deepcopy", "hdf5", "hdf5z"]))
            if dst in d.regs:
                if dst not in live:
                    live.append(dst)
                d.snap(dst)
        elif op == "update" and g.kind == "plain" and uni is not None and not g.fd:
            # from a second buffer of any kind with the same data layout
            if feeder is None:
                feeder = rnd.choice([k for k in (2, 3, 4) if k not in live] or [0])
            if feeder:
                k2 = rnd.choice(["plain", "vec", "cached"])
                d.new(feeder, k2, rand_caps(rnd, k2), stack, g.avail, g.ign)
                f = d.regs[feeder]
                lo = 2 if k2 == "cached" else 1
                for _ in range(rnd.randrange(0, 9)):
                    envs = list(range(lo, len(f.caps) + 1))
                    rnd.shuffle(envs)
                    envs = envs[: rnd.randrange(1, len(envs) + 1)]
                    d.add(feeder, envs, [1 if rnd.random() < pdone else 0 for _ in envs], uni)
                d.update(r, feeder)
                d.snap(r)
                d.snap(feeder)
        elif op == "fromdata" and lay.onlylast == 0 and lay.info and 4 not in live and feeder != 4:
            d.fromdata(4, rnd.randrange(1, 7))
            live.append(4)
            d.snap(4)
    for r in live:
        d.snap(r)
    return d.ev


def replay_schedules(walks, kind, caps, seed, snap_every=1):
    """Replay spec-generated schedules on real buffers."""
    out = []
    for n, w in enumerate(walks):
        rnd = random.Random(seed * 7919 + n)
        np.random.seed((seed * 7919 + n) % 2**32)
        lay = Layout(obs=OBS_KINDS[n % len(OBS_KINDS)], act=["int", "vec", "dict"][n % 3], info=["int", "deep", "str"][n % 3],
                     onlylast=[0, 0, 2][n % 3])
        d = Driver(lay, rnd)
        stack = [1, 2, 1, 3][n % 4]
        d.new(1, kind, caps, stack, int(n % 8 >= 4), int(n % 5 == 3))
        for k, a in enumerate(w):
            if a["op"] == "add":
                d.add(1, a["ids"], [x if x == 0 else rnd.choice([1, 2, 3]) for x in a["ds"]], (1, 1))
            elif a["op"] == "reset":
                d.reset(1, a["keep"])
            else:
                d.new(2, "plain", [a["m"]], stack, 0, int(n % 5 == 3))
                for j in range(a["m"]):
                    d.add(2, [1], [1 if j == a["m"] - 1 else 0], (1, 1))
                d.update(1, 2)
            if k % snap_every == 0 or k == len(w) - 1:
                d.snap(1)
        out.append(d.ev)
    return out


# ------------------------------------------------------------------ nested data to HDF5 and back
def canon(x):
    """A string that identifies nested data up to the python/numpy kind of scalars."""
    import torch
    if isinstance(x, Batch):
        return "Batch{" + ",".join(f"{k}:{canon(v)}" for k, v in sorted(x.items())) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{canon(v)}" for k, v in sorted(x.items())) + "}"
    if isinstance(x, torch.Tensor):
        return f"T{x.dtype}{tuple(x.shape)}{x.tolist()}"
    if isinstance(x, np.ndarray):
        return f"A{x.dtype}{x.shape}{x.tolist()!r}"
    if isinstance(x, bool | np.bool_):
        return f"b{int(x)}"
    if isinstance(x, int | np.integer):
        return f"i{int(x)}"
    if isinstance(x, float | np.floating):
        return f"f{float(x)!r}"
    return f"{type(x).__name__}:{x!r}"


def rand_nested(rnd, depth=0):
    import torch
    d = {}
    for j in range(rnd.randrange(1, 5)):
        k = f"k{j}"
        c = rnd.randrange(16 if depth < 3 else 12)
        if c == 0:
            v = rnd.randrange(-2**40, 2**40)
        elif c == 1:
            v = rnd.choice([0.5, -1.25, 1e300, float("inf")])
        elif c == 2:
            v = rnd.choice(["abc", "", "x y"])
        elif c == 3:
            v = None
        elif c in (4, 5, 6):
            dt = rnd.choice([np.int64, np.int8, np.uint8, np.float32, np.float64, bool, np.int32])
            v = np.array([rnd.randrange(2) for _ in range(6)], dtype=dt).reshape(rnd.choice([(6,), (2, 3), (1, 6), (3, 2, 1)]))
        elif c == 7:
            v = torch.tensor([rnd.randrange(5) for _ in range(4)], dtype=rnd.choice([torch.float32, torch.int64, torch.uint8]))
        elif c == 8:
            v = np.array(rnd.choice([["a", None], ["aa", "b"], [None, None], [1, "x"], [(1, 2), None]]), dtype=object)
        elif c == 9:
            v = np.array(rnd.choice([["aa", "b"], ["x"]]))
        elif c == 10:
            v = rnd.choice([np.float64(2.5), np.int64(7), True, (1, 2), [1, "a"], {1, 2}])
        elif c == 11:
            v = np.zeros((0, 3))
        elif c in (12, 13):
            v = rand_nested(rnd, depth + 1)
        else:
            v = Batch({f"b{q}": np.arange(q + 1) * rnd.randrange(9) for q in range(rnd.randrange(3))})
            if rnd.random() < 0.5:
                v.n = Batch(rand_nested(rnd, depth + 1))
        d[k] = v
    return d


def convert_trace(seed, n):
    import h5py

    from tianshou.data.utils.converter import from_hdf5, to_hdf5
    rnd = random.Random(seed)
    ev = [{"op": "cfg", "regs": 1}]
    with tempfile.TemporaryDirectory() as td:
        for j in range(n):
            d = rand_nested(rnd)
            e = {"op": "same", "what": "HDF5", "before": canon(d), "after": "", "err": ""}
            try:
                f = os.path.join(td, f"{j}.h5")
                with h5py.File(f, "w") as h:
                    to_hdf5(d, h, **({"compression": "gzip"} if rnd.random() < 0.3 else {}))
                with h5py.File(f, "r") as h:
                    e["after"] = canon(from_hdf5(h))
                if canon(d) != e["before"]:
                    e["after"] = "operand changed"
            except Exception as ex:
                e["err"] = f"{type(ex).__name__}: {ex}"[:200]
            ev.append(e)
    return ev
