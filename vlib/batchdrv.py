"""Drives real Batch objects (events judged by spec/BatchTrace.tla)."""
from __future__ import annotations

import copy
import pickle
import random

import numpy as np
import torch

from vlib.core import WEIRD

from tianshou.data import Batch, to_numpy, to_torch

NULL, NONE0 = -7777, 99999
NP = {"nb": np.bool_, "ni": np.int64, "nf": np.float64, "o": object}
TT = {"tb": torch.bool, "ti": torch.int64, "tf": torch.float64}


# ------------------------------------------------------------------ reading
def val(x) -> int:
    """A row (of any inner shape, all elements alike) as an integer."""
    if x is None:
        return NULL
    if isinstance(x, str):
        return int(x[1:]) if x[:1] == "s" and x[1:].lstrip("-").isdigit() else WEIRD
    if isinstance(x, torch.Tensor):
        x = x.detach().numpy()
    a = np.asarray(x)
    if a.dtype == object:
        vs = [val(e) if not isinstance(e, np.ndarray) or e.shape else val(e.item()) for e in a.reshape(-1)]
    else:
        vs = [NULL if e != e else int(e) if e == int(e) else WEIRD for e in a.reshape(-1).tolist()]
    return vs[0] if vs and all(v == vs[0] for v in vs) else WEIRD


def kind(x) -> str:
    if isinstance(x, torch.Tensor):
        d = {torch.bool: "tb", torch.int64: "ti", torch.float64: "tf"}
        return d.get(x.dtype, "t?" + str(x.dtype))
    d = np.asarray(x).dtype
    if d == object:
        return "o"
    return {np.dtype(bool): "nb", np.dtype(np.int64): "ni", np.dtype(np.float64): "nf"}.get(d, "n?" + str(d))


def read(b, shapes, row=False, extra=0, path=()) -> list:
    """The leaves of a batch. row: entries have no row dimension. extra: number of additional leading
    dimensions that stacking produced."""
    out = []
    for key in b.keys():
        x = b[key]
        p = [*path, key]
        if isinstance(x, Batch):
            if not list(x.keys()):
                out.append({"p": p, "k": "R", "v": []})
            else:
                out += read(x, shapes, row, extra, p)
        elif x is None and not row:
            out.append({"p": p, "k": "N", "v": []})
        elif row:
            out.append({"p": p, "k": kind(x) if x is not None and not isinstance(x, str) else "o", "v": [val(x)]})
        else:
            sh = tuple(shapes.get("/".join(p), ()))
            try:
                if tuple(x.shape[1 + extra:]) != sh:
                    raise ValueError
                v = [[val(y) for y in r] for r in x] if extra else [val(r) for r in x]
            except Exception:
                v = [WEIRD]
            out.append({"p": p, "k": kind(x), "v": v})
    return sorted(out, key=lambda d: d["p"])


# ------------------------------------------------------------------ building
def leaf(k, vs, shape):
    if k in TT:
        t = torch.tensor(vs, dtype=TT[k]) if k != "tf" else torch.tensor([float("nan") if v == NULL else v for v in vs], dtype=TT[k])
        return t.reshape([len(vs)] + [1] * len(shape)).expand(len(vs), *shape).clone()
    if k == "o":
        a = np.empty((len(vs), *shape), dtype=object)
        for i, v in enumerate(vs):
            if shape:
                a[i].fill(None if v == NULL else f"s{v}")
            else:
                a[i] = None if v == NULL else f"s{v}"
        return a
    a = np.array([np.nan if v == NULL else v for v in vs], dtype=NP[k])
    return np.broadcast_to(a.reshape([len(vs)] + [1] * len(shape)), (len(vs), *shape)).copy()


def build(leaves, shapes, as_dict=False, row=False):
    root: dict = {}
    for l in leaves:
        d = root
        for key in l["p"][:-1]:
            d = d.setdefault(key, {})
        last = l["p"][-1]
        if l["k"] == "R":
            d[last] = Batch() if not as_dict else {}
        elif l["k"] == "N":
            d[last] = None
        else:
            a = leaf(l["k"], l["v"], shapes.get("/".join(l["p"]), ()))
            d[last] = a[0] if row else a
    if as_dict:
        return root
    return Batch(root)


def skeleton(leaves):
    root: dict = {}
    for l in leaves:
        d = root
        for key in l["p"][:-1]:
            d = d.setdefault(key, {})
        d[l["p"][-1]] = {} if l["k"] == "R" else True
    return root


def stackable(sks):
    """Nested entries that some batches lack have the same structure in all batches that have them."""
    sks = [k for k in sks if k]
    for key in {k for sk in sks for k in sk}:
        have = [sk[key] for sk in sks if sk.get(key, {}) != {}]
        if any(h is True for h in have):
            continue
        if len(have) < len(sks):
            if any(h != have[0] for h in have):
                return False
        elif not stackable(have):
            return False
    return True


SCHEMAS = [["a"], ["b", "c"], ["b", "o"], ["b", "q", "d"], ["e"], ["f", "g"]]


class BatchDriver:
    def __init__(self, seed, nregs=4):
        self.rng = random.Random(seed)
        np.random.seed(seed % 2**31)
        r = self.rng
        self.paths = r.sample(SCHEMAS, r.randint(1, 5))
        self.num = r.random() < 0.35  # only numbers, so that arithmetic applies
        fam = r.choice(["n", "n", "t", "mix"])
        self.kinds, self.shapes = {}, {}
        for p in self.paths:
            f = fam if fam != "mix" else r.choice("nt")
            ks = ["ni", "nf"] if self.num else ["nb", "ni", "nf", "o"]
            k = "o" if p[-1] == "o" and not self.num else r.choice(ks)
            self.kinds["/".join(p)] = k if k == "o" or f == "n" else "t" + k[1]
            self.shapes["/".join(p)] = r.choice([(), (), (2,), (1,), (2, 2)])
        self.allfloat = all(k[1:] == "f" for k in self.kinds.values())
        self.tok = 0
        self.nulls = (not self.num) and r.random() < 0.3
        self.regs = [self.fresh() for _ in range(nregs)]
        self.ev = [{"op": "start", "regs": self.snap()}]

    def snap(self):
        return [read(b, self.shapes) for b in self.regs]

    def vals(self, k, n):
        res = []
        for _ in range(n):
            self.tok += 1
            if k[1:] == "b":
                v = self.rng.randint(0, 1)
            else:
                v = self.tok * 2
            if self.nulls and k in ("o", "nf") and self.rng.random() < 0.25:
                v = NULL
            res.append(v)
        return res

    def leaves(self, n, paths=None, res_prob=0.15, none_prob=0.0):
        out = []
        for p in self.paths if paths is None else paths:
            k = self.kinds["/".join(p)]
            x = self.rng.random()
            if x < res_prob:
                out.append({"p": p, "k": "R", "v": []})
            elif x < res_prob + none_prob and not self.num:
                out.append({"p": p, "k": "N", "v": []})
            else:
                out.append({"p": p, "k": k, "v": self.vals(k, n)})
        return out

    def fresh(self):
        r = self.rng
        n = r.randint(1, 5)
        ps = self.paths if r.random() < 0.7 else r.sample(self.paths, r.randint(0, len(self.paths)))
        return build(self.leaves(n, ps, none_prob=0.06), self.shapes)

    # -------------------------------------------------------- helpers
    def do(self, e, fn, dst=None):
        """fn returns the new value of register dst (or None if done in place)."""
        e.setdefault("dst", (dst if dst is not None else 0) + 1)
        e["err"] = ""
        try:
            res = fn()
            if res is not None and dst is not None:
                self.regs[dst] = res
        except Exception as x:
            e["err"] = type(x).__name__
        e["regs"] = self.snap()
        self.ev.append(e)

    def pickreg(self, cond=lambda b, l: True):
        c = [i for i, b in enumerate(self.regs) if cond(b, read(b, self.shapes))]
        return self.rng.choice(c) if c else None

    def index(self, n, single=True):
        """A random index into n rows: (spec form, python object)."""
        r = self.rng
        t = r.choice(["i", "a", "s", "m", "a"] if single else ["a", "s", "m"])
        if t == "i":
            i = r.randint(-n, n - 1)
            return {"t": "i", "v": [i]}, r.choice([i, np.int64(i)])
        if t == "a":
            k = r.randint(1, n)
            v = [i if r.random() < 0.7 else i - n for i in r.sample(range(n), k)]
            return {"t": "a", "v": v}, r.choice([v, np.array(v)])
        if t == "m":
            m = [r.randint(0, 1) for _ in range(n)]
            if not any(m):
                m[r.randrange(n)] = 1
            return {"t": "m", "v": m}, np.array(m, dtype=bool)
        for _ in range(20):
            a, b, s = r.choice([None, r.randint(-n, n)]), r.choice([None, r.randint(-n, n)]), r.choice([None, 1, 2])
            if range(n)[a:b:s]:
                return {"t": "s", "v": [NONE0 if a is None else a, NONE0 if b is None else b, s or 1]}, slice(a, b, s)
        return {"t": "s", "v": [NONE0, NONE0, 1]}, slice(None)

    @staticmethod
    def even(l):
        return len({len(x["v"]) for x in l if x["k"] not in "RN"}) == 1

    def full(self, b, l):
        return self.even(l)

    def noN(self, b, l):
        return self.even(l) and all(x["k"] != "N" for x in l)

    def fams(self, idxs):
        """Kinds of each path over several registers agree, or are shared by all (then numpy wins)."""
        by: dict = {}
        for i in idxs:
            for x in read(self.regs[i], self.shapes):
                if x["k"] not in "RN":
                    by.setdefault(tuple(x["p"]), []).append(x["k"])
        live = sum(1 for i in idxs if list(self.regs[i].keys()))
        return all(len(set(k)) == 1 or len(k) == live for k in by.values())

    # -------------------------------------------------------- operations
    def op_new(self):
        d = self.rng.randrange(len(self.regs))
        r = self.rng
        n = r.randint(1, 5)
        ps = self.paths if r.random() < 0.75 else r.sample(self.paths, r.randint(0, len(self.paths)))
        ls = self.leaves(n, ps, none_prob=0.06)
        ways = [lambda: build(ls, self.shapes), lambda: Batch(**build(ls, self.shapes, True)),
                lambda: Batch(build(ls, self.shapes, True), copy=True), lambda: Batch(build(ls, self.shapes))]
        self.do({"op": "new", "a": d + 1, "v": ls}, r.choice(ways), d)

    def op_rows(self):
        a = self.pickreg(self.full)
        if a is None:
            return
        d = self.rng.randrange(len(self.regs))
        ix, py = self.index(len(self.regs[a]), single=False)
        self.do({"op": "rows", "a": a + 1, "ix": ix}, lambda: copy.deepcopy(self.regs[a][py]), d)

    def op_assign(self):
        a = self.pickreg(self.noN)
        if a is None:
            return
        r = self.rng
        b = self.regs[a]
        n = len(b)
        ix, py = self.index(n)
        idx = np.arange(n)[py]
        m = np.size(idx)
        row = ix["t"] == "i"
        if not row and r.random() < 0.2:
            m = 1  # one row for all
        here = read(b, self.shapes)
        ls = []
        for x in here:
            if x["k"] == "R":
                if r.random() < 0.7:
                    ls.append(dict(x))
            elif r.random() < 0.75:
                ls.append({"p": x["p"], "k": x["k"], "v": self.vals(x["k"], m)})
        drop = {tuple(x["p"][:1]) for x in here} if r.random() < 0.15 else set()
        if drop:
            k = r.choice(sorted(drop))
            ls = [x for x in ls if tuple(x["p"][:1]) != k]
        if r.random() < 0.1:
            ls.append({"p": [["zz"], ["b", "zz"], ["f", "zz"]][r.randrange(3)], "k": "ni", "v": self.vals("ni", m)})
        # a reserved entry of the value must not hide part of a nested entry
        v = build(ls, self.shapes, as_dict=r.random() < 0.5, row=row)
        self.do({"op": "assign", "a": a + 1, "ix": ix, "v": ls}, lambda: b.__setitem__(py, v), a)
        if self.ev[-1]["err"]:
            pass

    def op_empty(self):
        a = self.pickreg(self.full)
        if a is None:
            return
        r = self.rng
        b = self.regs[a]
        ix, py = self.index(len(b))
        if r.random() < 0.3:
            ix, py = {"t": "all", "v": []}, None
        d = r.choice([a, r.randrange(len(self.regs))])
        if d == a and r.random() < 0.7:
            self.do({"op": "empty", "a": a + 1, "ix": ix}, lambda: (b.empty_(py), None)[1], a)
        else:
            self.do({"op": "empty", "a": a + 1, "ix": ix}, lambda: Batch.empty(b, py), d)

    def op_cat(self):
        r = self.rng
        c = [i for i, b in enumerate(self.regs) if not list(b.keys()) or self.noN(b, read(b, self.shapes))]
        if not c:
            return
        bs = [r.choice(c) for _ in range(r.randint(1, 3))]
        if not self.fams(bs) or sum(len(self.regs[i]) for i in bs) > 8:
            return
        d = r.randrange(len(self.regs))
        if r.random() < 0.4 and list(self.regs[bs[0]].keys()):
            a = bs[0]
            rest = [self.regs[i] for i in bs[1:]]
            arg = rest[0] if len(rest) == 1 and r.random() < 0.5 else rest
            self.do({"op": "cat_", "a": a + 1, "bs": [i + 1 for i in bs]}, lambda: self.regs[a].cat_(arg), a)
        else:
            arg = [self.regs[i] if r.random() < 0.8 else self.regs[i].to_dict() if not any(
                x["k"] == "R" for x in read(self.regs[i], self.shapes)) else self.regs[i] for i in bs]
            self.do({"op": "cat", "a": bs[0] + 1, "bs": [i + 1 for i in bs]}, lambda: Batch.cat(arg), d)

    def op_stackrows(self):
        r = self.rng
        rows = []
        for _ in range(r.randint(1, 4)):
            ps = [p for p in self.paths if r.random() < 0.75]
            rows.append([x for x in self.leaves(1, ps, 0.1)])
        if not stackable([skeleton(x) for x in rows]):
            return
        d = r.randrange(len(self.regs))
        objs = [build(x, self.shapes, as_dict=r.random() < 0.4, row=True) for x in rows]
        way = r.randrange(3)
        fn = [lambda: Batch.stack(objs), lambda: Batch(objs), lambda: Batch(x=objs).x][way]
        if way == 2 and not any(rows):
            return
        self.do({"op": "stackrows", "a": d + 1, "vs": rows}, fn, d)

    def op_stack(self):
        r = self.rng
        a = self.pickreg(self.noN)
        if a is None:
            return
        n = len(self.regs[a])
        c = [i for i, b in enumerate(self.regs) if self.noN(b, read(b, self.shapes)) and len(b) == n]
        bs = [a] + [r.choice(c) for _ in range(r.randint(0, 2))]
        if not self.fams(bs):
            return
        if not stackable([skeleton(read(self.regs[i], self.shapes)) for i in bs]):
            return
        axis = r.choice([0, 0, 1])
        if axis and len({str([x["p"] for x in read(self.regs[i], self.shapes)]) for i in bs}) > 1 and len(
                {str([x["p"] for x in read(self.regs[i], self.shapes) if x["k"] != "R"]) for i in bs}) == 1:
            return
        e = {"op": "stack", "a": a + 1, "dst": 1, "bs": [i + 1 for i in bs], "axis": axis, "res": []}

        def fn():
            e["res"] = read(Batch.stack([self.regs[i] for i in bs], axis=axis), self.shapes, extra=1)

        self.do(e, fn)

    def op_update(self):
        r = self.rng
        a = r.randrange(len(self.regs))
        b = self.regs[a]
        n = len(b) or r.randint(1, 4)
        ps = [p for p in self.paths if r.random() < 0.5]
        ls = self.leaves(n, ps, none_prob=0.05)
        v = build(ls, self.shapes, as_dict=r.random() < 0.4)
        kw = r.random() < 0.3 and bool(ls)
        self.do({"op": "update", "a": a + 1, "v": ls},
                lambda: b.update(**(v if isinstance(v, dict) else v.__dict__)) if kw else b.update(v), a)

    def op_arith(self):
        if not self.num:
            return
        r = self.rng
        a = self.pickreg(lambda b, l: self.noN(b, l) and all(abs(v) < 10**6 for x in l for v in x["v"]))
        if a is None:
            return
        b = self.regs[a]
        d = r.randrange(len(self.regs))
        what = r.choice(["addnum", "mulnum", "addbatch", "addbatch"] + ["divnum"] * self.allfloat)
        c = r.choice([2, -2, 4])
        inpl = r.random() < 0.5
        if what == "addbatch":
            l0 = read(b, self.shapes)
            c2 = [i for i, x in enumerate(self.regs) if i != a and self.noN(x, read(x, self.shapes))
                  and [(y["p"], y["k"], len(y["v"])) for y in read(x, self.shapes)] == [(y["p"], y["k"], len(y["v"])) for y in l0]]
            if not c2:
                return
            o = r.choice(c2)
            other = self.regs[o]
            if r.random() < 0.5:  # the order of the keys does not matter
                other = Batch({k: other[k] for k in sorted(other.keys(), reverse=True)})
            e = {"op": "addbatch", "a": a + 1, "bs": [o + 1]}
            if inpl:
                self.do(e, lambda: b.__iadd__(other), a)
            else:
                self.do(e, lambda: b + other, d)
            return
        if what == "divnum":
            c = 2
            if any(x["k"][1:] == "i" for x in read(b, self.shapes)) or not all(v % 2 == 0 for x in read(b, self.shapes) for v in x["v"]):
                return
        e = {"op": what, "a": a + 1, "c": c}
        f = {"addnum": (lambda: b.__iadd__(c), lambda: b + c), "mulnum": (lambda: b.__imul__(c), lambda: b * c),
             "divnum": (lambda: b.__itruediv__(c), lambda: b / c)}[what]
        if inpl:
            self.do(e, f[0], a)
        else:
            self.do(e, f[1], d)

    def op_conv(self):
        r = self.rng
        a = r.randrange(len(self.regs))
        b = self.regs[a]
        d = r.randrange(len(self.regs))
        if r.random() < 0.5:
            if r.random() < 0.5:
                self.do({"op": "tonumpy", "a": a + 1}, lambda: b.to_numpy_(), a)
            else:
                self.do({"op": "tonumpy", "a": a + 1}, r.choice([lambda: b.to_numpy(), lambda: to_numpy(b)]), d)
        else:
            if any(x["k"] in "oN" for x in read(b, self.shapes)):
                return
            if r.random() < 0.5:
                self.do({"op": "totorch", "a": a + 1}, lambda: b.to_torch_(), a)
                # from_numpy shares memory with the arrays it was given; nobody else holds them
            else:
                self.do({"op": "totorch", "a": a + 1}, r.choice([lambda: b.to_torch(), lambda: to_torch(b)]), d)

    def op_copy(self):
        r = self.rng
        a, d = r.randrange(len(self.regs)), r.randrange(len(self.regs))
        b = self.regs[a]
        ways = [lambda: copy.deepcopy(b), lambda: Batch(b, copy=True), lambda: pickle.loads(pickle.dumps(b)),
                lambda: Batch(copy.deepcopy(b.to_dict()))]
        if any(x["k"] == "R" for x in read(b, self.shapes)):
            ways = ways[:3]
        self.do({"op": "copy", "a": a + 1}, r.choice(ways), d)

    def nonull_t(self, b, l):
        return self.even(l) and all(x["k"][0] != "t" for x in l)

    def op_null(self):
        r = self.rng
        a = self.pickreg(self.nonull_t)
        if a is None:
            return
        b = self.regs[a]
        w = r.choice(["isnull", "hasnull", "dropnull"])
        if w == "dropnull":
            if any(x["k"] == "N" for x in read(b, self.shapes)) and False:
                return
            self.do({"op": w, "a": a + 1}, lambda: b.dropnull(), r.randrange(len(self.regs)))
            return
        e = {"op": w, "a": a + 1, "dst": 1, "res": [], "val": 0}
        if w == "isnull":
            if any(x["k"] == "N" for x in read(b, self.shapes)):
                return

            def fn():
                e["res"] = read(b.isnull(), self.shapes)
        else:

            def fn():
                e["val"] = int(b.hasnull())

        self.do(e, fn)

    def op_setkey(self):
        r = self.rng
        a = self.pickreg(self.noN)
        if a is None:
            return
        b = self.regs[a]
        n = len(b)
        heads = sorted({x["p"][0] for x in read(b, self.shapes)})
        key = r.choice(heads + ["z1", "z2"])
        if r.random() < 0.4:
            ix, py, m = {"t": "none", "v": []}, None, n if r.random() < 0.8 else n + 1
        else:
            ix, py = self.index(n, single=False)
            m = len(np.arange(n)[py])
        cur = b.get(key)
        if isinstance(cur, torch.Tensor) or (isinstance(cur, np.ndarray) and (cur.ndim > 1 or cur.dtype == object)) or (
                py is None and "/".join([key]) in self.shapes and self.shapes[key]):
            return
        k = "ni"
        if isinstance(cur, np.ndarray):
            k = kind(cur)
        vs = self.vals(k, m)
        df = r.choice([0, 6])
        if k == "nb":
            return
        if isinstance(cur, Batch) and py is None and m == n and key in [p[0] for p in self.paths]:
            return
        arr = np.array(vs, dtype=NP[k])
        self.do({"op": "setkey", "a": a + 1, "key": key, "k": k, "ix": ix, "vals": vs, "dflt": df},
                lambda: b.set_array_at_key(arr, key, index=py, default_value=df), a)

    def op_pop(self):
        r = self.rng
        a = r.randrange(len(self.regs))
        b = self.regs[a]
        heads = sorted({x["p"][0] for x in read(b, self.shapes)})
        key = r.choice(heads + ["nokey"])
        w = r.randrange(2) if key in heads else 0
        self.do({"op": "pop", "a": a + 1, "key": key}, [lambda: (b.pop(key), None)[1], lambda: b.__delattr__(key)][0 if w == 0 else 1], a)

    def op_split(self):
        r = self.rng
        a = self.pickreg(self.noN)
        if a is None:
            return
        b = self.regs[a]
        size, sh, me = r.choice([-1, 1, 2, 3, 4, 6]), r.randint(0, 1), r.randint(0, 1)
        e = {"op": "split", "a": a + 1, "dst": 1, "size": size, "shuffle": sh, "merge": me, "pieces": []}

        def fn():
            ps = list(b.split(size, shuffle=bool(sh), merge_last=bool(me)))
            e["pieces"] = [read(p, self.shapes) for p in ps]
            for p in ps:  # pieces are copies
                p.empty_()

        self.do(e, fn)

    def op_look(self):
        r = self.rng
        w = r.choice(["eq", "eq", "len", "listofdicts"])
        if w == "eq":
            def nonan(b, l):
                return not any(x["k"][1:] == "f" and NULL in x["v"] for x in l)
            a, b = self.pickreg(nonan), self.pickreg(nonan)
            if a is None:
                return
            e = {"op": "eq", "a": a + 1, "bs": [b + 1], "dst": 1, "val": 0}

            def fn():
                o = self.regs[b]
                if r.random() < 0.5:
                    o = Batch({k: o[k] for k in sorted(o.keys(), reverse=True)})
                e["val"] = int(self.regs[a] == o)
            self.do(e, fn)
            return
        a = self.pickreg(self.noN)
        if a is None:
            return
        b = self.regs[a]
        e = {"op": w, "a": a + 1, "dst": 1, "val": 0, "vs": []}

        def fn2():
            if w == "len":
                e["val"] = len(b)
                e["vs"] = [read(x, self.shapes, row=True) for x in b]
            else:
                e["vs"] = [read(Batch(x), self.shapes, row=True) for x in b.to_list_of_dicts()]
        self.do(e, fn2)


WEIGHTS = {"new": 3, "rows": 3, "assign": 5, "empty": 2, "cat": 6, "stackrows": 3, "stack": 2, "update": 1.5, "arith": 3, "conv": 2,
           "copy": 1.5, "null": 2, "setkey": 1.5, "pop": 0.5, "split": 3, "look": 3}


def random_trace(seed, nops):
    d = BatchDriver(seed)
    ops = list(WEIGHTS)
    for _ in range(nops):
        o = d.rng.choices(ops, [WEIGHTS[x] for x in ops])[0]
        getattr(d, "op_" + o)()
    return d.ev


def sched_trace(walk, seed):
    """A walk through MCBatch's graph on a real batch."""
    d = BatchDriver(seed, nregs=2)
    d.paths = [["a"], ["b", "c"], ["b", "o"]]
    d.nulls = d.num = False
    d.kinds = {"a": "ni", "b/c": d.rng.choice(["ni", "nf", "ti"]), "b/o": "o"}
    d.shapes = {"a": (), "b/c": d.rng.choice([(), (2,)]), "b/o": ()}

    def mk(flags, n, reserved):
        return [{"p": p, "k": d.kinds["/".join(p)], "v": d.vals(d.kinds["/".join(p)], n)} if f
                else {"p": p, "k": "R", "v": []} for p, f in zip(d.paths, flags) if f or reserved]

    d.regs = [build(mk([1, 0, 0], 1, True), d.shapes), Batch()]
    d.ev = [{"op": "start", "regs": d.snap()}]
    for a in walk:
        b = d.regs[0]
        if a["op"] == "cat":
            ls = mk(a["d"], a["c"], True)
            d.do({"op": "new", "a": 2, "v": ls}, lambda: build(ls, d.shapes), 1)
            if a["front"]:
                d.do({"op": "cat", "a": 2, "bs": [2, 1]}, lambda: Batch.cat([d.regs[1], b]), 0)
            elif d.rng.random() < 0.5:
                d.do({"op": "cat_", "a": 1, "bs": [1, 2]}, lambda: b.cat_([d.regs[1]]), 0)
            else:
                d.do({"op": "cat", "a": 1, "bs": [1, 2]}, lambda: Batch.cat([b, d.regs[1]]), 0)
        elif a["op"] == "rows":
            d.do({"op": "rows", "a": 1, "ix": {"t": "a", "v": a["idx"]}}, lambda: b[np.array(a["idx"])], 0)
        elif a["op"] == "assign":
            ls = mk(a["d"], 1, False)
            d.do({"op": "assign", "a": 1, "ix": {"t": "i", "v": [a["idx"]]}, "v": ls},
                 lambda: b.__setitem__(a["idx"], build(ls, d.shapes, row=True)), 0)
        elif a["op"] == "empty":
            d.do({"op": "empty", "a": 1, "ix": {"t": "i", "v": [a["idx"]]}}, lambda: (b.empty_(a["idx"]), None)[1], 0)
    return d.ev
