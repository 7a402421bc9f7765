"""Small integer-valued networks standing in for the networks of the algorithms.

Every network has the trained values p[0..3] and the untrained value `stat`.
Formulas (o observation token, a action number from 0):
  value(o, a) = 3 ((2 o + 3 a o + a) mod 5) + a + 3 p[a] + p[3]   (p[a] = p[0..2])
"""
from __future__ import annotations

import numpy as np
import torch

from tianshou.data import Batch

A = 3  # actions
NQ = 4  # quantiles or atoms


def base(o, a):
    return 3 * ((2 * o + 3 * a * o + a) % 5) + a


def tok(obs):
    """token per row of observations of any type"""
    x = obs.detach().numpy() if isinstance(obs, torch.Tensor) else np.asarray(obs)
    return torch.as_tensor(x, dtype=torch.float64).reshape(len(x), -1)[:, 0]


class Net(torch.nn.Module):
    def __init__(self, p):
        super().__init__()
        self.head = torch.nn.Module()
        self.p = torch.nn.Parameter(torch.tensor([float(x) for x in p[:3]], dtype=torch.float64))
        self.head.q = torch.nn.Parameter(torch.tensor([float(p[3])], dtype=torch.float64))
        self.register_buffer("stat", torch.tensor([float(p[4])], dtype=torch.float64))
        self.max_action, self.output_dim, self.device = 1.0, A, "cpu"
        self.log = None

    def note(self, o):
        if self.log is not None and torch.is_grad_enabled():
            self.log.append([int(x) for x in o])

    def table(self, o):
        self.note(o)
        a = torch.arange(A, dtype=torch.float64)[None]
        o = o[:, None]
        return 3 * ((2 * o + 3 * a * o + a) % 5) + a + 3 * self.p[None] + self.head.q


class QNet(Net):
    """DQN"""

    def forward(self, obs, state=None, info=None):
        return self.table(tok(obs)), state


class C51Net(Net):
    """all probability on the atom numbered value mod NQ when `hard`, otherwise atom j has probability 2^-(j+1)"""
    soft = False

    def forward(self, obs, state=None, info=None):
        v = self.table(tok(obs))
        n = torch.arange(NQ, dtype=torch.float64)
        if torch.is_grad_enabled():
            # probabilities of the learning network: their logarithms are multiples of ln 2
            d = (2.0 ** -(n + 1))[None, None].expand(*v.shape, NQ)
            return d + 0 * v[..., None], state
        return (n[None, None] == (torch.floor(v) % NQ)[..., None]).double(), state


class QRNet(Net):
    def forward(self, obs, state=None, info=None):
        v = self.table(tok(obs))
        return v[..., None] + torch.arange(NQ, dtype=torch.float64)[None, None], state


class IQNNet(Net):
    def forward(self, obs, sample_size, state=None, info=None):
        v = self.table(tok(obs))
        n = torch.arange(sample_size, dtype=torch.float64)
        return (v[..., None] + n[None, None], torch.full((len(v), sample_size), 0.5, dtype=torch.float64)), state


class FQFNet(Net):
    def forward(self, obs, propose_model=None, fractions=None, state=None, info=None):
        v = self.table(tok(obs))
        b = len(v)
        if fractions is None:
            taus = torch.linspace(0, 1, NQ + 1, dtype=torch.float64)[None].repeat(b, 1) + 0 * propose_model.w
            fractions = Batch(taus=taus, tau_hats=((taus[:, 1:] + taus[:, :-1]) / 2).detach(), entropies=0 * taus.sum(1))
        lg = v[..., None] + torch.arange(NQ, dtype=torch.float64)[None, None]
        return (lg, fractions, lg[..., 1:].detach()), state


class Frac(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))


class BDQNet(Net):
    """branch k sees the observation o + k"""
    num_branches, action_per_branch = 2, A

    def forward(self, obs, state=None, info=None):
        o = tok(obs)
        return torch.stack([self.table(o + k) for k in range(self.num_branches)], 1), state


class Actor(Net):
    """action = value(o, 0) mod 3 - 1"""

    def forward(self, obs, state=None, info=None):
        v = self.table(tok(obs))[:, :1]
        return (torch.floor(v) % 3 - 1) + 0 * v, state


class SActor(Net):
    """a normal distribution that is, after tanh, (almost) always at value(o, 0) mod 3 - 1;
    with `ent`: at 0, where the logarithm of its density is value(o, 0) mod 3"""
    ent = False

    def forward(self, obs, state=None, info=None):
        v = self.table(tok(obs))[:, :1]
        if self.ent:
            return (0 * v, torch.exp(-(torch.floor(v).detach() % 3) - 0.5 * np.log(2 * np.pi)) + 0 * v), state
        return ((25 * (torch.floor(v) % 3 - 1) + 0 * v), torch.full_like(v, 1e-6)), state


class Critic(Net):
    """value(o, action + 1) (the action rounded)"""
    f32 = False

    def forward(self, obs, act=None, info=None):
        if self.f32:
            self.f32 = False
            try:
                return self.forward(obs, act).float()
            finally:
                self.f32 = True
        t = self.table(tok(obs))
        if act is None:
            return t
        a = act if isinstance(act, torch.Tensor) else torch.as_tensor(np.asarray(act), dtype=torch.float64)
        a = a.reshape(len(t), -1)[:, :1].double()
        k = torch.clamp(torch.round(a.detach()), -1, 1).long() + 1
        return t.gather(1, k) + 0 * a


class Ens(Net):
    """three critics: value(o + e, action + 1)"""
    E = 3

    def forward(self, obs, act):
        o = tok(obs)
        a = act if isinstance(act, torch.Tensor) else torch.as_tensor(np.asarray(act), dtype=torch.float64)
        a = a.reshape(len(o), -1)[:, :1].double()
        k = torch.clamp(torch.round(a.detach()), -1, 1).long() + 1
        return torch.stack([self.table(o + e).gather(1, k) + 0 * a for e in range(self.E)])


class DActor(Net):
    """logits that put all probability on the best action, with `ent`: the same on all"""
    ent = False

    def forward(self, obs, state=None, info=None):
        v = self.table(tok(obs))
        if self.ent:
            return 0 * v, state
        best = torch.nn.functional.one_hot(v.argmax(1), A).double()
        return 2000 * best + 0 * v, state


class Pert(Net):
    """BCQ's perturbation"""

    def forward(self, obs, act):
        return act + 0 * self.table(tok(obs))[:, :1]


class Vae(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))

    def forward(self, obs, act):
        z = 0 * self.w * tok(obs)[:, None]
        return act + z, z, z + 1

    def decode(self, obs):
        o = tok(obs)[:, None]
        return (o % 3 - 1) + 0 * self.w
