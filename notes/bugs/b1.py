BUGS = []
PRE = '''
import numpy as np
'''
BUGS.append(dict(id="c02-surplus-hidden", prop="C02", file="tianshou/data/collector.py",
 old="last_hidden_state_RH = last_hidden_state_RH[env_should_remain_R]  # type: ignore[index]",
 new="last_hidden_state_RH = last_hidden_state_RH[: len(ready_env_ids_R)]  # type: ignore[index]",
 needs="a recurrent policy, n_episode collection, and an environment other than the last one dropped as surplus while later ones go on",
 breaks="the remaining environments continue with the recurrent state of another environment",
 demo='''
import gymnasium as gym, numpy as np
from tianshou.data import Batch, Collector, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.policy import BasePolicy

class E(gym.Env):
    def __init__(self, i, n):
        self.i, self.n = i, n
        self.action_space = gym.spaces.Discrete(2)
        self.observation_space = gym.spaces.Box(-1, 100, (1,))
    def reset(self, *, seed=None, options=None):
        self.k = 0
        return np.array([float(self.i)]), {}
    def step(self, a):
        self.k += 1
        return np.array([float(self.i)]), 1.0, self.k >= self.n, False, {}

class P(BasePolicy):
    bad = False
    def learn(self, *a, **k): ...
    def forward(self, batch, state=None, **kw):
        own = np.asarray(batch.obs)[:, 0]
        if state is not None:
            s = np.asarray(state)[:, 0]
            self.bad |= bool(np.any((s != 0) & (s != own + 1)))
        return Batch(act=np.zeros(len(own), int), state=np.stack([own + 1, own + 1], 1))

lens = [1, 3, 4]
p = P(action_space=gym.spaces.Discrete(2), action_scaling=False)
c = Collector(p, DummyVectorEnv([lambda i=i, n=n: E(i, n) for i, n in enumerate(lens)]), VectorReplayBuffer(60, 3))
c.reset()
c.collect(n_episode=3)
assert not p.bad, "an environment got the recurrent state of another one"
'''))
BUGS.append(dict(id="c04-info-after-reset", prop="C04", file="tianshou/data/collector.py",
 old="self._current_info_in_all_envs_E[ready_env_id] = last_info_R[idx]",
 new="self._current_info_in_all_envs_E[ready_env_id] = info_R[idx]",
 needs="an environment that answered last in a call to collect with the end of its episode; seen only by the first policy call of the next collect",
 breaks="the policy gets the info of the finished episode's last step with the first observation of the next episode",
 demo='''
import gymnasium as gym, numpy as np
from tianshou.data import Batch, AsyncCollector, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.policy import BasePolicy

class E(gym.Env):
    def __init__(self, n):
        self.n = n
        self.action_space = gym.spaces.Discrete(2)
        self.observation_space = gym.spaces.Box(-1, 100, (1,))
    def reset(self, *, seed=None, options=None):
        self.k = 0
        return np.array([0.0]), {"k": 0}
    def step(self, a):
        self.k += 1
        return np.array([float(self.k)]), 1.0, self.k >= self.n, False, {"k": self.k}

class P(BasePolicy):
    bad = False
    def learn(self, *a, **k): ...
    def forward(self, batch, state=None, **kw):
        self.bad |= bool(np.any(np.asarray(batch.obs)[:, 0] != np.asarray(batch.info.k)))
        return Batch(act=np.zeros(len(batch.obs), int))

p = P(action_space=gym.spaces.Discrete(2), action_scaling=False)
c = AsyncCollector(p, DummyVectorEnv([lambda n=n: E(n) for n in (2, 3)], wait_num=1), VectorReplayBuffer(60, 2))
c.reset()
for _ in range(12):
    c.collect(n_step=2)
assert not p.bad, "observation and info do not belong together"
'''))
BUGS.append(dict(id="b07-moved-weights", prop="B07", file="tianshou/data/buffer/prio.py",
 old="""        indices = super().update(buffer)
        self.init_weight(indices)""",
 new="""        indices = super().update(buffer)
        self.init_weight(indices[-1:])""",
 needs="moving more than one transition from another buffer into a prioritized one (update), e.g. merging buffers of workers",
 breaks="moved transitions keep the weight of what was in the slot before, those in fresh slots can never be sampled",
 demo='''
import numpy as np
from tianshou.data import Batch, PrioritizedReplayBuffer, ReplayBuffer
b, p = ReplayBuffer(6), PrioritizedReplayBuffer(10, alpha=0.6, beta=0.4)
for i in range(5):
    b.add(Batch(obs=i, act=0, rew=0.0, terminated=i == 4, truncated=False, obs_next=i + 1, info={}))
idx = p.update(b)
w = p.get_weight(idx)
assert np.allclose(w, w[0]) and w[0] > 0, w
np.random.seed(0)
assert set(p.sample_indices(400)) == set(range(5))
'''))
BUGS.append(dict(id="b05-last-index", prop="B05", file="tianshou/data/buffer/cached.py",
 old="            self._lengths[buffer_idx] = 0\n", new="            self._lengths[buffer_idx] = self.buffers[buffer_idx].maxsize if len(index) < 2 else 0\n",
 needs="an episode of a single step that is moved to the main buffer", breaks="len and sampling count the empty cache as full, so that stale transitions are sampled as if they were stored",
 demo='''
import numpy as np
from tianshou.data import Batch, CachedReplayBuffer, ReplayBuffer
c = CachedReplayBuffer(ReplayBuffer(20), 2, 5)
def add(o, t, ids):
    n = len(ids)
    c.add(Batch(obs=np.array(o), act=np.zeros(n), rew=np.zeros(n), terminated=np.array(t), truncated=np.zeros(n, bool), obs_next=np.array(o), info=np.array([{}] * n)), ids)
add([1, 11], [False, False], [0, 1])
add([2, 12], [True, False], [0, 1])
add([3], [True], [0])
assert len(c) == 5, len(c)
'''))
BUGS.append(dict(id="b03-her-dummy", prop="B03", file="tianshou/data/buffer/manager.py",
 old="            end_flag = done[subind] | (subind == last)\n", new="            end_flag = done[subind] | ((subind == last) & (cur_len < end - start))\n",
 needs="a sub-buffer of a vector buffer that is full and has wrapped around, asked for the successor of its newest transition of an unfinished episode",
 breaks="next leaves the newest transition and goes to the oldest stored one of another episode",
 demo='''
import numpy as np
from tianshou.data import Batch, VectorReplayBuffer
b = VectorReplayBuffer(8, 2)
for i in range(6):
    b.add(Batch(obs=np.array([i, i]), act=np.zeros(2), rew=np.zeros(2), terminated=np.array([i == 2] * 2), truncated=np.zeros(2, bool), obs_next=np.array([i, i]), info=np.array([{}] * 2)))
assert np.all(b.next(b.last_index) == b.last_index), b.next(b.last_index)
'''))
BUGS.append(dict(id="e03-norm-partial", prop="E03", file="tianshou/env/venv_wrappers.py",
 old="        if self.obs_rms and self.update_obs_rms:\n            self.obs_rms.update(obs)\n        obs = self._norm_obs(obs)",
 new="        obs_norm = self._norm_obs(obs)\n        if self.obs_rms and self.update_obs_rms:\n            self.obs_rms.update(obs)\n        obs = obs_norm",
 needs="comparing a reset's observation with the statistics at that moment", breaks="reset observations are normalised with the statistics that lack them",
 demo='''
import gymnasium as gym, numpy as np
from tianshou.env import DummyVectorEnv, VectorEnvNormObs
class E(gym.Env):
    def __init__(self, i):
        self.i = i
        self.action_space = gym.spaces.Discrete(2)
        self.observation_space = gym.spaces.Box(-9, 9, (2,))
    def reset(self, *, seed=None, options=None):
        return np.full(2, self.i * 5.0), {}
    def step(self, a):
        return np.full(2, self.i * 2.0), 0.0, False, False, {}
v = VectorEnvNormObs(DummyVectorEnv([lambda i=i: E(i) for i in range(3)]))
o, _ = v.reset()
v.step(np.zeros(3, int))
o, _ = v.reset([2])
assert np.allclose(o[0], v.get_obs_rms().norm(np.full(2, 10.0))), o
'''))
