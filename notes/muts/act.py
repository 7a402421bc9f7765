B="tianshou/policy/base.py"; D="tianshou/policy/modelfree/dqn.py"; W="tianshou/env/gym_wrappers.py"
MUTS=[
("R05",B,"act = np.clip(act, -1.0, 1.0)","act = np.clip(act, -1.0, None)"),
("R05",B,"act = np.tanh(act)","act = np.clip(act, -1.0, 1.0)"),
("R05",B,"act = low + (high - low) * (act + 1.0) / 2.0\n","act = low + (high - low) * act\n"),
("R05",B,"act = low + (high - low) * (act + 1.0) / 2.0\n","act = (low + high) / 2.0 + high * act\n"),
("R05",B,"act = np.clip(act, low, high)\n","pass\n"),
("R05",B,"            if self.action_scaling:\n                assert (","            if self.action_scaling and act.ndim > 1:\n                assert ("),
("R05",B,"np.min(act) >= -1.0 and np.max(act) <= 1.0","np.min(act) >= -1.0 and np.min(act) <= 1.0"),
("R05",B,"scale[scale < eps] += eps","pass"),
("R05",B,"act = (act - low) * 2.0 / scale - 1.0","act = (act - low) * 2.0 / scale.max() - 1.0"),
("R05",B,"act = (np.log(1.0 + act) - np.log(1.0 - act)) / 2.0","act = np.log(1.0 + act) - np.log(1.0 - act)"),
("R05",B,"            act = int(act)  # type: ignore","            pass"),
("R05",B,"        act = self.map_action(act)\n        if isinstance(self.action_space, Discrete)","        if isinstance(self.action_space, Discrete)"),
("R05",D,"rand_mask = np.random.rand(bsz) < self.eps","rand_mask = np.random.rand(bsz) > self.eps"),
("R05",D,"                q += batch.obs.mask","                q *= batch.obs.mask[:1]"),
("R05",D,"            if hasattr(batch.obs, \"mask\"):\n                q +=","            if False:\n                q +="),
("R05",D,"q = np.random.rand(bsz, self.max_action_num)","q = np.random.rand(bsz, self.max_action_num) ** np.arange(1, 1 + self.max_action_num)"),
("R05",D,"act[rand_mask] = rand_act[rand_mask]","act[:] = np.where(rand_mask.any(), rand_act, act)"),
("R05","tianshou/policy/modelfree/bdq.py","high=self._action_per_branch","high=self._action_per_branch - 1"),
("R05","tianshou/policy/modelfree/bdq.py","high=self._action_per_branch","high=self._action_per_branch + 1"),
("R05","tianshou/policy/modelfree/ddpg.py","return act + self._exploration_noise(act.shape)","act += self._exploration_noise(act.shape)\n            return act"),
("R05","tianshou/policy/random.py","logits[~mask] = -np.inf","logits[~mask] = 0.01"),
("R05",W,"np.linspace(lo, hi, a)","np.linspace(lo, hi, a, endpoint=False)"),
("R05",W,"self.bases[i] = self.bases[i - 1] * nvec[-i]","self.bases[i] = self.bases[i - 1] * nvec[i]"),
("R05",W,"terminated = terminated or truncated","terminated = terminated or truncated\n        truncated = False"),
("R05",W,"for a_ in act])","for a_ in act[:1]])"),
("R05","tianshou/data/collector.py","act_RA = self.policy.map_action_inverse(np.array(act_normalized_RA))","act_RA = np.array(act_normalized_RA)"),
("R05","tianshou/data/collector.py","            act_normalized_RA = self.policy.map_action(act_RA)","            act_RA = act_normalized_RA = self.policy.map_action(act_RA)"),

]
