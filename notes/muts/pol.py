P = "tianshou/policy/"
M = P + "modelfree/"
I = P + "imitation/"
MUTS = [
 ("R04", M + "dqn.py", "if self._target and self._iter % self.freq == 0:", "if self._target and (self._iter + 1) % self.freq == 0:"),
 ("R04", M + "dqn.py", "        self.optim.step()\n        self._iter += 1", "        self.optim.step()\n        self._iter += len(batch) > 1"),
 ("R04", M + "dqn.py", "        self.model_old.load_state_dict(self.model.state_dict())", "        for o, n in zip(self.model_old.parameters(), self.model.parameters()):\n            o.data.copy_(n.data)"),
 ("R04", M + "dqn.py", "        self.training = mode\n        self.model.train(mode)", "        self.training = mode\n        self.model.train(mode)\n        if self._target:\n            self.model_old.train(mode)"),
 ("R04", M + "dqn.py", "            self.model_old = deepcopy(self.model)\n            self.model_old.eval()", "            self.model_old = deepcopy(self.model)"),
 ("R04", P + "base.py", "tau * src_param.data + (1 - tau) * tgt_param.data", "(1 - tau) * src_param.data + tau * tgt_param.data"),
 ("R04", P + "base.py", "for tgt_param, src_param in zip(tgt.parameters(), src.parameters(), strict=True):", "for tgt_param, src_param in zip(tgt.children(), src.children(), strict=True):\n          for tgt_param, src_param in zip(tgt_param.parameters(), src_param.parameters(), strict=True):"),
 ("R04", M + "td3.py", "        self.soft_update(self.critic2_old, self.critic2, self.tau)\n", "        self.soft_update(self.critic2_old, self.critic, self.tau)\n"),
 ("R04", M + "td3.py", "            self.actor_optim.step()\n            self.sync_weight()", "            self.actor_optim.step()\n        self.sync_weight()"),
 ("R04", M + "td3.py", "if self._cnt % self.update_actor_freq == 0:", "if self._cnt % self.update_actor_freq == self.update_actor_freq - 1:"),
 ("R04", M + "redq.py", "        self.critic_gradient_step += 1\n\n        alpha_loss = None", "        alpha_loss = None"),
 ("R04", M + "redq.py", "o.data.copy_(o.data * (1.0 - self.tau) + n.data * self.tau)", "o.data.copy_(n.data * (1.0 - self.tau) + o.data * self.tau)"),
 ("R04", M + "sac.py", "        self.soft_update(self.critic2_old, self.critic2, self.tau)", "        pass"),
 ("R04", M + "sac.py", "            self.alpha_optim.step()\n", ""),
 ("R04", M + "discrete_sac.py", "        self.sync_weight()\n\n        if self.is_auto_alpha:\n", "        if self.is_auto_alpha:\n            self.sync_weight()\n"),
 ("R04", I + "cql.py", "        self.soft_update(self.critic_old, self.critic, self.tau)\n        self.soft_update(self.critic2_old, self.critic2, self.tau)", "        self.soft_update(self.critic_old, self.critic, self.tau)\n        self.soft_update(self.critic2_old, self.critic2, self.tau)\n        self.soft_update(self.actor_old, self.actor, self.tau)\n        self.critic2_old.train()"),
 ("R04", I + "bcq.py", "        self.soft_update(self.actor_perturbation_target, self.actor_perturbation, self.tau)", "        pass"),
 ("R04", I + "discrete_bcq.py", "        if self._iter % self.freq == 0:\n            self.sync_weight()\n        self._iter += 1", "        self._iter += 1\n        if self._iter % self.freq == 0:\n            self.sync_weight()"),
 ("R04", I + "discrete_crr.py", "        self.critic_old.load_state_dict(self.critic.state_dict())", "        pass"),
 ("R04", I + "discrete_cql.py", "        self._iter += 1\n", ""),
 ("R04", M + "bdq.py", "        self.optim.step()\n        self._iter += 1", "        self._iter += 1"),
 ("R07", M + "dqn.py", 'target_q = self(obs_next_batch, model="model_old").logits', "target_q = result.logits"),
 ("R07", M + "dqn.py", "            obs=buffer[indices].obs_next,\n            info=[None] * len(indices),\n        )  # obs_next: s_{t+n}\n        result", "            obs=buffer[indices].obs,\n            info=[None] * len(indices),\n        )  # obs_next: s_{t+n}\n        result"),
 ("R07", M + "dqn.py", "loss = (td_error.pow(2) * weight).mean()", "loss = td_error.pow(2).mean()"),
 ("R07", M + "dqn.py", "            n_step=self.n_step,", "            n_step=1,"),
 ("R07", M + "qrdqn.py", "            act = self(obs_next_batch).act\n            next_dist = self(obs_next_batch, model=\"model_old\").logits", "            next_batch = self(obs_next_batch, model=\"model_old\")\n            act, next_dist = next_batch.act, next_batch.logits"),
 ("R07", M + "c51.py", "for _ in range(self.n_step - 1):", "for _ in range(self.n_step):"),
 ("R07", M + "c51.py", ".clamp(0, 1) * next_dist", ".clamp(0) * next_dist"),
 ("R07", M + "td3.py", "        return torch.min(\n            self.critic_old(obs_next_batch.obs, act_),\n            self.critic2_old(obs_next_batch.obs, act_),", "        return torch.min(\n            self.critic_old(obs_next_batch.obs, act_),\n            self.critic2(obs_next_batch.obs, act_),"),
 ("R07", M + "td3.py", "if self.noise_clip > 0.0:", "if self.noise_clip > 1.0:"),
 ("R07", M + "sac.py", "            - self.alpha * obs_next_result.log_prob", "            + self.alpha * obs_next_result.log_prob"),
 ("R07", M + "redq.py", "self.subset_size, replace=False)", "self.subset_size)"),
 ("R07", M + "redq.py", "batch.weight = torch.mean(td, dim=0)", "batch.weight = td[0]"),
 ("R07", M + "discrete_sac.py", "batch.weight = (td1 + td2) / 2.0", "batch.weight = td1"),
 ("R07", M + "discrete_sac.py", "        critic2_loss = (td2.pow(2) * weight).mean()", "        critic2_loss = td2.pow(2).mean()"),
 ("R07", M + "bdq.py", "        if self.is_double:\n", "        if not self.is_double:\n"),
 ("R07", M + "ddpg.py", 'self(obs_next_batch, model="actor_old").act)', "self(obs_next_batch).act)"),
 ("R07", M + "iqn.py", "batch.weight = dist_diff.detach().abs().sum(-1).mean(1)", "batch.weight = dist_diff.detach().abs().mean(-1).sum(1)"),
 ("R07", M + "fqf.py", "next_dist = self(obs_next_batch, model=\"model_old\", fractions=fractions).logits", "next_dist = self(obs_next_batch, fractions=fractions).logits"),
 ("R07", I + "discrete_bcq.py", "        target_q, _ = self.model_old(batch.obs_next)", "        target_q, _ = self.model(batch.obs_next)"),
 ("R07", I + "discrete_bcq.py", "self.imitator(batch.obs, state=state, info=batch.info)", "self.imitator(batch.obs, state=state, info=batch.info)\n        imitation_logits = imitation_logits + 0 * q_value + q_value * 0.01"),
 ("R07", I + "discrete_crr.py", "q_t_target = self.critic_old(batch.obs_next)", "q_t_target = self.critic(batch.obs_next)"),
 ("R07", I + "discrete_crr.py", "expected_target_q[batch.done > 0] = 0.0", "expected_target_q[batch.done > 1] = 0.0"),
 ("R07", I + "bcq.py", "target_Q = self.lmbda * torch.min(target_Q1, target_Q2) + (1 - self.lmbda) * torch.max(", "target_Q = self.lmbda * torch.max(target_Q1, target_Q2) + (1 - self.lmbda) * torch.min("),
 ("R07", I + "cql.py", "            target_Q2 = self.critic2_old(obs_next, act_next)", "            target_Q2 = self.critic_old(obs_next, act_next)"),
]
