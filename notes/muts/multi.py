M="tianshou/policy/multiagent/mapolicy.py"; E="tianshou/env/pettingzoo_env.py"
MUTS=[
("R06",M,"                    tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent]]\n","                    tmp_batch.rew = tmp_batch.rew[:, 0]\n"),
("R06",M,"buffer._meta.rew = save_rew[:, self.agent_idx[agent]]","buffer._meta.rew = save_rew[:, agent_index[0] % save_rew.shape[1]]"),
("R06",M,"results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)","results[agent] = policy.process_fn(tmp_batch, buffer, agent_index)"),
("R06",M,"tmp_batch, tmp_indice = batch[agent_index], indice[agent_index]","tmp_batch, tmp_indice = batch[agent_index], np.sort(indice[agent_index])"),
("R06",M,"                    if hasattr(tmp_batch.obs_next, \"obs\"):\n                        tmp_batch.obs_next = tmp_batch.obs_next.obs\n                results","                results"),
("R06",M,"act[agent_index] = policy.exploration_noise(act[agent_index], batch[agent_index])","act = policy.exploration_noise(act, batch)"),
("R06",M,"act[agent_index] = policy.exploration_noise(act[agent_index], batch[agent_index])","act[agent_index] = policy.exploration_noise(act[agent_index], batch[:len(agent_index)])"),
("R06",M,"                holder.act[agent_index] = act\n","                pass\n"),
("R06",M,"state=None if state is None else state[agent_id]","state=state"),
("R06",M,"state=None if state is None else state[agent_id],\n                **kwargs","state=None if state is None else state[agent_id]"),
("R06",M,"            state_dict[agent_id] = state\n","            state_dict[agent_id] = state if has_data else results[0][4]\n"),
("R06",M,"            out_dict[agent_id] = out\n","            out_dict[agent_id] = results[0][2]\n"),
("R06",M,"            if len(data.get_keys()) != 0:\n                train_stats","            if len(data.get_keys()) != 0 or agent_id_to_stats:\n                train_stats"),
("R06",M,"train_stats = policy.learn(batch=data, **kwargs)","train_stats = policy.learn(batch=data)"),
("R06",M,"result_dict[f\"{agent_id}/\" + k] = v","result_dict[k] = v"),
("R06",M,"            policy.train(mode)\n","            policy.train()\n"),
("R06",M,"        policy.set_agent_id(agent_id)\n","        pass\n"),
("R06",M,"        self.policies[agent_id] = policy\n","        pass\n"),
("R06",M,"policy.set_agent_id(env.agents[i])","policy.set_agent_id(env.agents[0])"),
("R06",M,"tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent_id]]","pass"),
("R06",M,"        has_rew = isinstance(buffer.rew, np.ndarray)","        has_rew = isinstance(buffer.rew, np.ndarray) and len(self.policies) > 1"),
("R06",M,"                save_rew, buffer._meta.rew = buffer.rew, Batch()","                save_rew, buffer._meta.rew = buffer.rew.astype(int), Batch()"),
("R06",M,"            save_rew, buffer._meta.rew = buffer.rew, Batch()  # type: ignore","            save_rew, buffer._meta.rew = buffer.rew[:len(buffer)], Batch()  # type: ignore"),
("R06",E,"self.rewards[self.agent_idx[agent_id]] = reward","self.rewards[list(self.env.rewards).index(agent_id)] = reward"),
("R06",E,"observation, rew, term, trunc, info = self.env.last()\n","observation, rew, trunc, term, info = self.env.last()\n"),
("R06",E,"                \"mask\": [obm == 1 for obm in observation[\"action_mask\"]],\n            }\n        else:\n            if isinstance(self.action_space, spaces.Discrete):\n                observation_dict","                \"mask\": [obm == 0 for obm in observation[\"action_mask\"]],\n            }\n        else:\n            if isinstance(self.action_space, spaces.Discrete):\n                observation_dict"),
("R06",E,"        for agent_id, reward in self.env.rewards.items():\n            self.rewards[self.agent_idx[agent_id]] = reward\n","        self.rewards[self.agent_idx[self.env.agent_selection]] = rew\n"),
("R06",E,"        self.env.step(action)\n\n        observation","        who = self.env.agent_selection\n        self.env.step(action)\n\n        observation"),
("R06",E,"                obs = {\"agent_id\": self.env.agent_selection, \"obs\": observation}","                obs = {\"agent_id\": self.agents[0], \"obs\": observation}"),
]
