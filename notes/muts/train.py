B = "tianshou/trainer/base.py"
U = "tianshou/trainer/utils.py"
L = "tianshou/utils/logger/base.py"
TB = "tianshou/utils/logger/tensorboard.py"
MUTS = [
 ("T01", B, "n_gradient_steps = round(self.update_per_step * n_collected_steps)", "n_gradient_steps = int(self.update_per_step * n_collected_steps)"),
 ("T01", B, "while steps_done_in_this_epoch < self.step_per_epoch and", "while steps_done_in_this_epoch <= self.step_per_epoch and"),
 ("T01", B, "self._gradient_step += int((len(self.train_collector.buffer) - 0.1) // self.batch_size)", "self._gradient_step += len(self.train_collector.buffer) // self.batch_size"),
 ("T01", B, "self.train_collector.reset_buffer(keep_statistics=True)", "self.train_collector.reset_buffer()"),
 ("T01", B, "self.env_episode += collect_stats.n_collected_episodes", "self.env_episode += 1"),
 ("T01", B, "self.train_fn(self.epoch, self.env_step)", "self.train_fn(self.epoch, self.env_step + 1)"),
 ("T01", U, "collector.reset(reset_stats=False)", "collector.reset()"),
 ("T01", U, "collector.reset(reset_stats=False)", "pass"),
 ("T01", B, "            if not should_stop_training:\n", "            if True:\n"),
 ("T01", B, "sample_size=0,\n", "sample_size=None,\n"),
 ("T01", B, "repeat=self.repeat_per_collect,\n        )", "repeat=1,\n        )"),
 ("T02", B, "        if self.best_epoch < 0 or self.best_score < score:\n            self.best_score", "        if self.best_epoch < 0 or self.best_score <= score:\n            self.best_score"),
 ("T02", B, "if self.stop_fn and self.stop_fn(self.best_reward):", "if self.stop_fn and self.stop_fn(float(rew)):"),
 ("T02", B, "        with policy_within_training_step(self.policy, enabled=False):", "        with policy_within_training_step(self.policy, enabled=True):"),
 ("T02", B, "                if self.stop_fn(test_result.returns_stat.mean):", "                if self.stop_fn(self.best_reward):"),
 ("T02", B, "        if self.iter_num > 1 and self.stop_fn_flag:", "        if self.iter_num > 2 and self.stop_fn_flag:"),
 ("T02", B, "            self.best_score = self.compute_score_fn(test_result)\n", "            self.best_score = max(self.best_score, self.compute_score_fn(test_result))\n"),
 ("T02", B, "        if not self.stop_fn_flag:\n            self.logger.save_data(", "        if True:\n            self.logger.save_data("),
 ("T03", L, "if step - self.last_log_train_step >= self.train_interval:", "if step - self.last_log_train_step > self.train_interval:"),
 ("T03", L, "self.write(f\"{DataScope.UPDATE}/gradient_step\", step, log_data)\n            self.last_log_update_step = step", "self.write(f\"{DataScope.UPDATE}/gradient_step\", step, log_data)\n            self.last_log_update_step += self.update_interval"),
 ("T03", TB, "self.write(\"save/env_step\", env_step, {\"save/env_step\": env_step})", "self.write(\"save/env_step\", gradient_step, {\"save/env_step\": env_step})"),
 ("T03", TB, "epoch - self.last_save_step >= self.save_interval", "epoch % self.save_interval == 0"),
 ("T03", TB, "ea.scalars.Items(\"save/gradient_step\")[-1].step", "ea.scalars.Items(\"save/gradient_step\")[0].step"),
 ("T03", B, "        self.epoch = self.start_epoch\n        self.stop_fn_flag = False\n        self.iter_num = 0\n\n    def __iter__", "        self.epoch = 0\n        self.stop_fn_flag = False\n        self.iter_num = 0\n\n    def __iter__"),
]
