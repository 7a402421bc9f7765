"""Source of properties.jsonl (run: python3 notes/mkprops.py)."""
import json
P = []
def p(id, title, stmt, over, text, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": stmt,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "observe_at": list(obs), "hook_needed": None}})
B="tianshou/data/buffer/"
p("B01","A replay buffer holds exactly the most recent transitions, in order",
 "After any sequence of adds, resets and moves from another buffer, a replay buffer contains exactly the last min(capacity, number added since the last reset) transitions it was given. Listing all of it (sample_indices(0), buf[:]) yields them oldest first, every field of every row equals what was added, the index returned for an insertion is where that transition is found, and len equals their number. This holds for array, dict and scalar observations, for fields that first appear later (zero or None for older rows), with and without stored next observations and with save_only_last_obs.",
 ["histories","inputs","configurations"],"every history of add / update / reset(keep_statistics) over buffers of any capacity, with any episode lengths, any data layout and any option combination",
 "Tests add a handful of short fixed sequences and compare a few fields; wrap-around at every phase combined with resets, moves from another buffer and late keys is not sampled.",
 [B+"base.py",B+"manager.py","tianshou/data/batch.py"],
 [("circular insertion","ReplayBuffer._update_state_pre_add, add, update in "+B+"base.py"),("lazy allocation of new keys","create_value / alloc_by_keys_diff in tianshou/data/batch.py")],
 [("insertion pointer and size","where the next transition goes, how many rows are valid",B+"base.py ReplayBuffer.__init__")],
 ["ReplayBuffer.add return value","sample_indices(0)","buf[:]","len(buf)"])
p("B02","The episode statistics reported by add are those of the finished episode",
 "When the added transition ends an episode (terminated or truncated), add reports the sum of the rewards and the number of the transitions added to that (sub)buffer since its previous episode end or statistics reset, and the index at which the episode's first transition was inserted; otherwise it reports zero return and length. A reset that keeps statistics preserves the running return and length, and the buffer indices between the reported start and the reported insertion index are the episode's transitions in order whenever the episode fits the (sub)buffer without filling it.",
 ["histories","inputs"],"every history of adds and resets, every interleaving of environments, episodes of any length including longer than the buffer and across the wrap-around edge, scalar or vector rewards",
 "Tests check return values on short hand-written sequences; not across reset(keep_statistics) at every phase, buffer moves, wrapped episodes or interleavings of several environments.",
 [B+"base.py",B+"manager.py",B+"cached.py"],
 [("running episode statistics","ReplayBuffer._update_state_pre_add"),("episode extraction","ReplayBuffer.get_buffer_indices")],
 [("episode return, length, start","running values per sub-buffer",B+"base.py")],["add return value","get_buffer_indices"])
p("B03","prev, next and unfinished_index follow each episode and never leave it",
 "For every stored transition, prev gives the transition added directly before it in the same (sub)buffer if that one is still stored and did not end an episode, else the index itself; next gives the one added directly after it unless it ends an episode or is the newest, else the index itself. unfinished_index lists exactly the newest transition of every non-empty (sub)buffer whose newest transition does not end an episode. This holds for scalar and array arguments.",
 ["histories","configurations"],"every reachable buffer content: all phases of the circular pointer, all done patterns, several sub-buffers filled unevenly, after resets, moves and reloading",
 "n-step returns, GAE and frame stacking all rest on it; tests compare a few index vectors of two or three fixed histories.",
 [B+"base.py",B+"manager.py"],[("chain navigation","ReplayBuffer.prev/next/unfinished_index"),("compiled versions","_prev_index/_next_index in "+B+"manager.py")],
 [("last_index","newest index per sub-buffer",B+"base.py, manager.py")],["prev","next","unfinished_index"])
p("B04","A vector buffer behaves like independent buffers, one per environment",
 "For every sequence of adds with arbitrary subsets and orders of buffer ids, each sub-buffer of a vector buffer holds exactly what a stand-alone buffer of its size would hold after receiving only its own transitions, at the same local positions shifted by a fixed offset. Adding to one sub-buffer never changes another one's content, order, chain navigation, episode statistics or share of the length, and the same holds for resets and for equal-sized or differently sized parts.",
 ["schedules","histories","configurations"],"every schedule of which environments deliver a transition in which step, any number of sub-buffers, capacities that do not divide evenly",
 "The schedule space (which envs step when, which finish) is combinatorial; tests use a few aligned schedules.",
 [B+"manager.py",B+"vecbuf.py"],[("offsets and contiguous memory","ReplayBufferManager.add / _set_batch_for_children"),("length bookkeeping","ReplayBufferManager._lengths")],
 [("offset, lengths","start and fill of each sub-buffer",B+"manager.py")],["add return value","sample_indices(0)","prev/next"])
p("B05","A cached buffer publishes only whole finished episodes, in completion order",
 "In a cached replay buffer the transitions of a running episode stay in the cached part of its environment; when the episode ends they are appended, all of them (up to the cached capacity, newest kept) and in order, to the main buffer, and the cached part becomes empty. The main buffer therefore always holds the newest transitions of the sequence of completed episodes in the order they completed, and the indices reported for a finishing transition are those in the main buffer.",
 ["schedules","histories"],"every interleaving of environments and episode ends, several episodes ending in one step, main buffer wrap-around inside an episode, episodes longer than the cache",
 "Tests replay three hand-computed steps; interleavings with wrap-around of the main buffer are not enumerated.",
 [B+"cached.py",B+"base.py"],[("move on done","CachedReplayBuffer.add"),("update","ReplayBuffer.update")],
 [("main buffer, cached buffers","published and private parts",B+"cached.py")],["add return value","sample_indices(0)"])
p("B06","Sampling and reading return only stored transitions, stacked within an episode",
 "Any batch sampled from a replay buffer consists of stored transitions: the returned indices are valid, each row equals the stored transition at its index, a size n > 0 gives n rows, None as many as stored, 0 all of them, a negative size none. With frame stacking each stacked observation consists of the transition and its predecessors in the same episode (the first one repeated when there are too few), sample_avail restricts sampling to transitions with enough predecessors, and a derived next observation is the observation of the next transition of the same episode (the transition's own at its end). Sampling from a vector buffer draws from every non-empty part and never from an empty one, and reading never changes the content.",
 ["histories","inputs","configurations"],"every buffer content, batch size, stack depth and option combination, all of plain, vector and cached buffers, partially filled or wrapped",
 "Tests sample from a few fixed fillings and check shapes or one expected index list.",
 [B+"base.py",B+"manager.py"],[("sampling","sample_indices in base.py and manager.py"),("stacked reads","ReplayBuffer.get/__getitem__")],[],["sample","__getitem__","get"])
p("B07","Prioritised replay samples and weights according to the current priorities",
 "A prioritised buffer gives every newly stored transition the largest priority seen so far (1 initially), update_weight sets priority |w| (plus a tiny constant) raised to alpha for exactly the given indices, and resets forget the priorities with the data. Sampling picks the stored transition whose interval of the cumulative priorities contains the drawn value, so never one that is not stored, and importance weights are proportional to (stored priority)^(-beta) with the current beta, normalised by the batch maximum unless switched off. The cumulative-sum structure answers every point update, range sum and prefix search like the plain array it represents, for any size.",
 ["histories","inputs","configurations"],"every history of adds, wrap-arounds, weight updates (also with repeated indices), beta changes and resets, any tree size including non powers of two, plain and vector buffers",
 "Tests compare random updates with a naive sum on a few sizes and check buffer weights once; not interleaved with wrap-around, reset, or vector layouts.",
 [B+"prio.py","tianshou/data/utils/segtree.py",B+"vecbuf.py"],[("sum tree","tianshou/data/utils/segtree.py"),("priorities","PrioritizedReplayBuffer.init_weight/update_weight/get_weight")],
 [("weights, extremal priorities","priority of each slot; largest and smallest priority so far",B+"prio.py")],["sample","buf[indices].weight","SegmentTree"])
p("B08","Hindsight relabelling is consistent per episode and never alters stored data",
 "A batch sampled from a hindsight replay buffer contains transitions that are either as stored or have goal and reward replaced: the new desired goal (of observation and next observation alike) is a goal achieved at the same or a later step of the same stored episode, all sampled transitions of one episode share one goal, and the reward is the reward function applied to the achieved next goal and that goal. The number of relabelled episodes is the configured fraction of the sampled episodes (rounded down). Whatever is added, saved, reset or sampled afterwards works on the original goals and rewards.",
 ["histories","inputs","configurations"],"every buffer content (wrapped, several unfinished and finished episodes, vector layouts), every sampled index multiset and every draw of goals",
 "Tests check one or two goal layouts with fixed episodes; relabel, then every other operation, then compare is not explored.",
 [B+"her.py",B+"manager.py"],[("relabelling","HERReplayBuffer.rewrite_transitions"),("restoring","HERReplayBuffer._restore_cache")],
 [("altered indices and their originals","what has to be put back",B+"her.py")],["sample","buf[:] after restoring"])
p("B09","A saved, pickled or copied buffer continues exactly like the original",
 "A replay buffer of any kind that is pickled, deep-copied or saved to and loaded from HDF5 at any point of its history has the same content and answers, reacts to every later operation exactly as the original would (contents, chain navigation, episode statistics, priorities), and shares no data with it. A buffer built from complete data arrays holds these transitions in order. Converting nested data to HDF5 and back preserves every supported value.",
 ["histories","crash_points","configurations"],"save and restore at every point of every history, all buffer kinds, followed by any continuation",
 "Tests compare a buffer with its reloaded copy once; continuing to add to and sample from the copy is not tested.",
 [B+"base.py",B+"manager.py",B+"cached.py","tianshou/data/utils/converter.py"],[("state capture","ReplayBuffer.save_hdf5/load_hdf5/__setstate__"),("re-linking of sub-buffers","ReplayBufferManager.__setstate__"),("conversion","to_hdf5/from_hdf5")],[],["all public reads of the copy and of the original"])
p("D01","Batch indexing, assignment, joining and splitting act on all entries alike",
 "A Batch behaves like a tree of arrays with a common first dimension: indexing or assigning rows applies to every entry at every nesting level (entries missing in an assigned value are zeroed or None, unknown ones rejected), and concatenating batches of the same structure (others are rejected) or stacking batches joins each entry, padding entries that are reserved in or missing from some of them with zero/None. Splitting yields consecutive, or shuffled disjoint, pieces of the requested size that together contain each row exactly once, in which the last one may be smaller or, if asked, merged. Equality, arithmetic by key, conversion between array kinds, emptying, updating, null handling, copying and pickling follow the same entry-wise meaning, and operations documented as out-of-place leave their operands unchanged.",
 ["inputs","programs"],"every nested structure of keys, shapes and array kinds, every index form, every sequence of operations",
 "Tests cover selected structures and index forms; combinations of nesting, missing keys, index kinds and later operations are open-ended.",
 ["tianshou/data/batch.py","tianshou/data/utils/converter.py"],[("recursive application","Batch.__getitem__/__setitem__/cat_/stack_/split/empty_/update"),("key alignment","Batch.cat_, Batch.__cat, stack_")],[],["Batch API"])
p("E01","A vector environment returns for each id exactly what that environment produced",
 "Stepping, resetting, seeding, rendering, or reading and setting attributes of any ordered list of environment ids performs exactly those operations, once each and with the matching action or argument, on exactly those environments, and the i-th result (observation, reward, terminated, truncated, info with its env_id) is that of the i-th id. The results are the same for in-process, subprocess, shared-memory and Ray workers and for any observation structure, returned observations do not change afterwards, environment wrappers keep this correspondence, and after close every operation is refused.",
 ["schedules","histories","configurations"],"every sequence of operations with every ordered subset of ids, all worker kinds, array and dict observation spaces, int seeds, seed lists and None",
 "Tests step all environments in order and compare a few fields between worker kinds.",
 ["tianshou/env/venvs.py","tianshou/env/worker/dummy.py","tianshou/env/worker/subproc.py","tianshou/env/worker/ray.py","tianshou/env/venv_wrappers.py","tianshou/env/gym_wrappers.py"],
 [("send/recv per id","BaseVectorEnv.step/reset"),("shared memory","ShArray, SubprocEnvWorker._decode_obs"),("seeds","BaseVectorEnv.seed")],[],["BaseVectorEnv API","call log inside the environments"])
p("E02","Asynchronous stepping delivers every result exactly once and guards busy envs",
 "In asynchronous mode every action sent to an environment is executed once and its result is returned by exactly one later step call, labelled with its env_id, in whatever order environments become ready; a step call without timeout returns at least min(wait_num, number of pending environments) results and at least one. An environment whose result is pending cannot be stepped, reset or accessed until it was returned, and is usable again right after. With every environment waited for, or a plain vector environment, all results are returned in the order of the ids.",
 ["schedules","histories"],"every order in which environments finish, every choice of ids to step next, wait_num from 1 to n, timeouts, fetching without sending",
 "Tests rely on sleep times and check one ordering per run.",
 ["tianshou/env/venvs.py","tianshou/env/worker/base.py","tianshou/env/worker/subproc.py","tianshou/env/worker/ray.py"],
 [("pending bookkeeping","BaseVectorEnv.step, waiting_conn/waiting_id/ready_id"),("waiting","SubprocEnvWorker.wait")],
 [("waiting ids, ready ids","which environments have a pending result","tianshou/env/venvs.py")],["step return value","assertion on busy ids"])
p("E03","Running statistics equal the statistics of all data they were given",
 "The running mean and variance equal, after any sequence of batches of any sizes, the mean and population variance of all rows given so far, and the observation-normalising vector environment updates them with exactly the observations it returns (resets and steps, also of subsets of environments), unless updating is switched off, and returns them normalised by the updated statistics and clipped. The moving average is the mean of the last `size` finite numbers given, and summary statistics are those of the given sequence.",
 ["histories","inputs"],"every split of a data stream into batches, every interleaving of resets and steps, shared statistics between training and test environments, NaN and infinite inputs of every numeric type",
 "Tests compare one stream with numpy; splits and wrapper interleavings are not varied.",
 ["tianshou/utils/statistics.py","tianshou/env/venv_wrappers.py","tianshou/data/stats.py"],[("parallel variance update","RunningMeanStd.update"),("normalising wrapper","VectorEnvNormObs"),("moving average","MovAvg.add")],[],["RunningMeanStd.mean/var","VectorEnvNormObs.reset/step","MovAvg.get"])
p("C01","A collector gathers the requested amount and reports exactly what it gathered",
 "collect(n_episode=n) gathers exactly n episodes, all of them complete; collect(n_step=n) gathers the smallest multiple of the number of environments that is at least n steps. The reported numbers of steps and episodes, the returns and lengths of the finished episodes, their summary statistics and the collector's lifetime counters equal those of the transitions that were actually taken in the environments in that call. When fewer episodes remain than environments are active, only environments that have just finished an episode stop early.",
 ["schedules","histories","configurations"],"every pattern of episode lengths over every number of environments, every n, any sequence of collect calls, resets in between",
 "Which environments are dropped depends on the pattern of episode ends; tests use a few fixed lengths.",
 ["tianshou/data/collector.py","tianshou/data/stats.py"],[("surplus environments","Collector._collect"),("statistics","CollectStats.update_at_step_batch/update_at_episode_done")],
 [("ready env ids","environments still collecting","tianshou/data/collector.py")],["CollectStats","collector.collect_step/collect_episode","call log inside the environments"])
p("C02","Every collected transition is what really happened in that environment",
 "Each transition stored by a collector consists of the observation the policy was given for that environment, the action the policy chose for it, and the reward, flags, next observation and info the environment answered to that action after the policy's action mapping; consecutive stored transitions of an environment are consecutive in that environment, also over successive collect calls, and an environment is reset exactly after each finished episode. The recurrent state handed to the policy for an environment is the one it returned for its previous step, or empty/zero at the start of an episode. Random collection uses samples of the action space, and the policy's training mode and torch mode are as before after collecting.",
 ["schedules","histories","configurations"],"every pattern of episode ends and dropped environments, n_step/n_episode call sequences, array/dict observations, numpy/torch/Batch/no hidden state, exploration noise and random actions, all buffer kinds",
 "A mix-up between environments (local versus global index) shows only for specific patterns of simultaneous episode ends.",
 ["tianshou/data/collector.py"],[("local and global env indices","Collector._collect"),("hidden state reset","Collector._reset_hidden_state_based_on_type")],
 [("pre-collect observation, info, hidden state","carried from one collect call to the next","tianshou/data/collector.py")],["buffer content","call log inside the environments","inputs seen by the policy"])
p("C03","Collection hooks see the right data and their results land on the right rows",
 "The step hook is called once per environment step with that step's action data and rollout data before it is stored, and its changes are stored. The episode hook is called once per finished episode with exactly that episode's transitions in order, and the entries it returns are stored on exactly those transitions' rows; in step-based collection returned entries are refused. Merged hooks combine the results of all hooks, reject overlapping keys when asked to check, return nothing if none returns anything, and the Monte-Carlo hook adds the discounted return to go and the full return.",
 ["schedules","histories","inputs"],"every pattern of episode ends over environments, wrapped buffers, several episodes ending in one step, any combination of hooks",
 "Tests use one or two environments with equal lengths and no wrap-around.",
 ["tianshou/data/collector.py","tianshou/data/batch.py","tianshou/policy/base.py"],[("hook calls","Collector.run_on_step_hook/run_on_episode_done in _collect"),("storing additions","Batch.set_array_at_key"),("merging","EpisodeRolloutHookMerged")],[],["hook arguments","buffer content"])
p("C04","The asynchronous collector keeps each environment's own transition together",
 "Whatever subset of environments answers in whatever order, each transition an asynchronous collector stores combines the observation, action, policy entries and recurrent state that were computed for that very environment step with that step's result, in the sub-buffer of that environment and in the order taken. It stops at the first moment at which at least the requested steps or episodes have been stored, reports what it stored, continues in the next call where it stopped, and a reset first waits for all pending environments.",
 ["schedules","histories"],"every order and grouping in which environments answer, every episode pattern, any sequence of collect calls and resets, with and without recurrent state",
 "The only tests use sleeping environments whose timing decides the schedule.",
 ["tianshou/data/collector.py","tianshou/env/venvs.py"],[("current values of all environments","AsyncCollector._collect")],
 [("current obs, act, policy, hidden in all envs","what belongs to the pending step of each environment","tianshou/data/collector.py")],["buffer content","call log inside the environments","inputs seen by the policy"])
p("R01","n-step returns stop at episode ends and bootstrap only where they must",
 "For every sampled transition the n-step return is the discounted sum of the rewards of it and its successors in the same stored episode, at most n of them and not beyond the newest stored transition, plus the discounted bootstrap value at the last of these transitions, which is left out exactly when that transition terminated (truncation and unfinished ends keep it). The bootstrap values are requested once for exactly those last transitions.",
 ["histories","inputs","configurations"],"every buffer content (wrapped, several sub-buffers, unfinished episodes), all done/terminated/truncated patterns, every n, gamma, index multiset, one or several values per transition",
 "Tests compare with hand-computed tables for one fixed buffer.",
 ["tianshou/policy/base.py",B+"base.py"],[("index stacking and masking","BasePolicy.compute_nstep_return, _nstep_return"),("value mask","BasePolicy.value_mask")],[],["batch.returns"])
p("R02","Advantages, returns and returns-to-go follow episode boundaries of the batch",
 "Generalised advantage estimates and returns for a chronological batch follow the GAE recursion in which values are bootstrapped after the last transition of the batch or of an unfinished episode and after truncation but not after termination, and no advantage flows across an episode end or from one environment's data into another's. Reward normalisation rescales without changing this, and Monte-Carlo returns to go equal the discounted sums to the end of the episode. The on-policy algorithms hand exactly these values to their loss.",
 ["histories","inputs","configurations"],"every batch of interleaved finished, truncated and unfinished episodes from any number of environments, all gamma/lambda, with or without values, wrapped buffers",
 "Tests compare a few hand-made batches.",
 ["tianshou/policy/base.py","tianshou/policy/modelfree/pg.py","tianshou/policy/modelfree/a2c.py","tianshou/policy/modelfree/ppo.py"],[("GAE","BasePolicy.compute_episodic_return, _gae_return"),("return to go","episode_mc_return_to_go"),("use","A2CPolicy._compute_returns, PGPolicy.process_fn")],[],["compute_episodic_return","batch.adv/returns after process_fn"])
p("R03","A policy update runs sample, process, learn, post-process once, within training",
 "Policy.update without a buffer does nothing; otherwise it samples the requested number (all transitions, in order if 0 and shuffled if None), processes that batch with the same buffer and indices, learns from the processed batch and writes back new priorities for exactly those indices if the buffer is prioritised. Learning is refused outside a training step; the updating flag holds only inside update, and the training-step and torch-mode contexts restore the previous state on every exit, also by exception and when nested. Gradient work counts once per mini-batch: every transition of the batch is used in each repetition; a natural-gradient step without a gradient, or whose line search fails, leaves the actor as it was.",
 ["histories","fault_sequences","configurations"],"every nesting of contexts, failures at every stage, all batch sizes and repetitions, with learning-rate schedulers, prioritised or plain buffers",
 "Tests exercise only the normal path.",
 ["tianshou/policy/base.py","tianshou/utils/torch_utils.py","tianshou/data/batch.py","tianshou/utils/lr_scheduler.py"],[("update","BasePolicy.update"),("contexts","policy_within_training_step, torch_train_mode"),("mini-batches","Batch.split")],[],["calls seen by a policy subclass","flags"])
p("R04","Target networks change only by the documented synchronisation rule",
 "A target network equals the online network at creation; with a synchronisation period k it is replaced by a copy of the online network once every k learning steps and is otherwise untouched, with soft updates it becomes (1-tau)*target + tau*online once per learning step (or per delayed actor update), for every parameter, and neither gradients nor mode switches alter it. Actors that are updated with a delay of k learn once in k learning steps, and evaluation-time behaviour switches (greedy, deterministic, exploration off) do not change any network.",
 ["histories","configurations"],"any number of learning steps, all periods, tau values and algorithms with target networks",
 "Learning-curve tests cannot see a wrong period or a drifting target.",
 ["tianshou/policy/base.py","tianshou/policy/modelfree/dqn.py","tianshou/policy/modelfree/c51.py","tianshou/policy/modelfree/bdq.py","tianshou/policy/modelfree/ddpg.py","tianshou/policy/modelfree/td3.py","tianshou/policy/modelfree/sac.py","tianshou/policy/modelfree/redq.py","tianshou/policy/modelfree/discrete_sac.py"],
 [("hard sync","DQNPolicy.learn / sync_weight"),("soft sync","BasePolicy.soft_update"),("delay","TD3Policy.learn, REDQPolicy.learn")],[],["state_dict of the target after each learn"])
p("R07","Bootstrap values come from the right network at the right observation",
 "The value a Q-learning target bootstraps from is taken at the observation the n-step return ends at, from the target network if there is one (else the online network), by the algorithm's rule: the maximum over allowed actions, the action preferred by the online network with double learning and in the distributional algorithms, the smaller of two critics at the target actor's action, the expectation under the policy, a subset of the ensemble, the mean over branches. Nothing is bootstrapped from after a terminal state while truncated and ongoing episodes are bootstrapped, the configured discount is used, computing targets changes no network, and the priority handed back for every transition is its own error.",
 ["inputs","histories","configurations"],"every algorithm, all network parameters, action masks, n-step lengths, episode layouts and batch sizes (one included)",
 "Tests run learning on toy problems, which succeeds with slightly wrong targets.",
 ["tianshou/policy/modelfree/dqn.py","tianshou/policy/modelfree/c51.py","tianshou/policy/modelfree/qrdqn.py","tianshou/policy/modelfree/iqn.py","tianshou/policy/modelfree/fqf.py","tianshou/policy/modelfree/bdq.py","tianshou/policy/modelfree/ddpg.py","tianshou/policy/modelfree/td3.py","tianshou/policy/modelfree/sac.py","tianshou/policy/modelfree/redq.py","tianshou/policy/modelfree/discrete_sac.py","tianshou/policy/imitation/discrete_bcq.py"],
 [("targets","_target_q of the algorithms, C51Policy._target_dist, BDQPolicy._compute_return"),("priorities","batch.weight set by learn")],[],["batch.returns after process_fn","batch.weight after learn"])
p("R05","Actions are mapped into the action space and back without leaving it",
 "For a continuous action space, the action sent to the environment is the policy's action bounded by the configured method (clip or tanh) and, if scaling is on, mapped linearly from [-1,1] to [low, high], so it always lies in the space when bounded and scaled; the inverse mapping of an action in the space that the policy can produce followed by the mapping gives it back. Discrete actions are unchanged; policies of the DQN family and the random policy never choose actions masked by the observation, neither greedily nor when exploring, and exploration replaces the configured share of actions, evenly by admissible ones. The wrappers that make an environment's actions discrete number all of the actions they stand for, each inside the space.",
 ["inputs","configurations"],"every action value and box, all bounding/scaling combinations, numpy/torch/list inputs, every mask and exploration rate",
 "Tests probe a few values of a symmetric box.",
 ["tianshou/policy/base.py","tianshou/policy/modelfree/dqn.py","tianshou/exploration/random.py","tianshou/env/gym_wrappers.py"],[("mapping","BasePolicy.map_action/map_action_inverse"),("mask","DQNPolicy.compute_q_value/exploration_noise")],[],["map_action","map_action_inverse","forward().act"])
p("R06","In multi-agent play each agent sees and learns only its own transitions",
 "The multi-agent manager gives each agent's policy exactly the observations whose acting agent it is, and the combined action (and state) at each position is what that agent's policy answered for it. When learning, each agent's policy is processed and trained on exactly its own transitions with its own reward component, in order, and the shared buffer is the same afterwards. The environment wrapper reports the acting agent, its observation, action mask and all agents' rewards.",
 ["schedules","histories","configurations"],"every sequence of acting agents and batch composition (including absent agents), any number of agents, with and without recurrent state and masks",
 "Tests play a game and check that it runs.",
 ["tianshou/policy/multiagent/mapolicy.py","tianshou/env/pettingzoo_env.py"],[("dispatch","MultiAgentPolicyManager.forward/process_fn/learn"),("environment adapter","PettingZooEnv.reset/step")],[],["calls seen by agent policies","forward().act"])
p("T01","Training performs exactly the configured collections, updates, tests and saves",
 "A trainer runs epochs until max_epoch or until the stop condition; in each epoch it repeats training iterations (train hook, collection of the configured amount, update) until the epoch's steps are reached, off-policy with round(update_per_step * collected) single-batch updates, on-policy with one update on everything collected with the configured batch size and repetitions after which the buffer is emptied, offline with one update per step. Environment steps, episodes and gradient steps equal the sums over these iterations, every epoch that did not stop ends with one checkpoint save and one test of the configured number of episodes, and running again starts from zero.",
 ["histories","configurations"],"all step/collect/update/epoch settings including ones that do not divide, all three trainer kinds, with and without test collector, run or iterated, stopped at any point",
 "Tests run one configuration per algorithm and look at the final reward.",
 ["tianshou/trainer/base.py","tianshou/trainer/utils.py"],[("epoch loop","BaseTrainer.__next__, training_step"),("updates","OffpolicyTrainer/OnpolicyTrainer/OfflineTrainer.policy_update_fn")],
 [("env_step, gradient_step, epoch","progress counters","tianshou/trainer/base.py")],["calls seen by collectors, policy and logger","EpochStats","InfoStats"])
p("T02","The best policy is saved exactly when a test improves, and stopping is honoured",
 "The best score, reward and epoch are those of the first test (including the initial one and a test that ends training early) with the largest score so far; the save hook is called at the start and then exactly when a test strictly improves on it. Training ends right after the first epoch whose test leaves the best reward satisfying the stop condition, or immediately when test-in-train is on and both a collection's mean return and a following test satisfy it, in which case no update follows; tests run in evaluation mode outside the training step and training resumes in training mode.",
 ["histories","schedules"],"every sequence of test scores and training returns, ties, custom score functions, stop conditions met at any point",
 "Tests see one training run whose score sequence is whatever learning produced.",
 ["tianshou/trainer/base.py","tianshou/trainer/utils.py"],[("best tracking","BaseTrainer.test_step, reset, _update_best_reward_and_return_should_stop_training"),("test","test_episode")],
 [("best_score, best_epoch, stop flag","selection state","tianshou/trainer/base.py")],["save_best_fn/stop_fn calls","InfoStats"])
p("T03","Logged data respects its intervals and a restored run continues the counters",
 "Each kind of data (train, test, update, info) is written only if at least its interval of steps passed since it was last written, always with the step given; checkpoints are saved only at the save interval, and restoring from the log yields the epoch, environment step and gradient step of the last saved checkpoint. A training resumed from a log starts at the restored epoch with the restored counters and performs only the remaining epochs.",
 ["histories","crash_points"],"every sequence of logging calls and intervals, interruption after any epoch and resumption",
 "Tests resume at one point; intervals are not varied.",
 ["tianshou/utils/logger/base.py","tianshou/utils/logger/tensorboard.py","tianshou/trainer/base.py"],[("interval gating","BaseLogger.log_*_data"),("save and restore","TensorboardLogger.save_data/restore_data"),("resume","BaseTrainer.reset")],
 [("last logged steps","per kind of data","tianshou/utils/logger/base.py")],["writes to the log","restore_data"])
p("H01","An experiment is set up exactly as it was configured",
 "An experiment has the settings its builder held when it was built: later calls of the builder, of copies of it, or storing and restoring the experiment change nothing. Its world has the policy of the algorithm with every parameter handed on (scaled noise and bounds, automatic temperature, curiosity wrapper), networks with the configured layers, activations, outputs and sharing between actor and critics, optimizers of the configured kind and rates that cover exactly their networks, the configured learning rate schedules, environments in number, kind, mode and seeds, the buffer and the callbacks. Seeded collections shift the seeds by one experiment each and are named after them; the same seed gives the same initial parameters, another seed others.",
 ["configurations","histories"],"every sequence of builder calls, copies, builds and stored experiments for all thirteen builders, discrete and continuous environments, all parameters",
 "Tests build each experiment once with default or one fixed configuration and only check that it runs.",
 ["tianshou/highlevel/experiment.py","tianshou/highlevel/agent.py","tianshou/highlevel/params/policy_params.py","tianshou/highlevel/module/actor.py","tianshou/highlevel/module/critic.py","tianshou/highlevel/env.py","tianshou/highlevel/optim.py"],[("builders","ExperimentBuilder and its mixins"),("parameters","Params.create_kwargs and ParamTransformers"),("networks","ActorFactory*, CriticFactory*"),("environments","EnvFactory.create_envs/create_venv")],
 [("settings of a builder","slots set by with_*","tianshou/highlevel/experiment.py")],["arguments of policy constructors","networks, optimizers and schedules of the policy","environments created, their seeds","buffer of the training collector","callbacks of the trainer"])
p("H02","A run of an experiment trains as configured and stores the best policy it tested",
 "Running an experiment restores the configured policy (or starts anew), collects the configured initial steps (at random if asked) into the training buffer, trains with the configured collections (steps or episodes), updates, batch size, hooks and number of epochs, watches the configured episodes and answers the trainer's result. With persistence the experiment, the policy of the first best test, one file per epoch (on-policy) and the environment's own data are stored in the run's directory and nowhere else, in either mode; an existing directory is refused if so asked, untouched. An experiment taken from a directory has the settings stored in it and, if asked, continues from the stored policy; a launcher runs every experiment once and returns the results of those that did not fail, in order.",
 ["histories","configurations"],"every sequence of runs, stored and restored runs over shared directories, all sampling and persistence settings, any scores, failing experiments",
 "Tests run one experiment per algorithm without persistence and look at nothing.",
 ["tianshou/highlevel/experiment.py","tianshou/highlevel/persistence.py","tianshou/highlevel/agent.py","tianshou/evaluation/launcher.py"],[("run","Experiment.run/create_experiment_world"),("storage","PolicyPersistence, Experiment.save/from_directory"),("trainer","On/OffPolicyAgentFactory.create_trainer")],
 [("policy.pt, policy_epoch_N.pt, experiment.pkl","stored experiment","tianshou/highlevel/persistence.py")],["files in the run's directory","ExperimentResult","calls seen by policy, hooks and environment"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
