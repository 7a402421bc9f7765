"""Prints the 'fixed:' lines of known_findings.txt from the fix commits in /repo."""
import subprocess
MAP = [
 ('curiosity wrapper accepts', 'H01', 'PolicyWrapperFactoryIntrinsicCuriosity rejected every discrete environment since the number of actions is a numpy integer'),
 ('default actors of discrete SAC', 'H01', 'default actors of discrete SAC experiments gave probabilities, which the policy took as logits'),
 ('the automatic alpha aims', 'H01', 'the target entropy of discrete SAC experiments was minus the number of actions, which no discrete policy can have'),
 ('callbacks set on a builder', 'H01', 'callbacks set on a builder after build() changed the experiments built before'),
 ("critics with actions can reuse", 'H01', 'critics with actions that reuse the actor (DDPG, SAC, TD3) failed on first use: the last layer did not expect the actions'),
 ("Experiment.run returns the trainer's result", 'H02', 'Experiment.run without a logger for the result returned no trainer result'),
 ('episode_per_collect is passed on', 'H02', 'SamplingConfig.episode_per_collect was ignored by the trainer'),
 ('ActorFactoryDefault uses the configured', 'H01', 'discrete actors created by ActorFactoryDefault ignored the configured hidden sizes'),
 ('experiments whose critic reuses the actor', 'H02', 'experiments with a critic reusing the actor could not be pickled, so neither saved nor restored'),
 ('policy gradient underflows', 'R03', 'a policy gradient whose square underflows (nearly saturated policy) still made NPG divide by zero'),
 ('TRPO can be updated if the policy', 'R03', 'a zero policy gradient (saturated policy) gave TRPO an infinite step times zero: NaN parameters, ValueError from the distribution'),
 ('parameters of NPG into NaN', 'R03', 'a zero policy gradient (saturated policy) made NPG divide 0 by 0: all actor parameters became NaN'),
 ('TRPO keeps the old actor', 'R03', 'a failed TRPO line search (reported with step size 0) left the actor at the last rejected parameters'),
 ("EpisodeRolloutHookMerged reports", "C03", "EpisodeRolloutHookMerged compared the hook outputs' keys wrongly, so overlapping keys were not reported or reported falsely"),
 ("Collector resets tensor hidden", "C02", "hidden states given as tensors were not reset at the end of an episode"),
 ("from_data marks the last", "B09", "ReplayBuffer.from_data left last_index at 0, so next/prev broke at the first row"),
 ("MovAvg excludes every NaN", "E03", "MovAvg.add only recognised the np.nan object itself"),
 ("add rejects buffer_ids other", "B04", "ReplayBuffer.add accepted any single buffer id, e.g. [1]"),
 ("update moves the start", "B02", "the episode start reported after an update pointed before the moved data"),
 ("sub-buffers share the manager's", "B09", "after pickling, copying or loading a vector buffer, its sub-buffers were detached from the manager's memory"),
 ("PrioritizedReplayBuffer.reset also", "B07", "a reset prioritized buffer kept the weights of the dropped transitions and could sample them"),
 ("PrioritizedVectorReplayBuffer.set_beta", "B07", "set_beta of the vector buffer had no effect"),
 ("observations from shared memory", "E01", "returned shared-memory observations changed when the env stepped again"),
 ("RayEnvWorker.wait works", "E02", "ray.wait was asked for more results than there were pending envs"),
 ("Batch addition matches", "D01", "Batch + Batch paired the values by position, not by key"),
 ("in-place transformations of a Batch", "D01", "to_numpy_/to_torch_/apply_values_transform in place replaced nested batches"),
 ("a training resumed at max_epoch", "T03", "a resumed training performed an epoch beyond max_epoch"),
 ("BaseTrainer.reset also resets", "T01", "reset() kept gradient steps and episode counters of the previous run"),
 ("BaseTrainer.run resets once", "T01", "run() reset twice and ignored reset_prior_to_run"),
 ("a test during training that ends", "T02", "the best policy was neither recorded nor saved when a test during training ended it"),
 ("AsyncCollector supports vector", "C04", "AsyncCollector failed with vector actions and with policies that return neither state nor policy entries"),
 ("AsyncCollector.reset_env waits", "C04", "reset_env only waited once, so it failed when more than wait_num envs were stepping"),
 ("async step of a vector env returns", "E02", "the results of an async step were iterated over while being removed, so every other one was skipped"),
 ("wrapped asynchronous vector envs", "C04", "a wrapped async vector env had no waiting_id"),
 ("update moves all transitions of a vector", "B01", "update from a vector buffer with sample_avail and stack_num > 1 dropped transitions"),
 ("arrays of str keep their type", "B09", "full object arrays of str came back as bytes from HDF5"),
 ("sample_indices returns an empty", "B06", "sampling from a buffer in which nothing is available raised AttributeError or ValueError"),
 ("SegmentTree handles empty index", "B07", "moving an empty buffer into a prioritized one never returned (infinite loop)"),
 ("HER relabels the rewards", "B08", "with ignore_obs_next the rewards of relabelled transitions were computed with the original goals"),
 ("moving data from a hindsight", "B08", "update from a hindsight buffer copied temporarily relabelled goals and rewards"),
 ("Batch.dropnull keeps", "D01", "dropnull flattened entries with more than one dimension, so that rows no longer matched"),
 ("Batch.cat_ and stack_ extend", "D01", "cat_/stack_ in place left an entry unextended when the other batches have it reserved"),
 ("environments that are stepping cannot be seeded", "E02", "seeding while results were pending mixed up the results of workers"),
 ("scalar observations are passed", "E01", "observations of discrete spaces were always 0 with shared memory"),
 ("initial std of RunningMeanStd", "E03", "RunningMeanStd(std=s) normalised with the variance s instead of s**2 before its first update"),
 ('heeds raise_on_nan_in_buffer', 'C03', 'the NaN check raised although it was switched off'),
 ('rejects n_step and n_episode given together', 'C01', 'n_step and n_episode given together were accepted'),
 ('assigns policy entries and hidden states to their envs', 'C04', 'after random collection policy entries and hidden states of envs were mixed up or raised IndexError'),
 ('vector buffers store additional entries', 'C03', 'fields added by a step hook were dropped by vector buffers'),
 ('entries added by set_array_at_key also reach', 'C03', 'entries added by an episode hook were missing in the sub-buffers of a vector buffer'),
 ('CQL assigns the calibration returns', 'R02', 'calibration returns landed on wrong transitions or raised IndexError in wrapped, partly filled and vector buffers'),
 ('tests during training apply the reward metric', 'T02', 'a test during training compared and stored scores without the reward metric'),
 ('an on-policy update with the full batch', 'T01', 'an on-policy update with batch_size=None counted as two gradient steps'),
 ('smoothed losses and update time', 'T01', 'a second run continued the smoothed losses and the update time of the first'),
 ('the updating flag of a policy is cleared', 'R03', 'the updating flag stayed set after an update raised'),
 ('restored loggers count test data', 'T03', 'after restoring, the test interval was counted from the epoch number and the info interval from -1'),
 ('WandbLogger passes its settings', 'T03', 'WandbLogger passed save_interval as info_interval and write_flush as save_interval to its tensorboard logger'),
 ('REDQ with automatic alpha', 'R04', 'REDQ learning with an automatic alpha raised AttributeError'),
 ('BDQ ignored the configured discount', 'R07', 'BDQ always discounted with 0.99'),
 ('BDQ averaged target values over a batch', 'R07', 'with a batch of one or with one branch BDQ averaged targets over the wrong axis'),
 ('BDQ did not bootstrap at truncated', 'R07', 'BDQ targets of truncated episodes and of the newest transition of an ongoing episode were not bootstrapped'),
 ('DQN without double Q-learning took', 'R07', 'targets of DQN with is_double=False used values of masked actions'),
 ('DiscreteCRR put its target networks', 'R04', 'train() switched the target networks of DiscreteCRR into training mode'),
 ("BCQ's target networks stayed", 'R04', 'the target networks of BCQ were never put into evaluation mode'),
 ('MultipleLRSchedulers.load_state_dict', 'R03', 'after loading the state of a LambdaLR scheduler its next step raised TypeError'),
 ('CQL drew its random actions', 'R05', 'CQL drew random actions from [-min_action, max_action], a single point or an error'),
 ('sample_indices(None) drew', 'R03', 'an update with sample_size=None drew with replacement (or in order) instead of using everything once, shuffled'),
 ('C51 and Rainbow took the target', 'R07', 'with estimation_step > 1 C51 and Rainbow used the distribution at s_{t+1} instead of s_{t+n}'),
 ('scaled actions are not rounded out', 'R05', 'for a tenth of random boxes the mapped action 1.0 exceeded the upper bound by rounding'),
 ('rewards returned by PettingZooEnv.step', 'R06', 'PettingZooEnv.step returned its own list of rewards, which the next step overwrote'),
 ('MultiAgentPolicyManager remembers', 'R06', 'MultiAgentPolicyManager.train did not record the mode: after any temporary switch all policies were in training mode'),
 ('MultiAgentPolicyManager.process_fn restores', 'R06', 'after an error in process_fn of an agent the shared buffer kept the reward of this agent only'),
 ('MultiAgentPolicyManager.forward without masks', 'R06', 'with continuous actions (no masks) forward raised AttributeError on batches without obs_next, i.e. in every collection'),
 ('policies inside MultiAgentPolicyManager', 'R06', 'policies of a multi-agent manager and inside ICMPolicy acted deterministically during training since they were not told about the training step'),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
used = set()
for line in reversed(log):
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    hit = [m for m in MAP if m[0] in s]
    assert len(hit) == 1, s
    print(f"fixed: property={hit[0][1]} {h} {hit[0][2]}")

KNOWN = [
 ('H01', 'seeded-env-seeds', 'the experiments of build_seeded_collection share the seeds of the environments of EnvFactoryRegistered, which are not shifted'),
 ('R05', 'bdq-mask', 'BranchingDQNPolicy.exploration_noise with an observation mask adds the mask to the numbers of the random actions, which leave the action space'),
]
for p, k, w in KNOWN:
    print(f"known: property={p} key={k} {w}")
