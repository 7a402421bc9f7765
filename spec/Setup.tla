------------------------------- MODULE Setup -------------------------------
(* What the high-level builders promise: an experiment has the settings that
   its builder held when it was built, whatever happens to the builder, to
   copies of it or to other experiments, and its world consists of networks,
   optimizers, schedules, environments, buffers and callbacks with these
   settings.

   A setting (cfg) is a record of slots; << >> is a slot that was not set.  The
   description of a world is computed from cfg alone.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Both == {"PG", "A2C", "PPO", "NPG", "TRPO"}
Cont == {"DDPG", "REDQ", "SAC", "TD3"}
Single == {"A2C", "PPO", "NPG", "TRPO", "DDPG"}
Dual == {"SAC", "DSAC", "TD3"}
ActorCriticOnPolicy == {"A2C", "PPO", "NPG", "TRPO"}
Gauss == Both \cup {"REDQ", "SAC"}

Set(x) == x # << >>
Put(c, slot, v) ==
    IF slot = "critics" THEN [c EXCEPT !.critic1 = v, !.critic2 = v]
    ELSE [f \in DOMAIN c |-> IF f = slot THEN v ELSE c[f]]

\* ---------------------------------------------------------------- parameters of the policy
PgNames == {"discount_factor", "reward_normalization", "deterministic_eval", "action_bound_method"}
Names(algo) ==
  CASE algo = "PG" -> PgNames
    [] algo = "A2C" -> PgNames \cup {"gae_lambda", "max_batchsize", "vf_coef", "ent_coef", "max_grad_norm"}
    [] algo = "PPO" -> PgNames \cup {"gae_lambda", "max_batchsize", "vf_coef", "ent_coef", "max_grad_norm", "eps_clip", "dual_clip", "value_clip", "advantage_normalization", "recompute_advantage"}
    [] algo = "NPG" -> PgNames \cup {"gae_lambda", "max_batchsize", "optim_critic_iters", "actor_step_size", "advantage_normalization"}
    [] algo = "TRPO" -> PgNames \cup {"gae_lambda", "max_batchsize", "optim_critic_iters", "actor_step_size", "advantage_normalization", "max_kl", "backtrack_coeff", "max_backtracks"}
    [] algo = "DQN" -> {"discount_factor", "estimation_step", "target_update_freq", "reward_normalization", "is_double", "clip_loss_grad"}
    [] algo = "IQN" -> {"discount_factor", "estimation_step", "target_update_freq", "reward_normalization", "is_double", "clip_loss_grad", "sample_size", "online_sample_size", "target_sample_size", "num_quantiles"}
    [] algo = "DDPG" -> {"tau", "gamma", "estimation_step", "action_bound_method"}
    [] algo = "REDQ" -> {"tau", "gamma", "estimation_step", "action_bound_method", "subset_size", "actor_delay", "deterministic_eval", "target_mode"}
    [] algo = "SAC" -> {"tau", "gamma", "estimation_step", "action_bound_method", "deterministic_eval"}
    [] algo = "DSAC" -> {"tau", "gamma", "estimation_step"}
    [] algo = "TD3" -> {"tau", "gamma", "estimation_step", "action_bound_method", "update_actor_freq"}
    [] OTHER -> {}
Scales(algo) == algo \in Both \cup Cont
Noisy(algo) == algo \in {"DDPG", "REDQ", "SAC", "TD3"}
Tuned(algo) == algo \in {"REDQ", "SAC", "DSAC"}
Scaling(c) == IF c.params.action_scaling = "default" THEN (IF c.env.c = 1 THEN "True" ELSE "False") ELSE c.params.action_scaling
PolicyOf(algo) == IF algo = "DSAC" THEN "DiscreteSACPolicy" ELSE IF algo = "RND" THEN "RandomActionPolicy" ELSE algo \o "Policy"

\* ---------------------------------------------------------------- networks
\* layers <<ensemble, inputs, outputs>>
Chain(e, n, h) == [k \in 1..Len(h) |-> <<e, IF k = 1 THEN n ELSE h[k - 1], h[k]>>]
End(n, h) == IF h = << >> THEN n ELSE h[Len(h)]
Default == [kind |-> "default", hid |-> <<64, 64>>, act |-> "ReLU", unb |-> FALSE, cs |-> FALSE]
Or(x, d) == IF Set(x) THEN x ELSE d
ActorC(c) == Or(c.actor, Default)
ModelC(c) == Or(c.model, Default)
ActorPre(c) == Chain(0, c.env.obs, ActorC(c).hid)
ActorLin(c) == LET a == ActorC(c)  l == End(c.env.obs, a.hid) IN
    ActorPre(c) \o << <<0, l, c.env.act>> >> \o (IF c.env.c = 1 /\ c.algo \in Gauss /\ a.cs THEN << <<0, l, c.env.act>> >> ELSE << >>)
Uses(c) == c.algo \in Cont
LastSize(c) == IF c.algo = "DSAC" THEN c.env.act ELSE 1
CriticIn(c) == IF Uses(c) THEN c.env.obs + c.env.act ELSE c.env.obs
CriticLin(c, q) ==
    IF q.kind = "reuse" THEN ActorPre(c) \o << <<0, End(c.env.obs, ActorC(c).hid) + (IF Uses(c) THEN c.env.act ELSE 0), LastSize(c)>> >>
    ELSE Chain(0, CriticIn(c), q.hid) \o << <<0, End(CriticIn(c), q.hid), LastSize(c)>> >>
EnsLin(c) == LET q == Or(c.ensemble, Default)  n == c.params.ensemble_size IN
    Chain(n, CriticIn(c), q.hid) \o << <<n, End(CriticIn(c), q.hid), 1>> >>
ModelLin(c) == LET m == ModelC(c) IN Chain(0, c.env.obs, m.hid) \o << <<0, End(c.env.obs, m.hid), c.env.act>> >>
IqnLin(c) == LET h == c.params.hidden_sizes IN
    ModelLin(c) \o Chain(0, c.env.act, h) \o << <<0, End(c.env.act, h), c.env.act>>, <<0, c.params.num_cosines, c.env.act>> >>
IcmLin(c) == LET w == c.wrapper  f == c.env.act  n == c.env.act IN
    \* the feature network is an actor network, its outputs are the features
    Chain(0, c.env.obs, w.feat) \o << <<0, End(c.env.obs, w.feat), n>> >>
    \o Chain(0, f + n, w.hid) \o << <<0, End(f + n, w.hid), f>> >> \o Chain(0, 2 * f, w.hid) \o << <<0, End(2 * f, w.hid), n>> >>
Nets(algo) == CASE algo = "PG" -> {"actor"} [] algo \in {"DQN", "IQN"} -> {"model"} [] algo \in Single \cup {"REDQ"} -> {"actor", "critic"}
                [] algo \in Dual -> {"actor", "critic", "critic2"} [] OTHER -> {}
LinOf(c, n) == CASE n = "actor" -> ActorLin(c)
                 [] n = "critic" -> IF c.algo = "REDQ" THEN EnsLin(c) ELSE CriticLin(c, Or(c.critic1, Default))
                 [] n = "critic2" -> CriticLin(c, Or(c.critic2, Default))
                 [] n = "model" -> IF c.algo = "IQN" THEN IqnLin(c) ELSE ModelLin(c)
ActsOf(c, n) == CASE n = "actor" -> [k \in 1..Len(ActorC(c).hid) |-> ActorC(c).act]
                  [] n = "critic" /\ c.algo = "REDQ" -> [k \in 1..Len(Or(c.ensemble, Default).hid) |-> "Tanh"]
                  [] n \in {"critic", "critic2"} -> LET q == Or(IF n = "critic" THEN c.critic1 ELSE c.critic2, Default)
                                                        r == IF q.kind = "reuse" THEN ActorC(c) ELSE q IN [k \in 1..Len(r.hid) |-> r.act]
                  [] n = "model" -> [k \in 1..Len(ModelC(c).hid) |-> ModelC(c).act]
Reuses(c, n) == LET q == IF n = "critic" THEN c.critic1 ELSE c.critic2 IN Set(q) /\ q.kind = "reuse"

\* ---------------------------------------------------------------- optimizers
Adam == [cls |-> "Adam", hyper |-> [betas |-> "(n0.9,n0.999)", eps |-> "n1e-08", weight_decay |-> "n0.0"]]
OptC(c) == Or(c.optim, Adam)
Opts(algo) == CASE algo \in {"PG", "DQN", "IQN"} \cup ActorCriticOnPolicy -> {"optim"} [] algo \in {"DDPG", "REDQ"} -> {"actor_optim", "critic_optim"}
                [] algo \in Dual -> {"actor_optim", "critic_optim", "critic2_optim"} [] OTHER -> {}
NetsOf(algo, o) == CASE o = "actor_optim" -> {"actor"} [] o = "critic_optim" -> {"critic"} [] o = "critic2_optim" -> {"critic2"} [] OTHER -> Nets(algo)
RateOf(c, o) == CASE o = "actor_optim" -> c.params.actor_lr
                  [] o = "critic_optim" -> IF c.algo \in Dual THEN c.params.critic1_lr ELSE c.params.critic_lr
                  [] o = "critic2_optim" -> c.params.critic2_lr [] OTHER -> c.params.lr
SchedOf(c, o) == CASE o = "actor_optim" -> c.params.actor_lr_scheduler_factory
                  [] o = "critic_optim" -> IF c.algo \in Dual THEN c.params.critic1_lr_scheduler_factory ELSE c.params.critic_lr_scheduler_factory
                  [] o = "critic2_optim" -> c.params.critic2_lr_scheduler_factory [] OTHER -> c.params.lr_scheduler_factory
Cdiv(a, b) == (a + b - 1) \div b
\* relative rates (in millionths) before and after each of three steps
Rates(c, kind) == IF kind = "step" THEN <<1000000, 500000, 250000, 125000>>
                  ELSE LET n == Cdiv(c.params.lin[1], c.params.lin[2]) * c.params.lin[3] IN [k \in 1..4 |-> 1000000 - ((k - 1) * 1000000) \div n]
Near(a, b, d) == a - b <= d /\ b - a <= d
NearSeq(a, b, d) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], d)

\* ---------------------------------------------------------------- computed numbers
Log98 == <<0, 679, 1077, 1359, 1577, 1756>>
TargetEntropy(c) == IF c.env.c = 1 THEN -(c.env.act * 1000) ELSE Log98[c.env.act]
Scaled(c, f) == IF c.params[f] = "scaled" THEN c.params[f \o "_v"] * c.env.high ELSE c.params[f \o "_v"] * 1000
NoiseSigma(c) == IF c.params.exploration_noise = "factory" THEN c.params.noise_v * c.env.high ELSE c.params.noise_v * 1000
NoiseName(c) == CASE c.params.exploration_noise = "None" -> {"None", "NoneType"} [] c.params.exploration_noise = "default" -> {"default"} [] OTHER -> {"GaussianNoise"}

\* ---------------------------------------------------------------- environments and buffer
VenvClass(v) == IF v = "dummy" THEN "DummyVectorEnv" ELSE "SubprocVectorEnv"
Shm(v) == IF v \in {"dummy", "subproc"} THEN 0 ELSE 1
SizeOf(c) == IF c.samp.nt = 1 THEN c.samp.buffer ELSE Cdiv(c.samp.buffer, c.samp.nt) * c.samp.nt
ObsDims(c) == Len(c.env.oshape) - (IF c.samp.only THEN 1 ELSE 0)
\* exploration rate at a step (in millionths)
Eps(c, s) == LET k == c.cbtrain IN
    IF k.kind = "set" THEN k.a ELSE IF s > k.n THEN k.b ELSE k.a - (s * (k.a - k.b)) \div k.n

\* ---------------------------------------------------------------- builders
Fresh(e) == [algo |-> e.algo, env |-> e.env, reg |-> e.reg, venv |-> e.venv, samp |-> e.samp, exp |-> e.exp, params |-> e.params, optim |-> << >>, name |-> "",
             actor |-> << >>, critic1 |-> << >>, critic2 |-> << >>, ensemble |-> << >>, model |-> << >>, wrapper |-> << >>, cbtrain |-> << >>, cbtest |-> << >>, stop |-> << >>]
SeedName(base, c, k) == base \o "_exp_seed=" \o ToString(c.exp.seed + k) \o "_train_seed=" \o ToString(c.samp.seed + k * c.samp.nt)
                        \o "_test_seed=" \o ToString(c.samp.seed + k * c.samp.nt + c.samp.nt)
\* the k-th experiment of a collection (from 0)
Seeded(c, k, name) == [c EXCEPT !.exp.seed = @ + k, !.samp.seed = @ + k * c.samp.nt, !.name = name]
=============================================================================
