---------------------------- MODULE SetupTrace ----------------------------
(* Judges recorded sessions with experiment builders: what every world that is
   created consists of, given the settings of its experiment.                *)
EXTENDS TraceBase, Setup
Start(e) == [b |-> <<Fresh(e)>>, x |-> << >>, made |-> << >>]
Bag(q, r) == Len(q) = Len(r) /\ \A v \in ToSet(q) \cup ToSet(r) : Cardinality({k \in 1..Len(q) : q[k] = v}) = Cardinality({k \in 1..Len(r) : r[k] = v})
Union(w, ns) == UNION {ToSet(w.nets[n].pars) : n \in ns}
Hyper(o, c) == o.cls = OptC(c).cls /\ o.groups = 1 /\ \A f \in DOMAIN OptC(c).hyper : f \in DOMAIN o.hyper /\ o.hyper[f] = OptC(c).hyper[f]
Seq1(n, F(_)) == [k \in 1..n |-> F(k)]
Regs(c, w, j, n, mode, seed, render) ==
    LET r == w.regs[j] IN
    c.venv # "dummy" \/
    (Len(r) = n /\ \A k \in 1..Len(r) :
        IF c.reg.on = 1 THEN r[k].seeds = <<seed + k - 1>> /\ r[k].render = render /\ r[k].extra = c.reg.extra
        ELSE r[k].mode = mode)
World(c, w) ==
  LET p == c.params  a == c.algo  wt == IF c.exp.watch THEN 1 ELSE 0 IN
  << <<"policy.class", w.cls = PolicyOf(a)>>,
     <<"policy.params", \A f \in Names(a) : f \in DOMAIN w.kw /\ w.kw[f] = p[f]>>,
     <<"policy.action-space", w.space = 1>>,
     <<"policy.scaling", ~Scales(a) \/ w.kw.action_scaling = Scaling(c)>>,
     <<"policy.noise", ~Noisy(a) \/ (w.noise.cls \in NoiseName(c) /\ (w.noise.cls # "GaussianNoise" \/ (Near(w.noise.sigma, NoiseSigma(c), 1 + NoiseSigma(c) \div 30) /\ Near(w.noise.mu, 0, 1 + NoiseSigma(c) \div 30))))>>,
     <<"policy.td3-noise", a # "TD3" \/ (Near(w.policy_noise, Scaled(c, "policy_noise"), 2) /\ Near(w.noise_clip, Scaled(c, "noise_clip"), 2))>>,
     <<"policy.ensemble", a # "REDQ" \/ w.kw.ensemble_size = p.s_ensemble_size>>,
     <<"alpha", ~Tuned(a) \/ (w.alpha.kind = p.alpha /\
          (IF p.alpha = "float" THEN w.alpha.v = p.alpha_v
           ELSE Near(w.alpha.te, TargetEntropy(c), 1) /\ w.alpha.zero = 1 /\ w.alpha.opt.params = w.alpha.pars /\ Hyper(w.alpha.opt, c) /\ w.alpha.opt.lr = p.alpha_v))>>,
     <<"nets", DOMAIN w.nets = Nets(a)>>,
     <<"nets.layers", \A n \in Nets(a) : n \in DOMAIN w.nets /\ Bag(w.nets[n].lin, LinOf(c, n))>>,
     <<"nets.activations", a = "IQN" \/ \A n \in Nets(a) : n \in DOMAIN w.nets /\ Bag(w.nets[n].acts, ActsOf(c, n))>>,
     <<"nets.shared", \A n \in Nets(a) \cap {"critic", "critic2"} :
          IF Reuses(c, n) THEN w.nets[n].pre = w.nets.actor.pre ELSE ToSet(w.nets[n].pars) \cap ToSet(w.nets.actor.pars) = {}>>,
     <<"nets.critics-apart", a \notin Dual \/ (Reuses(c, "critic") /\ Reuses(c, "critic2")) \/ ToSet(w.nets.critic.pars) \cap ToSet(w.nets.critic2.pars) = {}>>,
     <<"actor.bounded", a \notin Both \cup Cont \/ c.env.c = 0 \/ w.beh.unb = (IF a \in Gauss /\ ActorC(c).unb THEN 1 ELSE 0)>>,
     <<"actor.output", c.env.c = 1 \/ a \in {"RND", "IQN"} \/ w.beh.soft = (IF a \in Both THEN 1 ELSE 0)>>,
     <<"actor.distribution", (a \notin Both /\ a # "DSAC") \/ w.beh.dist = 1>>,
     <<"critic.usable", Len(w.beh.q) = Cardinality(Nets(a) \cap {"critic", "critic2"}) /\
          \A k \in 1..Len(w.beh.q) : w.beh.q[k] = (IF a = "REDQ" THEN <<p.ensemble_size, 4, 1>> ELSE <<4, LastSize(c)>>)>>,
     <<"optim", DOMAIN w.opts = Opts(a) \cup {"none"}>>,
     <<"optim.settings", \A o \in Opts(a) : o \in DOMAIN w.opts /\ Hyper(w.opts[o], c)>>,
     <<"optim.rate", \A o \in Opts(a) : o \in DOMAIN w.opts /\ w.opts[o].lr = RateOf(c, o)>>,
     <<"optim.covers", \A o \in Opts(a) : o \in DOMAIN w.opts /\ ToSet(w.opts[o].params) = Union(w, NetsOf(a, o))>>,
     <<"schedules", LET on == {o \in Opts(a) : SchedOf(c, o) # "None"} IN
          /\ Len(w.sched) = Cardinality(on) /\ {w.sched[k].opt : k \in 1..Len(w.sched)} = on /\ w.multi = (IF Cardinality(on) > 1 THEN 1 ELSE 0)
          /\ \A k \in 1..Len(w.sched) : w.sched[k].opt \in on => NearSeq(w.sched[k].lrs, Rates(c, SchedOf(c, w.sched[k].opt)), 2)>>,
     <<"wrapper", w.wrap.on = (IF Set(c.wrapper) THEN 1 ELSE 0)>>,
     IF ~Set(c.wrapper) \/ w.wrap.on = 0 THEN << >> ELSE
     <<"wrapper.settings", LET v == w.wrap IN v.inner = 1 /\ Bag(v.lin, IcmLin(c)) /\ v.opt.params = v.pars /\ Hyper(v.opt, c) /\ v.opt.lr = c.wrapper.lr
          /\ v.lr_scale = c.wrapper.lr_scale /\ v.reward_scale = c.wrapper.reward_scale /\ v.forward_loss_weight = c.wrapper.fw /\ v.space = 1>>,
     <<"envs.count", w.nenv = <<c.samp.nt, c.samp.ne, wt>> >>,
     <<"envs.kind", w.venv = <<VenvClass(c.venv), VenvClass(c.venv), IF wt = 1 THEN "DummyVectorEnv" ELSE "None">> /\ w.shm = <<Shm(c.venv), Shm(c.venv), 0>> >>,
     <<"envs.train", Regs(c, w, 1, c.samp.nt, "train", c.reg.train, c.reg.rm[1])>>,
     <<"envs.test", Regs(c, w, 2, c.samp.ne, "test", c.reg.test, c.reg.rm[2])>>,
     <<"envs.watch", wt = 0 \/ (Len(w.regs[3]) = 1 /\ (IF c.reg.on = 1 THEN w.regs[3][1].render = c.reg.rm[3] /\ w.regs[3][1].extra = c.reg.extra ELSE w.regs[3][1].mode = "watch"))>>,
     <<"envs.one", IF c.reg.on = 1 THEN w.one.render = c.reg.rm[1] /\ w.one.extra = c.reg.extra ELSE w.one.mode = "train">>,
     <<"collectors", w.train = (IF c.exp.train THEN 1 ELSE 0)>>,
     IF w.train = 0 THEN << >> ELSE
     <<"buffer", LET q == w.buf IN q.cls = (IF c.samp.nt = 1 THEN "ReplayBuffer" ELSE "VectorReplayBuffer") /\ q.max = SizeOf(c) /\ q.num = c.samp.nt /\ q.stack = c.samp.stack
          /\ q.ndim = ObsDims(c) /\ q.next = (IF c.samp.ignore THEN 0 ELSE 1)>>,
     IF w.train = 0 THEN << >> ELSE
     <<"collectors.parts", w.buf.noise = <<1, 0>> /\ w.buf.envs = 1 /\ w.buf.pol = 1>>,
     <<"callbacks", w.train = 0 \/ w.cb.set = <<IF Set(c.cbtrain) THEN 1 ELSE 0, IF Set(c.cbtest) THEN 1 ELSE 0, IF Set(c.stop) THEN 1 ELSE 0>> >>,
     IF w.train = 0 \/ ~Set(c.cbtrain) THEN << >> ELSE <<"callbacks.train", \A k \in 1..Len(w.cb.train) : Near(w.cb.train[k][2], Eps(c, w.cb.train[k][1]), 1)>>,
     IF w.train = 0 \/ ~Set(c.cbtest) THEN << >> ELSE <<"callbacks.test", \A k \in 1..Len(w.cb.test) : w.cb.test[k][2] = c.cbtest.a>>,
     IF w.train = 0 \/ ~Set(c.stop) THEN << >> ELSE <<"callbacks.stop", \A k \in 1..Len(w.cb.stop) : w.cb.stop[k][2] = (IF w.cb.stop[k][1] >= c.stop.thr THEN 1 ELSE 0)>>,
     <<"name", c.name = "" \/ w.name = c.name>> >>
\* the settings that decide the first parameters of the networks
Key(c) == <<c.exp.seed, c.params, c.actor, c.critic1, c.critic2, c.ensemble, c.model, c.wrapper, c.samp, c.exp.watch, c.optim>>
Clauses(s, e) ==
  CASE e.op = "with" -> << <<"with.chain", e.same = 1>> >>
    [] e.op = "copy" -> << >>
    [] e.op = "build" -> << <<"build.name", s.b[e.b].name = "" \/ e.name = s.b[e.b].name>> >>
    [] e.op = "store" -> << >>
    [] e.op = "seeded" -> LET c == s.b[e.b] IN
         << <<"seeded.count", Len(e.names) = e.n /\ Len(e.seeds) = e.n>>,
            <<"seeded.names", e.names = [k \in 1..e.n |-> SeedName(e.base, c, k - 1)]>>,
            <<"seeded.base", c.name = "" \/ e.base = c.name>>,
            <<"seeded.seeds", e.seeds = [k \in 1..e.n |-> <<c.exp.seed + k - 1, c.samp.seed + (k - 1) * c.samp.nt, c.samp.seed + k * c.samp.nt>>]>> >>
    [] e.op = "failed" -> << <<"world.created", FALSE>> >>
    [] e.op = "world" -> World(s.x[e.x], e.w) \o
         << <<"seed.same", \A k \in 1..Len(s.made) : s.made[k][1] = Key(s.x[e.x]) => s.made[k][2] = e.w.digest>>,
            <<"seed.other", \A k \in 1..Len(s.made) : (s.made[k][1][1] # s.x[e.x].exp.seed /\ e.w.digest # "none") => s.made[k][2] # e.w.digest>> >>
    [] OTHER -> << <<"unknown event", FALSE>> >>
Bad(s, e) == Violated(Clauses(s, e))
Post(s, e) ==
  CASE e.op = "with" -> [s EXCEPT !.b[e.b] = Put(@, e.slot, e.val)]
    [] e.op = "copy" -> [s EXCEPT !.b = Append(@, s.b[e.b])]
    [] e.op = "build" -> [s EXCEPT !.x = Append(@, s.b[e.b])]
    [] e.op = "store" -> [s EXCEPT !.x = Append(@, s.x[e.x])]
    [] e.op = "seeded" -> [s EXCEPT !.x = @ \o [k \in 1..e.n |-> Seeded(s.b[e.b], k - 1, e.names[k])]]
    [] e.op = "world" -> [s EXCEPT !.made = Append(@, <<Key(s.x[e.x]), e.w.digest>>)]
    [] OTHER -> s
VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
