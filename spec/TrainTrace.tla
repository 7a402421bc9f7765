------------------------------ MODULE TrainTrace -----------------------------
(* Judges recorded trainings of the real trainers. *)
EXTENDS TraceBase, Trainer
Conf(e) == [kind |-> e.kind, max |-> e.max, spe |-> e.spe, spc |-> e.spc, epc |-> e.epc, un |-> e.un, ud |-> e.ud, bs |-> e.bs, rep |-> e.rep,
            ept |-> e.ept, test |-> e.test, stop |-> e.stop, thr |-> e.thr, tit |-> e.tit, sb |-> e.sb, ck |-> e.ck, trf |-> e.trf /\ e.kind # DATA,
            tef |-> e.tef, score |-> e.score, metric |-> e.metric, resume |-> FALSE, rows |-> e.rows]
LogOf(e) == NewLog(e.it, e.ie, e.iu, e.ii, e.si)
Start(e) == NewTrainer(Conf(e), LogOf(e)) @@ [cf |-> e]
\* fractions <<n, d>>
Eq(f, n, d) == Len(f) = 2 /\ f[1] * d = n * f[2]
Idle == {"new", "over", "failed", "next"}
InfoOk(s, i) == i = Info(s)
NoDebt(s) == \A x \in Scopes : s.pend[x] = << >>
Flags(s, e) == << <<"policy.left-in-training-step", ~e.isw>>, <<"policy.mode-not-restored", e.tr = s.cf.mode>> >>
Order(s, k) == <<"order.expected-" \o s.pc \o "-got-" \o k, s.pc = k>>
Debt(s, scope) == <<"log." \o scope \o ".missing", s.pend[scope] = << >> >>
Clauses(s, e) ==
  CASE e.op = "start" -> << <<"order.run-in-" \o s.pc, s.pc \in Idle>> >>
    [] e.op = "new" -> << <<"driver", s.pc \in Idle>> >>
    [] e.op = "next" -> << Order(s, "next") >> \o [x \in 1..4 |-> Debt(s, <<"train", "test", "update", "info">>[x])]
    [] e.op = "tfn" -> << Order(s, "tfn"), <<"test-hook.epoch", e.ep = s.ep>>, <<"test-hook.env-step", e.st = s.env>> >>
    [] e.op = "test" -> << Order(s, "test"), Debt(s, "test"), <<"test.episodes", e.ne = s.c.ept /\ e.ns = 0 /\ ~e.rand>>, <<"test.envs-not-reset", e.fresh>>,
                           <<"test.within-training-step", ~e.isw[1]>>, <<"test.torch-training-mode", ~e.tr>>, <<"test.updating-flag", ~e.upd>>,
                           <<"test.number", Len(e.rets) = s.c.ept /\ e.eps = s.c.ept>> >>
    [] e.op = "save" -> << Order(s, "save"), <<"save-best.policy", e.pol>> >>
    [] e.op = "trfn" -> << Order(s, "trfn"), <<"train-hook.epoch", e.ep = s.ep>>, <<"train-hook.env-step", e.st = s.env>> >>
    [] e.op = "coll" -> << Order(s, "coll"), Debt(s, "train"), <<"collect.steps-argument", e.ns = s.c.spc>>, <<"collect.episodes-argument", e.ne = s.c.epc>>,
                           <<"collect.random", ~e.rand>>,
                           <<"collect.not-within-training-step", e.isw[2]>>, <<"collect.torch-training-mode", ~e.tr>>, <<"collect.updating-flag", ~e.upd>>,
                           <<"collect.buffer-before", e.b0 = s.blen>>,
                           <<"collect.buffer-after", e.b0 + e.steps <= s.cf.cap => e.b1 = e.b0 + e.steps>>,
                           <<"collect.steps", s.c.spc > 0 => e.steps = s.c.spc>>, <<"collect.episodes", e.eps = Len(e.rets)>> >>
    [] e.op = "upd" -> << Order(s, "upd"), Debt(s, "update"),
                          <<"update.sample-size", e.ss = IF s.c.kind = ON THEN 0 ELSE IF s.c.bs = 0 THEN -1 ELSE s.c.bs>>,
                          <<"update.buffer", e.buf = IF s.c.kind = DATA THEN "given" ELSE "train">>,
                          <<"update.batch-size", s.c.kind = ON => e.bs = s.c.bs>>, <<"update.repeat", s.c.kind = ON => e.rep = s.c.rep>>,
                          <<"update.within-training-step", e.isw>>, <<"update.torch-training-mode", e.ltr>>, <<"update.updating-flag", e.lupd>>,
                          <<"update.learn-once", e.nl = 1>>,
                          <<"update.rows", e.rows = IF s.c.kind = ON THEN s.blen ELSE IF s.c.bs = 0 THEN (IF s.c.kind = DATA THEN s.c.rows ELSE s.blen) ELSE s.c.bs>> >>
    [] e.op = "ckpt" -> << Order(s, "ckpt"), <<"checkpoint.epoch", e.ep = s.ep>>, <<"checkpoint.env-step", e.env = s.env>>, <<"checkpoint.gradient-step", e.gr = s.gr>> >>
    [] e.op = "write" ->
         IF s.pend[e.scope] = << >> THEN << <<"log." \o e.scope \o ".not-due", FALSE>> >>
         ELSE LET p == s.pend[e.scope] v == p[2] IN
              << <<"log." \o e.scope \o ".step", e.step = p[1]>>,
                 <<"log." \o e.scope \o ".step-name", e.name = CASE e.scope = "update" -> "gradient_step" [] e.scope = "info" -> "epoch" [] OTHER -> "env_step">>,
                 CASE e.scope = "train" -> <<"log.train.values", e.vals[1] = v[1] /\ e.vals[2] = v[2] /\ Eq(<<e.vals[3], e.vals[4]>>, v[3], v[4])>>
                   [] e.scope = "test" -> <<"log.test.values", e.vals[1] = s.c.ept /\ Eq(<<e.vals[2], e.vals[3]>>, v[2], v[3])>>
                   [] e.scope = "update" -> <<"log.update.smoothed-loss", Eq(<<e.vals[1], e.vals[2]>>, v[1], v[2]) /\ e.vals[3] = s.losses[Len(s.losses)]>>
                   [] OTHER -> <<"log.info.values", e.vals = v>> >>
    [] e.op = "epoch" -> << Order(s, "epoch"), <<"epoch.number", e.ep = s.ep>>,
                            <<"epoch.counters", s.c.kind = DATA \/ (e.epi = s.epi /\ e.env = s.env /\ e.gr = s.gr)>>,
                            <<"epoch.collected", IF s.c.kind = DATA THEN e.cs = s.c.rows ELSE e.cs = s.col[1] /\ e.ce = s.col[2]>>,
                            <<"epoch.train-return", s.c.kind # DATA /\ s.col[2] > 0 => Eq(e.cm, s.col[3], s.col[2])>>,
                            <<"epoch.test", IF s.tmean = << >> THEN e.test = << >> ELSE Eq(e.test, s.tmean[1], 1)>>,
                            <<"epoch.training-stat", e.upd = s.upd>>,
                            <<"epoch.smoothed-loss", s.upd => LET q == Smooth(s.losses) IN Eq(e.sm, q[1], q[2])>>,
                            <<"epoch.info", InfoOk(s, e.info)>> >> \o Flags(s, e)
    [] e.op = "stop" -> << Order(s, "stop") >> \o Flags(s, e)
    [] e.op = "end" -> << <<"run.ended-early", s.pc = "over">>, <<"run.info", InfoOk(s, e.info)>> >>
    [] e.op = "fail" -> << <<"run.failed: " \o e.err, e.inj \/ s.pc = "raise">>, <<"policy.left-updating", ~e.upd>> >> \o Flags(s, e)
    [] e.op = "side" -> << >>
    [] OTHER -> << <<"unknown event", FALSE>> >>
Bad(s, e) == Violated(Clauses(s, e))
Post(s, e) ==
  CASE e.op = "start" -> DoStart(s, e.rp, e.rb)
    [] e.op = "new" -> Renew(s, [s.c EXCEPT !.resume = e.resume], LogOf(s.cf), TRUE) @@ [cf |-> s.cf]
    [] e.op = "next" -> DoNext(s)
    [] e.op = "tfn" -> DoTfn(s)
    [] e.op = "test" -> DoTest(s, e.rets, e.steps)
    [] e.op = "save" -> DoSave(s)
    [] e.op = "trfn" -> DoTrfn(s)
    [] e.op = "coll" -> DoColl(s, e.steps, e.rets, e.b1)
    [] e.op = "upd" -> DoUpd(s, e.loss)
    [] e.op = "ckpt" -> DoCkpt(s)
    [] e.op = "write" -> DoWrite(s, e.scope)
    [] e.op = "epoch" -> DoEpoch(s)
    [] e.op = "stop" -> DoStop(s)
    [] e.op = "fail" -> DoFail(s)
    [] e.op = "side" -> [s EXCEPT !.sc = <<@[1] + e.steps, @[2] + e.eps>>]
    [] OTHER -> s
VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
