----------------------------- MODULE ExperTrace -----------------------------
(* Judges recorded sequences of runs of experiments: every collection, hook,
   update and save in order, the files after it, and what the run answers.   *)
EXTENDS TraceBase, Exper
Start(e) == Idle
RECURSIVE Exec(_)
Exec(q) == IF q.pc \in {"idle", "end", "fail"} THEN q ELSE Exec(Step(q))
\* files of all directories: <<name, policy, state, checkpoints, experiment stored>>
Files(s, fs) == /\ Len(fs) = Cardinality(DOMAIN s.disk)
                /\ \A k \in 1..Len(fs) : LET f == fs[k] IN
                     /\ f.name \in DOMAIN s.disk
                     /\ LET d == s.disk[f.name] IN f.policy = d.policy /\ f.state = d.state /\ f.pkl = 1 /\ ToSet(f.ck) = ToSet(d.ck) /\ Len(f.ck) = Len(d.ck)
Of(s, e) == IF e.op = "run" THEN e.c ELSE [Loaded(s, e.dir, e.rp) EXCEPT !.name = e.name, !.raises = FALSE]
Ready(s) == s.pc \in {"idle"}
\* the runs of a launcher one after the other
Runs(s, cs) == FoldLeft(LAMBDA acc, c : LET q == Exec(Run(acc[1], c)) IN
      <<[q EXCEPT !.pc = "idle"], IF q.pc = "fail" THEN acc[2] ELSE Append(acc[2], Result(q))>>, <<s, << >> >>, cs)
\* results that a launcher hands on: those that did not fail, in order
Good(fails) == SelectSeq([k \in 1..Len(fails) |-> k], LAMBDA k : fails[k] = 0)
Clauses(s, e) ==
  CASE e.op \in {"run", "again"} -> << <<"history", Ready(s)>> >>
    [] e.op = "loaded" -> << <<"loaded.settings", e.c = [Loaded(s, e.dir, e.rp) EXCEPT !.name = e.c.name, !.raises = e.c.raises]>> >>
    [] e.op = "restore" -> << <<"order.restore", s.pc = "restore">>, <<"restore.policy", s.pc # "restore" \/ e.w = s.w>> >>
    [] e.op = "collect" /\ e.who = "train" ->
         IF s.pc = "prefill" THEN
           << <<"prefill.amount", e.nstep = s.c.start /\ e.nep = 0 /\ e.steps = Steps(s.c, s.c.start)>>, <<"prefill.random", e.asked = (IF s.c.srand THEN 0 ELSE 1)>>,
              <<"prefill.buffer", e.blen = Fill(s, e.steps).blen>>, <<"prefill.policy", s.c.srand \/ e.w = s.w>> >>
         ELSE << <<"order.collect", s.pc = "coll">>,
                 <<"collect.amount", s.pc # "coll" \/ (e.nstep = (IF s.c.epc > 0 THEN 0 ELSE s.c.spc) /\ e.nep = s.c.epc)>>,
                 <<"collect.steps", s.pc # "coll" \/ e.steps = Amount(s.c)>>,
                 <<"collect.episodes", s.pc # "coll" \/ e.eps = DoColl(s, e.blen).epi - s.epi>>,
                 <<"collect.buffer", s.pc # "coll" \/ e.blen = DoColl(s, e.blen).blen>>,
                 <<"collect.mode", e.asked = 1 /\ e.noise = 1 /\ e.tr = 1>>, <<"collect.policy", e.w = s.w>> >>
    [] e.op = "collect" ->
         << <<"order.test", s.pc = "test">>, <<"test.amount", s.pc # "test" \/ (e.nstep = 0 /\ e.nep = s.c.ntests /\ e.eps = s.c.ntests)>>,
            <<"test.score", s.pc # "test" \/ e.mean = Score(s.c, s.w)>>, <<"test.mode", e.noise = 0 /\ e.tr = 0>>, <<"test.policy", e.w = s.w>> >>
    [] e.op = "tcb" -> << <<"order.test-hook", s.pc = "tcb">>, <<"test-hook", s.pc # "tcb" \/ (e.ep = s.ep /\ e.step = s.env)>> >>
    [] e.op = "rcb" -> << <<"order.train-hook", s.pc = "rcb">>, <<"train-hook", s.pc # "rcb" \/ (e.ep = s.ep /\ e.step = s.env)>> >>
    [] e.op = "scb" -> << <<"order.stop-hook", s.pc = "scb">>, <<"stop-hook", s.pc # "scb" \/ e.mean = s.best>> >>
    [] e.op = "upd" -> << <<"order.update", s.pc = "upd">>,
            <<"update.sample", s.pc # "upd" \/ (IF s.c.kind = "on" THEN e.ss = 0 /\ e.bs = s.c.bs /\ e.rep = s.c.rep ELSE e.ss = s.c.bs)>>,
            <<"update.buffer", s.pc # "upd" \/ e.blen = s.blen>>, <<"update.policy", e.w = s.w>> >>
    [] e.op = "persist" -> << <<"order.save", s.pc \in {"save", "ck"}>>,
            <<"save.files", s.pc \notin {"save", "ck"} \/ Files(Step(s), e.files)>> >>
    [] e.op = "watch" -> << <<"order.watch", s.pc = "watch">>, <<"watch.episodes", s.pc # "watch" \/ e.acts = [k \in 1..s.c.nwatch |-> s.w]>> >>
    [] e.op = "end" -> << <<"run.refused", e.err = 0 => s.pc # "fail">>, <<"run.raised", e.err = 1 => s.pc = "fail">>,
            <<"run.complete", s.pc \in {"end", "fail"}>>,
            <<"run.result", e.err = 1 \/ s.pc # "end" \/ e.res = Result(s)>>,
            <<"run.world", e.err = 1 \/ s.pc # "end" \/ e.w = s.w>>,
            <<"run.files", s.pc \notin {"end", "fail"} \/ Files(s, e.files)>> >>
    [] e.op = "launchall" -> LET r == Runs(s, e.cs) IN
          << <<"launch.results", e.res = r[2]>>, <<"launch.files", Files(r[1], e.files)>> >>
    [] e.op = "launch" -> LET g == Good(e.fails) IN
          << <<"launch.each-once", e.ran = [k \in 1..Len(e.fails) |-> k]>>,
             <<"launch.error", e.err = (IF g = << >> THEN 1 ELSE 0)>>, <<"launch.order", e.err = 1 \/ e.res = g>> >>
    [] e.op = "seeded" -> << <<"seeded.names", Cardinality({e.exps[k].name : k \in 1..Len(e.exps)}) = Len(e.exps)>>,
             <<"seeded.count", Len(e.exps) = e.n>>,
             <<"seeded.prefix", \A k \in 1..Len(e.exps) : e.exps[k].prefix = 1>>,
             <<"seeded.seed", \A k \in 1..Len(e.exps) : e.exps[k].seed = e.seed + k - 1>>,
             <<"seeded.train-seed", \A k \in 1..Len(e.exps) : e.exps[k].train = e.train + (k - 1) * e.nt>>,
             <<"seeded.test-seed", \A k \in 1..Len(e.exps) : e.exps[k].test = e.exps[k].train + e.nt>>,
             <<"seeded.original", e.after = <<e.seed, e.train>> >>,
             <<"seeded.settings", \A k \in 1..Len(e.exps) : e.exps[k].epochs = e.epochs>> >>
    [] e.op = "repeat" -> << <<"repeat.same", e.a = e.b>>, <<"repeat.other-seed", e.a # e.c>> >>
    [] OTHER -> << <<"unknown event", FALSE>> >>
Bad(s, e) == Violated(Clauses(s, e))
Post(s, e) ==
  CASE e.op \in {"run", "again"} -> Run(s, Of(s, e))
    [] e.op = "collect" /\ e.who = "train" /\ s.pc = "coll" -> DoColl(s, e.blen)
    [] e.op \in {"restore", "collect", "tcb", "rcb", "scb", "upd", "persist", "watch"} -> Step(s)
    [] e.op = "end" -> [Idle EXCEPT !.disk = s.disk]
    [] e.op = "launchall" -> Runs(s, e.cs)[1]
    [] OTHER -> s
VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
