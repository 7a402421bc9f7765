------------------------------ MODULE HerTrace ------------------------------
(* Judges recorded operations on real hindsight replay buffers. *)
EXTENDS BufOps, Her
Start(e) == BufStart(e)
HClauses(st, e) ==
  CASE e.op = "hrows" ->     \* reading without sampling, when nothing may be relabelled
         LET b == st[e.r] IN
         << <<"B08.read raised " \o e.err, e.err = "">> >> \o
         (IF e.err # "" THEN << >> ELSE
           IF ~AllValid(b, e.idx) THEN << <<"B08.read-invalid", FALSE>> >> ELSE
           << <<"B08.act", e.act = F1(b, e.idx, LAMBDA s : ActOf(s.x))>>,
              <<"B08.original-goal", e.og = F1(b, e.idx, LAMBDA s : s.dg)>>,
              <<"B08.original-next-goal", e.nog = [k \in 1..Len(e.idx) |->
                   IF b.ign THEN Tr(b, BNext(b, e.idx[k])).dg ELSE Tr(b, e.idx[k]).dg]>>,
              <<"B08.original-reward", e.rew = F1(b, e.idx, LAMBDA s : s.r[1])>> >>)
    [] e.op = "hsample" ->
         LET b == st[e.r] IN
         << <<"B08.sample raised " \o e.err, e.err = "">> >> \o
         (IF e.err # "" THEN << >> ELSE
           IF ~AllValid(b, e.idx) THEN << <<"B08.sample-invalid", FALSE>> >> ELSE
           LET res == HerOk(b, e.idx, e.og, e.nog, e.rew, e.k2) IN
           << <<"B08.sample-count", IF e.n = 0 THEN e.idx = AllIdx(b) ELSE e.n = -1 \/ Len(e.idx) = e.n>>,
              <<"B08.act", e.act = F1(b, e.idx, LAMBDA s : ActOf(s.x))>>,
              <<"B08.achieved", e.ag = F1(b, e.idx, LAMBDA s : 2 * s.x)>>,
              <<"B08.achieved-next", e.nag = [k \in 1..Len(e.idx) |-> AgNext(b, e.idx[k])]>>,
              <<"B08.goal-not-achieved-later", res.goal>>,
              <<"B08.goals-of-observations-differ", res.next>>,
              <<"B08.goal-not-shared-in-episode", res.share>>,
              <<"B08.reward", res.rew>>,
              <<"B08.number-of-relabelled-episodes", res.count>> >>)
    [] OTHER -> BufClauses(st, e)
Bad(st, e) == Violated(HClauses(st, e))
Post(st, e) == BufPost(st, e)

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
