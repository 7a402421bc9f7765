----------------------------- MODULE StatsTrace -----------------------------
(* Judges recorded histories of real statistics objects.                       *)
EXTENDS TraceBase, Stats
Start(e) == [o |-> [j \in 1..Len(e.objs) |-> NewStat(e.objs[j].d, e.objs[j].m0, e.objs[j].s0, e.objs[j].clip)],
             w |-> [j \in 1..Len(e.upd) |-> [o |-> j, u |-> e.upd[j]]],
             c |-> << >>, size |-> e.size]
StatOk(st, e) == << <<e.op \o ".count", e.n = st.n>>,
                    <<e.op \o ".mean", Len(e.m) = Len(st.s) /\ \A k \in 1..Len(e.m) : MeanOk(st, k, e.m[k])>>,
                    <<e.op \o ".var", Len(e.v) = Len(st.s) /\ \A k \in 1..Len(e.v) : VarOk(st, k, e.v[k])>> >>
NormsOk(st, e) == << <<e.op \o ".normalised", Len(e.vals) = Len(e.raw)
                      /\ \A j \in 1..Len(e.raw) : Len(e.vals[j]) = Len(e.raw[j])
                           /\ \A k \in 1..Len(e.raw[j]) : NormOk(st, k, e.raw[j][k], e.vals[j][k])>> >>
\* the statistic that event e is about, after it
After(s, e) == LET ob == IF e.op = "env" THEN s.w[e.w].o ELSE e.w IN
  IF e.op = "upd" \/ (e.op = "env" /\ s.w[e.w].u = 1) THEN AddRows(s.o[ob], e.raw) ELSE s.o[ob]
Fin(e) == LET ks == SetToSortSeq({k \in 1..Len(e.vals) : e.fin[k] = 1}, <) IN [j \in 1..Len(ks) |-> e.vals[ks[j]]]
Cache(s, e) == MAdd(s.c, s.size, Fin(e))
Clauses(s, e) ==
  << <<e.op \o ".raised " \o e.err, e.err = "">> >> \o
  (IF e.err # "" THEN << >> ELSE
   CASE e.op \in {"upd"} -> StatOk(After(s, e), e)
     [] e.op = "norm" -> StatOk(After(s, e), e) \o NormsOk(After(s, e), e)
     [] e.op = "env" -> StatOk(After(s, e), e) \o NormsOk(After(s, e), e) \o
                        << <<"env.other-results", e.same = 1>> >>
     [] e.op = "add" -> << <<"add.mean", SeqMeanOk(Cache(s, e), e.mean)>>, <<"get.mean", SeqMeanOk(Cache(s, e), e.got)>>,
                           <<"get.std", SeqVarOk(Cache(s, e), e.var)>> >>
     [] e.op = "summary" -> << <<"summary.mean", SeqMeanOk(e.vals, e.mean)>>, <<"summary.std", SeqVarOk(e.vals, e.var)>>,
                               <<"summary.min", e.min = 1000 * (IF e.vals = << >> THEN 0 ELSE Min(ToSet(e.vals)))>>,
                               <<"summary.max", e.max = 1000 * (IF e.vals = << >> THEN 0 ELSE Max(ToSet(e.vals)))>> >>
     [] OTHER -> << >>)
Bad(s, e) == Violated(Clauses(s, e))
Post(s, e) ==
  IF e.err # "" THEN s
  ELSE CASE e.op \in {"upd", "norm"} -> [s EXCEPT !.o[e.w] = After(s, e)]
         [] e.op = "env" -> [s EXCEPT !.o[s.w[e.w].o] = After(s, e)]
         [] e.op = "share" -> [s EXCEPT !.w[e.w].o = e.x]
         [] e.op = "switch" -> [s EXCEPT !.w[e.w].u = 1 - @]
         [] e.op = "add" -> [s EXCEPT !.c = Cache(s, e)]
         [] OTHER -> s

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
