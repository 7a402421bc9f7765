----------------------------- MODULE MCCollect ------------------------------
(* All sequences of collect calls over a few environments with given episode
   lengths; synchronous: every choice of environments that stop early,
   asynchronous: every order in which results are returned.                   *)
EXTENDS Collect, TLC, Json, IOUtils
Tables == << << <<1>>, <<-2>> >>, << <<2, -1>>, <<1, 2>> >>, << <<1>>, <<1>>, <<2>> >>, << <<-2>>, <<1>>, <<3, 1>> >>,
             << <<1>>, <<2>>, <<2>>, <<3>> >>, << <<2>>, <<1>>, <<1>> >> >>
Lens == Tables[atoi(IOEnv.VF_L)]
Num == Len(Lens)
Async == IOEnv.VF_A = "1"
Need == atoi(IOEnv.VF_W)
MaxCalls == atoi(IOEnv.VF_C)
MaxReq == atoi(IOEnv.VF_R)
Edges == IOEnv.VF_EDGES = "1"
VARIABLES c, calls, sent, stopped, viol
vars == <<c, calls, sent, stopped, viol>>
FreshAll(d) == FoldLeft(LAMBDA x, i : Reset1(x, i, 0), d, SetToSortSeq(Envs(d), <))
ResetOver(d) == FoldLeft(LAMBDA x, i : IF En(x, i).over /\ x.pend[i + 1].s = "idle" THEN Reset1(x, i, 0) ELSE x, d, SetToSortSeq(Envs(d), <))
Init == /\ c = EndReset(FreshAll([NewColl(Num, Lens, Async, TRUE, TRUE) EXCEPT !.mode = "reset"]), TRUE)
        /\ calls = 0 /\ sent = [i \in 1..Num |-> 0] /\ stopped = {} /\ viol = FALSE
V(d) == <<d.mode, d.job, d.ready, IF d.mode = "collect" THEN <<d.nst, d.nep, d.it = 0>> ELSE << >>,
          [j \in 1..Num |-> <<d.en[j].k, (d.en[j].ep - 1) % Len(Lens[j]), d.pend[j].s>>]>>
View == V(c)
Log(a, d) == IF Edges THEN PrintT("VE|" \o ToJson(V(c)) \o "|" \o ToJson(a) \o "|" \o ToJson(V(d))) ELSE TRUE
Jobs == {[n |-> x, e |-> 0, random |-> FALSE, opt |-> 0] : x \in 1..MaxReq} \cup {[n |-> 0, e |-> x, random |-> FALSE, opt |-> 0] : x \in 1..MaxReq}
DoBegin == /\ c.mode = "idle" /\ (Edges \/ calls < MaxCalls)
           /\ \E job \in Jobs : /\ c' = Begin(c, job) /\ calls' = (IF Edges THEN 0 ELSE calls + 1)
                                /\ stopped' = {} /\ UNCHANGED <<sent, viol>>
                                /\ Log([op |-> "begin", lens |-> Lens, n |-> job.n, e |-> job.e, ids |-> << >>], c')
\* decide, act, and (synchronously) get all results
ActAll(E) == LET ids == SetToSortSeq(E, <) IN
  FoldLeft(LAMBDA d, i : Act(Chosen(d, i, 100 * En(d, i).ep + En(d, i).k, En(d, i).k + 1, 7), i), Served(c, E), ids)
Perms(S) == IF S = {} THEN {<< >>} ELSE {p \in [1..Cardinality(S) -> S] : \A x, y \in 1..Cardinality(S) : x # y => p[x] # p[y]}
Inc(E) == sent' = [j \in 1..Num |-> sent[j] + IF (j - 1) \in E THEN 1 ELSE 0]
First(E) == ~Edges \/ Async \/ LET all == IF c.it = 0 THEN Envs(c) ELSE c.ready IN  \* schedules: the choice the code makes
            IF c.it = 0 THEN E = 0..(Cardinality(E) - 1) ELSE \A x \in all \ E : \A y \in c.fresh \cap E : x < y
DoIter == /\ c.mode = "collect"
          /\ \E E \in SUBSET Envs(c) :
               /\ CanServe(c, E) /\ First(E)
               /\ Inc(E) /\ stopped' = stopped \cup (IF c.it > 0 THEN c.ready \ E ELSE {})
               /\ viol' = (viol \/ (c.it > 0 /\ ~c.async /\ c.ready \ E # {} /\ ~(c.ready \ E \subseteq c.fresh)))
               /\ LET d == ActAll(E) busy == {i \in Envs(c) : d.pend[i + 1].s = "busy"} IN
                  IF Async
                  THEN \E R \in SUBSET busy : \E ids \in Perms(R) :
                         /\ Len(ids) >= Min({Need, Cardinality(busy)})
                         /\ c' = ResetOver(Ret(d, ids)) /\ Log([op |-> "iter", lens |-> Lens, n |-> 0, e |-> 0, ids |-> ids], c')
                  ELSE /\ c' = LET r == ResetOver(Ret(d, SetToSortSeq(E, <))) IN IF r.job.e > 0 /\ Enough(r) THEN FreshAll(r) ELSE r
                       /\ Log([op |-> "iter", lens |-> Lens, n |-> 0, e |-> 0, ids |-> SetToSortSeq(E, <)], c')
               /\ UNCHANGED calls
DoEnd == /\ c.mode = "collect" /\ c.it > 0 /\ CanEnd(c) /\ c' = End(c) /\ UNCHANGED <<calls, sent, stopped, viol>>
         /\ Log([op |-> "end", lens |-> Lens, n |-> 0, e |-> 0, ids |-> << >>], c')
Next == DoBegin \/ DoIter \/ DoEnd
Spec == Init /\ [][Next]_vars
\* what was asked for is what is gathered
Amount == (c.mode = "collect" /\ c.it > 0 /\ Enough(c) /\ ~c.async) =>
            IF c.job.e > 0 THEN c.nep = c.job.e /\ \A i \in Envs(c) : En(c, i).k = 0
            ELSE c.nst = ((c.job.n + Num - 1) \div Num) * Num
First2 == (c.mode = "collect" /\ c.it > 0 /\ Enough(c) /\ c.async) =>
            IF c.job.e > 0 THEN c.nep - Cardinality(c.ready) < c.job.e ELSE c.nst - Cardinality(c.ready) < c.job.n
Complete == \A x \in 1..Len(c.eps) : c.eps[x].len = AbsV(LET i == c.eps[x].env IN c.eps[x].len)
Progress == c.mode = "collect" => CanEnd(c) \/ \E E \in SUBSET Envs(c) : CanServe(c, E)
Chain == \A i \in Envs(c) : \A x \in 1..(Len(c.log[i + 1]) - 1) :
           LET a == c.log[i + 1][x] b == c.log[i + 1][x + 1] IN
           IF a.term + a.trunc = 0 THEN (b.obs = a.obs2 \/ b.obs % 100 = 0) ELSE b.obs % 100 = 0
Own == \A i \in Envs(c) : \A x \in 1..Len(c.log[i + 1]) : LET a == c.log[i + 1][x] IN a.obs2 = a.obs + 1 /\ a.obs \div 10000 = i
NoLoss == \A i \in Envs(c) : sent[i + 1] = Len(c.log[i + 1]) + (IF c.pend[i + 1].s = "busy" THEN 1 ELSE 0)
Recur == \A i \in Envs(c) : c.hid[i + 1] = (IF c.pend[i + 1].s = "idle" THEN En(c, i).k ELSE c.hid[i + 1])
NoBias == ~viol
=============================================================================
