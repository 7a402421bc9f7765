------------------------------- MODULE RetTrace -----------------------------
(* Judges returns, advantages and losses computed by the real code.            *)
EXTENDS TraceBase, Returns, Stats
Start(e) == NewRet(e.caps)
SumOn(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
\* values of the batch at P
Ws(b, P) == [x \in 1..Len(P) |-> Row(b, P[x]).w]
Vs(b, P) == [x \in 1..Len(P) |-> Row(b, P[x]).v]
Masked(b, P, w) == [x \in 1..Len(P) |-> IF Row(b, P[x]).t = 1 THEN 0 ELSE w[x]]
Roll(w) == [x \in 1..Len(w) |-> IF x = 1 THEN w[Len(w)] ELSE w[x - 1]]
Zeros(P) == [x \in 1..Len(P) |-> 0]
Times(s, k) == [x \in 1..Len(s) |-> s[x] * k]
Plus(s, k) == [x \in 1..Len(s) |-> s[x] + k]
Const(P, k) == [x \in 1..Len(P) |-> k]
AdvOf(b, e, v, w) == [x \in 1..Len(e.idx) |-> Adv(b, e.idx, v, w, x, e.g, e.d, e.l, e.m, e.H)]
RetOf(b, e, v, w) == LET A == AdvOf(b, e, v, w) S == Scale(e.d, e.m, e.H) IN [x \in 1..Len(e.idx) |-> A[x] + S * v[x]]
Known(b, e) == \A x \in 1..Len(e.idx) : e.idx[x] \in Valid(b)
\* advantages and returns of a batch handed to a policy
PolV(b, e, ver) == IF e.name = "pg" THEN Roll(Masked(b, e.idx, Const(e.idx, e.mean))) ELSE Times(Plus(Vs(b, e.idx), ver), e.sd)
PolW(b, e, ver) == IF e.name = "pg" THEN Const(e.idx, e.mean) ELSE Times(Plus(Ws(b, e.idx), ver), e.sd)
PolAdv(b, e, ver) == AdvOf(b, e, PolV(b, e, ver), PolW(b, e, ver))
PolUn(b, e, ver) == RetOf(b, e, PolV(b, e, ver), PolW(b, e, ver))
\* as stored, multiplied by the scale and by sd
PolRet(b, e, ver) == LET S == Scale(e.d, e.m, e.H) IN
   [x \in 1..Len(e.idx) |-> PolUn(b, e, ver)[x] - (IF e.name = "pg" THEN S * e.mean ELSE 0)]
Find(b, e, tok) == CHOOSE x \in 1..Len(e.idx) : Row(b, e.idx[x]).tok = tok
Group(b, e, k) == {Find(b, e, e.groups[k][x]) : x \in 1..Len(e.groups[k])}
GroupsOk(b, e) == LET toks == {Row(b, e.idx[x]).tok : x \in 1..Len(e.idx)} IN
   IF e.rep = 1 THEN Len(e.groups) = 2 /\ \A k \in 1..2 : ToSet(e.groups[k]) = toks /\ Len(e.groups[k]) = Len(e.idx)
   ELSE LET all == FlattenSeq(e.groups) IN ToSet(all) = toks /\ Len(all) = Len(e.idx)
\* sums of the losses per group: the losses times the sizes of all groups
Ver(e, k) == IF e.name = "ppo" /\ e.rec = 1 /\ e.rep = 1 THEN k - 1 ELSE 0
ALoss(b, e, k) == LET A == IF e.name = "pg" THEN PolRet(b, e, 0) ELSE PolAdv(b, e, Ver(e, k)) IN
   - SumOn(Group(b, e, k), LAMBDA x : A[x] * (IF e.name = "ppo" THEN 1 ELSE Row(b, e.idx[x]).lp))
VLoss(b, e, k) == LET R == PolRet(b, e, Ver(e, k)) IN
   SumOn(Group(b, e, k), LAMBDA x : (R[x] - (Row(b, e.idx[x]).v + k - 1)) * (R[x] - (Row(b, e.idx[x]).v + k - 1)))
Others(e, k) == FoldLeft(LAMBDA a, j : IF j = k THEN a ELSE a * Len(e.groups[j]), 1, [j \in 1..Len(e.groups) |-> j])
Two(s) == LET S == ToSet(s) IN <<Min(S), Max(S)>>
Clauses(b, e) ==
  << <<e.op \o ".raised " \o e.err, e.err = "">> >> \o
  (IF e.err # "" THEN << >> ELSE
   CASE e.op = "add" -> << <<"driver.position", e.pos = PosOf([b[e.j] EXCEPT !.log = Append(@, e)], Len(b[e.j].log) + 1)>> >>
     [] e.op = "nstep" ->
        << <<"driver.index", Known(b, e)>>,
           <<"nstep.asked-for", e.asked = [x \in 1..Len(e.idx) |-> LastPos(b, e.idx[x], e.n)]>>,
           <<"nstep.returns", Len(e.ret) = Len(e.idx) /\ Len(e.q) = Len(e.idx) /\ \A x \in 1..Len(e.idx) :
                 Len(e.ret[x]) = Len(e.q[x]) /\ \A c \in 1..Len(e.q[x]) : e.ret[x][c] = NStepAt(b, e.idx[x], e.n, e.g, e.d, e.q[x][c])>>,
           <<"nstep.weights", e.wok = 1>>, <<"nstep.calls", e.calls = 1>> >>
     [] e.op = "gae" ->
        LET w == IF e.ws = 1 THEN Ws(b, e.idx) ELSE Zeros(e.idx)
            v == IF e.vs = 1 THEN Vs(b, e.idx) ELSE IF e.ws = 1 THEN Roll(Masked(b, e.idx, w)) ELSE Zeros(e.idx) IN
        << <<"driver.index", Known(b, e)>>,
           <<"gae.advantages", e.adv = AdvOf(b, e, v, w)>>, <<"gae.returns", e.ret = RetOf(b, e, v, w)>> >>
     [] e.op = "togo" ->
        << <<"togo.values", e.ret = [x \in 1..Len(e.rews) |-> ToGo(e.rews, x, e.g, e.d)]>>,
           <<"togo.hook", e.hook = e.ret /\ e.full = [x \in 1..Len(e.rews) |-> e.ret[1]]>> >>
     [] e.op = "cql" ->
        << <<"calibration-returns", e.ret = RetOf(b, e, Zeros(e.idx), Zeros(e.idx))>> >>
     [] e.op = "policy" ->
        << <<"driver.index", Known(b, e)>>,
           <<e.name \o ".advantages", e.name = "pg" \/ e.adv = PolAdv(b, e, 0)>>,
           <<e.name \o ".returns", e.ret = PolRet(b, e, 0)>>,
           <<e.name \o ".values", e.name = "pg" \/ e.vs = Vs(b, e.idx)>>,
           <<e.name \o ".logp", e.name \in {"pg", "a2c"} \/ e.lp = [x \in 1..Len(e.idx) |-> Row(b, e.idx[x]).lp]>>,
           <<e.name \o ".statistics", IF e.norm = 0 THEN e.rc = 0 /\ e.rm = 1000 * e.mean
                 ELSE e.rc = Len(e.idx) /\ (Scale(e.d, e.m, e.H) = 1 => SeqMeanOk(PolUn(b, e, 0), e.rm) /\ SeqVarOk(PolUn(b, e, 0), e.rv))>>,
           <<e.name \o ".minibatches", e.groups # << >> => GroupsOk(b, e)>>,
           <<e.name \o ".actor-loss", e.groups = << >> \/ ~GroupsOk(b, e) \/
                e.al = Two([k \in 1..Len(e.groups) |-> ALoss(b, e, k) * Others(e, k)])>>,
           <<e.name \o ".value-loss", e.groups = << >> \/ e.name = "pg" \/ ~GroupsOk(b, e) \/
                e.vl = Two([k \in 1..Len(e.groups) |-> VLoss(b, e, k) * Others(e, k)])>> >>
     [] OTHER -> << <<"unknown event", FALSE>> >>)
Bad(b, e) == Violated(Clauses(b, e))
Post(b, e) == IF e.op = "add" THEN [b EXCEPT ![e.j].log = Append(@, e)] ELSE b

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
