------------------------------- MODULE MCPrio -------------------------------
(* Bounded exhaustive model of prioritised replay: adds with wrap-around, weight
   updates with repeated indices, resets.  The ghost pr records the priority of
   every transition by its identity.                                         *)
EXTENDS Prio, TLC, Json, IOUtils, FiniteSetsExt
CfgName == IOEnv.VF_CFG
Edges == IOEnv.VF_EDGES = "1"
MaxTok == atoi(IOEnv.VF_N)
MaxW == atoi(IOEnv.VF_W)
Kind == IF CfgName \in {"plain2", "plain3"} THEN "plain" ELSE "vec"
Caps == CASE CfgName = "plain2" -> <<2>> [] CfgName = "plain3" -> <<3>> [] CfgName = "vec22" -> <<2, 2>>

VARIABLES s, pr, top, n
T(x) == [x |-> x, r |-> <<1>>, te |-> 0, tr |-> 0]
Init == s = PNew(NewBuf(Kind, Caps, 1, FALSE, FALSE, 1), 2, 1, TRUE) /\ pr = << >> /\ top = 1 /\ n = 0
Orders == UNION {SetToSeqs(S) : S \in (SUBSET (1..Len(Caps)) \ {{}})}
View == [z |-> [k \in 1..Len(Caps) |-> <<s.b.subs[k].ins, s.b.subs[k].size>>], p |-> [k \in 1..TotCap(s.b) |-> s.p[k - 1]], m |-> s.mx]
ViewOf(q) == [z |-> [k \in 1..Len(Caps) |-> <<q.b.subs[k].ins, q.b.subs[k].size>>], p |-> [k \in 1..TotCap(q.b) |-> q.p[k - 1]], m |-> q.mx]
Log(a, ns) == IF Edges THEN PrintT("VE|" \o ToJson(ViewOf(s)) \o "|" \o ToJson(a) \o "|" \o ToJson(ViewOf(ns))) ELSE TRUE
DoAdd(ids) == LET ts == [k \in 1..Len(ids) |-> T(n + k)]
                  ns == PAdd(s, ids, ts)
              IN /\ n + Len(ids) <= MaxTok
                 /\ s' = ns /\ n' = n + Len(ids) /\ top' = top
                 /\ pr' = pr \o [k \in 1..Len(ids) |-> top]
                 /\ Log([op |-> "add", ids |-> ids], ns)
DoWeight(idx, ws) == LET ns == PWeight(s, idx, ws)
                     IN /\ s' = ns /\ n' = n
                        /\ pr' = [x \in DOMAIN pr |->
                             IF \E j \in 1..Len(idx) : Tr(s.b, idx[j]).x = x
                             THEN LET js == {j \in 1..Len(idx) : Tr(s.b, idx[j]).x = x}
                                  IN ws[CHOOSE j \in js : \A q \in js : q <= j]
                             ELSE pr[x]]
                        /\ top' = FoldLeft(LAMBDA a, v : IF v > a THEN v ELSE a, top, ws)
                        /\ Log([op |-> "weight", idx |-> idx, ws |-> ws], ns)
DoReset == LET ns == PReset(s, FALSE) IN n > 0 /\ s' = ns /\ pr' = pr /\ top' = top /\ n' = n /\ Log([op |-> "reset"], ns)
Idx == {AllIdx(s.b)[k] : k \in 1..Len(AllIdx(s.b))}
Next == \/ \E ids \in Orders : DoAdd(ids)
        \/ \E i \in Idx : \E w \in 1..MaxW : DoWeight(<<i>>, <<w>>)
        \/ \E i, j \in Idx : \E v, w \in 1..MaxW : DoWeight(<<i, j>>, <<v, w>>)
        \/ DoReset
Spec == Init /\ [][Next]_<<s, pr, top, n>>

\* every stored transition has its own priority, no other row has one
ByIdentity == \A g \in 0..TotCap(s.b) - 1 :
                IF Valid(s.b, g) THEN s.p[g] = pr[Tr(s.b, g).x] ELSE s.p[g] = -1
Largest == s.mx = top
\* every draw picks a stored transition, each one for as many draws as its weight says
Draws == LET w == W(s) tot == SumTo(w, TotCap(s.b))
             pick(v) == CHOOSE g \in DOMAIN w : IsPreIdx(w, v, g)
         IN /\ \A v \in 1..tot : Valid(s.b, pick(v))
            /\ \A g \in DOMAIN w : Cardinality({v \in 1..tot : pick(v) = g}) = w[g]
=============================================================================
