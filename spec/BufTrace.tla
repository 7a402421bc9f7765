------------------------------ MODULE BufTrace ------------------------------
(* Decides whether recorded operations on real replay buffers are behaviours of Buf. *)
EXTENDS BufOps
Start(e) == BufStart(e)
Bad(st, e) == Violated(BufClauses(st, e))
Post(st, e) == BufPost(st, e)

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
