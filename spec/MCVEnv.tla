------------------------------- MODULE MCVEnv -------------------------------
(* All interleavings of sending actions to any ready environments, results
   becoming available in any order, and resets, for a few environments.
   got[i]: tokens of results returned for environment i, sent[i] those of the
   actions it executed.                                                      *)
EXTENDS VEnv, TLC, Json, IOUtils, FiniteSetsExt
Num == atoi(IOEnv.VF_E)
Need == atoi(IOEnv.VF_W)
Timed == IOEnv.VF_T = "1"
MaxSteps == atoi(IOEnv.VF_N)
Edges == IOEnv.VF_EDGES = "1"
VARIABLES v, sent, got
Init == v = NewVEnv(Num, Need, Timed, TRUE, FALSE) /\ sent = [i \in 0..(Num - 1) |-> << >>] /\ got = sent
V(w) == [j \in 1..Len(w.wait) |-> w.wait[j].id]
View == V(v)
Log(a, nv) == IF Edges THEN PrintT("VE|" \o ToJson(V(v)) \o "|" \o ToJson(a) \o "|" \o ToJson(V(nv))) ELSE TRUE
Perms(S) == IF S = {} THEN {<< >>} ELSE {p \in [1..Cardinality(S) -> S] : Distinct(p)}
ReadySet == (0..(Num - 1)) \ Waiting(v)
DoStep(ids, rs) ==
  LET acts == [x \in 1..Len(ids) |-> (ids[x] + v.en[ids[x] + 1].steps) % 3]
      s == Sent(v, ids, acts)
      nv == Returned(s, rs)
  IN /\ CanStep(v, ids, acts) /\ CanReturn(s, rs) /\ s.wait # << >>
     /\ v' = nv
     /\ sent' = [i \in DOMAIN sent |-> IF \E x \in 1..Len(ids) : ids[x] = i THEN Append(sent[i], Tok(i, AfterStep(v.en[i + 1], 0))) ELSE sent[i]]
     /\ got' = [i \in DOMAIN got |-> IF \E x \in 1..Len(rs) : rs[x] = i THEN Append(got[i], RowFor(s, i).tok) ELSE got[i]]
     /\ Log([op |-> "step", ids |-> ids, rs |-> rs], nv)
DoReset(ids) == /\ CanReset(v, ids) /\ v' = Reset(v, ids, NoSeed) /\ UNCHANGED <<sent, got>>
                /\ Log([op |-> "reset", ids |-> ids, rs |-> << >>], v')
Bounded == Edges \/ SumSet({100 * i + v.en[i + 1].steps + v.en[i + 1].ep : i \in 0..(Num - 1)}) <= MaxSteps + 100 * SumSet(0..(Num - 1))
Next == \/ \E S \in SUBSET ReadySet : \E ids \in Perms(S) : \E R \in SUBSET (Waiting(v) \cup S) : \E rs \in Perms(R) : DoStep(ids, rs)
        \/ \E S \in SUBSET ReadySet : S # {} /\ \E ids \in Perms(S) : DoReset(ids)
Spec == Init /\ [][Next]_<<v, sent, got>>
\* each result is returned exactly once, in the order in which the environment produced it
Once == \A i \in DOMAIN sent : sent[i] = got[i] \o (IF i \in Waiting(v) THEN <<RowFor(v, i).tok>> ELSE << >>)
Guard == Distinct([j \in 1..Len(v.wait) |-> v.wait[j].id])
Label == \A j \in 1..Len(v.wait) : v.wait[j].row.env = v.wait[j].id
SyncOrder == v.async \/ v.wait = << >>
=============================================================================
