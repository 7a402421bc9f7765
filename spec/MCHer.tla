------------------------------- MODULE MCHer --------------------------------
(* The relabelling algorithm for every small buffer content (any phase, done
   pattern), every set of sampled rows, every drawn future step and every choice
   of episodes: what it yields satisfies HerOk, and the original data returns.
   alt: row -> [dg, r] of the rewritten rows; orig: what was cached.          *)
EXTENDS Her, TLC, Json, IOUtils, FiniteSetsExt
Cap == atoi(IOEnv.VF_C)
MaxTok == atoi(IOEnv.VF_N)
Edges == IOEnv.VF_EDGES = "1"
Ign == IOEnv.VF_IGN = "1"
VARIABLES b, n, alt, last, ghost
T(x, d) == [x |-> x, r |-> <<x>>, te |-> d, tr |-> 0, dg |-> 500 + x]
Init == b = NewBuf("plain", <<Cap>>, 1, FALSE, Ign, 1) /\ n = 0 /\ alt = << >> /\ last = << >> /\ ghost = << >>
V(bb) == [i |-> bb.subs[1].ins, z |-> bb.subs[1].size,
          d |-> [j \in 1..bb.subs[1].size |-> IF Done(At(bb.subs[1], Chron(bb.subs[1])[j])) THEN 1 ELSE 0]]
View == <<V(b), last # << >> >>
Log(a, nb) == IF Edges THEN PrintT("VE|" \o ToJson(V(b)) \o "|" \o ToJson(a) \o "|" \o ToJson(V(nb))) ELSE TRUE
Restore(bb) == [bb EXCEPT !.subs[1].slots = [k \in 1..Cap |->
                  IF \E j \in 1..Len(alt) : alt[j].g = k - 1
                  THEN LET j == CHOOSE j \in 1..Len(alt) : alt[j].g = k - 1 IN alt[j].o ELSE bb.subs[1].slots[k]]]
DoAdd(d) == LET nb == Add(Restore(b), <<1>>, <<T(n + 1, d)>>)
            IN /\ n < MaxTok /\ b' = nb /\ n' = n + 1 /\ alt' = << >> /\ last' = << >>
               /\ ghost' = Append(ghost, T(n + 1, d)) /\ Log([op |-> "add", d |-> d], nb)
\* sample the rows S; fut[e]: for every episode the row whose achieved goal is used; her: relabelled episodes
DoSample(S) ==
  LET o == Restore(b)
      ch == AllIdx(o)
      pos(g) == CHOOSE k \in 1..Len(ch) : ch[k] = g
      E == {Term(o, g) : g \in S}
      mine(e) == {g \in S : Term(o, g) = e}
      open(e) == CHOOSE g \in mine(e) : \A q \in mine(e) : pos(g) <= pos(q)
      close(e) == CHOOSE g \in mine(e) : \A q \in mine(e) : pos(g) >= pos(q)
      ahead(g) == {Ahead(o, g)[k] : k \in 1..Len(Ahead(o, g))}
  IN /\ S # {}
     /\ \E H \in SUBSET E : \E fut \in [E -> S \cup UNION {ahead(g) : g \in S}] :
          /\ Cardinality(H) = Share(Cardinality(E), 4)
          /\ \A e \in E : fut[e] \in ahead(close(e))
          /\ LET rows == UNION {ahead(open(e)) : e \in H}
                 new(g) == LET e == Term(o, g) IN [Tr(o, g) EXCEPT !.dg = AgNext(o, fut[e]),
                                                   !.r = <<HR(AgNext(o, g), AgNext(o, fut[e]))>>]
                 nb == [o EXCEPT !.subs[1].slots = [k \in 1..Cap |-> IF (k - 1) \in rows THEN new(k - 1) ELSE @[k]]]
             IN /\ b' = nb
                /\ alt' = SetToSeq({[g |-> g, o |-> Tr(o, g)] : g \in rows})
                /\ last' = SetToSeq(S)
                /\ UNCHANGED <<n, ghost>>
     /\ Log([op |-> "sample", idx |-> SetToSeq(S)], o)
Rows == {AllIdx(b)[k] : k \in 1..Len(AllIdx(b))}
Next == (\E d \in 0..1 : DoAdd(d)) \/ (\E S \in SUBSET Rows : DoSample(S))
Spec == Init /\ [][Next]_<<b, n, alt, last, ghost>>

Sampled == last # << >> =>
  LET res == HerOk(Restore(b), last, [j \in 1..Len(last) |-> Tr(b, last[j]).dg],
                   [j \in 1..Len(last) |-> IF b.ign /\ BNext(b, last[j]) # last[j] THEN Tr(b, BNext(b, last[j])).dg ELSE Tr(b, last[j]).dg],
                   [j \in 1..Len(last) |-> Tr(b, last[j]).r[1]], 4)
  IN res.goal /\ res.next /\ res.share /\ res.rew /\ res.count
Original == LET o == Restore(b) IN
  Contents(o.subs[1]) = SubSeq(ghost, IF Len(ghost) > Cap THEN Len(ghost) - Cap + 1 ELSE 1, Len(ghost))
=============================================================================
