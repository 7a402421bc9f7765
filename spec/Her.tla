-------------------------------- MODULE Her ---------------------------------
(* Hindsight relabelling on a buffer of Buf whose transitions carry a desired
   goal dg.  The goal achieved in the observation of transition x is 2x, in its
   next observation 2x+1.                                                    *)
EXTENDS Buf
HR(ag, g) == (7 * ag + 3 * g) % 1009             \* the reward function
RECURSIVE TermL(_, _)
TermL(s, i) == IF NextL(s, i) = i THEN i ELSE TermL(s, NextL(s, i))
Term(b, g) == LET k == SubOf(b, g) IN TermL(b.subs[k], g - Off(b, k)) + Off(b, k)
RECURSIVE Ahead(_, _)                            \* g and the later rows of its episode
Ahead(b, g) == IF BNext(b, g) = g THEN <<g>> ELSE <<g>> \o Ahead(b, BNext(b, g))
\* the achieved goal after row g: of its next observation, stored or derived
AgNext(b, g) == IF b.ign THEN 2 * Tr(b, BNext(b, g)).x ELSE 2 * Tr(b, g).x + 1
GoalsFrom(b, g) == {AgNext(b, Ahead(b, g)[k]) : k \in 1..Len(Ahead(b, g))}
Share(n, k2) == (n * (k2 - 2)) \div k2           \* k2: twice future_k

\* what sampling the rows idx may yield: og, nog desired goals of observation and next observation, r rewards
HerOk(b, idx, og, nog, r, k2) ==
  LET row == 1..Len(idx)
      rel == {j \in row : og[j] # Tr(b, idx[j]).dg}
      eps(k, js) == {Term(b, idx[j]) : j \in {q \in js : SubOf(b, idx[q]) = k}}
  IN [ goal |-> \A j \in rel : og[j] \in GoalsFrom(b, idx[j]),
       next |-> \A j \in row : nog[j] = IF j \in rel THEN og[j]
                                       ELSE IF b.ign THEN Tr(b, BNext(b, idx[j])).dg ELSE Tr(b, idx[j]).dg,
       share |-> \A j, q \in row : Term(b, idx[j]) = Term(b, idx[q]) => (j \in rel <=> q \in rel) /\ (j \in rel => og[j] = og[q]),
       rew |-> \A j \in row : r[j] = IF j \in rel THEN HR(AgNext(b, idx[j]), og[j]) ELSE Tr(b, idx[j]).r[1],
       count |-> \A k \in 1..NSub(b) : Cardinality(eps(k, rel)) = Share(Cardinality(eps(k, row)), k2) ]
=============================================================================
