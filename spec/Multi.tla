------------------------------- MODULE Multi --------------------------------
(* Several agents that act in turn: a batch is a sequence of rows, each with its
   acting agent `ag`; every agent's policy works on its own rows, and what the
   policies answer is put together at the rows' positions.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
\* positions of the rows of agent a, in order
Mine(b, a) == SelectSeq([x \in 1..Len(b) |-> x], LAMBDA x : b[x].ag = a)
\* agents with rows, in the order of the list of agents
Present(b, agents) == SelectSeq(agents, LAMBDA a : Mine(b, a) # << >>)
At2(seq, pos) == [k \in 1..Len(pos) |-> seq[pos[k]]]
\* rank of position x among the rows of its agent
Rank(b, x) == Cardinality({y \in 1..x : b[y].ag = b[x].ag})
\* ans: agent -> answers for its rows
Combine(b, ans) == [x \in 1..Len(b) |-> ans[b[x].ag][Rank(b, x)]]
=============================================================================
