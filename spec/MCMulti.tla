------------------------------ MODULE MCMulti ------------------------------
(* All batches of a few rows and all subsets of agents that are present. *)
EXTENDS Multi, TLC, IOUtils, Json
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
K == EnvI("VF_K", 3)
N == EnvI("VF_N", 5)
Agents == [k \in 1..K |-> k]
VARIABLES b, own, a
vars == <<b, own, a>>
Init == b = << >> /\ own = [k \in 1..K |-> << >>] /\ a = [op |-> "init"]
\* own: what each agent does if it plays alone (its rows in order)
Add(g) == Len(b) < N /\ b' = Append(b, [ag |-> g, tok |-> Len(b) + 1]) /\ own' = [own EXCEPT ![g] = Append(@, Len(b) + 1)] /\ a' = [op |-> "add", ag |-> g]
Look(w) == b # << >> /\ UNCHANGED <<b, own>> /\ a' = [op |-> w]
View == [x \in 1..Len(b) |-> b[x].ag]
Next == /\ \/ \E g \in 1..K : Add(g)
           \/ (EDGES /\ \E w \in {"forward", "explore", "process", "update", "fail"} : Look(w))
        /\ (EDGES => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson(View')))
Spec == Init /\ [][Next]_vars
\* every row reaches exactly one agent, its own, and in order
Split == /\ \A g \in 1..K : [k \in 1..Len(Mine(b, g)) |-> b[Mine(b, g)[k]].tok] = own[g]
         /\ FoldLeft(LAMBDA n, g : n + Len(Mine(b, g)), 0, Agents) = Len(b)
         /\ ToSet(Present(b, Agents)) = {b[x].ag : x \in 1..Len(b)}
\* answers come back to the rows they were given for
Answers == Combine(b, [g \in 1..K |-> [k \in 1..Len(Mine(b, g)) |-> <<g, b[Mine(b, g)[k]].tok>>]]) = [x \in 1..Len(b) |-> <<b[x].ag, b[x].tok>>]
Inv == Split /\ Answers
=============================================================================
