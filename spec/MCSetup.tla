------------------------------ MODULE MCSetup ------------------------------
(* All short sessions with builders that have a few abstract slots: what an
   experiment holds is what was last written to the builder it came from, on
   the path of copies that leads to it.                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
S == EnvI("VF_S", 3)
V == EnvI("VF_V", 2)
B == EnvI("VF_B", 2)
X == EnvI("VF_X", 3)
L == EnvI("VF_L", 7)
VARIABLES b, x, made, log, a
vars == <<b, x, made, log, a>>
Slots == 1..S
Empty == [k \in Slots |-> 0]
Init == b = <<Empty>> /\ x = << >> /\ made = {} /\ log = << >> /\ a = [op |-> "init"]
Do(act) == a' = act /\ log' = IF EDGES THEN log ELSE Append(log, act)
Size == Len(log)
View == IF EDGES THEN <<b, x, made>> ELSE <<b, x, made, log>>
With == \E i \in 1..Len(b), k \in Slots, v \in 1..V :
           b' = [b EXCEPT ![i][k] = v] /\ UNCHANGED <<x, made>> /\ Do([op |-> "with", b |-> i, slot |-> k, val |-> v])
Copy == Len(b) < B /\ \E i \in 1..Len(b) : b' = Append(b, b[i]) /\ UNCHANGED <<x, made>> /\ Do([op |-> "copy", b |-> i])
Build == Len(x) < X /\ \E i \in 1..Len(b) : x' = Append(x, b[i]) /\ UNCHANGED <<b, made>> /\ Do([op |-> "build", b |-> i])
Store == Len(x) < X /\ \E i \in 1..Len(x) : x' = Append(x, x[i]) /\ UNCHANGED <<b, made>> /\ Do([op |-> "store", x |-> i])
World == \E i \in 1..Len(x) : i \notin made /\ made' = made \cup {i} /\ UNCHANGED <<b, x>> /\ Do([op |-> "world", x |-> i])
Next == /\ Size < L
        /\ (With \/ Copy \/ Build \/ Store \/ World)
        /\ (EDGES => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson(View')))
Spec == Init /\ [][Next]_vars
\* independent reading of the log: the owner of a builder or experiment at a time
Count(op, n) == Cardinality({k \in 1..n : log[k].op = op})
IsX(e) == e.op \in {"build", "store"}
BornB(i) == CHOOSE k \in 1..Len(log) : log[k].op = "copy" /\ Count("copy", k) = i - 1
BornX(i) == CHOOSE k \in 1..Len(log) : IsX(log[k]) /\ Cardinality({j \in 1..k : IsX(log[j])}) = i
RECURSIVE At(_, _, _)
\* value of a slot of builder i after n operations
At(i, k, n) == LET w == {j \in 1..n : log[j].op = "with" /\ log[j].b = i /\ log[j].slot = k} IN
    IF w # {} THEN log[CHOOSE j \in w : \A l \in w : l <= j].val
    ELSE IF i = 1 THEN 0 ELSE At(log[BornB(i)].b, k, BornB(i))
RECURSIVE Src(_)
Src(i) == LET k == BornX(i) IN IF log[k].op = "build" THEN <<log[k].b, k>> ELSE Src(log[k].x)
LastWrite == \A i \in 1..Len(x), k \in Slots : x[i][k] = At(Src(i)[1], k, Src(i)[2])
Builders == \A i \in 1..Len(b), k \in Slots : b[i][k] = At(i, k, Len(log))
Inv == EDGES \/ (LastWrite /\ Builders)
=============================================================================
