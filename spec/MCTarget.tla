------------------------------ MODULE MCTarget ------------------------------
(* Learning steps, changes from outside, mode switches, evaluations, copies and saving. *)
EXTENDS Target, TLC, IOUtils, Json, SequencesExt
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
F == EnvI("VF_F", 0)       \* 0 hard, 1 soft, 2 soft and delayed (from the first), 3 soft, delayed actor (from the k-th)
K == EnvI("VF_K", 2)       \* period or delay
D == EnvI("VF_TAU", 2)
N == EnvI("VF_N", 5)
U == D ^ N
C == [pairs |-> IF F = 0 THEN <<<<"q", "qt">>>> ELSE IF F = 3 THEN <<<<"c", "ct">>>> ELSE <<<<"a", "at">>, <<"c", "ct">>>>,
      always |-> IF F = 0 THEN {"q"} ELSE IF F = 1 THEN {"a", "c"} ELSE {"c"}, late |-> IF F >= 2 THEN {"a"} ELSE {},
      dk |-> IF F >= 2 THEN K ELSE 1, d0 |-> IF F = 3 THEN K - 1 ELSE 0, hard |-> F = 0, k |-> K, d |-> D, sdue |-> F = 2, np |-> 1]
Names == IF F = 0 THEN {"q", "qt"} ELSE IF F = 3 THEN {"a", "c", "ct"} ELSE {"a", "at", "c", "ct"}
VARIABLES s, mode, hist, ini, a
vars == <<s, mode, hist, ini, a>>
Init == s = NewTarget(C, [x \in Names |-> <<U, 1>>]) /\ mode = TRUE /\ hist = << >> /\ ini = s.nets /\ a = [op |-> "init"]
Log(x) == [x2 \in DOMAIN s.nets |-> x.nets[x2]]
\* hist: the networks before each learn and after it
DoLearn == /\ s.n < N
           /\ \E dv \in {2 * U, -U} :
                LET st == Learn(s, [x \in Stepped(C, s.n) |-> <<dv, 0>>]) IN
                /\ s' = st /\ hist' = Append(hist, [before |-> s.nets, after |-> st.nets]) /\ UNCHANGED <<mode, ini>>
                /\ (Mixes(C, s.n) => \A t \in Targets(C) : MixExact(C, s.nets[t], st.nets[Of(C, t)]))
                /\ a' = [op |-> "learn", dv |-> dv]
DoTouch == /\ \A y \in Online(C) : s.nets[y][2] < 2
           /\ \E x \in Online(C) : LET st == Touch(s, x, <<s.nets[x][1] + U, 2>>) IN
                s' = st /\ a' = [op |-> "touch", x |-> x] /\ UNCHANGED <<mode, hist, ini>>
DoMode == mode' = ~mode /\ UNCHANGED <<s, hist, ini>> /\ a' = [op |-> "mode", v |-> mode']
DoLook == UNCHANGED <<s, mode, hist, ini>> /\ \E w \in {"forward", "process", "explore", "reload", "copy"} : a' = [op |-> w]
View == <<s.n, mode, [x \in Online(C) |-> s.nets[x][2]]>>
Next == /\ (DoLearn \/ DoTouch \/ (EDGES /\ (DoMode \/ DoLook)))
        /\ (EDGES => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson(View')))
Spec == Init /\ [][Next]_vars
\* a hard target is what the online network was before the last learn whose number is a multiple of the period
HardRight == F = 0 => s.nets["qt"] = IF s.n = 0 THEN ini["qt"] ELSE IF K = 0 THEN ini["qt"] ELSE hist[(((s.n - 1) \div K) * K) + 1].before["q"]
\* a soft target is the average of the past online networks with geometric weights
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
DueSteps == SelectSeq([x \in 1..s.n |-> x], LAMBDA x : Mixes(C, x - 1))
SoftRight == F > 0 => \A t \in Targets(C) : LET o == Of(C, t) m == Len(DueSteps) IN
    s.nets[t][1] * D ^ m = ini[t][1] * (D - 1) ^ m + SumTo([i \in 1..m |-> hist[DueSteps[i]].after[o][1] * ((D - 1) ^ (m - i)) * D ^ (i - 1)], m)
\* the delayed network learns once in K learns
DelayRight == F >= 2 => Cardinality({x \in 1..s.n : "a" \in Stepped(C, x - 1)}) = IF F = 2 THEN (s.n + K - 1) \div K ELSE s.n \div K
\* buffers that are not trained are never mixed
Untrained == F > 0 => \A t \in Targets(C) : s.nets[t][2] = 1
Inv == HardRight /\ SoftRight /\ DelayRight /\ Untrained /\ Created(C, ini)
=============================================================================
