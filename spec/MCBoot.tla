------------------------------- MODULE MCBoot -------------------------------
(* Exhaustive relations between the rules, for all small networks, observations and masks. *)
EXTENDS Boot, TLC, IOUtils
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
B == EnvI("VF_B", 1)
Ws == {<<x, y, z, 0, 0>> : x \in 0..B, y \in -B..B, z \in 0..B}
VARIABLES w, v, o, al
Init == w \in Ws /\ v \in Ws /\ o \in 0..4 /\ al \in (SUBSET Acts) \ {{}}
Next == UNCHANGED <<w, v, o, al>>
Spec == Init /\ [][Next]_<<w, v, o, al>>
\* values differ between actions, so that there is one best action
Distinct == \A a, c \in Acts : a # c => V(1, w, o, a) # V(1, w, o, c)
PushWorks == \A lo \in {Inf({V(1, w, o, a) : a \in Acts}), -5}, hi \in {Sup({V(1, w, o, a) : a \in Acts}), 40} :
                lo <= Inf({V(1, w, o, a) : a \in Acts}) => Best(Pushed(QF(1, w, o), al, lo, hi), Acts) = Best(QF(1, w, o), al)
DoubleBelow == Double(1, w, v, o, al) <= Maximal(1, v, o, al) /\ Double(1, w, w, o, al) = Maximal(1, w, o, al)
MoreAllowed == Maximal(1, v, o, al) <= Maximal(1, v, o, Acts)
TwoBelow == \A k \in Acts : Two(1, w, v, o, k) <= Crit(1, w, o, k) /\ Two(1, w, v, o, k) = Two(1, v, w, o, k)
LikelyRight == Likely(w, o) # {} /\ Best(QF(1, w, o), Acts) \in Likely(w, o)
ProjRight == \A x \in -6..10 : LET p == Proj(2, -1, x) y == Clamp(x, -2, 4) IN
    /\ p[1] + p[2] + p[3] + p[4] = 2
    /\ -1 * p[1] + 0 * p[2] + 1 * p[3] + 2 * p[4] = y
SmoothRight == \A x \in -20..20 : SmoothL1(4, x) >= 0 /\ SmoothL1(4, x) = SmoothL1(4, -x) /\ (x >= 0 /\ x < 20 => SmoothL1(4, x) < SmoothL1(4, x + 1))
Inv == Distinct /\ PushWorks /\ DoubleBelow /\ MoreAllowed /\ TwoBelow /\ LikelyRight
ASSUME ProjRight /\ SmoothRight
=============================================================================
