------------------------------ MODULE MCAction ------------------------------
(* All small action spaces and configurations of a policy: actions never leave
   the space, the inverse is one, discretised spaces are numbered completely. *)
EXTENDS Action, TLC, IOUtils, Json
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
R == EnvI("VF_R", 3)          \* bounds are -R..R
DEN == EnvI("VF_DEN", 4)      \* raw actions are multiples of 1/DEN
VARIABLES c, n, a
vars == <<c, n, a>>
Confs == [bound : {"clip", "tanh", "none"}, scale : BOOLEAN, lo : {x * S : x \in -R..R}, hi : {x * S : x \in -R..R}]
Raw == {x * (S \div DEN) : x \in -(6 * DEN)..(6 * DEN)}
Few == {x * (S \div 8) : x \in {-48, -17, -9, -8, -7, -3, 0, 1, 5, 8, 9, 12, 40}}
NoConf == [bound |-> "none", scale |-> FALSE, lo |-> 0, hi |-> 0]
Init == c = NoConf /\ n = -1 /\ a = [op |-> "init"]
Conf == n = -1 /\ n' = 0 /\ \E x \in Confs : x.lo <= x.hi /\ c' = x /\ a' = [op |-> "conf", c |-> x]
Map(x) == n = 0 /\ n' = (IF EDGES THEN 0 ELSE 1) /\ c' = c /\ a' = [op |-> "map", v |-> x]
Inv1(m) == n = 0 /\ n' = (IF EDGES THEN 0 ELSE 1) /\ c' = c /\ a' = [op |-> "inv", v |-> m]
View == <<c, n>>
InSpace(x) == {x.lo + ((x.hi - x.lo) * k) \div 8 : k \in 0..8}
Next == /\ \/ Conf
           \/ \E x \in (IF EDGES THEN Few ELSE Raw) : Map(x)
           \/ \E m \in InSpace(c) : Inv1(m)
        /\ (EDGES => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson(View')))
Spec == Init /\ [][Next]_vars
U == 2 * 4096
Stays == a.op = "map" /\ Accepted(c.bound, c.scale, a.v) => LET m == Mapped(c.bound, c.scale, a.v, c.lo, c.hi) IN
           /\ (c.scale => m >= U * c.lo /\ m <= U * c.hi)
           /\ (~c.scale /\ c.bound # "none" => m >= -U * S /\ m <= U * S)
           /\ (~c.scale /\ c.bound = "none" => m = U * a.v)
           \* the order of actions is kept
           /\ \A y \in {z \in Raw : z <= a.v /\ Accepted(c.bound, c.scale, z)} : Mapped(c.bound, c.scale, y, c.lo, c.hi) <= m
           \* ends and middle
           /\ (a.v = 0 /\ c.scale => m = 4096 * (c.lo + c.hi))
           /\ (c.bound = "clip" /\ c.scale /\ Abs(a.v) >= S => m = U * (IF a.v > 0 THEN c.hi ELSE c.lo))
\* the raw action whose (bounded) value is the inverse of m is mapped to m (c.bound = "tanh": its inverse cancels)
Back == a.op = "inv" /\ c.lo < c.hi => LET x == UnMap(c.scale, a.v, c.lo, c.hi) IN
          IF c.scale THEN /\ Abs(x[1]) <= x[2]
                          /\ 2 * c.lo * x[2] + (c.hi - c.lo) * (x[1] + x[2]) = 2 * a.v * x[2]
          ELSE x[1] * S = a.v * x[2]
Points == \A k \in 1..4 : \A i \in 0..(k - 1) : LET p == Point(c.lo, c.hi, k, i) IN p[1] >= c.lo * p[2] /\ p[1] <= c.hi * p[2]
NoLoss == \A m \in SUBSET {0, 1, 2} : \A x \in {0, 1, 2}, y \in {0, 1, 2}, e \in 0..2 : Explored(e, x, y, m) /\ x \in m => y \in m
Inv == Stays /\ Back /\ Points /\ NoLoss
=============================================================================
