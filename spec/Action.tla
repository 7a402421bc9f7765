------------------------------- MODULE Action -------------------------------
(* From the answer of a policy to the action of the environment and back.
   Numbers are integers scaled by S.  A space is [lo, hi] (sequences, one entry
   per dimension) with scaled bounds; a policy has bound \in {"clip", "tanh",
   "none"} and scale \in BOOLEAN.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
S == 64
Abs(x) == IF x < 0 THEN -x ELSE x
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* 4096 tanh(k/8), rounded
TANH == <<0, 509, 1003, 1468, 1893, 2272, 2602, 2883, 3119, 3315, 3475, 3604, 3707, 3790, 3856, 3908, 3949, 3981, 4006, 4026, 4041, 4053, 4063, 4070, 4076, 4080, 4084, 4086, 4089, 4090, 4091, 4092, 4093, 4094, 4094, 4095, 4095, 4095, 4095>>
\* the action bounded to [-1, 1], scaled by 4096
Tanh(k8) == LET k == Abs(k8) t == IF k > 38 THEN 4096 ELSE TANH[k + 1] IN IF k8 < 0 THEN -t ELSE t
Bounded(bound, a) == CASE bound = "clip" -> Clip(a, -S, S) * (4096 \div S)
                       [] bound = "tanh" -> Tanh((a * 8) \div S)
                       [] OTHER -> a * (4096 \div S)
Accepted(bound, scale, a) == scale /\ bound = "none" => a >= -S /\ a <= S
\* the environment's action, scaled by 2 * 4096 * S (exact but for the rounding of Tanh)
Mapped(bound, scale, a, lo, hi) ==
  LET b == Bounded(bound, a) IN
  IF scale THEN 2 * 4096 * lo + (hi - lo) * (b + 4096) ELSE 2 * S * b
\* the inverse of an action m of the space (scaled by S): x = num / den stands for the raw action (for tanh: the bounded one)
UnMap(scale, m, lo, hi) == IF scale THEN <<2 * (m - lo) - (hi - lo), hi - lo>> ELSE <<m, S>>
\* ------------------------------ discretised spaces
\* entry i (from 0) of n points from lo to hi, times n - 1
Point(lo, hi, n, i) == IF n = 1 THEN <<lo, 1>> ELSE <<lo * (n - 1) + (hi - lo) * i, n - 1>>
Product(v) == FoldLeft(LAMBDA x, y : x * y, 1, v)
\* ------------------------------ exploration
\* a: greedy, b: taken, m: allowed actions (a set)
Explored(eps, a, b, m) == CASE eps = 0 -> b = a [] eps = 2 -> b \in m [] OTHER -> b = a \/ b \in m
=============================================================================
