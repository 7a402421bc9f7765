------------------------------ MODULE SegTree -------------------------------
(* The array a segment tree stands for, and the answers it has to give.
   a is a function 0..n-1 -> non-negative integers.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE SumTo(_, _)      \* a[0] + ... + a[k-1]
SumTo(a, k) == IF k = 0 THEN 0 ELSE a[k - 1] + SumTo(a, k - 1)
RangeSum(a, s, e) == IF e <= s THEN 0 ELSE SumTo(a, e) - SumTo(a, s)
\* assignment with index and value sequences; the last one of equal indices counts
AssignAll(a, idx, val) == [k \in DOMAIN a |->
   IF \E j \in 1..Len(idx) : idx[j] = k
   THEN LET js == {j \in 1..Len(idx) : idx[j] = k} IN val[CHOOSE j \in js : \A q \in js : q <= j]
   ELSE a[k]]
\* is k the least index with v <= a[0] + ... + a[k] ?
IsPreIdx(a, v, k) == /\ k \in DOMAIN a /\ v <= SumTo(a, k + 1) /\ (k > 0 => v > SumTo(a, k))
=============================================================================
