----------------------------- MODULE MCSegTree ------------------------------
(* The algorithms of the segment tree (a binary heap of sums) against the array
   it stands for: for every size up to VF_N, every sequence of (possibly
   vectorised, possibly repeated) point updates, every range sum and every
   prefix search are right.  The heap is a function 1..2*bound-1.            *)
EXTENDS SegTree, TLC, IOUtils

Sizes == 1..atoi(IOEnv.VF_N)
Vals == 0..atoi(IOEnv.VF_V)
RECURSIVE Bound(_, _)
Bound(b, n) == IF b < n THEN Bound(2 * b, n) ELSE b

VARIABLES n, a, h
B == Bound(1, n)
\* leaves are written first, then the levels are recomputed one after the other for all given indices
RECURSIVE Up(_, _)
Up(hh, nodes) == IF \E k \in nodes : k = 1 THEN hh
                 ELSE LET ps == {k \div 2 : k \in nodes}
                      IN Up([k \in DOMAIN hh |-> IF k \in ps THEN hh[2 * k] + hh[2 * k + 1] ELSE hh[k]], ps)
SetItem(hh, idx, val) ==
  LET g == AssignAll([k \in DOMAIN hh |-> hh[k]], [j \in 1..Len(idx) |-> idx[j] + B], val)
  IN Up(g, {idx[j] + B : j \in 1..Len(idx)})
\* the sum of the open interval (s, e) of nodes of one level
RECURSIVE Red(_, _, _, _)
Red(hh, s, e, r) == IF e - s <= 1 THEN r
                    ELSE Red(hh, s \div 2, e \div 2,
                             r + (IF s % 2 = 0 THEN hh[s + 1] ELSE 0) + (IF e % 2 = 1 THEN hh[e - 1] ELSE 0))
RECURSIVE Desc(_, _, _)
Desc(hh, v, k) == IF k >= B THEN k - B
                  ELSE IF hh[2 * k] < v THEN Desc(hh, v - hh[2 * k], 2 * k + 1) ELSE Desc(hh, v, 2 * k)

Init == n \in Sizes /\ a = [k \in 0..n - 1 |-> 0] /\ h = [k \in 1..2 * B - 1 |-> 0]
Set1 == \E i \in 0..n - 1 : \E v \in Vals :
          a' = AssignAll(a, <<i>>, <<v>>) /\ h' = SetItem(h, <<i>>, <<v>>) /\ n' = n
Set2 == \E i, j \in 0..n - 1 : \E v, w \in Vals :
          a' = AssignAll(a, <<i, j>>, <<v, w>>) /\ h' = SetItem(h, <<i, j>>, <<v, w>>) /\ n' = n
Next == Set1 \/ Set2
Spec == Init /\ [][Next]_<<n, a, h>>

Leaves == \A k \in 0..n - 1 : h[k + B] = a[k]
Nodes == \A k \in 1..B - 1 : h[k] = h[2 * k] + h[2 * k + 1]
Total == h[1] = SumTo(a, n)
Ranges == \A s \in 0..n : \A e \in s..n : Red(h, s + B - 1, e + B, 0) = RangeSum(a, s, e)
PrefixSearch == \A v \in 0..h[1] - 1 : IsPreIdx(a, v, Desc(h, v, 1))
=============================================================================
