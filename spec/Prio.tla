-------------------------------- MODULE Prio --------------------------------
(* Prioritised replay: a buffer of Buf together with one priority per row.
   p: global index -> priority (-1: no transition was stored there since the
   last reset; 0 stands for the tiny constant), mx: the largest priority seen,
   a2: twice the exponent alpha, beta, norm.                                 *)
EXTENDS Buf, SegTree

RECURSIVE ISqrt(_, _)
ISqrt(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE ISqrt(x, r + 1)
PowA(p, a2) == IF p < 0 THEN 0
               ELSE CASE a2 = 1 -> ISqrt(p, 0) [] a2 = 2 -> p [] a2 = 4 -> p * p [] a2 = 6 -> p * p * p
RECURSIVE PowN(_, _)
PowN(x, k) == IF k = 0 THEN 1 ELSE x * PowN(x, k - 1)

PNew(b, a2, beta, norm) == [b |-> b, p |-> [k \in 0..TotCap(b) - 1 |-> -1], mx |-> 1, a2 |-> a2, beta |-> beta, norm |-> norm]
\* the weights the tree holds
W(s) == [k \in DOMAIN s.p |-> PowA(s.p[k], s.a2)]
PInit(s, nb, idx) == [s EXCEPT !.b = nb, !.p = AssignAll(@, idx, [k \in 1..Len(idx) |-> s.mx])]
PAdd(s, ids, ts) == LET r == AddReport(s.b, ids, ts)
                    IN PInit(s, Add(s.b, ids, ts), [k \in 1..Len(r) |-> r[k].idx])
PUpdate(s, ts) == PInit(s, Update(s.b, ts), UpdateIdx(s.b, ts))
AbsV(v) == IF v < 0 THEN -v ELSE v
PWeight(s, idx, ws) ==
  LET av == [k \in 1..Len(ws) |-> AbsV(ws[k])]
      m == FoldLeft(LAMBDA a, v : IF v > a THEN v ELSE a, s.mx, av)
  IN [s EXCEPT !.p = AssignAll(@, idx, av), !.mx = m]
PReset(s, keep) == [s EXCEPT !.b = Reset(@, keep), !.p = [k \in DOMAIN s.p |-> -1]]
=============================================================================
