------------------------------- MODULE Returns ------------------------------
(* What returns and advantages are, for transitions stored in (sub-)buffers.
   A sub-buffer: capacity, position of its first slot, everything ever added.
   A transition: reward, terminated, truncated, values of the two observations.
   All numbers are integers; quotients are scaled (gamma = g / d, lambda = l / m). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

NewRet(caps) == [j \in 1..Len(caps) |->
   [cap |-> caps[j], off |-> FoldFunctionOnSet(LAMBDA x, y : x + y, 0, caps, 1..(j - 1)), log |-> << >>]]
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
First(s) == Most(0, Len(s.log) - s.cap) + 1
StoredK(s) == First(s)..Len(s.log)
PosOf(s, k) == s.off + ((k - 1) % s.cap)
\* where the transition at a position is: <<sub-buffer, number>>
At(b, p) == CHOOSE x \in UNION {{<<j, k>> : k \in StoredK(b[j])} : j \in 1..Len(b)} : PosOf(b[x[1]], x[2]) = p
Valid(b) == UNION {{PosOf(b[j], k) : k \in StoredK(b[j])} : j \in 1..Len(b)}
Row(b, p) == LET x == At(b, p) IN b[x[1]].log[x[2]]
Done(r) == r.t + r.u > 0
\* nothing of the same episode follows in the buffer
Closed(s, k) == Done(s.log[k]) \/ k = Len(s.log)
Pow(a, n) == IF n = 0 THEN 1 ELSE a ^ n

----------------------------------------------------------------------------
(* n-step return, declaratively *)
LastOf(s, k, n) == LET E == {y \in k..(k + n - 1) : y <= Len(s.log) /\ Closed(s, y)}
                   IN IF E = {} THEN k + n - 1 ELSE Min(E)
\* scaled by d^n; q is the bootstrap value at the last transition
NStep(s, k, n, g, d, q) ==
  LET z == LastOf(s, k, n) m == z - k + 1 IN
  FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [y \in k..z |-> s.log[y].rew * Pow(g, y - k) * Pow(d, n - (y - k))], k..z)
    + (IF s.log[z].t = 1 THEN 0 ELSE q * Pow(g, m) * Pow(d, n - m))
LastPos(b, p, n) == LET x == At(b, p) IN PosOf(b[x[1]], LastOf(b[x[1]], x[2], n))
NStepAt(b, p, n, g, d, q) == LET x == At(b, p) IN NStep(b[x[1]], x[2], n, g, d, q)

(* the same as it is computed: by following positions and resetting at end flags *)
NextPos(b, p) == LET x == At(b, p) s == b[x[1]] IN IF Closed(s, x[2]) THEN p ELSE s.off + ((p - s.off + 1) % Least(s.cap, Len(s.log)))
EndFlag(b, p) == LET x == At(b, p) IN Closed(b[x[1]], x[2])
RECURSIVE StackP(_, _, _)
StackP(b, p, n) == IF n = 1 THEN <<p>> ELSE LET t == StackP(b, p, n - 1) IN Append(t, NextPos(b, t[Len(t)]))
RECURSIVE NAlg(_, _, _, _, _, _, _, _)
\* works backwards from step x: acc is scaled by d^(n - x), e is the exponent of the bootstrap value
NAlg(b, st, x, n, g, d, acc, e) ==
  IF x = 0 THEN <<acc, e>>
  ELSE LET end == EndFlag(b, st[x]) a == IF end THEN 0 ELSE acc e2 == IF end THEN x ELSE e
       IN NAlg(b, st, x - 1, n, g, d, Row(b, st[x]).rew * Pow(d, n - x + 1) + g * a, e2)
NStepAlg(b, p, n, g, d, q) ==
  LET st == StackP(b, p, n) r == NAlg(b, st, n, n, g, d, 0, n)
      qm == IF Row(b, st[n]).t = 1 THEN 0 ELSE q
  IN r[1] + qm * Pow(g, r[2]) * Pow(d, n - r[2])

----------------------------------------------------------------------------
(* Advantages of a batch: P is the sequence of its positions, v and w the values of the first and next
   observations. Scaled by d * (d m)^H.                                     *)
Cut(b, P, x) == x = Len(P) \/ EndFlag(b, P[x])
SegEnd(b, P, x) == Min({y \in x..Len(P) : Cut(b, P, y)})
Delta(b, P, v, w, x, g, d) == LET r == Row(b, P[x]) IN d * r.rew + (IF r.t = 1 THEN 0 ELSE g * w[x]) - d * v[x]
Adv(b, P, v, w, x, g, d, l, m, H) ==
  LET z == SegEnd(b, P, x) IN
  FoldFunctionOnSet(LAMBDA a, c : a + c, 0, [y \in x..z |-> Pow(g * l, y - x) * Pow(d * m, H - (y - x)) * Delta(b, P, v, w, y, g, d)], x..z)
Scale(d, m, H) == d * Pow(d * m, H)
\* the same as it is computed: one backward pass with discounts that vanish at end flags; quotients kept exact by scaling
RECURSIVE GaePass(_, _, _, _, _, _, _, _, _, _)
GaePass(b, P, v, w, x, g, d, l, m, H) ==   \* advantages of x..Len(P), each scaled by d * (d m)^H; H >= Len(P)
  IF x > Len(P) THEN << >>
  ELSE LET rest == GaePass(b, P, v, w, x + 1, g, d, l, m, H)
           nxt == IF rest = << >> \/ EndFlag(b, P[x]) THEN 0 ELSE (rest[1] * g * l) \div (d * m)
       IN <<Delta(b, P, v, w, x, g, d) * Pow(d * m, H) + nxt>> \o rest

\* discounted sums to the end, scaled by d^(Len - 1)
ToGo(rews, x, g, d) == FoldFunctionOnSet(LAMBDA a, c : a + c, 0,
   [y \in x..Len(rews) |-> rews[y] * Pow(g, y - x) * Pow(d, Len(rews) - 1 - (y - x))], x..Len(rews))
=============================================================================
