-------------------------------- MODULE Boot --------------------------------
(* What Q-learning targets bootstrap from: small integer-valued networks and
   the algorithms' rules.  A network w = <<p0, p1, p2, p3, stat>>, scaled by S.
   Observations are tokens, actions 0..2.                                     *)
EXTENDS Returns

Acts == 0..2
NQ == 4
V(S, w, o, a) == S * (3 * ((2 * o + 3 * a * o + a) % 5) + a) + 3 * w[a + 1] + w[4]
Sup(X) == CHOOSE x \in X : \A y \in X : x >= y
Inf(X) == CHOOSE x \in X : \A y \in X : x <= y
\* the first best allowed action
Best(f, allowed) == LET m == Sup({f[a] : a \in allowed}) IN Inf({a \in allowed : f[a] = m})
QF(S, w, o) == [a \in Acts |-> V(S, w, o, a)]
\* as it is computed: forbidden actions are pushed below the smallest value of the whole batch
Pushed(f, allowed, lo, hi) == [a \in Acts |-> f[a] + (IF a \in allowed THEN 0 ELSE lo - hi - 1)]

\* ------------------------------ value-based: on online network w, target network v
Double(S, w, v, o, al) == V(S, v, o, Best(QF(S, w, o), al))
Maximal(S, v, o, al) == Sup({V(S, v, o, a) : a \in al})
Quantiles(S, w, v, o, al, n) == LET x == Double(S, w, v, o, al) IN [j \in 1..n |-> x + S * (j - 1)]
\* mean over two branches, times 2
Branches(S, w, v, o, dbl) ==
  LET f(k) == IF dbl THEN Double(S, w, v, o + k, Acts) ELSE Maximal(S, v, o + k, Acts) IN f(0) + f(1)
\* the atom of the categorical network (scale 1)
AtomOf(w, o, a) == V(1, w, o, a) % NQ
C51Best(w, o, al) == Best([a \in Acts |-> AtomOf(w, o, a)], al)
C51Atom(w, v, o, al) == AtomOf(v, o, C51Best(w, o, al))
\* actions whose imitation logit is at most 1 below the best
Likely(i, o) == {a \in Acts : V(1, i, o, a) >= Sup({V(1, i, o, x) : x \in Acts}) - 1}

\* ------------------------------ actor-critic
ActOf(S, w, o) == ((V(S, w, o, 0) \div S) % 3)              \* the action plus one
EntOf(S, w, o) == ((V(S, w, o, 0) \div S) % 3)              \* the log-probability
Crit(S, w, o, k) == V(S, w, o, k)
Two(S, c, c2, o, k) == Inf({Crit(S, c, o, k), Crit(S, c2, o, k)})
EnsQ(S, w, o, k) == [e \in 0..2 |-> Crit(S, w, o + e, k)]

\* projection of the value x (scaled by K) onto the atoms lo..lo+NQ-1: weights scaled by K
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Proj(K, lo, x) == LET y == Clamp(x, K * lo, K * (lo + NQ - 1)) IN
   [j \in 1..NQ |-> LET dist == y - K * (lo + j - 1) IN Sup({0, K - (IF dist < 0 THEN -dist ELSE dist)})]
\* smooth L1 of x (scaled by K), scaled by 2 K K
SmoothL1(K, x) == LET y == IF x < 0 THEN -x ELSE x IN IF y >= K THEN 2 * K * y - K * K ELSE y * y
=============================================================================
