------------------------------ MODULE MCReturns -----------------------------
(* All small buffer contents: what is computed position by position equals the definitions. *)
EXTENDS Returns, TLC, IOUtils, Json
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
LAYOUTS == << <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<4>> >>
CAPS == LAYOUTS[EnvI("VF_L", 1)]
EXTRA == EnvI("VF_X", 2)        \* how many transitions beyond the capacity may be added to a sub-buffer
NMAX == EnvI("VF_N", 3)
RG == EnvI("VF_R", 2)
VARIABLES b, a
vars == <<b, a>>
Kinds == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}
Mk(rew, k) == [rew |-> rew, t |-> k[1], u |-> k[2], v |-> rew + 2 * k[1], w |-> 3 - rew]
Init == b = NewRet(CAPS) /\ a = [op |-> "init"]
Add(j, rew, k) ==
  /\ Len(b[j].log) < CAPS[j] + EXTRA
  /\ b' = [b EXCEPT ![j].log = Append(@, Mk(rew, k))]
  /\ a' = [op |-> "add", j |-> j, rew |-> rew, t |-> k[1], u |-> k[2]]
View == [x \in 1..Len(b) |-> [k \in 1..Len(b[x].log) |-> <<b[x].log[k].rew, b[x].log[k].t, b[x].log[k].u>>]]
Rewards(j) == IF RG = 0 THEN {1 + ((3 * Len(b[j].log) + j) % 4)} ELSE 1..RG
Next == \E j \in 1..Len(CAPS) : \E rew \in Rewards(j), k \in (IF EDGES THEN Kinds \ {<<1, 1>>} ELSE Kinds) :
          Add(j, rew, k) /\ (EDGES => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson(View')))
Spec == Init /\ [][Next]_vars

GAMMAS == {<<0, 1>>, <<1, 1>>, <<1, 2>>}
LAMS == {<<0, 1>>, <<1, 1>>, <<1, 2>>}
NStepRight == \A p \in Valid(b), n \in 1..NMAX, g \in GAMMAS, q \in {-1, 2} :
                NStepAlg(b, p, n, g[1], g[2], q) = NStepAt(b, p, n, g[1], g[2], q)
\* more steps than the episode has left change nothing (up to the scale)
NStepSettles == \A p \in Valid(b) : LET x == At(b, p) s == b[x[1]] z == LastOf(s, x[2], 9) m == z - x[2] + 1
                                    IN \A n \in m..(m + 1) : NStepAt(b, p, n, 1, 2, 1) = NStepAt(b, p, m, 1, 2, 1) * Pow(2, n - m)
\* no reward of another episode, another environment or an overwritten slot contributes
NStepLocal == \A p \in Valid(b), n \in 1..NMAX : LET st == StackP(b, p, n) x == At(b, p) IN
                 \A y \in 1..n : /\ At(b, st[y])[1] = x[1] /\ At(b, st[y])[2] >= x[2]
                                 /\ \A z \in x[2]..(At(b, st[y])[2] - 1) : ~Done(b[x[1]].log[z])
\* the listing of everything stored, sub-buffer by sub-buffer
Listing == FoldLeft(LAMBDA acc, j : acc \o [k \in 1..Cardinality(StoredK(b[j])) |-> PosOf(b[j], First(b[j]) + k - 1)], << >>, [j \in 1..Len(b) |-> j])
Vs(P) == [x \in 1..Len(P) |-> Row(b, P[x]).v]
Ws(P) == [x \in 1..Len(P) |-> Row(b, P[x]).w]
GaeRight == LET P == Listing H == Len(P) IN \A g \in GAMMAS, l \in LAMS :
              \A x \in 1..Len(P) : GaePass(b, P, Vs(P), Ws(P), 1, g[1], g[2], l[1], l[2], H)[x] = Adv(b, P, Vs(P), Ws(P), x, g[1], g[2], l[1], l[2], H)
\* with lambda = 1 the return is the n-step return with the episode's length
GaeIsMonteCarlo == LET P == Listing H == Len(P) IN \A x \in 1..Len(P) :
   LET y == At(b, P[x]) s == b[y[1]] z == LastOf(s, y[2], 9) n == z - y[2] + 1 k == SegEnd(b, P, x) IN
     /\ k - x = z - y[2]
     /\ (\A i \in x..(k - 1) : TRUE) => 
          Adv(b, P, [i \in 1..Len(P) |-> 0], [i \in 1..Len(P) |-> IF i = k THEN Ws(P)[i] ELSE 0], x, 1, 2, 1, 1, H) * Pow(2, n)
            = NStepAt(b, P[x], n, 1, 2, Ws(P)[k]) * Scale(2, 1, H)
Inv == NStepRight /\ NStepSettles /\ NStepLocal /\ GaeRight /\ GaeIsMonteCarlo
=============================================================================
