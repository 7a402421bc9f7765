------------------------------ MODULE MCStats -------------------------------
(* Two normalising environments (1: training, 2: testing) over two statistics;
   rows arrive in batches of any size.  The statistics are carried as the code
   does: merged by the parallel algorithm, here in exact fractions.  Checked:
   they equal the statistics of the rows given, whatever the split.           *)
EXTENDS Stats, TLC, Json, IOUtils
V == {-1, 0, 2}
Batches == {<<a>> : a \in V} \cup {<<a, b>> : a \in V, b \in V}
MaxRows == atoi(IOEnv.VF_N)
VARIABLES hist,   \* hist[o]: all rows of statistic o
          par,    \* par[o] = [n, s, m2]: m2 = n * sum of squared deviations (an integer)
          obj,    \* obj[w]: the statistic of environment w
          upd,    \* upd[w]: does w update it
          last
vars == <<hist, par, obj, upd, last>>
Par0 == [n |-> 0, s |-> 0, m2 |-> 0]
Of(b) == [n |-> Len(b), s |-> Sum(b), m2 |-> Len(b) * SumSq(b) - Sum(b) * Sum(b)]
\* M2 = M2a + M2b + (sb/nb - sa/na)^2 na nb / n, times n na nb
Merge(a, b) == IF a.n = 0 THEN b
               ELSE LET n == a.n + b.n
                        d == b.s * a.n - a.s * b.n
                        num == n * a.m2 * b.n + n * b.m2 * a.n + d * d
                    IN [n |-> n, s |-> a.s + b.s, m2 |-> num \div (a.n * b.n)]
Init == /\ hist = [o \in 1..2 |-> << >>] /\ par = [o \in 1..2 |-> Par0] /\ obj = [w \in 1..2 |-> w]
        /\ upd = [w \in 1..2 |-> w = 1] /\ last = [op |-> "init", w |-> 0, x |-> 0]
Give(w, b) == /\ Len(hist[obj[w]]) + Len(b) <= MaxRows
              /\ IF upd[w] THEN /\ hist' = [hist EXCEPT ![obj[w]] = @ \o b]
                                /\ par' = [par EXCEPT ![obj[w]] = Merge(@, Of(b))]
                 ELSE UNCHANGED <<hist, par>>
              /\ UNCHANGED <<obj, upd>> /\ last' = [op |-> "give", w |-> w, x |-> Len(b)]
Share(w, o) == /\ obj' = [obj EXCEPT ![w] = o] /\ UNCHANGED <<hist, par, upd>> /\ last' = [op |-> "share", w |-> w, x |-> o]
Switch(w) == /\ upd' = [upd EXCEPT ![w] = ~@] /\ UNCHANGED <<hist, par, obj>> /\ last' = [op |-> "switch", w |-> w, x |-> 0]
Next == \/ \E w \in 1..2, b \in Batches : Give(w, b)
        \/ \E w \in 1..2 : Switch(w) \/ \E o \in 1..2 : Share(w, o)
Spec == Init /\ [][Next]_vars
Exact == \A o \in 1..2 : par[o] = Of(hist[o])
Split == \A o \in 1..2 : LET h == hist[o] IN h # << >> =>
           \A k \in 1..(Len(h) - 1) : Merge(Of(SubSeq(h, 1, k)), Of(SubSeq(h, k + 1, Len(h)))) = Of(h)
Untouched == [][\A w \in 1..2 : (last'.op = "give" /\ last'.w = w /\ ~upd[w]) => hist' = hist]_vars
View == <<obj, upd, [o \in 1..2 |-> IF par[o].n > 2 THEN 2 ELSE par[o].n]>>
NoLast == <<hist, par, obj, upd>>
EdgePrint == IOEnv.VF_EDGES = "1" => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(last') \o "|" \o ToJson(View'))
NextE == Next /\ EdgePrint
SpecE == Init /\ [][NextE]_vars
=============================================================================
