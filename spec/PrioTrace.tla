------------------------------ MODULE PrioTrace -----------------------------
(* Judges recorded operations on real prioritised buffers and segment trees.
   st: registers of [b, p, mx, ...] (buffers) or [a] (trees).                *)
EXTENDS BufOps, Prio

Start(e) == [k \in 1..e.regs |-> [b |-> None]]
Bufs(st) == [k \in DOMAIN st |-> st[k].b]
Shared == {"add", "update", "snap", "rows", "reset", "clone", "reject", "epidx", "fromdata"}
ArrOf(seq) == [k \in 0..Len(seq) - 1 |-> seq[k + 1]]

ImpOk(st, e) ==    \* importance weights v (times 10^6) of the rows idx
  LET s == st[e.r]
      w == [k \in 1..Len(e.idx) |-> PowN(PowA(s.p[e.idx[k]], s.a2), s.beta)]
      mn == FoldLeft(MinOf, w[1], w)
  IN IF e.norm = 1 THEN \A k \in 1..Len(w) : AbsV(e.v[k] * w[k] - 1000000 * mn) <= w[k]
     ELSE \A k \in 1..Len(w) : e.v[k] > 0 /\ AbsV(e.v[k] * w[k] - e.v[1] * w[1]) <= w[k] + w[1]

PClauses(st, e) ==
  CASE e.op = "new" -> << <<"new raised " \o e.err, e.err = "">> >>
    [] e.op \in Shared -> BufClauses(Bufs(st), e)
    [] e.op = "weight" -> << <<"B07.update_weight raised " \o e.err, e.err = "">> >>
    [] e.op = "beta" -> << >>
    [] e.op = "wts" ->    \* the priorities of the rows q and the sum of all of them
         LET w == W(st[e.r]) IN
         << <<"B07.priority", e.w = [k \in 1..Len(e.q) |-> w[e.q[k]]]>>,
            <<"B07.total", e.tot = SumTo(w, Cardinality(DOMAIN w))>> >>
    [] e.op = "imp" ->
         << <<"B07.importance raised " \o e.err, e.err = "">>,
            <<"B07.importance", e.err = "" => (Len(e.v) = Len(e.idx) /\ e.idx # << >> /\ ImpOk(st, e))>> >>
    [] e.op = "draw" ->   \* how often each row came out of n draws
         LET s == st[e.r]
             w == W(s)
             tot == SumTo(w, Cardinality(DOMAIN w))
         IN << <<"B07.draw raised " \o e.err, e.err = "">>,
               <<"B07.draw-count", e.err = "" => SumSeq(e.cnt) = e.n>>,
               <<"B07.drawn-unstored", e.err = "" => \A k \in 1..Len(e.idx) : Valid(s.b, e.idx[k])>>,
               <<"B07.distribution", e.err = "" =>
                  \A g \in DOMAIN w :
                    LET c == SumSeq([k \in 1..Len(e.idx) |-> IF e.idx[k] = g THEN e.cnt[k] ELSE 0])
                        d == AbsV(c * tot - e.n * w[g])
                    IN \* six standard deviations
                       d * d <= 40 * e.n * w[g] * (tot - w[g]) + (IF w[g] = 0 \/ w[g] = tot THEN 0 ELSE tot * tot)>> >>
    [] e.op = "tnew" -> << >>
    [] e.op = "tset" -> << <<"B07.tree-set raised " \o e.err, e.err = "">> >>
    [] e.op = "tget" ->
         LET a == st[e.r].a IN
         << <<"B07.tree-query raised " \o e.err, e.err = "">>,
            <<"B07.tree-len", e.n = Cardinality(DOMAIN a)>>,
            <<"B07.tree-values", e.all = [k \in 1..Cardinality(DOMAIN a) |-> a[k - 1]]>>,
            <<"B07.tree-total", e.tot = SumTo(a, Cardinality(DOMAIN a))>>,
            <<"B07.tree-range", \A k \in 1..Len(e.sums) : e.sums[k][3] = RangeSum(a, e.sums[k][1], e.sums[k][2])>>,
            <<"B07.tree-prefix", \A k \in 1..Len(e.pre) :    \* values are doubled
                 IsPreIdx([j \in DOMAIN a |-> 2 * a[j]], e.pre[k][1], e.pre[k][2])>> >>
    [] OTHER -> << <<"unknown event " \o e.op, FALSE>> >>
Bad(st, e) == Violated(PClauses(st, e))
Post(st, e) ==
  CASE e.op = "new" -> [st EXCEPT ![e.r] =
           IF e.a2 = 0 THEN [b |-> NewBuf(e.kind, e.caps, e.stack, e.avail = 1, e.ign = 1, e.rdim)]
           ELSE PNew(NewBuf(e.kind, e.caps, e.stack, e.avail = 1, e.ign = 1, e.rdim), e.a2, e.beta, e.norm = 1)]
    [] e.op = "add" -> [st EXCEPT ![e.r] = IF Has(@, "p") THEN PAdd(@, e.ids, e.ts) ELSE [b |-> Add(@.b, e.ids, e.ts)]]
    [] e.op = "update" -> [st EXCEPT ![e.r] = PUpdate(@, Moved(st[e.src].b))]
    [] e.op = "reset" -> [st EXCEPT ![e.r] = PReset(@, e.keep = 1)]
    [] e.op = "clone" -> [st EXCEPT ![e.r] = st[e.src]]
    [] e.op = "weight" -> [st EXCEPT ![e.r] = PWeight(@, e.idx, e.ws)]
    [] e.op = "beta" -> [st EXCEPT ![e.r].beta = e.beta]
    [] e.op = "tnew" -> [st EXCEPT ![e.r] = [b |-> None, a |-> [k \in 0..e.n - 1 |-> 0]]]
    [] e.op = "tset" -> [st EXCEPT ![e.r].a = AssignAll(@, e.idx, e.val)]
    [] OTHER -> st

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
