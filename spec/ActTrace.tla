------------------------------ MODULE ActTrace ------------------------------
(* Judges recorded mappings of actions, explorations and action wrappers. *)
EXTENDS TraceBase, Action
Start(e) == e
Close(x, y, tol) == Abs(x - y) <= tol
\* one number of an action: dimension d of the space, raw action a, result m scaled by 2 * 4096 * S
NumOk(s, d, a, m) ==
  LET lo == s.lo[d] hi == s.hi[d] IN
  Close(m, Mapped(s.bound, s.scale = 1, a, lo, hi), 2 + (IF s.bound # "tanh" THEN 0 ELSE IF s.scale = 1 THEN hi - lo ELSE 2 * S))
AllAcc(s, rows) == \A r \in 1..Len(rows) : \A d \in 1..Len(rows[r]) : Accepted(s.bound, s.scale = 1, rows[r][d])
MapOk(s, e) == Len(e.out) = Len(e.rows) /\ \A r \in 1..Len(e.rows) : Len(e.out[r]) = Len(e.rows[r]) /\ \A d \in 1..Len(e.rows[r]) : NumOk(s, d, e.rows[r][d], e.out[r][d])
\* the inverse, scaled by 65536
InvOk(s, d, m, x) == LET q == UnMap(s.scale = 1, m, s.lo[d], s.hi[d]) IN
  \/ s.scale = 1 /\ s.lo[d] = s.hi[d]
  \/ s.bound # "tanh" /\ Close(x * q[2], 65536 * q[1], q[2] * 2)
  \/ s.bound = "tanh"      \* judged by the round trip
Counts(e) == \A r \in 1..Len(e.count) : \A a \in 1..Len(e.count[r]) :
  LET allowed == (a - 1) \in ToSet(e.masks[r]) m == Len(e.masks[r])
      \* expected share times 4 m: eps/4 exploration over m allowed actions
      ex == (IF allowed THEN e.eps4 ELSE 0) + (IF a - 1 = e.greedy[r] THEN (4 - e.eps4) * m ELSE 0)
  IN Abs(e.count[r][a] * 4 * m - e.n * ex) <= 4 * m * e.tol
\* a bounded policy that does not scale answers with actions in [-1, 1] only
Reachable(s, rows) == s.scale = 1 \/ s.bound = "none" \/ \A r \in 1..Len(rows) : \A d \in 1..Len(rows[r]) : Abs(rows[r][d]) <= S
Clauses(s, e) ==
  CASE e.op = "map" -> IF s.kind = "box" /\ ~AllAcc(s, e.rows) THEN << <<"map.accepts-unbounded", e.err # "">> >>
                       ELSE << <<"map.raised " \o e.err, e.err = "">>,
                               <<"map.values", e.err # "" \/ (IF s.kind = "box" THEN MapOk(s, e) ELSE e.out = e.rows)>>,
                               <<"map.outside", e.err # "" \/ e.inside = 1 \/ s.kind # "box" \/ s.scale = 0>>,
                               <<"map.shape", e.err # "" \/ e.shape = e.shape0>>, <<"map.changes-input", e.same = 1>> >>
    [] e.op = "inv" -> << <<"inverse.raised " \o e.err, e.err = "">>,
                          <<"inverse.values", e.err # "" \/ s.kind # "box" \/ \A r \in 1..Len(e.rows) : \A d \in 1..Len(e.rows[r]) : InvOk(s, d, e.rows[r][d], e.out[r][d])>>,
                          <<"inverse.discrete", e.err # "" \/ s.kind = "box" \/ e.out = e.rows>>,
                          <<"inverse.round-trip", e.err # "" \/ e.trip <= 8 \/ ~Reachable(s, e.rows)>>,
                          <<"inverse.shape", e.err # "" \/ e.shape = e.shape0>>, <<"inverse.changes-input", e.same = 1>> >>
    \* arbitrary boxes and actions: not the value, but that it stays inside and comes back
    [] e.op = "rough" -> << <<"map.raised " \o e.err, e.err = "">>, <<"map.outside", e.inside = 1>>, <<"inverse.round-trip", e.trip <= 8>>, <<"map.ends", e.ends = 1>>, <<"map.order", e.order = 1>> >>
    [] e.op = "compute" -> << <<"compute_action.raised " \o e.err, e.err = "">>, <<"compute_action.values", e.err # "" \/ (IF s.kind = "box" THEN MapOk(s, e) ELSE e.out = e.rows)>>,
                              <<"compute_action.type", s.kind # "disc" \/ e.isint = 1>> >>
    [] e.op = "collect" -> << <<"collect.raised " \o e.err, e.err = "">>,
                              <<"collect.number", Len(e.got) = Len(e.kept)>>,
                              <<"collect.mapped", IF e.rand = 1 THEN e.trip <= 8 ELSE MapOk(s, [rows |-> e.kept, out |-> e.got])>>,
                              <<"collect.outside", e.inside = 1>>,
                              <<"collect.answers", e.rand = 1 \/ e.kept = e.said>> >>
    [] e.op = "explore" -> << <<"explore.raised " \o e.err, e.err = "">>, <<"explore.shape", e.err # "" \/ Len(e.out) = Len(e.act)>>,
                              <<"explore.inadmissible", e.err # "" \/ \A r \in 1..Len(e.act) : Explored(IF e.kind = 0 THEN 0 ELSE e.eps, e.act[r], e.out[r], ToSet(e.masks[r]))>>,
                              <<"explore.changes-observation", e.same = 1>> >>
    [] e.op = "often" -> << <<"explore.frequencies", Counts(e)>> >>
    [] e.op = "random" -> << <<"random.raised " \o e.err, e.err = "">>, <<"random.inadmissible", \A r \in 1..Len(e.out) : e.out[r] \in ToSet(e.masks[r])>> >>
    \* random actions fill the space, and stay in it
    [] e.op = "range" -> << <<"cql-random.raised " \o e.err, e.err = "">>,
                            <<"cql-random.range", e.err # "" \/ e.ends = << >> \/ (e.ends[1] >= e.lo /\ e.ends[2] <= e.hi /\ 2 * (e.ends[2] - e.ends[1]) >= e.hi - e.lo)>> >>
    [] e.op = "noise" -> << <<"noise.raised " \o e.err, e.err = "">>, <<"noise.values", e.err # "" \/ e.out = [r \in 1..Len(e.act) |-> e.act[r] + e.mu]>>, <<"noise.changes-input", e.same = 1>> >>
    [] e.op = "points" -> << <<"to-discrete.raised " \o e.err, e.err = "">>,
                             <<"to-discrete.space", e.space = e.per>>,
                             <<"to-discrete.values", e.err # "" \/ (Len(e.out) = Len(e.act) /\ \A r \in 1..Len(e.act) : \A d \in 1..Len(e.act[r]) :
                                 LET p == Point(e.lo[d], e.hi[d], e.per[d], e.act[r][d]) IN Close(e.out[r][d] * p[2], 1024 * p[1], 2 * p[2]))>>,
                             <<"to-discrete.outside", e.inside = 1>> >>
    [] e.op = "digits" -> << <<"multi-to-discrete.raised " \o e.err, e.err = "">>, <<"multi-to-discrete.space", e.n = Product(e.nvec)>>,
                             <<"multi-to-discrete.not-onto", e.err # "" \/ (Len(e.out) = e.n /\ Cardinality(ToSet(e.out)) = e.n)>>,
                             <<"multi-to-discrete.outside", e.err # "" \/ \A r \in 1..Len(e.out) : Len(e.out[r]) = Len(e.nvec) /\ \A d \in 1..Len(e.nvec) : e.out[r][d] \in 0..(e.nvec[d] - 1)>>,
                             <<"multi-to-discrete.batch", e.err # "" \/ e.batch = e.out>> >>
    [] e.op = "ended" -> << <<"truncated-as-terminated", e.after = << IF e.before[1] + e.before[2] > 0 THEN 1 ELSE 0, e.before[2] >> /\ e.rest = 1>> >>
    [] OTHER -> << <<"unknown event", FALSE>> >>
Bad(s, e) == Violated(Clauses(s, e))
Post(s, e) == s
VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
