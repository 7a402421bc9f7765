----------------------------- MODULE VEnvTrace ------------------------------
(* Judges recorded operations on real vector environments. *)
EXTENDS TraceBase, VEnv
Start(e) == NewVEnv(e.num, e.need, e.timed = 1, e.hasseed = 1, e.tat = 1)
Refused(v, e) ==      \* the operation must be refused
  CASE e.op = "reset" -> ~CanReset(v, Ids(v, e.ids))
    [] e.op = "step" -> ~CanStep(v, Ids(v, e.ids), e.acts) \/ (e.none = 1 /\ ~v.async)
    [] e.op \in {"get", "set"} -> v.closed \/ ~Free(v, Ids(v, e.ids))
    [] e.op \in {"render", "seed"} -> v.closed \/ (v.async /\ v.wait # << >>)
    [] e.op = "close" -> v.closed
    [] OTHER -> FALSE
Errs(e) == CASE e.op = "render" -> {"AssertionError", "RuntimeError"}
             [] e.op = "step" -> IF e.none = 1 THEN {"ValueError", "AssertionError"} ELSE {"AssertionError"}
             [] OTHER -> {"AssertionError"}
After(v, e) == IF e.none = 1 THEN v ELSE Sent(v, Ids(v, e.ids), e.acts)
RetIds(e) == MapSeq(LAMBDA r : r.env, e.rows)
Seeded(v, e) == [v EXCEPT !.en = [j \in 1..N(v) |-> IF v.hasseed THEN [v.en[j] EXCEPT !.seed = e.seeds[j]]
                                                    ELSE AfterReset(v.en[j], e.seeds[j])]]
Field(v, key, i) == LET en == v.en[i + 1] IN
   CASE key = "attr" -> en.attr [] key = "steps" -> en.steps [] key = "ep" -> en.ep [] key = "seed_" -> en.seed [] key = "idx" -> i
Clauses(v, e) ==
  IF Refused(v, e) THEN << <<e.op \o ".must-be-refused", e.err \in Errs(e)>> >>
  ELSE << <<e.op \o ".raised " \o e.err, e.err = "">> >> \o
    (IF e.err # "" THEN << >> ELSE
      CASE e.op = "reset" -> << <<"reset.results", e.rows = ResetRows(v, Ids(v, e.ids), e.seed, e.opt)>> >>
        [] e.op = "step" ->
             LET s == After(v, e) rs == RetIds(e) IN
             << <<"step.which-results", CanReturn(s, rs)>>,
                <<"step.results", ~CanReturn(s, rs) \/ e.rows = Rows(s, rs)>> >>
        [] e.op = "get" -> << <<"get.values", e.vals = MapSeq(LAMBDA i : Field(v, e.key, i), Ids(v, e.ids))>> >>
        [] e.op = "render" -> << <<"render.values", e.vals = [j \in 1..N(v) |-> 10 * Tok(j - 1, v.en[j]) + e.arg]>> >>
        [] e.op = "seed" -> << <<"seed.returned", ~v.hasseed \/ e.vals = e.seeds>> >>
        [] e.op = "recheck" -> << <<"observations-changed-after-return", e.obs = v.hist>> >>
        [] e.op = "len" -> << <<"len", e.val = N(v)>> >>
        [] OTHER -> << >>)
Bad(v, e) == Violated(Clauses(v, e))
Toks(e) == MapSeq(LAMBDA r : r.tok, e.rows)
Post(v, e) ==
  IF e.err # "" THEN v
  ELSE CASE e.op = "reset" -> [Reset(v, Ids(v, e.ids), e.seed) EXCEPT !.hist = Append(@, Toks(e))]
         [] e.op = "step" -> [Returned(After(v, e), RetIds(e)) EXCEPT !.hist = Append(@, Toks(e))]
         [] e.op = "set" -> [v EXCEPT !.en = [j \in 1..N(v) |-> IF \E x \in 1..Len(Ids(v, e.ids)) : Ids(v, e.ids)[x] = j - 1
                                                               THEN [v.en[j] EXCEPT !.attr = e.val] ELSE v.en[j]]]
         [] e.op = "seed" -> Seeded(v, e)
         [] e.op = "close" -> [v EXCEPT !.closed = TRUE]
         [] OTHER -> v

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
