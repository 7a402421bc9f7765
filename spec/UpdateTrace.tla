----------------------------- MODULE UpdateTrace ----------------------------
(* Judges the modes of a real policy, the stages of its updates and the
   mini-batches its algorithms take steps on.                                 *)
EXTENDS TraceBase, Update
Start(e) == [m |-> [NewMode(Len(e.lrp)) EXCEPT !.tr = e.tr = 1], b |-> NewRet(e.caps), prio |-> e.prio = 1, lrp |-> e.lrp, saved |-> << >>]
BI(x) == IF x THEN 1 ELSE 0
Modes(e, m) == << <<e.op \o ".within", e.w = BI(m.within)>>, <<e.op \o ".training", e.tr = BI(m.tr)>>, <<e.op \o ".parts-training", e.sub = BI(m.tr)>>,
                  <<e.op \o ".updating", e.up = 0>> >>
\* ------------------------------ one update
Calls(e, S) == SelectSeq(e.calls, LAMBDA c : c.s \in S)
MainS == {"sample", "process", "learn", "post"}
FailAt(e) == CASE e.fail = "" -> 9 [] OTHER -> CHOOSE k \in 1..5 : Stages[k] = e.fail
Expected(e) == SubSeq(<<"sample", "process", "learn", "post">>, 1, MinOf(4, FailAt(e)))
Call(e, k) == Calls(e, MainS)[k]
Writes(s, e) == s.prio /\ FailAt(e) > 4 /\ (e.setw = 1 \/ e.new = 0)
UpClauses(s, e) ==
  LET M == Calls(e, MainS) names == [k \in 1..Len(M) |-> M[k].s] full == names = Expected(e)
      idx == M[1].y lrc == Calls(e, {"lr"}) wc == Calls(e, {"weight"}) n == Len(s.lrp) IN
  << <<"update.stages", full>> >> \o
  (IF ~full THEN << >> ELSE
   << <<"update.sampled", FailAt(e) = 1 \/ SampleOk(s.b, idx, e.size, e.none = 1)>>,
      <<"update.size-asked", M[1].x = IF e.none = 1 THEN << -1>> ELSE <<e.size>> >>,
      <<"update.flags", \A k \in 2..Len(M) : M[k].w = 1 /\ M[k].up = 1>>,
      <<"update.mode", \A k \in 2..Len(M) : M[k].tr = M[k].sub /\ M[k].tr = IF k = 3 THEN 1 ELSE BI(s.m.tr)>>,
      <<"update.sample-flags", M[1].w = 1 /\ M[1].tr = BI(s.m.tr)>>,
      <<"update.process", Len(M) < 2 \/ (M[2].y = idx /\ M[2].x = Toks(s.b, idx) /\ M[2].z = 1)>>,
      <<"update.learn", Len(M) < 3 \/ (M[3].x = Toks(s.b, idx) /\ M[3].y = e.kw /\ M[3].z = 1)>>,
      <<"update.post", Len(M) < 4 \/ (M[4].y = idx /\ M[4].x = Toks(s.b, idx) /\ M[4].z = 1)>>,
      <<"update.writes-back", IF Writes(s, e) THEN Len(wc) = 1 /\ wc[1].x = idx /\ (e.setw = 1 => wc[1].y = e.ws) /\ wc[1].up = 1 ELSE wc = << >> >>,
      <<"update.schedulers", IF e.fail # "" /\ e.fail # "lr" THEN lrc = << >>
                             ELSE IF e.fail = "lr" THEN Len(lrc) = 1
                             ELSE [k \in 1..Len(lrc) |-> lrc[k].x] = [k \in 1..n |-> <<k>>]>>,
      <<"update.scheduler-late", lrc = << >> \/ \A j, k \in 1..Len(e.calls) : e.calls[j].s = "lr" /\ e.calls[k].s = "learn" => k < j>> >>)
Rates(s, e, m) == <<"update.rates", e.fail # "" \/ e.rates = [k \in 1..Len(s.lrp) |-> Rate(m.lr[k], s.lrp[k])]>>
Update2(s, e) ==
  LET u == Begin(s.m, e.nobuf = 1) IN
  CASE u.out = "refused" -> << <<"update.not-refused", e.err = "RuntimeError">>, <<"update.refused-acts", e.calls = << >> >> >> \o Modes(e, s.m)
    [] u.out = "empty" -> << <<"update.raised " \o e.err, e.err = "">>, <<"update.empty-acts", e.calls = << >> >>, <<"update.empty-stats", e.ret = 2>> >> \o Modes(e, s.m)
    [] OTHER -> << <<"update.raised " \o e.err, e.err = IF e.fail = "" THEN "" ELSE "Boom">>, <<"update.returned", e.fail # "" \/ e.ret = 1>>,
                   Rates(s, e, After(s.m, e.fail)) >> \o UpClauses(s, e) \o Modes(e, s.m)
Clauses(s, e) ==
  CASE e.op = "add" -> << <<"driver.position", e.pos = PosOf([s.b[e.j] EXCEPT !.log = Append(@, e)], Len(s.b[e.j].log) + 1)>> >>
    [] e.op = "enter" -> << <<"enter.raised " \o e.err, e.err = "">> >> \o Modes(e, Enter(s.m, e.k, e.v = 1))
    [] e.op = "exit" -> << <<"exit.error", e.err = "">>, <<"exit.swallows", e.prop = e.exc>> >> \o Modes(e, Exit(s.m))
    [] e.op = "set" -> Modes(e, Put(s.m, e.k, e.v = 1))
    [] e.op = "update" -> Update2(s, e)
    [] e.op \in {"save", "load"} -> << <<e.op \o ".raised " \o e.err, e.err = "">> >>
    [] e.op = "mini" ->
       << <<e.name \o ".raised " \o e.err, e.err = "">> >> \o
       (IF e.err # "" THEN << >> ELSE
        << <<e.name \o ".minibatches", MiniOk(s.b, AllOf(s.b), e.bs, e.rep, e.groups)>>,
           <<e.name \o ".same-data", e.same = 1>>, <<e.name \o ".learning-mode", e.mode = 1>>,
           <<e.name \o ".parameters-finite", e.fin = 1>>, <<e.name \o ".failed-line-search-keeps-actor", e.found = 1 \/ e.kept = 1>>,
           <<e.name \o ".gradient-steps", e.gs = -1 \/ e.gs = Len(e.groups)>> >>)
    [] OTHER -> << <<"unknown event", FALSE>> >>
Bad(s, e) == Violated(Clauses(s, e))
Post(s, e) ==
  CASE e.op = "add" -> [s EXCEPT !.b[e.j].log = Append(@, e)]
    [] e.op = "enter" -> [s EXCEPT !.m = Enter(@, e.k, e.v = 1)]
    [] e.op = "exit" -> [s EXCEPT !.m = Exit(@)]
    [] e.op = "set" -> [s EXCEPT !.m = Put(@, e.k, e.v = 1)]
    [] e.op = "update" -> IF Begin(s.m, e.nobuf = 1).out = "" THEN [s EXCEPT !.m = After(@, e.fail)] ELSE s
    [] e.op = "save" -> [s EXCEPT !.saved = s.m.lr]
    [] e.op = "load" -> [s EXCEPT !.m.lr = s.saved]
    [] OTHER -> s

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
