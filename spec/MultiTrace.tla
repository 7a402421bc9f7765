----------------------------- MODULE MultiTrace -----------------------------
(* Judges recorded play and learning of several agents: the calls that every
   agent's policy saw, what was put together from their answers, the shared
   buffer afterwards, the adapter of turn-based games, and the whole chain of
   game, collector, manager and buffer.                                      *)
EXTENDS TraceBase, Multi
Start(e) == [k |-> e.k, hasmask |-> e.hasmask, disc |-> e.disc, pols |-> [g \in 1..e.k |-> g], rows |-> [p \in {} |-> << >>], tr |-> 1, conf |-> e]
Agents(s) == [g \in 1..s.k |-> g]
Kind(calls, w) == SelectSeq(calls, LAMBDA c : c.s = w)
Of(cs, p) == SelectSeq(cs, LAMBDA c : c.pol = p)
\* exactly the agents that have rows are asked, each once
Asked(s, b, cs) == /\ Len(cs) = Len(Present(b, Agents(s)))
                   /\ \A g \in ToSet(Present(b, Agents(s))) : Len(Of(cs, s.pols[g])) = 1
ForEach(s, b, cs, P(_, _, _)) == \A g \in ToSet(Present(b, Agents(s))) : \A k \in 1..Len(cs) : cs[k].pol = s.pols[g] => P(g, At2(b, Mine(b, g)), cs[k])
Toks(rs) == [k \in 1..Len(rs) |-> rs[k].tok]
Own(s, b, cs) == ForEach(s, b, cs, LAMBDA g, rs, c : c.toks = Toks(rs))
Masks(s, b, cs) == ForEach(s, b, cs, LAMBDA g, rs, c : c.msk = IF s.hasmask = 1 THEN [k \in 1..Len(rs) |-> rs[k].msk] ELSE << >>)
Plain(s, b, cs) == ForEach(s, b, cs, LAMBDA g, rs, c : c.plain = 1 - s.hasmask)
Rews(s, b, cs, has) == ForEach(s, b, cs, LAMBDA g, rs, c : c.rew = IF has THEN [k \in 1..Len(rs) |-> rs[k].rew[g]] ELSE << >>)
Nexts(s, b, cs, has) == ForEach(s, b, cs, LAMBDA g, rs, c : c.next = IF has THEN [k \in 1..Len(rs) |-> rs[k].nxt] ELSE << >>)
HasRows(s, b, pol) == \E g \in 1..s.k : s.pols[g] = pol /\ Mine(b, g) # << >>
\* what the agents' policies answered, per agent
Ans(s, cs) == [g \in 1..s.k |-> LET q == Of(cs, s.pols[g]) IN IF q = << >> THEN << >> ELSE q[1].ans]
Answered(s, b, cs) == LET an == Ans(s, cs) IN IF \A g \in 1..s.k : Len(an[g]) = Len(Mine(b, g)) THEN Combine(b, an) ELSE << -1 >>
\* positions that hold rows, in order
Used(s) == SetToSortSeq(DOMAIN s.rows, LAMBDA x, y : x < y)
BufSame(s, buf) == LET u == Used(s) IN Len(buf) = Len(u) /\ \A k \in 1..Len(u) : LET r == s.rows[u[k]] IN
   buf[k].pos = u[k] /\ buf[k].tok = r.tok /\ buf[k].ag = r.ag /\ buf[k].rew = r.rew /\ buf[k].nxt = r.nxt
Rows(s, idx) == [k \in 1..Len(idx) |-> s.rows[idx[k]]]
Stored(s, idx) == \A k \in 1..Len(idx) : idx[k] \in DOMAIN s.rows
ProcessOk(s, b, idx, cs, full) ==
  << <<"process.asked", ~full \/ Asked(s, b, cs)>>, <<"process.rows", Own(s, b, cs)>>, <<"process.masks", Masks(s, b, cs)>>, <<"process.plain", Plain(s, b, cs)>>,
     <<"process.reward", Rews(s, b, cs, TRUE)>>, <<"process.next", Nexts(s, b, cs, TRUE)>>,
     <<"process.indices", ForEach(s, b, cs, LAMBDA g, rs, c : c.idx = At2(idx, Mine(b, g)))>>,
     <<"process.buffer-reward", ForEach(s, b, cs, LAMBDA g, rs, c : c.col = [k \in 1..Len(Used(s)) |-> s.rows[Used(s)[k]].rew[g]])>> >>
Modes(ms, tr, w) == \A k \in 1..Len(ms) : ms[k] = <<tr, w, tr>>
NewTr(s, m) == IF m \in {"train", "train1"} THEN 1 ELSE IF m \in {"eval", "train0"} THEN 0 ELSE s.tr
\* the rows that a log of resets and steps of one game amounts to
LogRows(l) == LET st == SelectSeq([x \in 1..Len(l) |-> x], LAMBDA x : x > 1 /\ l[x].op = "step") IN
  [k \in 1..Len(st) |-> LET o == l[st[k] - 1] n == l[st[k]] IN
     [ag |-> o.ag, tok |-> o.tok, msk |-> o.msk, rew |-> n.rew, nag |-> n.ag, ntok |-> n.tok, term |-> n.term, trunc |-> n.trunc, got |-> n.act]]
Over(r) == r.term = 1 \/ r.trunc = 1
LogOk(l) == \A x \in 2..Len(l) : (l[x].op = "reset") => l[x - 1].op = "reset" \/ Over(l[x - 1]) \/ x = Len(l)
NoPlayOn(l) == \A x \in 2..Len(l) : (l[x].op = "step") => ~Over(l[x - 1])
AddV(x, y) == [k \in 1..Len(x) |-> x[k] + y[k]]
\* returns (one number per agent) of the episodes that ended
Returns(s, rs) == FoldLeft(LAMBDA acc, r : LET c == AddV(acc[2], r.rew) IN IF Over(r) THEN <<Append(acc[1], c), [g \in 1..s.k |-> 0]>> ELSE <<acc[1], c>>,
                           << << >>, [g \in 1..s.k |-> 0]>>, rs)[1]
SameBag(x, y) == Len(x) = Len(y) /\ \A v \in ToSet(x) \cup ToSet(y) : Len(SelectSeq(x, LAMBDA z : z = v)) = Len(SelectSeq(y, LAMBDA z : z = v))
LoopRow(x, y) == x.ag = y.ag /\ x.tok = y.tok /\ x.msk = y.msk /\ x.rew = y.rew /\ x.nag = y.nag /\ x.ntok = y.ntok /\ x.term = y.term /\ x.trunc = y.trunc
\* the stored action is what the acting agent's policy answered to this observation
Said(s, e, r) == \E k \in 1..Len(e.calls) : LET c == e.calls[k] IN
   /\ c.s = (IF e.expl = 1 THEN "explore" ELSE "forward") /\ c.pol = s.pols[r.ag]
   /\ \E j \in 1..Len(c.toks) : c.toks[j] = r.tok /\ c.ans[j] = r.act /\ (s.hasmask = 1 => c.msk[j] = r.msk)
Mapped(s, a) == IF s.disc = 1 THEN a ELSE IF a > 1 THEN 1 ELSE IF a < -1 THEN -1 ELSE a
AllRet(s, e) == FoldLeft(LAMBDA acc, v : acc \o Returns(s, LogRows(v.log)), << >>, e.envs)
Clauses(s, e) ==
  CASE e.op = "add" -> << >>
    [] e.op = "forward" ->
        LET b == e.rows cs == Kind(e.calls, "forward") boom == e.fail # 0 /\ HasRows(s, b, e.fail) IN
        << <<"forward.raised " \o e.err, e.err = IF boom THEN "Boom" ELSE "">>,
           <<"forward.asked", e.err # "" \/ (Asked(s, b, cs) /\ Len(cs) = Len(e.calls))>>, <<"forward.rows", Own(s, b, cs)>>, <<"forward.masks", Masks(s, b, cs)>>,
           <<"forward.plain", Plain(s, b, cs)>>, <<"forward.reward", Rews(s, b, cs, e.hasrew = 1)>>, <<"forward.next", Nexts(s, b, cs, e.hasnext = 1)>>,
           <<"forward.state", ForEach(s, b, cs, LAMBDA g, rs, c : c.st = e.stv[g])>>, <<"forward.arguments", ForEach(s, b, cs, LAMBDA g, rs, c : c.kw = e.kw)>>,
           <<"forward.act", e.err # "" \/ (e.len = Len(b) /\ e.act = Answered(s, b, cs))>>,
           <<"forward.new-state", e.err # "" \/ e.so = [g \in 1..s.k |-> LET q == Of(cs, s.pols[g]) IN IF q = << >> THEN 0 ELSE q[1].so]>>,
           <<"forward.out", e.err # "" \/ e.out = [g \in 1..s.k |-> IF Mine(b, g) = << >> THEN 0 ELSE 1]>>,
           <<"forward.changes-batch", e.same = 1>> >>
    [] e.op = "explore" ->
        LET b == e.rows cs == Kind(e.calls, "explore") IN
        << <<"explore.raised " \o e.err, e.err = "">>, <<"explore.asked", e.err # "" \/ (Asked(s, b, cs) /\ Len(cs) = Len(e.calls))>>,
           <<"explore.rows", Own(s, b, cs)>>, <<"explore.masks", Masks(s, b, cs)>>,
           <<"explore.actions", ForEach(s, b, cs, LAMBDA g, rs, c : c.act = At2(e.act, Mine(b, g)))>>,
           <<"explore.result", e.err # "" \/ e.out = Answered(s, b, cs)>>, <<"explore.changes-batch", e.same = 1>> >>
    [] e.op = "process" ->
        LET b == Rows(s, e.idx) cs == Kind(e.calls, "process") boom == e.fail # 0 /\ HasRows(s, b, e.fail) IN
        << <<"process.raised " \o e.err, e.err = IF boom THEN "Boom" ELSE "">> >> \o ProcessOk(s, b, e.idx, cs, e.err = "") \o
        << <<"process.results", e.err # "" \/ e.ret = [g \in 1..s.k |-> IF Mine(b, g) = << >> THEN -1 ELSE 1]>>,
           <<"process.changes-batch", e.same = 1>>, <<"process.changes-buffer", BufSame(s, e.buf) /\ e.wr = 1>> >>
    [] e.op = "update" ->
        IF ~Stored(s, e.idx) THEN << <<"update.sampled", FALSE>> >> ELSE
        LET b == Rows(s, e.idx) cp == Kind(e.calls, "process") cl == Kind(e.calls, "learn") boom == e.fail # 0 /\ HasRows(s, b, e.fail) IN
        << <<"update.raised " \o e.err, e.err = IF boom THEN "Boom" ELSE "">> >> \o ProcessOk(s, b, e.idx, cp, ~(boom /\ e.where = "process")) \o
        << <<"learn.asked", IF boom /\ e.where = "process" THEN cl = << >> ELSE boom \/ (Asked(s, b, cl) /\ Len(cl) + Len(cp) = Len(e.calls))>>,
           <<"learn.rows", Own(s, b, cl)>>,
           <<"learn.processed", ForEach(s, b, cl, LAMBDA g, rs, c : c.kw[3] = 1)>>, <<"learn.arguments", ForEach(s, b, cl, LAMBDA g, rs, c : SubSeq(c.kw, 1, 2) = e.kw)>>,
           <<"update.within-training-step", \A k \in 1..Len(e.calls) : e.calls[k].w = 1>>,
           <<"learn.mode", \A k \in 1..Len(cl) : cl[k].tr = 1>>,
           <<"update.losses", boom \/ SameBag(e.losses, FoldLeft(LAMBDA acc, g : IF Of(cl, s.pols[g]) = << >> THEN acc ELSE acc \o <<  <<g, Of(cl, s.pols[g])[1].so>>, <<g, Of(cl, s.pols[g])[1].so>> >>, << >>, Agents(s)))>>,
           <<"update.modes-after", Modes(e.modes, s.tr, 0)>>,
           <<"update.changes-buffer", BufSame(s, e.buf)>> >>
    [] e.op = "mode" -> << <<"mode.raised " \o e.err, e.err = "">>, <<"mode.after", Modes(e.modes, NewTr(s, e.m), 0)>>,
                           <<"mode.inside", CASE e.m = "ctx1" -> Modes(e.inside, 1, 0) [] e.m = "ctx0" -> Modes(e.inside, 0, 0) [] e.m = "step" -> Modes(e.inside, s.tr, 1) [] OTHER -> TRUE>> >>
    [] e.op = "replace" -> << <<"replace.raised " \o e.err, e.err = "">>, <<"replace.agent-id", e.id = 1>> >>
    [] e.op = "play" ->
        << <<"adapter.raised " \o e.err, e.err = "">>,
           <<"adapter.agent", \A k \in 1..Len(e.steps) : e.steps[k].seen.ag = e.steps[k].truth.ag>>,
           <<"adapter.observation", \A k \in 1..Len(e.steps) : e.steps[k].seen.tok = e.steps[k].truth.tok /\ e.steps[k].seen.keys = 1>>,
           <<"adapter.mask", \A k \in 1..Len(e.steps) : e.steps[k].seen.msk = e.steps[k].truth.msk /\ e.steps[k].seen.bool = 1>>,
           <<"adapter.info", \A k \in 1..Len(e.steps) : e.steps[k].seen.info = e.steps[k].truth.tok>>,
           <<"adapter.reward", \A k \in 1..Len(e.steps) : e.steps[k].op = "step" => e.steps[k].seen.rew = e.steps[k].truth.rew>>,
           <<"adapter.end", \A k \in 1..Len(e.steps) : e.steps[k].op = "step" => e.steps[k].seen.term = e.steps[k].truth.term /\ e.steps[k].seen.trunc = e.steps[k].truth.trunc>>,
           <<"adapter.action", \A k \in 1..Len(e.steps) : e.steps[k].got = e.steps[k].act>>,
           <<"adapter.rewards-change-later", e.kept = 1>> >>
    [] e.op = "loop" ->
        << <<"loop.raised " \o e.err, e.err = "">>,
           <<"loop.rows", \A v \in 1..Len(e.envs) : LET l == LogRows(e.envs[v].log) r == e.envs[v].rows IN Len(l) = Len(r) /\ \A k \in 1..Len(r) : LoopRow(r[k], l[k])>>,
           <<"loop.actions", \A v \in 1..Len(e.envs) : LET l == LogRows(e.envs[v].log) r == e.envs[v].rows IN Len(l) = Len(r) =>
                \A k \in 1..Len(r) : (e.rand = 1 \/ Said(s, e, r[k])) /\ (s.disc = 1 \/ e.rand = 0 => l[k].got = Mapped(s, r[k].act))>>,
           <<"loop.resets", \A v \in 1..Len(e.envs) : LogOk(e.envs[v].log) /\ NoPlayOn(e.envs[v].log)>>,
           <<"loop.returns", SameBag(e.rets, AllRet(s, e))>> >>
    [] e.op = "conf" -> << >>
Bad(s, e) == Violated(Clauses(s, e)) \cup (IF s.conf.ids = [g \in 1..s.k |-> g] THEN {} ELSE {"conf.agent-ids"})
Post(s, e) == CASE e.op = "add" -> [s EXCEPT !.rows = (e.pos :> [ag |-> e.ag, tok |-> e.tok, msk |-> e.msk, rew |-> e.rew, nxt |-> e.nxt]) @@ s.rows]
                [] e.op = "mode" -> [s EXCEPT !.tr = NewTr(s, e.m)]
                [] e.op = "replace" -> [s EXCEPT !.pols[e.ag] = e.pol]
                [] OTHER -> s
VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
