------------------------------ MODULE CollTrace -----------------------------
(* Judges recorded histories of real collectors: calls seen by the policy, the
   action spaces, the environments and hooks, and what the collector reported
   and stored.                                                                *)
EXTENDS TraceBase, Collect, Stats
Start(e) == [NewColl(e.n, e.lens, e.async = 1, e.hid = 1, e.pol = 1) EXCEPT !.mode = "new"] @@
            [cap |-> e.cap, noise |-> e.noise = 1, dist |-> e.dist = 1, sh |-> e.sh = 1, eh |-> e.eh,
             rbc |-> 0, nres |-> [j \in 1..e.n |-> 0], drop |-> FALSE, shrows |-> {}, ehdone |-> << >>, shn |-> 0]
EnvOf(o) == o \div 10000
\* entering the collect phase proper of a call that resets first
Pre(c) == IF c.mode = "reset" /\ c.rbc = 1 THEN Begin(EndReset(c, TRUE), c.job) ELSE c
PreOk(c) == c.mode = "reset" => (c.rbc = 1 /\ \A j \in 1..c.n : c.nres[j] >= 1)
Rows(e) == {EnvOf(e.rows[x][1]) : x \in 1..Len(e.rows)}
RowOk(c, r) == LET i == EnvOf(r[1]) IN i \in Envs(c) => r[1] = Cur(c, i)
InfoOk(c, r) == LET i == EnvOf(r[1]) IN i \in Envs(c) => r[2] = Info(c, i)
HidOk(c, r) == LET i == EnvOf(r[1]) IN i \in Envs(c) => r[3] = c.hid[i + 1]
EH(c) == IF c.eh > 0 THEN Len(c.ehdone) = Len(c.eps) ELSE TRUE
Full(c, tr) == [tr EXCEPT !.hid = IF c.hidden THEN @ ELSE 0, !.pol = IF c.poltok THEN @ ELSE 0]
\* row as stored: <<obs, act, rew, flags, obs2, info, pol, hid, extra, eph>>
AsRow(c, tr) == <<tr.obs, tr.act, tr.rew, tr.term + 2 * tr.trunc + 4 * (tr.term + tr.trunc), tr.obs2, tr.info,
                  IF c.poltok THEN tr.pol ELSE 0, IF c.hidden THEN tr.hid ELSE 0, IF c.sh THEN tr.act + 5 ELSE 0>>
\* the entry that the episode hook adds to the k-th row (from 0) of an episode whose first observation is o: o + 7 k (eh = 2)
Pos(s, x) == \* position of row x in its episode within s (a sequence of transitions)
  LET b == {y \in 1..(x - 1) : s[y].term + s[y].trunc > 0} IN x - (IF b = {} THEN 1 ELSE Max(b) + 1)
Fin(s, x) == \E y \in x..Len(s) : s[y].term + s[y].trunc > 0
Content(c, i) == LET s == c.log[i + 1] st == Stored(c, i, c.cap) o == Len(s) - Len(st) IN
  [x \in 1..Len(st) |-> AsRow(c, st[x]) \o <<IF c.eh = 2 /\ Fin(s, x + o) THEN s[x + o - Pos(s, x + o)].obs + 7 * Pos(s, x + o) ELSE 0>>]
ContentOk(c, e) == Len(e.content) = c.n /\ \A i \in Envs(c) : e.content[i + 1] = Content(c, i)
Plain(c) == \A x \in 1..Len(c.eps) : c.eps[x].ret = c.eps[x].mret /\ c.eps[x].len = c.eps[x].mlen /\ c.eps[x].len = c.eps[x].part
Count(s, v) == Cardinality({x \in 1..Len(s) : s[x] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in 1..Len(s) : Count(s, s[x]) = Count(t, s[x])
EpsOk(c, e) == /\ Len(e.rets) = Len(c.eps) /\ Len(e.lens) = Len(c.eps)
               /\ IF Plain(c) THEN SameBag([x \in 1..Len(e.rets) |-> <<e.rets[x], e.lens[x]>>], [x \in 1..Len(c.eps) |-> <<c.eps[x].ret, c.eps[x].len>>])
                  ELSE \A x \in 1..Len(c.eps) : /\ e.rets[x] \in {c.eps[x].ret, c.eps[x].mret}
                                                /\ e.lens[x] \in {c.eps[x].len, c.eps[x].mlen, c.eps[x].part}
StatsOk(xs, s) == IF xs = << >> THEN s = << >>
                  ELSE Len(s) = 4 /\ SeqMeanOk(xs, s[1]) /\ SeqVarOk(xs, s[2]) /\ s[3] = 1000 * Min(ToSet(xs)) /\ s[4] = 1000 * Max(ToSet(xs))
\* hooks
EpRows(c, p) ==    \* the stored rows of the p-th finished episode of this call
  LET i == c.eps[p].env s == c.log[i + 1]
      later == {q \in (p + 1)..Len(c.eps) : c.eps[q].env = i}
      ends == SetToSortSeq({x \in 1..Len(s) : s[x].term + s[x].trunc > 0}, <)
      z == ends[Len(ends) - Cardinality(later)]
  IN [y \in 1..c.eps[p].part |-> AsRow(c, s[z - c.eps[p].part + y])]
EHWhich(c, e) == {p \in 1..Len(c.eps) : p \notin ToSet(c.ehdone) /\ EpRows(c, p) = e.rows}

Clauses(c, e) ==
  CASE e.op = "cbegin" -> << <<"driver", c.mode = "idle" \/ (c.mode = "new" /\ e.rbc = 1)>> >>
    [] e.op = "bad" -> << <<"bad." \o e.what \o ".must-be-refused", e.err # "">> >>
    [] e.op = "pol" -> LET d == Pre(c) IN
       << <<"pol.unexpected", PreOk(c) /\ d.mode = "collect" /\ ~d.job.random>>,
          <<"pol.which-environments", d.mode # "collect" \/ CanServe(d, Rows(e))>>,
          <<"pol.each-once", Cardinality(Rows(e)) = Len(e.rows)>>,
          <<"pol.observation", \A x \in 1..Len(e.rows) : RowOk(d, e.rows[x])>>,
          <<"pol.info", \A x \in 1..Len(e.rows) : InfoOk(d, e.rows[x])>>,
          <<"pol.hidden-state", \A x \in 1..Len(e.rows) : HidOk(d, e.rows[x])>>,
          <<"pol.training-mode", e.train = 0>>,
          <<"episode-hook.not-called", EH(d)>>, <<"step-hook.not-called", ~d.sh \/ d.shrows = {}>> >>
    [] e.op = "samp" -> LET d == Pre(c) E == {e.rows[x][1] : x \in 1..Len(e.rows)} IN
       << <<"sample.unexpected", PreOk(c) /\ d.mode = "collect" /\ d.job.random>>,
          <<"sample.which-environments", d.mode # "collect" \/ CanServe(d, E)>>,
          <<"sample.each-once", Cardinality(E) = Len(e.rows)>>,
          <<"episode-hook.not-called", EH(d)>>, <<"step-hook.not-called", ~d.sh \/ d.shrows = {}>> >>
    [] e.op = "act" -> << <<"act.action", e.i \in Envs(c) /\ CanAct(c, e.i, e.act)>> >>
    [] e.op = "ereset" -> << <<"reset.unexpected", CanReset(c, e.i)>>,
                             <<"reset.arguments", e.opt = c.job.opt>> >>
    [] e.op = "ret" -> << <<"ret.driver", \A x \in 1..Len(e.ids) : CanRet(c, e.ids[x])>> >>
    [] e.op = "shook" -> << <<"step-hook.unexpected", c.sh>>,
          <<"step-hook.rows", c.sh => ToSet(e.rows) = c.shrows /\ Len(e.rows) = Cardinality(c.shrows)>> >>
    [] e.op = "ehook" -> << <<"episode-hook.rows", c.eh > 0 /\ EHWhich(c, e) # {}>> >>
    [] e.op = "cend" ->
       IF c.eh = 2 /\ c.job.n > 0
       THEN << <<"collect.additions-in-step-mode-must-be-refused", (Len(c.eps) = 0 /\ e.err = "") \/ (Len(c.eps) > 0 /\ e.err = "ValueError")>> >>
       ELSE << <<"collect.raised " \o e.err, e.err = "">> >> \o (IF e.err # "" THEN << >> ELSE
       << <<"collect.amount", c.mode = "collect" /\ c.it > 0 /\ Enough(c)>>,
          <<"collect.left-over", c.mode = "collect" => CanEnd(c)>>,
          <<"collect.reported-steps", e.nst = c.nst>>, <<"collect.reported-episodes", e.nep = c.nep>>,
          <<"collect.reported-returns-and-lengths", EpsOk(c, e)>>,
          <<"collect.return-statistics", StatsOk(e.rets, e.rs)>>, <<"collect.length-statistics", StatsOk(e.lens, e.ls)>>,
          <<"collect.std-array", IF c.dist /\ ~c.job.random THEN SameBag(e.stds, c.stds) /\ StatsOk(e.stds, e.ss) ELSE e.stds = << >>>>,
          <<"collect.lifetime-steps", e.tstep = c.total.step + c.nst>>, <<"collect.lifetime-episodes", e.tep = c.total.ep + c.nep>>,
          <<"collect.speed", e.speed = 1>>, <<"collect.mode-restored", e.train = e.train0>>,
          <<"episode-hook.not-called", EH(c)>>, <<"step-hook.not-called", ~c.sh \/ c.shrows = {}>>,
          <<"buffer.content", ContentOk(c, e)>> >>)
    [] e.op = "rbegin" -> << >>
    [] e.op = "rend" -> << <<"reset.raised " \o e.err, e.err = "">> >> \o (IF e.err # "" THEN << >> ELSE
       << <<"reset.all", \A j \in 1..c.n : c.nres[j] >= 1>>,
          <<"reset.waits-for-pending", \A i \in Envs(c) : c.pend[i + 1].s = "idle">>,
          <<"reset.returned", e.obs = [j \in 1..c.n |-> Cur(c, j - 1)]>>,
          <<"reset.lifetime", e.tstep = (IF e.stats = 1 THEN 0 ELSE c.total.step) /\ e.tep = (IF e.stats = 1 THEN 0 ELSE c.total.ep)>>,
          <<"reset.buffer", ContentOk(IF e.buffer = 1 THEN ClearBuffer(c, FALSE) ELSE c, e)>> >>)
    [] e.op = "clear" -> << <<"clear.raised " \o e.err, e.err = "">>, <<"clear.content", ContentOk(ClearBuffer(c, e.keep = 1), e)>> >>
    [] OTHER -> << <<"unknown event", FALSE>> >>
Bad(c, e) == Violated(Clauses(c, e))
ChooseRow(d, e, x) == LET i == EnvOf(e.rows[x][1]) IN
   Chosen(d, i, IF d.noise THEN Noise(e.acts[x]) ELSE e.acts[x], e.hids[x], e.pols[x])
Post(c, e) ==
  CASE e.op = "cbegin" -> LET job == [n |-> e.n, e |-> e.e, random |-> e.random = 1, opt |-> e.opt] IN
         [(IF e.rbc = 1 THEN [c EXCEPT !.mode = "reset", !.job = job] ELSE Begin(c, job))
            EXCEPT !.rbc = e.rbc, !.nres = [j \in 1..c.n |-> 0], !.ehdone = << >>, !.shrows = {}]
    [] e.op = "pol" -> LET d == Served(Pre(c), Rows(e)) IN FoldLeft(LAMBDA x, k : ChooseRow(x, e, k), d, [k \in 1..Len(e.rows) |-> k])
    [] e.op = "samp" -> LET d == Served(Pre(c), {e.rows[x][1] : x \in 1..Len(e.rows)}) IN
         FoldLeft(LAMBDA x, r : Chosen(x, r[1], r[2] - 300000, 0, 0), d, e.rows)
    [] e.op = "act" -> Act(c, e.i)
    [] e.op = "ereset" -> [Reset1(c, e.i, e.opt) EXCEPT !.nres[e.i + 1] = @ + 1]
    [] e.op = "ret" -> IF c.mode = "collect"
                       THEN LET d == Ret(c, e.ids) IN
                            [d EXCEPT !.shrows = IF c.sh THEN {[AsRow(c, d.log[i + 1][Len(d.log[i + 1])]) EXCEPT ![9] = 0] : i \in ToSet(e.ids)} ELSE {}]
                       ELSE Drop(c, e.ids)
    [] e.op = "shook" -> [c EXCEPT !.shrows = {}]
    [] e.op = "ehook" -> [c EXCEPT !.ehdone = Append(@, CHOOSE p \in EHWhich(c, e) : \A q \in EHWhich(c, e) : p <= q)]
    [] e.op = "cend" -> IF e.err # "" THEN c ELSE End(c)
    [] e.op = "rbegin" -> [c EXCEPT !.mode = "reset", !.rbc = 0, !.nres = [j \in 1..c.n |-> 0], !.job.opt = e.opt]
    [] e.op = "rend" -> LET d == EndReset(c, e.stats = 1) IN IF e.buffer = 1 THEN ClearBuffer([d EXCEPT !.mrg = [j \in 1..c.n |-> [ret |-> 0, len |-> 0]]], FALSE) ELSE d
    [] e.op = "clear" -> ClearBuffer(c, e.keep = 1)
    [] OTHER -> c

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
