------------------------------- MODULE BufOps -------------------------------
(* What Buf says about a recorded operation on a real replay buffer: the clauses
   which have to hold for the event and the state after it.  The state is a
   sequence of registers, each holding a buffer.                             *)
EXTENDS TraceBase, Buf

None == [kind |-> "none"]
TsOf(e) == e.ts
Obs0(x) == 2 * x
Obs1(x) == 2 * x + 1
ActOf(x) == x + 100000
InfOf(s) == IF s.hk = 1 THEN s.x + 200000 ELSE 0
PolOf(s) == IF s.hp = 1 THEN s.x + 300000 ELSE 0

BufStart(e) == [k \in 1..e.regs |-> None]

\* rows of buffer b at the (valid) global indices idx, as read through buf[idx]
ExpObs(b, idx) == [k \in 1..Len(idx) |-> MapSeq(Obs0, ObsX(b, idx[k]))]
ExpOnx(b, idx) == [k \in 1..Len(idx) |->
                    IF b.ign THEN MapSeq(Obs0, ObsNextX(b, idx[k])) ELSE MapSeq(Obs1, ObsNextX(b, idx[k]))]
F1(b, idx, F(_)) == [k \in 1..Len(idx) |-> F(Tr(b, idx[k]))]
\* info and policy entries are stacked like observations
ExpStk(b, idx, F(_)) == [k \in 1..Len(idx) |->
     LET q == Stacked(b, idx[k]) IN [j \in 1..Len(q) |-> F(Tr(b, q[j]))]]
AllValid(b, idx) == \A k \in 1..Len(idx) : Valid(b, idx[k])

\* clauses for a record of rows r (fields idx, obs, onx, act, rew, te, tr, dn, inf, pol)
RowClauses(b, r) ==
  IF ~AllValid(b, r.idx) THEN << <<"B01.index-of-unstored-row", FALSE>> >>
  ELSE << <<"B01.obs", r.obs = ExpObs(b, r.idx)>>,
          <<"B01.obs_next", r.onx = ExpOnx(b, r.idx)>>,
          <<"B01.act", r.act = F1(b, r.idx, LAMBDA s : ActOf(s.x))>>,
          <<"B01.rew", r.rew = F1(b, r.idx, LAMBDA s : s.r)>>,
          <<"B01.terminated", r.te = F1(b, r.idx, LAMBDA s : s.te)>>,
          <<"B01.truncated", r.tr = F1(b, r.idx, LAMBDA s : s.tr)>>,
          <<"B01.done", r.dn = F1(b, r.idx, LAMBDA s : IF Done(s) THEN 1 ELSE 0)>>,
          <<"B01.info", r.inf = ExpStk(b, r.idx, InfOf)>>,
          <<"B01.policy", r.pol = ExpStk(b, r.idx, PolOf)>> >>

ResClauses(exp, e) ==
  << <<"B01.add-index", e.idx = [k \in 1..Len(exp) |-> exp[k].idx]>>,
     <<"B02.add-count", Len(e.ret) = Len(exp) /\ Len(e.len) = Len(exp) /\ Len(e.start) = Len(exp)>>,
     <<"B02.return", \A k \in 1..MinOf(Len(exp), Len(e.ret)) : exp[k].known => e.ret[k] = exp[k].ret>>,
     <<"B02.length", \A k \in 1..MinOf(Len(exp), Len(e.len)) : exp[k].known => e.len[k] = exp[k].len>>,
     <<"B02.start", \A k \in 1..MinOf(Len(exp), Len(e.start)) : exp[k].known => e.start[k] = exp[k].start>> >>

SortedIdx(b) == AllIdx(b)

BufClauses(st, e) ==
  CASE e.op = "new" -> << >>
    [] e.op = "add" -> << <<"add raised " \o e.err, e.err = "">> >> \o
         (IF e.err = "" THEN ResClauses(AddReport(st[e.r], e.ids, e.ts), e) ELSE << >>)
    [] e.op = "reject" -> << <<"B04.illegal-add-accepted", e.err # "">> >>
    [] e.op = "reset" -> << <<"reset raised " \o e.err, e.err = "">> >>
    [] e.op = "update" -> << <<"update raised " \o e.err, e.err = "">>,
                             <<"B01.update-index", e.idx = UpdateIdx(st[e.r], Moved(st[e.src]))>> >>
    [] e.op = "fromdata" -> << <<"B09.from_data raised " \o e.err, e.err = "">> >>
    [] e.op = "clone" -> << <<"B09.copy raised " \o e.err, e.err = "">> >>
    [] e.op = "snap" ->
         LET b == st[e.r] IN
         << <<"snapshot raised " \o e.err, e.err = "">> >> \o
         (IF e.err # "" THEN << >> ELSE
         << <<"B01.len", e.n = BLen(b)>>,
            <<"B03.unfinished", e.unf = Unfinished(b)>>,
            <<"B01.all-indices", e.all = AvailIdx(b)>>,
            <<"B03.prev", AllValid(b, e.q) => e.prev = [k \in 1..Len(e.q) |-> BPrev(b, e.q[k])]>>,
            <<"B03.next", AllValid(b, e.q) => e.next = [k \in 1..Len(e.q) |-> BNext(b, e.q[k])]>>,
            <<"B03.prev-scalar", \A k \in 1..Len(e.sc) : e.sc[k][2] = BPrev(b, e.sc[k][1])>>,
            <<"B03.next-scalar", \A k \in 1..Len(e.sc) : e.sc[k][3] = BNext(b, e.sc[k][1])>> >>
         \o RowClauses(b, e.rows))
    [] e.op = "rows" -> << <<"reading raised " \o e.err, e.err = "">> >> \o
         (IF e.err = "" THEN RowClauses(st[e.r], e.rows) ELSE << >>)
    [] e.op = "stack" ->   \* buf.get(idx, "obs", stack_num = k)
         LET b == [st[e.r] EXCEPT !.stack = e.k] IN
         << <<"B06.get-stack raised " \o e.err, e.err = "">>,
            <<"B06.get-stack", e.err = "" => (AllValid(b, e.idx) /\ e.obs = ExpObs(b, e.idx))>> >>
    [] e.op = "sample" ->
         LET b == st[e.r]
             av == AvailIdx(b)
         IN << <<"B06.sample raised " \o e.err, e.err = "">> >> \o
            (IF e.err # "" THEN << >> ELSE
            << <<"B06.sample-count", IF e.n # 0 /\ av = << >> THEN e.idx = << >>
                                     ELSE IF e.n = -99 THEN (b.stack > 1 /\ b.avail) \/ Len(e.idx) = BLen(b)
                                     ELSE IF e.n < 0 THEN e.idx = << >>
                                     ELSE IF e.n = 0 THEN e.idx = av ELSE Len(e.idx) = e.n>>,
               <<"B06.sample-unavailable", \A k \in 1..Len(e.idx) : \E j \in 1..Len(av) : av[j] = e.idx[k]>>,
               <<"B06.never-sampled", e.full = 1 => \A j \in 1..Len(av) : \E k \in 1..Len(e.idx) : e.idx[k] = av[j]>> >>
            \o (IF e.idx # << >> /\ Has(e, "rows") /\ e.rows.idx = e.idx THEN RowClauses(b, e.rows)
                ELSE << <<"B06.sampled-batch-differs-from-indices", e.idx = << >> \/ ~Has(e, "rows")>> >>))
    [] e.op = "same" ->    \* data before and after a conversion
         << <<"B09.conversion raised " \o e.err, e.err = "">>, <<"B09.conversion-changes " \o e.what, e.before = e.after>> >>
    [] e.op = "epidx" ->   \* the indices between a reported start and insertion index
         << <<"B02.episode-indices raised " \o e.err, e.err = "">>,
            <<"B02.episode-indices", e.err = "" =>
                 LET b == st[e.r] IN AllValid(b, e.idx) /\ Xs(b, e.idx) = e.xs>> >>
    [] OTHER -> << <<"unknown event " \o e.op, FALSE>> >>

BufPost(st, e) ==
  CASE e.op = "new" -> [st EXCEPT ![e.r] = NewBuf(e.kind, e.caps, e.stack, e.avail = 1, e.ign = 1, e.rdim)]
    [] e.op = "add" -> [st EXCEPT ![e.r] = Add(@, e.ids, e.ts)]
    [] e.op = "reset" -> [st EXCEPT ![e.r] = Reset(@, e.keep = 1)]
    [] e.op = "update" -> [st EXCEPT ![e.r] = Update(@, Moved(st[e.src]))]
    [] e.op = "fromdata" -> [st EXCEPT ![e.r] =
          Update(NewBuf("plain", <<Len(e.ts)>>, 1, FALSE, FALSE, e.rdim), e.ts)]
    [] e.op = "clone" -> [st EXCEPT ![e.r] = st[e.src]]
    [] OTHER -> st

=============================================================================
