------------------------------- MODULE Update -------------------------------
(* The modes a policy is in, and what one policy update does.

   A state m: within (a training step), tr (training mode of the module and of
   its parts), up (an update is going on), ctx (the contexts entered: <<kind,
   flag before>>), lr (steps taken by each learning-rate scheduler).
   The stages of an update, in order: sample, process, learn, post, lr; each of
   them may fail.                                                             *)
EXTENDS Returns

Stages == <<"sample", "process", "learn", "post", "lr">>
NoFail == ""
NewMode(nlr) == [within |-> FALSE, tr |-> TRUE, up |-> FALSE, ctx |-> << >>, lr |-> [x \in 1..nlr |-> 0]]
Put(m, kind, v) == IF kind = "step" THEN [m EXCEPT !.within = v] ELSE [m EXCEPT !.tr = v]
Get(m, kind) == IF kind = "step" THEN m.within ELSE m.tr
Enter(m, kind, v) == Put([m EXCEPT !.ctx = Append(@, <<kind, Get(m, kind)>>)], kind, v)
\* however the context is left
Exit(m) == LET c == m.ctx[Len(m.ctx)] IN Put([m EXCEPT !.ctx = SubSeq(@, 1, Len(@) - 1)], c[1], c[2])

\* ------------------------------ one update, stage by stage
\* u = [m, at (stages begun), out ("" | "refused" | "empty" | "done" | stage that failed), before]
Begin(m, nobuf) == [m |-> m, at |-> 0, before |-> m.tr, out |-> IF ~m.within THEN "refused" ELSE IF nobuf THEN "empty" ELSE ""]
Go(u) ==   \* the next stage is entered
  LET k == u.at + 1 IN
  [u EXCEPT !.at = k, !.m = [@ EXCEPT !.up = k > 1, !.tr = IF k = 3 THEN TRUE ELSE u.before]]
Leave(u) == [u.m EXCEPT !.up = FALSE, !.tr = u.before]
Fails(u) == [u EXCEPT !.out = Stages[u.at], !.m = Leave(u)]
Ends(u) == IF u.at < 5 THEN u ELSE [u EXCEPT !.out = "done", !.m = Leave(u)]
Stepped(u) == [u EXCEPT !.m.lr = [x \in DOMAIN @ |-> @[x] + 1]]
\* everything at once: the mode after an update that fails at a stage (or does not)
After(m, fail) == IF fail \in {NoFail} THEN [m EXCEPT !.lr = [x \in DOMAIN @ |-> @[x] + 1]] ELSE m

\* ------------------------------ what is sampled and what is learned from
\* everything stored, sub-buffer by sub-buffer, oldest first
AllOf(b) == FlattenSeq([j \in 1..Len(b) |-> [k \in 1..Cardinality(StoredK(b[j])) |-> PosOf(b[j], First(b[j]) + k - 1)]])
Perm(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) : Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
\* none: size was None
SampleOk(b, idx, size, none) ==
  IF none THEN Perm(idx, AllOf(b))
  ELSE IF size = 0 THEN idx = AllOf(b)
  ELSE Len(idx) = size /\ ToSet(idx) \subseteq Valid(b)
Toks(b, idx) == [x \in 1..Len(idx) |-> Row(b, idx[x]).tok]

\* sizes of the mini-batches of n transitions (size 0: all at once): the remainder joins the last one
MiniSizes(n, bs) ==
  IF bs = 0 \/ n < 2 * bs THEN <<n>>
  ELSE [k \in 1..(n \div bs) |-> IF k < n \div bs THEN bs ELSE bs + (n % bs)]
MiniOk(b, idx, bs, rep, groups) ==
  LET sz == MiniSizes(Len(idx), bs) k == Len(sz) IN
  /\ Len(groups) = rep * k
  /\ \A r \in 1..rep :
       /\ \A y \in 1..k : Len(groups[(r - 1) * k + y]) = sz[y]
       /\ Perm(FlattenSeq([y \in 1..k |-> groups[(r - 1) * k + y]]), Toks(b, idx))
\* a learning rate after n steps of a schedule that halves it every p steps, scaled
Rate(n, p) == LET h == n \div p IN IF h > 20 THEN 0 ELSE 2 ^ (20 - h)
=============================================================================
