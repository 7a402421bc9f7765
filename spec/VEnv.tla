------------------------------- MODULE VEnv ---------------------------------
(* A vector environment.  Environment number i (from 0) is itself a small
   state machine whose answers identify the environment, its episode, step and
   the action it was given, so that each answer can be attributed.
     en[i+1] = [ep, k, seed, attr, nsteps]   state of environment i
     wait    = sequence of [id, row] : sent actions whose result is pending
     async, need (wait_num), timed (has a time out), closed                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NoSeed == -1
NewEnv == [ep |-> 0, k |-> 0, seed |-> NoSeed, attr |-> 0, steps |-> 0]
NewVEnv(n, need, timed, hasseed, tat) ==
  [en |-> [j \in 1..n |-> NewEnv], wait |-> << >>, async |-> need # n \/ timed, need |-> need, timed |-> timed,
   closed |-> FALSE, hasseed |-> hasseed, tat |-> tat, hist |-> << >>]
N(v) == Len(v.en)
B2I(x) == IF x THEN 1 ELSE 0
Tok(i, e) == i * 10000 + e.ep * 100 + e.k
\* what environment i answers
AfterReset(e, seed) == [e EXCEPT !.ep = @ + 1, !.k = 0, !.seed = IF seed = NoSeed THEN @ ELSE seed]
ResetRow(i, e, opt) == [tok |-> Tok(i, e), seed |-> e.seed, opt |-> opt, env |-> i]
AfterStep(e, act) == [e EXCEPT !.k = @ + 1, !.steps = @ + 1]
Te(e) == e.k % 5 = 4
Trn(e) == e.k % 3 = 2
StepRow(v, i, e, act) == [tok |-> Tok(i, e), rew |-> 7 * i + 3 * act + e.k,
                          te |-> B2I(Te(e) \/ (v.tat /\ Trn(e))), tr |-> B2I(Trn(e)), env |-> i, itok |-> Tok(i, e) + 1000000 * act]
Waiting(v) == {v.wait[j].id : j \in 1..Len(v.wait)}
Distinct(s) == \A x, y \in 1..Len(s) : x # y => s[x] # s[y]
Free(v, ids) == \A j \in 1..Len(ids) : ids[j] \notin Waiting(v)
Ids(v, ids) == IF ids = <<-1>> THEN [j \in 1..N(v) |-> j - 1] ELSE ids

--------------------------------------------------------------- (* reset *)
CanReset(v, ids) == ~v.closed /\ Free(v, ids)
Reset(v, ids, seed) == [v EXCEPT !.en = [j \in 1..N(v) |-> IF \E x \in 1..Len(ids) : ids[x] = j - 1
                                                          THEN AfterReset(v.en[j], seed) ELSE v.en[j]]]
ResetRows(v, ids, seed, opt) == [x \in 1..Len(ids) |-> ResetRow(ids[x], AfterReset(v.en[ids[x] + 1], seed), opt)]
---------------------------------------------------------------- (* step *)
CanStep(v, ids, acts) == ~v.closed /\ Free(v, ids) /\ Len(ids) = Len(acts)
Sent(v, ids, acts) ==
  [v EXCEPT !.en = [j \in 1..N(v) |-> IF \E x \in 1..Len(ids) : ids[x] = j - 1
                                      THEN AfterStep(v.en[j], acts[CHOOSE x \in 1..Len(ids) : ids[x] = j - 1]) ELSE v.en[j]],
            !.wait = @ \o [x \in 1..Len(ids) |-> [id |-> ids[x], row |-> StepRow(v, ids[x], AfterStep(v.en[ids[x] + 1], acts[x]), acts[x])]]]
MinI(a, b) == IF a <= b THEN a ELSE b
\* rs: the environments whose results are returned, in this order
CanReturn(v, rs) ==
  IF ~v.async THEN rs = [j \in 1..Len(v.wait) |-> v.wait[j].id]
  ELSE /\ Distinct(rs) /\ \A x \in 1..Len(rs) : rs[x] \in Waiting(v)
       /\ Len(rs) >= (IF v.timed THEN MinI(1, Len(v.wait)) ELSE MinI(v.need, Len(v.wait)))
RowFor(v, i) == v.wait[CHOOSE j \in 1..Len(v.wait) : v.wait[j].id = i].row
Returned(v, rs) == [v EXCEPT !.wait = SelectSeq(@, LAMBDA w : ~\E x \in 1..Len(rs) : rs[x] = w.id)]
Rows(v, rs) == [x \in 1..Len(rs) |-> RowFor(v, rs[x])]
=============================================================================
