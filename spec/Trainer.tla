------------------------------- MODULE Trainer -------------------------------
(* The control flow of training: epochs of training iterations (train hook, one
   collection, possibly a test during training, updates), a checkpoint and a
   test at the end of each epoch, selection of the best policy, the stop
   condition, the logger's intervals, interruption by an error at any point and
   resumption from the log.

   The state s is advanced by events (records with a field k):
     start  run() or iter() is called        next   one more epoch is asked for
     tfn    the test hook                    test   episodes of the test collector
     save   the save-best hook               trfn   the train hook
     coll   a collection of training data    upd    policy.update
     ckpt   the checkpoint hook              write  the logger writes data
     epoch  an epoch's statistics are given  stop   there is no further epoch
     end    run() returns                    fail   an error left the trainer
   Wants(s) is the kind of event that has to come next; Step(s, e) the state
   after it.  Returns are integers; a configuration is the record s.c.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

ON == 0   OFF == 1   DATA == 2        \* on-policy, off-policy, offline
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RoundHE(a, b) == LET q == a \div b r == a % b IN IF 2 * r < b THEN q ELSE IF 2 * r > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Ceil(a, b) == (a + b - 1) \div b
MaxOf2(a, b) == IF a >= b THEN a ELSE b

\* ------------------------------ logger
Scopes == {"train", "test", "update", "info"}
NewLog(it, ie, iu, ii, si) ==
  [iv |-> [train |-> it, test |-> ie, update |-> iu, info |-> ii], si |-> si,
   last |-> [x \in Scopes |-> -1], lastsave |-> -1]
Due(l, scope, step) == step - l.last[scope] >= l.iv[scope]
Wrote(l, scope, step) == [l EXCEPT !.last[scope] = step]
SaveDue(l, epoch) == epoch - l.lastsave >= l.si
Saved(l, epoch) == [l EXCEPT !.lastsave = epoch]
\* a fresh logger continues the log directory: sv is << >> or <<epoch, env_step, gradient_step>>
Restored(l, sv) == IF sv = << >> THEN l
                   ELSE [l EXCEPT !.lastsave = sv[1], !.last = [train |-> sv[2], test |-> sv[2], update |-> sv[3], info |-> sv[1]]]

\* ------------------------------ state
None4 == [x \in Scopes |-> << >>]
NewTrainer(c, l) ==
  [c |-> c, l |-> l, sv |-> << >>, pc |-> "new", why |-> "", ep |-> 0, first |-> 0, iters |-> 0, env |-> 0, epi |-> 0, gr |-> 0,
   done |-> 0, left |-> 0, stop |-> FALSE, bsc |-> 0, brew |-> 0, bvar |-> 0, bep |-> 0, pend |-> None4,
   tc |-> <<0, 0>>, sc |-> <<0, 0>>, blen |-> 0, col |-> << >>, tmean |-> << >>, upd |-> FALSE, losses |-> << >>, nup |-> 0, tests |-> 0,
   hist |-> << >>, runno |-> 0]
Tit(c) == c.tit /\ c.test /\ c.stop /\ c.kind # DATA
M(c, r) == IF c.metric = 1 THEN -r ELSE r
MS(c, rs) == [x \in 1..Len(rs) |-> M(c, rs[x])]
\* of a test: mean (the returns of a test are such that it is an integer), variance times n^2, score
TMean(c, rs) == Sum(MS(c, rs)) \div Len(rs)
TVar(c, rs) == Len(rs) * Sum([x \in 1..Len(rs) |-> rs[x] * rs[x]]) - Sum(rs) * Sum(rs)
TScore(c, rs) == CASE c.score = 0 -> TMean(c, rs)
                   [] c.score = 1 -> SetMin({M(c, rs[x]) : x \in 1..Len(rs)})
                   [] OTHER -> -TMean(c, rs)
Reach(c, rs) == Sum(MS(c, rs)) >= c.thr * Len(rs)
Smooth(ls) == LET n == Len(ls) w == SubSeq(ls, IF n > 100 THEN n - 99 ELSE 1, n) IN <<Sum(w), Len(w)>>

\* --- what comes next: silent steps are skipped
AskTest(s, why) == [s EXCEPT !.pc = IF s.c.tef THEN "tfn" ELSE "test", !.why = why]
AskSave(s, why) == [s EXCEPT !.pc = "save", !.why = why]
Boundary(s) == [s EXCEPT !.pc = "next"]
Owe(s, scope, step, vals) == IF Due(s.l, scope, step) THEN [s EXCEPT !.pend[scope] = <<step, vals>>] ELSE s
Info(s) == <<s.gr, s.bsc, s.brew, s.bvar, s.tc[1], s.tc[2], s.sc[1], s.sc[2]>>
EndEpoch(s) == Owe([s EXCEPT !.pc = "epoch"], "info", s.ep, Info(s))
\* after the training part of an epoch
Close(s) == LET d == [s EXCEPT !.env = IF s.c.kind = DATA THEN s.gr * (IF s.c.bs = 0 THEN s.c.rows ELSE s.c.bs) ELSE @] IN
            IF s.stop THEN EndEpoch(d)
            ELSE IF s.c.ck /\ SaveDue(s.l, s.ep) THEN [d EXCEPT !.pc = "ckpt"]
            ELSE IF s.c.test THEN AskTest(d, "epoch") ELSE EndEpoch(d)
Iter(s) == IF s.done >= s.c.spe \/ s.stop THEN Close(s)
           ELSE IF s.c.kind = DATA THEN [s EXCEPT !.pc = "upd", !.left = 1]
           ELSE [s EXCEPT !.pc = IF s.c.trf THEN "trfn" ELSE "coll"]
AfterCollect(s) ==
  IF s.c.kind = ON THEN [s EXCEPT !.pc = "upd", !.left = 1]
  ELSE LET k == RoundHE(s.c.un * s.col[1], s.c.ud) IN [s EXCEPT !.pc = IF k = 0 THEN "raise" ELSE "upd", !.left = k]

\* ------------------------------ events
\* rp: the collectors are reset; rb: and the training buffer
DoStart(s, rp, rb) ==
  LET res == s.c.resume /\ s.sv # << >>
      d == [s EXCEPT !.env = IF res THEN s.sv[2] ELSE 0, !.gr = IF res THEN s.sv[3] ELSE 0, !.epi = 0,
                     !.first = IF s.c.resume THEN (IF res THEN s.sv[1] ELSE 0) ELSE @,
                     !.l = IF s.c.resume THEN Restored(@, s.sv) ELSE @,
                     !.stop = FALSE, !.iters = 0, !.pend = None4, !.losses = << >>, !.tests = 0, !.hist = << >>, !.runno = @ + 1,
                     !.tc = IF rp THEN <<0, 0>> ELSE @, !.sc = IF rp THEN <<0, 0>> ELSE @,
                     !.blen = IF rp /\ rb THEN 0 ELSE @, !.upd = FALSE, !.nup = 0]
      f == [d EXCEPT !.ep = d.first]
  IN IF s.c.test THEN AskTest(f, "init") ELSE IF s.c.sb THEN AskSave(f, "init") ELSE Boundary(f)
DoNext(s) ==
  IF s.ep + 1 > s.c.max \/ (s.iters >= 1 /\ s.stop) THEN [s EXCEPT !.pc = "stop"]
  ELSE Iter([s EXCEPT !.ep = @ + 1, !.iters = @ + 1, !.done = 0, !.tmean = << >>, !.upd = FALSE, !.col = << >>])
DoTfn(s) == [s EXCEPT !.pc = "test"]
Best(s, rs) == [s EXCEPT !.bsc = TScore(s.c, rs), !.brew = TMean(s.c, rs), !.bvar = TVar(s.c, rs), !.bep = s.ep]
DoTest(s, rs, steps) ==
  LET d == Owe([s EXCEPT !.sc = <<@[1] + steps, @[2] + Len(rs)>>, !.tests = @ + 1, !.hist = Append(@, <<s.why, TScore(s.c, rs), TMean(s.c, rs)>>)],
               "test", s.env, <<Len(rs), Sum(MS(s.c, rs)), Len(rs)>>)
      better == TScore(s.c, rs) > s.bsc
  IN CASE s.why = "init" -> LET f == Best(d, rs) IN IF s.c.sb THEN AskSave(f, "init") ELSE Boundary(f)
       [] s.why = "epoch" ->
            LET f == IF better THEN Best(d, rs) ELSE d
                g == [f EXCEPT !.tmean = <<TMean(s.c, rs)>>, !.stop = s.c.stop /\ f.brew >= s.c.thr]
            IN IF better /\ s.c.sb THEN AskSave(g, "epoch") ELSE EndEpoch(g)
       [] OTHER ->
            IF ~Reach(s.c, rs) THEN AfterCollect(d)
            ELSE LET f == [(IF better THEN Best(d, rs) ELSE d) EXCEPT !.stop = TRUE]
                 IN IF better /\ s.c.sb THEN AskSave(f, "tit") ELSE Close(f)
DoSave(s) == CASE s.why = "init" -> Boundary(s) [] s.why = "epoch" -> EndEpoch(s) [] OTHER -> Close(s)
DoTrfn(s) == [s EXCEPT !.pc = "coll"]
DoColl(s, steps, rs, b1) ==
  LET d == [s EXCEPT !.env = @ + steps, !.epi = @ + Len(rs), !.done = @ + steps, !.tc = <<@[1] + steps, @[2] + Len(rs)>>,
                     !.blen = b1, !.col = <<steps, Len(rs), Sum(MS(s.c, rs))>>, !.upd = FALSE]
      f == IF rs # << >> THEN Owe(d, "train", d.env, <<steps, Len(rs), Sum(MS(s.c, rs)), Len(rs)>>) ELSE d
  IN IF rs # << >> /\ Tit(s.c) /\ Reach(s.c, rs) THEN AskTest(f, "tit") ELSE AfterCollect(f)
\* gradient steps counted for one call to update
Grads(s) == IF s.c.kind # ON \/ s.c.bs <= 0 THEN 1 ELSE Ceil(s.blen, s.c.bs)
DoUpd(s, loss) ==
  LET d == [s EXCEPT !.gr = @ + Grads(s), !.left = @ - 1, !.upd = TRUE, !.losses = Append(@, loss), !.nup = @ + 1,
                     !.blen = IF s.c.kind = ON THEN 0 ELSE @, !.done = IF s.c.kind = DATA THEN @ + 1 ELSE @]
      f == Owe(d, "update", d.gr, Smooth(d.losses))
  IN IF f.left > 0 THEN f ELSE Iter(f)
DoCkpt(s) == LET d == [s EXCEPT !.sv = <<s.ep, s.env, s.gr>>, !.l = Saved(@, s.ep)]
             IN IF s.c.test THEN AskTest(d, "epoch") ELSE EndEpoch(d)
DoWrite(s, scope) == [s EXCEPT !.l = Wrote(@, scope, s.pend[scope][1]), !.pend[scope] = << >>]
DoEpoch(s) == Boundary(s)
DoStop(s) == [s EXCEPT !.pc = "over"]
DoFail(s) == [s EXCEPT !.pc = "failed", !.why = s.pc, !.pend = None4]
\* a new trainer object; the log directory goes on existing iff same
Renew(s, c, l, same) == [NewTrainer(c, l) EXCEPT !.sv = IF same THEN s.sv ELSE << >>, !.runno = s.runno]
Wants(s) == s.pc
=============================================================================
