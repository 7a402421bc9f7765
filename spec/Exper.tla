------------------------------- MODULE Exper -------------------------------
(* Experiments that are set up, run, stored in directories and taken up again:
   what is collected and trained in which order, which policy ends up in which
   file, and what a run answers.  The policy is known by a version number w
   that grows by one per update; scores[w] is what a test of version w earns. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets
Min2(x, y) == IF x < y THEN x ELSE y
CeilD(x, y) == (x + y - 1) \div y
\* round half to even of x / y
RoundEven(x, y) == LET q == x \div y r == x % y IN IF 2 * r < y THEN q ELSE IF 2 * r > y THEN q + 1 ELSE IF (q % 2) = 0 THEN q ELSE q + 1
Score(c, w) == c.scores[(w % Len(c.scores)) + 1]
\* a directory: the settings stored in it, the version in the file of either mode (-1: none), and the files of epochs
NoDir == [cfg |-> << >>, policy |-> -1, state |-> -1, ck |-> << >>, seen |-> 0]
BestOf(d, mode) == IF mode = "policy" THEN d.policy ELSE d.state
WithBest(d, mode, w) == IF mode = "policy" THEN [d EXCEPT !.policy = w] ELSE [d EXCEPT !.state = w]
\* the later file of an epoch takes the place of the earlier one
WithCk(d, mode, e, w) == [d EXCEPT !.ck = Append(SelectSeq(@, LAMBDA x : ~(x[1] = mode /\ x[2] = e)), <<mode, e, w>>)]
There(s, n) == n \in DOMAIN s.disk
SetDir(s, n, d) == [s EXCEPT !.disk = [m \in DOMAIN @ \cup {n} |-> IF m = n THEN d ELSE @[m]]]
Idle == [pc |-> "idle", c |-> << >>, w |-> 0, ep |-> 0, env |-> 0, gr |-> 0, epi |-> 0, pos |-> 0, blen |-> 0, done |-> 0, left |-> 0,
         best |-> 0, bw |-> 0, iters |-> 0, stop |-> FALSE, tn |-> 0, why |-> "", watched |-> 0, disk |-> [m \in {} |-> NoDir]]
Cap(c) == CeilD(c.buf, c.nt)
\* ------------------------------ phases
Goto(s, pc) == [s EXCEPT !.pc = pc]
Testing(s, why) == [s EXCEPT !.pc = IF s.c.tef THEN "tcb" ELSE "test", !.why = why]
Saving(s, why) == IF s.c.persist THEN [s EXCEPT !.pc = "save", !.why = why] ELSE Goto(s, "x")
Finish(s) == Goto(s, IF s.c.watch THEN "watch" ELSE "end")
\* the trainer starts: collectors begin anew, what was collected before stays in the buffer
Begin(s) == Testing([s EXCEPT !.ep = 0, !.env = 0, !.gr = 0, !.epi = 0, !.pos = 0, !.iters = 0, !.stop = FALSE, !.tn = 0], "init")
AfterWorld(s) == IF ~s.c.train THEN Finish(s) ELSE IF s.c.start > 0 THEN Goto(s, "prefill") ELSE Begin(s)
Iter(s) == IF s.done >= s.c.spe THEN (IF s.c.persist /\ s.c.kind = "on" THEN Goto(s, "ck") ELSE Testing(s, "epoch"))
           ELSE Goto(s, IF s.c.trf THEN "rcb" ELSE "coll")
NextEpoch(s) == IF s.ep + 1 > s.c.epochs \/ (s.iters >= 1 /\ s.stop) THEN Finish(s)
                ELSE Iter([s EXCEPT !.ep = @ + 1, !.iters = @ + 1, !.done = 0])
\* a run of the experiment with settings c
Run(s0, c) ==
  LET s == [Idle EXCEPT !.disk = s0.disk, !.c = c]
      taken == c.persist /\ There(s, c.name)
      old == IF taken THEN s.disk[c.name] ELSE NoDir
      d == IF c.persist THEN SetDir(s, c.name, [old EXCEPT !.cfg = <<c>>]) ELSE s
      lost == c.restore # "" /\ (~There(d, c.restore) \/ BestOf(d.disk[c.restore], c.mode) = -1)
  IN IF taken /\ c.raises THEN Goto(s, "fail")
     ELSE IF c.restore # "" THEN (IF lost THEN Goto(d, "fail") ELSE Goto([d EXCEPT !.w = BestOf(d.disk[c.restore], c.mode)], "restore"))
     ELSE AfterWorld(d)
\* the settings found in a directory; the policy in it is taken up if asked for
Loaded(s, name, rp) == LET c == s.disk[name].cfg[1] IN IF rp THEN [c EXCEPT !.restore = name] ELSE c
\* ------------------------------ steps
DoRestore(s) == AfterWorld(s)
Steps(c, n) == CeilD(n, c.nt) * c.nt
\* rows in the buffer after n more steps of every environment
Fill(s, n) == [s EXCEPT !.blen = Min2(@ + n, Cap(s.c) * s.c.nt)]
Ended(s, n) == s.c.nt * (((s.pos + n \div s.c.nt) \div s.c.len) - (s.pos \div s.c.len))
DoPrefill(s) == LET n == Steps(s.c, s.c.start) IN Begin(Fill(s, n))
DoTcb(s) == Goto(s, "test")
DoTest(s) ==
  LET v == Score(s.c, s.w) d == [s EXCEPT !.tn = @ + s.c.ntests] IN
  IF s.why = "init" THEN LET f == [d EXCEPT !.best = v, !.bw = s.w] IN IF s.c.persist THEN Saving(f, "init") ELSE NextEpoch(f)
  ELSE LET better == v > s.best
           f == IF better THEN [d EXCEPT !.best = v, !.bw = s.w] ELSE d
       IN IF better /\ s.c.persist THEN Saving(f, "epoch") ELSE IF s.c.stf THEN Goto(f, "scb") ELSE NextEpoch(f)
DoSave(s) == LET d == SetDir(s, s.c.name, [WithBest(s.disk[s.c.name], s.c.mode, s.w) EXCEPT !.seen = @ + 1])
             IN IF s.why = "init" THEN NextEpoch(d) ELSE IF s.c.stf THEN Goto(d, "scb") ELSE NextEpoch(d)
DoScb(s) == NextEpoch([s EXCEPT !.stop = s.best >= s.c.thr])
DoRcb(s) == Goto(s, "coll")
\* one collection of steps or of whole episodes
Amount(c) == IF c.epc > 0 THEN c.epc * c.len ELSE Steps(c, c.spc)
\* rows that whole episodes leave: they are played by the first environments, as evenly as they come
DoColl(s, blen) ==
  LET n == Amount(s.c) m == IF s.c.epc > 0 THEN s.c.epc ELSE Ended(s, n)
      f == IF s.c.epc > 0 THEN [s EXCEPT !.blen = blen] ELSE [Fill(s, n) EXCEPT !.pos = @ + n \div s.c.nt]
      d == [f EXCEPT !.env = @ + n, !.epi = @ + m, !.done = @ + n]
  IN [d EXCEPT !.pc = "upd", !.left = IF s.c.kind = "on" THEN 1 ELSE RoundEven(s.c.un * n, 4)]
Grads(s) == IF s.c.kind = "on" /\ s.c.bs > 0 THEN CeilD(s.blen, s.c.bs) ELSE 1
DoUpd(s) == LET d == [s EXCEPT !.w = @ + 1, !.gr = @ + Grads(s), !.left = @ - 1, !.blen = IF s.c.kind = "on" THEN 0 ELSE @]
            IN IF d.left > 0 THEN d ELSE Iter(d)
DoCk(s) == Testing(SetDir(s, s.c.name, [WithCk(s.disk[s.c.name], s.c.mode, s.ep, s.w) EXCEPT !.seen = @ + 1]), "epoch")
DoWatch(s) == Goto([s EXCEPT !.watched = s.c.nwatch], "end")
DoEnd(s) == Goto(s, "idle")
\* what the run answers: gradient steps, best reward, steps and episodes of training, steps and episodes of tests
Result(s) == IF s.c.train THEN <<s.gr, s.best, s.env, s.epi, s.tn, s.tn>> ELSE << >>
Step(s) == CASE s.pc = "restore" -> DoRestore(s) [] s.pc = "prefill" -> DoPrefill(s) [] s.pc = "tcb" -> DoTcb(s) [] s.pc = "test" -> DoTest(s)
             [] s.pc = "save" -> DoSave(s) [] s.pc = "scb" -> DoScb(s) [] s.pc = "rcb" -> DoRcb(s)
             [] s.pc = "coll" -> DoColl(s, IF s.c.epc > 0 THEN Min2(s.blen + Amount(s.c), Cap(s.c) * s.c.nt) ELSE 0)
             [] s.pc = "upd" -> DoUpd(s) [] s.pc = "ck" -> DoCk(s) [] s.pc = "watch" -> DoWatch(s) [] OTHER -> s
=============================================================================
