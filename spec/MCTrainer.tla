------------------------------ MODULE MCTrainer ------------------------------
(* Every course that training can take with one configuration, small outcome
   sets, an error at any point and a resumption after it.                     *)
EXTENDS Trainer, TLC, IOUtils, Json
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
KIND == EnvI("VF_K", 1)
MAXE == EnvI("VF_M", 2)
SPE == EnvI("VF_SPE", 3)
RUNS == EnvI("VF_RUNS", 2)
V == EnvI("VF_V", 1)               \* variant of the hooks
C == [kind |-> KIND, max |-> MAXE, spe |-> SPE, spc |-> 2, epc |-> 0, un |-> 1, ud |-> 2, bs |-> IF V = 3 THEN 0 ELSE 2, rep |-> 1, ept |-> 1,
      test |-> V # 4, stop |-> V # 2, thr |-> 24, tit |-> V = 1, sb |-> TRUE, ck |-> TRUE, trf |-> V # 3, tef |-> V # 3,
      score |-> IF V = 3 THEN 1 ELSE 0, metric |-> 0, resume |-> FALSE, rows |-> 3]
L == NewLog(3, 1, 2, 1, IF V = 2 THEN 2 ELSE 1)
CR == [C EXCEPT !.resume = TRUE]
RETS == {0, 12, 24}
VARIABLES s, a, g
vars == <<s, a, g>>
\* g: ghost record of the current run: <<updates, tests at epoch ends, saves, collected steps, collected episodes, checkpoints, iterations>>
Zero == [upd |-> 0, grads |-> 0, tests |-> 0, saves |-> 0, steps |-> 0, eps |-> 0, ck |-> 0, its |-> 0, base |-> <<0, 0, 0>>]
Init == s = NewTrainer(C, L) /\ a = [op |-> "new"] /\ g = Zero
View == [s EXCEPT !.hist = << >>, !.losses = << >>]
Emit == EDGES => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson([s' EXCEPT !.hist = << >>, !.losses = << >>]))
Pending == {x \in Scopes : s.pend[x] # << >>}
Start == /\ s.pc \in {"new", "over", "failed"} /\ s.runno < RUNS
         /\ \E rp \in (IF s.pc = "new" THEN {TRUE} ELSE BOOLEAN), rb \in BOOLEAN, rs \in (IF s.runno > 0 THEN BOOLEAN ELSE {FALSE}) :
              /\ (~rp => ~rb /\ ~rs)
              \* whether a checkpoint that failed counts as written is left open: training goes on with a new logger
              /\ (s.pc = "failed" /\ s.why = "ckpt" => rs)
              /\ s' = DoStart(IF rs THEN Renew(s, CR, L, TRUE) ELSE s, rp, rb)
              /\ a' = [op |-> "start", rp |-> rp, rb |-> rb, rs |-> rs]
              /\ g' = [Zero EXCEPT !.base = <<s'.ep, s'.env, s'.gr>>]
Ev == /\ s.pc \notin {"new", "over", "failed"} /\ Pending = {}
      /\ CASE s.pc = "next" -> s' = DoNext(s) /\ a' = [op |-> "next"] /\ g' = g
           [] s.pc = "tfn" -> s' = DoTfn(s) /\ a' = [op |-> "tfn"] /\ g' = g
           [] s.pc = "test" -> \E r \in RETS : s' = DoTest(s, <<r>>, 1) /\ a' = [op |-> "test", r |-> r] /\ g' = [g EXCEPT !.tests = @ + (IF s.why = "epoch" THEN 1 ELSE 0)]
           [] s.pc = "save" -> s' = DoSave(s) /\ a' = [op |-> "save"] /\ g' = [g EXCEPT !.saves = @ + 1]
           [] s.pc = "trfn" -> s' = DoTrfn(s) /\ a' = [op |-> "trfn"] /\ g' = g
           [] s.pc = "coll" -> \E r \in {-1} \union (RETS \ {12}) :
                 /\ s' = DoColl(s, 2, IF r < 0 THEN << >> ELSE <<r>>, s.blen + 2) /\ a' = [op |-> "coll", r |-> r]
                 /\ g' = [g EXCEPT !.steps = @ + 2, !.eps = @ + (IF r < 0 THEN 0 ELSE 1), !.its = @ + 1]
           [] s.pc = "upd" -> s' = DoUpd(s, 0) /\ a' = [op |-> "upd"] /\ g' = [g EXCEPT !.upd = @ + 1, !.grads = @ + Grads(s)]
           [] s.pc = "ckpt" -> s' = DoCkpt(s) /\ a' = [op |-> "ckpt"] /\ g' = [g EXCEPT !.ck = @ + 1]
           [] s.pc = "epoch" -> s' = DoEpoch(s) /\ a' = [op |-> "epoch"] /\ g' = g
           [] OTHER -> s' = DoStop(s) /\ a' = [op |-> "stop"] /\ g' = g
Write == /\ s.pc \notin {"new", "over", "failed"} /\ Pending # {}
         /\ LET x == CHOOSE y \in Pending : TRUE IN s' = DoWrite(s, x) /\ a' = [op |-> "write", scope |-> x] /\ g' = g
Fail == /\ s.pc \in {"tfn", "test", "save", "trfn", "coll", "upd", "ckpt"} /\ Pending = {} /\ s.runno < RUNS
        /\ s' = DoFail(s) /\ a' = [op |-> "fail", at |-> s.pc] /\ g' = g
Next == (Start \/ Ev \/ Write \/ Fail) /\ Emit
Spec == Init /\ [][Next]_vars

Running == s.pc \notin {"new", "failed"}
E0 == g.base[1]
\* counters are the sums over the iterations of this run, continued from the restored ones
Counters == Running /\ C.kind # DATA => s.env = g.base[2] + g.steps /\ s.epi = g.eps /\ s.gr = g.base[3] + g.grads
\* number of iterations in a finished epoch
PerEpoch == IF C.kind = DATA THEN C.spe ELSE Ceil(C.spe, C.spc)
Iterations == s.pc = "next" /\ ~s.stop => (C.kind # DATA => g.its = PerEpoch * (s.ep - E0))
Updates == s.pc = "next" /\ ~s.stop => g.upd = (IF C.kind = ON THEN 1 ELSE IF C.kind = OFF THEN RoundHE(C.un * 2, C.ud) ELSE 1) * PerEpoch * (s.ep - E0)
TestsPerEpoch == s.pc = "next" /\ ~s.stop => g.tests = (IF C.test THEN s.ep - E0 ELSE 0)
EpochBound == s.ep <= MaxOf2(C.max, E0) 
\* the best score is the largest of all tests that count, and was reached first at the best epoch
Counted(j) == s.hist[j][1] # "tit" \/ s.hist[j][3] >= C.thr
BestIsMax == s.pc \in {"next", "over", "stop", "iter", "coll", "upd"} /\ s.hist # << >> =>
               s.bsc = Max({s.hist[j][2] : j \in {x \in 1..Len(s.hist) : Counted(x)}})
RECURSIVE Records(_, _)
Records(j, m) == IF j > Len(s.hist) THEN 0 ELSE IF Counted(j) /\ s.hist[j][2] > m THEN 1 + Records(j + 1, s.hist[j][2]) ELSE Records(j + 1, m)
SaveIffBetter == s.pc \in {"next", "over", "stop"} => g.saves = (IF s.hist = << >> THEN 1 ELSE 1 + Records(2, s.hist[1][2]))
StopRight == s.pc \in {"next", "stop"} /\ s.stop => C.stop /\ (s.brew >= C.thr \/ s.hist[Len(s.hist)][1] = "tit")
OverRight == s.pc = "over" => s.ep >= C.max \/ s.stop
\* nothing is logged twice within its interval, and everything owed is written before the epoch is reported
Logged == \A x \in Scopes : s.pend[x] # << >> => s.pend[x][1] - s.l.last[x] >= s.l.iv[x]
NothingOwed == s.pc \in {"next", "over", "stop"} => Pending = {}
SavedIsPast == s.sv # << >> => s.sv[1] <= C.max
\* a resumed run does only the epochs that are left
Resumed == s.c.resume /\ s.sv # << >> /\ s.pc = "over" /\ ~s.stop => s.iters = MaxOf2(0, C.max - E0)
Inv == Counters /\ Iterations /\ Updates /\ TestsPerEpoch /\ EpochBound /\ BestIsMax /\ SaveIffBetter /\ StopRight /\ OverRight
       /\ Logged /\ NothingOwed /\ SavedIsPast /\ Resumed
=============================================================================
