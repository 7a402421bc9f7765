------------------------------ MODULE Collect -------------------------------
(* Collecting data from N environments with a policy, synchronously or
   asynchronously, at the level of the calls that can be observed: the policy is
   asked for actions (pol), the action space is sampled (samp), an environment
   receives an action (act) or is reset (reset), the vector environment returns
   the results of some environments (ret), and a collect call begins and ends.

   Environments are scripted: the ep-th episode of environment i has a length
   and a kind of end given by lens, everything it emits is a token that says
   where it comes from.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

None == -1
Obs(i, ep, k) == i * 10000 + ep * 100 + k
Rew(i, ep, k) == 1 + ((i * 7 + ep * 3 + k * 5) % 4)
Map(a) == a + 300000          \* the policy's action mapping
Noise(a) == a + 100000        \* its exploration noise
LenOf(c, i, ep) == LET s == c.lens[i + 1] IN s[((ep - 1) % Len(s)) + 1]     \* > 0: terminated, < 0: truncated
AbsV(x) == IF x < 0 THEN -x ELSE x

NewColl(n, lens, async, hidden, policy) ==
  [n |-> n, lens |-> lens, async |-> async, hidden |-> hidden, poltok |-> policy,
   en |-> [j \in 1..n |-> [ep |-> 0, k |-> 0, over |-> TRUE, opt |-> 0]],
   pend |-> [j \in 1..n |-> [s |-> "idle"]],          \* idle, chosen (action decided), busy (in the environment)
   hid |-> [j \in 1..n |-> 0],
   ready |-> {}, fresh |-> {},                        \* environments that wait for an action; those which just returned
   log |-> [j \in 1..n |-> << >>],                    \* transitions stored since the buffer was reset
   cur |-> [j \in 1..n |-> [ret |-> 0, len |-> 0]],   \* the running episode
   mrg |-> [j \in 1..n |-> [ret |-> 0, len |-> 0]],   \* abandoned parts of episodes in front of it in the buffer
   part |-> [j \in 1..n |-> 0],                       \* its transitions that are in the buffer
   mode |-> "new", job |-> [n |-> 0, e |-> 0, random |-> FALSE, opt |-> 0], it |-> 0,
   nst |-> 0, nep |-> 0, eps |-> << >>, stds |-> << >>, hooks |-> << >>,
   total |-> [step |-> 0, ep |-> 0]]

Envs(c) == 0..(c.n - 1)
En(c, i) == c.en[i + 1]
Cur(c, i) == Obs(i, En(c, i).ep, En(c, i).k)
Info(c, i) == IF En(c, i).k = 0 THEN 1000000 * En(c, i).opt ELSE Cur(c, i)
Enough(c) == IF c.job.n > 0 THEN c.nst >= c.job.n ELSE c.nep >= c.job.e
\* ---------------------------------------------------------------- collect calls
CanBegin(c) == c.mode \in {"idle"}
Begin(c, job) == [c EXCEPT !.mode = "collect", !.job = job, !.nst = 0, !.nep = 0, !.eps = << >>, !.stds = << >>, !.it = 0]
\* which sets of environments may be served next
CanServe(c, E) ==
  /\ E # {} /\ E \subseteq Envs(c)
  /\ ~(c.it > 0 /\ Enough(c))
  /\ \A i \in E : c.pend[i + 1].s = "idle" /\ ~En(c, i).over
  /\ IF c.async THEN E = c.ready
     ELSE IF c.it = 0 THEN IF c.job.n > 0 THEN E = Envs(c)
                           ELSE Cardinality(E) = Min({c.n, c.job.e})
     ELSE IF c.job.n > 0 THEN E = c.ready
     ELSE /\ E \subseteq c.ready
          /\ c.ready \ E \subseteq c.fresh                 \* only those that just finished an episode stop
          /\ Cardinality(E) = Min({Cardinality(c.ready), c.job.e - c.nep})
Served(c, E) == [c EXCEPT !.ready = E, !.it = @ + 1, !.fresh = {}]
Chosen(c, i, a, h, p) == [c EXCEPT !.pend[i + 1] = [s |-> "chosen", act |-> a, hid |-> h, pol |-> p, obs |-> Cur(c, i)]]
CanAct(c, i, act) == c.pend[i + 1].s = "chosen" /\ act = Map(c.pend[i + 1].act) /\ ~En(c, i).over
Act(c, i) ==
  LET e == En(c, i) l == LenOf(c, i, e.ep) k == e.k + 1 over == k >= AbsV(l) IN
  [c EXCEPT !.en[i + 1].k = k, !.en[i + 1].over = over,
            !.pend[i + 1] = [s |-> "busy", act |-> @.act, hid |-> @.hid,
               tr |-> [obs |-> @.obs, act |-> @.act, rew |-> Rew(i, e.ep, k), term |-> IF over /\ l > 0 THEN 1 ELSE 0,
                       trunc |-> IF over /\ l < 0 THEN 1 ELSE 0, obs2 |-> Obs(i, e.ep, k), info |-> Obs(i, e.ep, k),
                       pol |-> @.pol, hid |-> @.hid]]]
\* the result of environment i is returned and stored
CanRet(c, i) == c.pend[i + 1].s = "busy"
Ret1(c, i) ==
  LET p == c.pend[i + 1] tr == p.tr over == tr.term + tr.trunc > 0
      ret == c.cur[i + 1].ret + tr.rew len == c.cur[i + 1].len + 1
      m == c.mrg[i + 1] pt == c.part[i + 1] + 1
  IN [c EXCEPT !.pend[i + 1] = [s |-> "idle"],
       !.log[i + 1] = Append(@, tr), !.nst = @ + 1, !.nep = @ + (IF over THEN 1 ELSE 0),
       !.hid[i + 1] = IF over \/ ~c.hidden THEN 0 ELSE p.hid,
       !.cur[i + 1] = IF over THEN [ret |-> 0, len |-> 0] ELSE [ret |-> ret, len |-> len],
       !.mrg[i + 1] = IF over THEN [ret |-> 0, len |-> 0] ELSE @,
       !.part[i + 1] = IF over THEN 0 ELSE pt,
       !.eps = IF over THEN Append(@, [env |-> i, ret |-> ret, len |-> len, mret |-> ret + m.ret, mlen |-> len + m.len, part |-> pt])
               ELSE @,
       !.stds = Append(@, (p.tr.act % 10) + 1),
       !.fresh = IF over THEN @ \cup {i} ELSE @]
Ret(c, ids) == LET d == FoldLeft(Ret1, [c EXCEPT !.fresh = {}], ids) IN
               [d EXCEPT !.ready = IF c.async THEN ToSet(ids) ELSE @]
\* results that are thrown away while a reset waits for them
Drop(c, ids) == FoldLeft(LAMBDA d, i : [d EXCEPT !.pend[i + 1] = [s |-> "idle"]], c, ids)
CanReset(c, i) == c.pend[i + 1].s = "idle" /\ (En(c, i).over \/ c.mode = "reset" \/ (c.mode = "collect" /\ ~c.async /\ c.job.e > 0 /\ Enough(c)))
Reset1(c, i, opt) ==
  LET m == c.mrg[i + 1] u == c.cur[i + 1] IN
  [c EXCEPT !.en[i + 1] = [ep |-> @.ep + 1, k |-> 0, over |-> FALSE, opt |-> opt], !.hid[i + 1] = 0,
            !.mrg[i + 1] = [ret |-> m.ret + u.ret, len |-> m.len + u.len], !.cur[i + 1] = [ret |-> 0, len |-> 0]]
CanEnd(c) == /\ Enough(c)
             /\ \A i \in Envs(c) : c.pend[i + 1].s = "idle" \/ (c.async /\ c.pend[i + 1].s = "busy")
             /\ \A i \in Envs(c) : c.pend[i + 1].s = "idle" => ~En(c, i).over
             /\ (~c.async /\ c.job.e > 0) => \A i \in Envs(c) : En(c, i).k = 0
End(c) == [c EXCEPT !.mode = "idle", !.total = [step |-> @.step + c.nst, ep |-> @.ep + c.nep]]
\* after an explicit reset of the environments everything starts afresh
EndReset(c, stats) == [c EXCEPT !.mode = "idle", !.ready = Envs(c), !.fresh = {},
                                !.hid = [j \in 1..c.n |-> 0],
                                !.total = IF stats THEN [step |-> 0, ep |-> 0] ELSE @]
ClearBuffer(c, keep) ==
  [c EXCEPT !.log = [j \in 1..c.n |-> << >>], !.part = [j \in 1..c.n |-> 0],
            !.mrg = IF keep THEN @ ELSE [j \in 1..c.n |-> [ret |-> 0, len |-> 0]],
            \* without keeping the statistics, the running return starts again at 0
            !.cur = IF keep THEN @ ELSE [j \in 1..c.n |-> [ret |-> 0, len |-> 0]]]
Stored(c, i, cap) == LET s == c.log[i + 1] IN IF Len(s) <= cap THEN s ELSE SubSeq(s, Len(s) - cap + 1, Len(s))
=============================================================================
