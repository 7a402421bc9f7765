------------------------------ MODULE MCExper ------------------------------
(* All short sequences of runs of experiments with few settings, in two
   directories, stored, restored and repeated.                               *)
EXTENDS Exper, TLC, IOUtils, Json
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
R == EnvI("VF_R", 2)
W == EnvI("VF_W", 6)
KIND == IF EnvI("VF_OFF", 0) = 1 THEN "off" ELSE "on"
Base == [kind |-> KIND, nt |-> 2, ne |-> 1, epochs |-> 2, spe |-> 4, spc |-> 4, epc |-> 0, bs |-> 3, rep |-> 1, un |-> 1, ntests |-> 1, start |-> 0,
         srand |-> FALSE, train |-> TRUE, watch |-> FALSE, nwatch |-> 1, persist |-> TRUE, mode |-> "policy", restore |-> "", name |-> "a", raises |-> TRUE,
         thr |-> 9, buf |-> 8, len |-> 3, scores |-> <<1, 3, 2, 3, 5>>, trf |-> TRUE, tef |-> TRUE, stf |-> TRUE]
Scores == {<<1, 3, 2, 3, 5>>, <<4, 2, 1>>} \cup (IF EDGES THEN {} ELSE {<<0, 0, 1>>, <<3, 9, 4, 10>>})
Configs == {[Base EXCEPT !.name = n, !.mode = m, !.restore = r, !.raises = x, !.scores = q, !.epochs = e, !.train = tr, !.persist = p, !.watch = ~tr, !.start = 3 * st, !.srand = st = 1] :
              n \in {"a", "b"}, m \in {"policy", "state"}, r \in {"", "a"}, x \in BOOLEAN, q \in Scores, e \in {1, 2}, tr \in BOOLEAN, p \in BOOLEAN, st \in {0, 1}}
Few == {c \in Configs : (c.train \/ (c.epochs = 1 /\ c.start = 0 /\ c.scores[1] = 1)) /\ (c.raises \/ c.name = "a") /\ (c.name = "b" => c.mode = "policy") /\ (~c.persist => c.name = "a" /\ c.raises /\ c.mode = "policy")
                        /\ (c.start > 0 => c.epochs = 1 /\ c.scores[1] = 1)}
\* runs of what a directory holds
Again(s) == {[Loaded(s, n, rp) EXCEPT !.name = m, !.raises = FALSE] : n \in {d \in DOMAIN s.disk : s.disk[d].cfg # << >>}, rp \in BOOLEAN, m \in {"a", "b"}}
VARIABLES s, runs, tested, before, a
vars == <<s, runs, tested, before, a>>
Init == s = Idle /\ runs = 0 /\ tested = << >> /\ before = Idle /\ a = [op |-> "init"]
RECURSIVE Exec(_)
Exec(q) == IF q.pc \in {"idle", "end", "fail"} THEN q ELSE Exec(Step(q))
Ready == s.pc \in {"idle", "end", "fail"}
Small(q) == \A n \in DOMAIN q.disk : q.disk[n].policy <= W /\ q.disk[n].state <= W
D(q) == [n \in DOMAIN q.disk |-> <<q.disk[n].cfg = << >>, q.disk[n].policy, q.disk[n].state, Len(q.disk[n].ck)>>]
View == IF EDGES THEN <<D(s), runs, << >>, << >> >> ELSE <<s, runs, tested, before.disk>>
Next == \/ /\ ~EDGES /\ Ready /\ runs < R /\ Small(s)
           /\ \E c \in Few \cup Again(s) : s' = Run(s, c) /\ a' = [op |-> "run", c |-> c]
           /\ runs' = runs + 1 /\ tested' = << >> /\ before' = s
        \/ /\ ~EDGES /\ ~Ready /\ s' = Step(s) /\ UNCHANGED <<runs, before, a>>
           /\ tested' = IF s.pc = "test" THEN Append(tested, s.w) ELSE tested
        \/ /\ EDGES /\ runs < R
           /\ \/ \E c \in Few : s' = Exec(Run(s, c)) /\ a' = [op |-> "run", c |-> c]
              \/ \E n \in {d \in DOMAIN s.disk : s.disk[d].cfg # << >>}, rp \in BOOLEAN, m \in {"a", "b"} :
                    s' = Exec(Run(s, [Loaded(s, n, rp) EXCEPT !.name = m, !.raises = FALSE])) /\ a' = [op |-> "again", dir |-> n, rp |-> rp, name |-> m]
           /\ runs' = runs + 1 /\ UNCHANGED <<tested, before>>
           /\ PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson(View'))
Spec == Init /\ [][Next]_vars
\* the file of the best policy holds the first of the tested versions that earned most
Firsts(q) == {k \in 1..Len(tested) : \A j \in 1..Len(tested) : Score(q.c, tested[j]) < Score(q.c, tested[k]) \/ (Score(q.c, tested[j]) = Score(q.c, tested[k]) /\ k <= j)}
BestFile == (s.pc = "end" /\ s.c.train /\ s.c.persist) =>
    \E k \in Firsts(s) : BestOf(s.disk[s.c.name], s.c.mode) = tested[k] /\ s.bw = tested[k]
\* an epoch leaves one file, with the version it ended with
EpochFiles == (s.pc = "end" /\ s.c.train /\ s.c.persist /\ s.c.kind = "on") =>
    \A e \in 1..s.ep : LET f == SelectSeq(s.disk[s.c.name].ck, LAMBDA x : x[1] = s.c.mode /\ x[2] = e) IN Len(f) = 1 /\ f[1][3] = tested[e + 1]
\* nothing is written by a run that is refused, without persistence, or elsewhere
Others == \A n \in DOMAIN before.disk : (n # s.c.name \/ (s.pc = "fail" /\ s.c.raises) \/ ~s.c.persist) => s.disk[n] = before.disk[n]
Written == s.pc = "end" => (s.c.persist <=> s.c.persist /\ There(s, s.c.name)) /\ (~s.c.persist => DOMAIN s.disk = DOMAIN before.disk)
\* a run does not end before its epochs unless the stop condition held after the last one
Complete == (s.pc = "end" /\ s.c.train) => s.ep = s.c.epochs \/ (s.stop /\ s.best >= s.c.thr)
Inv == s.c = << >> \/ (BestFile /\ EpochFiles /\ Others /\ Written /\ Complete)
=============================================================================
