------------------------------ MODULE MCUpdate ------------------------------
(* All interleavings of nested contexts, mode changes and updates failing at any stage. *)
EXTENDS Update, TLC, IOUtils, Json
EnvI(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
EDGES == EnvI("VF_EDGES", 0) = 1
D == EnvI("VF_D", 2)       \* depth of nesting
L == EnvI("VF_LR", 2)      \* scheduler steps
VARIABLES m, u, a
vars == <<m, u, a>>
Idle == [m |-> NewMode(1), at |-> 0, before |-> FALSE, out |-> "idle"]
Init == m = NewMode(1) /\ u = Idle /\ a = [op |-> "init"]
Busy == u.out = ""
DoEnter == ~Busy /\ Len(m.ctx) < D /\ \E k \in {"step", "mode"}, v \in BOOLEAN : m' = Enter(m, k, v) /\ u' = Idle /\ a' = [op |-> "enter", k |-> k, v |-> v]
DoExit == ~Busy /\ m.ctx # << >> /\ \E x \in BOOLEAN : m' = Exit(m) /\ u' = Idle /\ a' = [op |-> "exit", exc |-> x]
DoSet == ~Busy /\ \E k \in {"step", "mode"}, v \in BOOLEAN : Get(m, k) # v /\ m' = Put(m, k, v) /\ u' = Idle /\ a' = [op |-> "set", k |-> k, v |-> v]
\* an update as one step (what a caller sees), used for the walks
DoUpdate == EDGES /\ m.lr[1] < L /\ \E f \in {NoFail, "process", "learn", "post", "lr"}, nb \in BOOLEAN :
               /\ (nb => f = NoFail) /\ (f # NoFail => m.within)
               /\ m' = IF m.within /\ ~nb THEN After(m, f) ELSE m
               /\ u' = Idle /\ a' = [op |-> "update", fail |-> f, nobuf |-> nb]
\* an update stage by stage
DoBegin == ~EDGES /\ ~Busy /\ m.lr[1] < L /\ \E nb \in BOOLEAN : u' = Begin(m, nb) /\ UNCHANGED m /\ a' = [op |-> "begin"]
DoGo == Busy /\ LET g == Go(u) IN
           \/ u' = Ends(IF g.at = 5 THEN Stepped(g) ELSE g) /\ m' = u'.m /\ a' = [op |-> "ok"]
           \/ u' = Fails(g) /\ m' = u'.m /\ a' = [op |-> "fails"]
View == <<m.within, m.tr, m.ctx, m.lr>>
Next == /\ (DoEnter \/ DoExit \/ DoSet \/ DoUpdate \/ DoBegin \/ DoGo)
        /\ (EDGES => PrintT("VE|" \o ToJson(View) \o "|" \o ToJson(a') \o "|" \o ToJson(View')))
Spec == Init /\ [][Next]_vars

\* `before` states are recovered from the context stack: the bottom entry of a kind holds what was set outside
Outside(k) == LET S == {x \in 1..Len(m.ctx) : m.ctx[x][1] = k} IN IF S = {} THEN Get(m, k) ELSE m.ctx[Min(S)][2]
NotUpdating == ~Busy => ~m.up
LearnsInTraining == Busy /\ u.at = 3 => m.tr /\ m.within /\ m.up
NeverOutside == Busy => m.within
\* leaving all contexts brings back what was there before them
RECURSIVE Unwind(_)
Unwind(x) == IF x.ctx = << >> THEN x ELSE Unwind(Exit(x))
Restores == ~Busy => Unwind(m).within = Outside("step") /\ Unwind(m).tr = Outside("mode")
\* the two descriptions of an update agree
SameUpdate == [][(u.out = "" /\ u'.out # "") => u'.m = [After([u.m EXCEPT !.tr = u.before, !.up = FALSE], IF u'.out = "done" THEN NoFail ELSE u'.out) EXCEPT !.lr = u'.m.lr]
                   /\ (u'.out = "done" => u'.m.lr[1] = u.m.lr[1] + 1) /\ (u'.out # "done" => u'.m.lr = u.m.lr)]_vars
\* mini-batches
Minis == \A n \in 0..9, bs \in 0..5 : LET s == MiniSizes(n, bs) IN
   /\ FoldLeft(LAMBDA x, y : x + y, 0, s) = n
   /\ \A k \in 1..Len(s) : bs = 0 \/ Len(s) = 1 \/ (s[k] >= bs /\ s[k] < 2 * bs)
Inv == NotUpdating /\ LearnsInTraining /\ NeverOutside /\ Restores
ASSUME Minis
=============================================================================
