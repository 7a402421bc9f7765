------------------------------ MODULE PolTrace ------------------------------
(* Judges histories of real policies with small networks: which network changes
   when and how, what targets bootstrap from, the errors handed back.         *)
EXTENDS TraceBase, Target, Boot
ConfOf(c) == [pairs |-> c.pairs, always |-> ToSet(c.always), late |-> ToSet(c.late), dk |-> c.dk, d0 |-> c.d0, hard |-> c.hard = 1,
              k |-> c.k, d |-> c.d, sdue |-> c.sdue = 1, np |-> c.np]
Start(e) == [t |-> [c |-> ConfOf(e.c)], c |-> e.c, b |-> NewRet(e.caps), tr |-> e.tr]
QRs == {"qrdqn", "iqn", "fqf", "dcql"}
Cats == {"c51", "rainbow"}
Late2 == {"crr", "cql", "bcq"}          \* compute targets while learning
Name(s, x) == LET c == s.t.c.pairs IN IF \E k \in 1..Len(c) : c[k][1] = x THEN c[CHOOSE k \in 1..Len(c) : c[k][1] = x][2] ELSE x
Tgt(s, x) == s.t.nets[Name(s, x)]
On(s, x) == s.t.nets[x]
K(s) == Pow(s.c.gd, s.c.n)
Sum(f, n) == FoldLeft(LAMBDA a, k : a + f[k], 0, [k \in 1..n |-> k])
SumA(f(_)) == f(0) + f(1) + f(2)
BestAct(s, x, o) == Best(QF(s.c.S, On(s, x), o), Acts)
\* ------------------------------ bootstrap values (a set of admissible functions of the transition), scaled by S * z
\* the transition r is the last one of the n-step return
Ent(s, o) == IF s.c.ent = 1 THEN s.c.S * EntOf(s.c.S, On(s, "a"), o) ELSE 0
AK(s, w, o) == IF s.c.ent = 1 THEN 1 ELSE ActOf(s.c.S, w, o)
TwoAt(s, o, k) == Two(s.c.S, Tgt(s, "c"), Tgt(s, "c2"), o, k)
NQOf(s) == IF s.c.fam # "iqn" THEN NQ ELSE IF s.t.c.pairs # << >> THEN s.c.qt ELSE IF s.tr = 1 THEN s.c.qo ELSE s.c.qe
Value(s, r, T) ==
  LET S == s.c.S o == r.nx al == ToSet(r.mx) f == s.c.fam IN
  CASE f = "dqn" -> << IF s.c.dbl = 1 THEN Double(S, On(s, "q"), Tgt(s, "q"), o, al) ELSE Maximal(S, Tgt(s, "q"), o, al) >>
    [] f \in QRs -> Quantiles(S, On(s, "q"), Tgt(s, "q"), o, al, NQOf(s))
    [] f = "bdq" -> << Branches(S, On(s, "q"), Tgt(s, "q"), o, s.c.dbl = 1) >>
    [] f = "dbcq" -> << Double(S, On(s, "q"), Tgt(s, "q"), o, Likely(On(s, "im"), o)) >>
    [] f = "ddpg" -> << Crit(S, Tgt(s, "c"), o, ActOf(S, Tgt(s, "a"), o)) >>
    [] f \in {"td3", "td3bc"} -> << TwoAt(s, o, ActOf(S, Tgt(s, "a"), o)) >>
    [] f = "sac" -> << TwoAt(s, o, AK(s, On(s, "a"), o)) - Ent(s, o) >>
    [] f = "dsac" -> << IF s.c.ent = 1 THEN SumA(LAMBDA a : TwoAt(s, o, a)) + 3 * S ELSE TwoAt(s, o, BestAct(s, "a", o)) >>
    [] f = "redq" -> LET q == EnsQ(S, Tgt(s, "c"), o, AK(s, On(s, "a"), o)) IN
                     << IF s.c.min = 1 THEN Inf({q[x] : x \in T}) - Ent(s, o) ELSE FoldSet(LAMBDA x, a : a + q[x], 0, T) - Cardinality(T) * Ent(s, o) >>
    [] OTHER -> << >>
Subsets(s) == IF s.c.fam = "redq" THEN {T \in SUBSET (0..2) : Cardinality(T) = s.c.sub} ELSE {{}}
\* the n-step return with bootstrap q (scaled by S z), scaled by K S z
RetAt(s, p, q) == LET N0 == NStepAt(s.b, p, s.c.n, s.c.g, s.c.gd, 0) IN
                  s.c.S * s.c.z * N0 + (NStepAt(s.b, p, s.c.n, s.c.g, s.c.gd, q) - N0)
Ret(s, p, T) == IF s.c.fam \in Cats THEN [j \in 1..NQ |-> RetAt(s, p, s.c.lo + j - 1)]
                ELSE LET v == Value(s, Row(s.b, LastPos(s.b, p, s.c.n)), T) IN
                     IF s.c.fam = "bdq" THEN LET x == RetAt(s, p, v[1]) IN [j \in 1..6 |-> x]
                     ELSE [j \in 1..Len(v) |-> RetAt(s, p, v[j])]
RetsOk(s, idx, ret) == s.c.fam \in Late2 \/ s.c.S = 16384 \/ \E T \in Subsets(s) : \A x \in 1..Len(idx) : ret[x] = Ret(s, idx[x], T)
\* ------------------------------ errors
Cur(s, x, r) == LET S == s.c.S IN V(S, On(s, x), r.tok, r.act)
Atom(s, r) == LET o == r.nx al == ToSet(r.mx) IN C51Atom(On(s, "q"), Tgt(s, "q"), o, al)
\* ret: the returns handed to this learning step, t2: the networks after a copy to the targets
ErrAt(s, s2, x, e) ==
  LET p == e.idx[x] r == Row(s.b, p) R == e.ret[x] Z == K(s) * s.c.z S == s.c.S f == s.c.fam IN
  CASE f = "dqn" -> R[1] - Z * Cur(s, "q", r)
    [] f = "bdq" -> (R[1] - Z * V(S, On(s, "q"), r.tok, r.act)) + (R[1] - Z * V(S, On(s, "q"), r.tok + 1, r.act2))
    [] f \in QRs -> LET n == IF f # "iqn" THEN NQ ELSE IF s.tr = 1 THEN s.c.qo ELSE s.c.qe q == Cur(s, "q", r) IN
                    Sum([j \in 1..n |-> Sum([i \in 1..Len(R) |-> SmoothL1(Z, R[i] - Z * (q + j - 1))], Len(R))], n)
    [] f \in Cats -> LET last == Row(s.b, LastPos(s.b, p, s.c.n)) pr == Proj(K(s), s.c.lo, R[Atom(s2, last) + 1]) IN Sum([j \in 1..NQ |-> pr[j] * j], NQ)
    [] f = "ddpg" -> Z * Cur(s, "c", r) - R[1]
    [] f \in {"td3", "td3bc", "sac", "dsac"} -> Z * (Cur(s, "c", r) + Cur(s, "c2", r)) - 2 * R[1]
    [] f = "redq" -> Z * Sum([k \in 1..3 |-> V(S, On(s, "c"), r.tok + k - 1, r.act)], 3) - 3 * R[1]
    [] OTHER -> 0
\* how the error of a transition moves the network's value, without its weight
MoveAt(s, m, x, e) ==
  LET p == e.idx[x] r == Row(s.b, p) R == e.ret[x] Z == K(s) * s.c.z S == s.c.S f == s.c.fam IN
  IF f = "redq" THEN 2 * (Z * Sum([k \in 1..3 |-> V(S, On(s, "c"), r.tok + k - 1, r.act)], 3) - 3 * R[1])
  ELSE IF f = "bdq" THEN - ErrAt(s, s, x, e)
  ELSE 2 * (Z * Cur(s, m, r) - R[1])
Weight(e, x) == IF e.w = << >> THEN 1 ELSE e.w[x]
Move(s, m, e) == Sum([x \in 1..Len(e.idx) |-> Weight(e, x) * MoveAt(s, m, x, e)], Len(e.idx))
\* critics that compute their target while learning: squared errors; s2 after copies to the targets, a2: the actor's values at that time
LossErr(s, s2, a2, m, p) ==
  LET r == Row(s.b, p) S == s.c.S Z == K(s) * s.c.z o == r.nx f == s.c.fam
      v == CASE f = "crr" -> IF s.c.ent = 1 THEN SumA(LAMBDA a : V(S, Tgt(s2, "c"), o, a)) ELSE V(S, Tgt(s2, "c"), o, Best(QF(S, Tgt(s2, "a"), o), Acts))
             [] f = "cql" -> TwoAt(s2, o, ActOf(S, a2, o))
             [] OTHER -> LET k == o % 3 lo == TwoAt(s2, o, k) hi == Sup({Crit(S, Tgt(s2, "c"), o, k), Crit(S, Tgt(s2, "c2"), o, k)}) IN 3 * lo + hi
      tgt == S * Z * r.rew + (IF r.t + r.u > 0 THEN 0 ELSE s.c.g * v)
  IN Z * Cur(s, m, r) - tgt
LossOf(s, s2, a2, m, e) == Sum([x \in 1..Len(e.idx) |-> LossErr(s, s2, a2, m, e.idx[x]) * LossErr(s, s2, a2, m, e.idx[x])], Len(e.idx))
\* ------------------------------ greedy actions
ActsOk(s, e) == \A x \in 1..Len(e.toks) :
  LET o == e.toks[x] S == s.c.S al == ToSet(e.masks[x]) f == s.c.fam a == e.act[x]
      n(y) == IF e.old = 1 THEN Tgt(s, y) ELSE On(s, y) IN
  CASE f \in {"dqn"} \cup QRs -> a = << Best(QF(S, n("q"), o), al) >>
    [] f \in Cats -> a = << C51Best(n("q"), o, al) >>
    [] f = "bdq" -> a = << Best(QF(S, n("q"), o), Acts), Best(QF(S, n("q"), o + 1), Acts) >>
    [] f = "dbcq" -> a = << Best(QF(S, On(s, "q"), o), Likely(On(s, "im"), o)) >>
    [] f \in {"ddpg", "td3", "td3bc"} -> a = << ActOf(S, n("a"), o) >>
    [] f \in {"sac", "redq", "cql"} -> a = << IF s.c.ent = 1 THEN 1 ELSE ActOf(S, n("a"), o) >>
    [] f = "dsac" -> a = << IF s.c.ent = 1 THEN 0 ELSE BestAct(s, "a", o) >>
    [] f = "crr" -> s.c.ent = 1 \/ a = << BestAct(s, "a", o) >>
    [] f = "bcq" -> a = << o % 3 >>
    [] OTHER -> FALSE
\* ------------------------------ clauses
Flags(s, e, tr) == << <<e.op \o ".policy-mode", e.pt = tr>>, <<e.op \o ".online-mode", \A x \in DOMAIN e.flags : x \in Targets(s.t.c) \/ e.flags[x] = tr>>,
                      <<e.op \o ".target-mode", \A x \in Targets(s.t.c) : e.flags[x] = 0>> >>
Same(s, e) == << <<e.op \o ".raised " \o e.err, e.err = "">>, <<e.op \o ".changes-networks", e.nets = s.t.nets>> >>
Steps(s, e) ==
  LET all == FlattenSeq(e.steps) names == SelectSeq(all, LAMBDA x : x # "alpha") IN
  << <<"learn.steps", ToSet(names) = Stepped(s.t.c, s.t.n) /\ Len(names) = Cardinality(Stepped(s.t.c, s.t.n))>>,
     <<"learn.alpha", Len(all) - Len(names) = IF s.c.auto = 1 /\ "a" \in Stepped(s.t.c, s.t.n) THEN 1 ELSE 0>> >>
Deltas(s, e) == [x \in Stepped(s.t.c, s.t.n) |-> [k \in 1..5 |-> IF k = 5 THEN 0 ELSE e.dv[x]]]
After(s, e) == Learn(s.t, Deltas(s, e))
Learning(s, e) ==
  LET s2 == [s EXCEPT !.t.nets = Copied(s.t)] a2 == After(s, e).nets IN
  <<<<"learn.raised " \o e.err, e.err = "">> >> \o Steps(s, e) \o
  <<<<"learn.networks", \A x \in DOMAIN e.nets : x \in Targets(s.t.c) \/ e.nets[x] = After(s, e).nets[x]>>,
    <<"learn.targets", \A x \in Targets(s.t.c) : e.nets[x] = After(s, e).nets[x]>>,
    <<"learn.target-gradient", e.grad = 0>> >> \o
  (IF e.chk = 0 \/ e.err # "" THEN << >> ELSE
   <<<<"learn.returns", RetsOk(s, e.idx, e.ret)>>,
     <<"learn.priorities", e.prio = << >> \/ e.prio = [x \in 1..Len(e.idx) |-> ErrAt(s, s2, x, e)]>>,
     <<"learn.gradient", \A m \in DOMAIN e.gh : e.gh[m] = Move(s, m, e)>>,
     <<"learn.loss", CASE s.c.fam = "crr" -> e.loss = << LossOf(s, s2, On(s, "a"), "c", e) >>
                       [] s.c.fam \in {"cql", "bcq"} -> e.loss = << LossOf(s, s2, a2["a"], "c", e), LossOf(s, s2, a2["a"], "c2", e) >>
                       [] OTHER -> TRUE>> >>)
Clauses(s, e) ==
  CASE e.op = "add" -> << <<"driver.position", e.pos = PosOf([s.b[e.j] EXCEPT !.log = Append(@, e)], Len(s.b[e.j].log) + 1)>> >>
    [] e.op = "create" -> << <<"create.targets", Created(s.t.c, e.nets)>>, <<"create.shared", e.alias = 0>> >> \o Flags(s, e, s.tr)
    [] e.op = "process" -> Same(s, e) \o << <<"process.returns", e.err # "" \/ RetsOk(s, e.idx, e.ret)>>, <<"process.target-gradient", e.grad = 0>> >> \o Flags(s, e, s.tr)
    [] e.op = "learn" -> Learning(s, e) \o Flags(s, e, s.tr)
    [] e.op = "touch" -> << <<"touch.other-networks", e.nets = [s.t.nets EXCEPT ![e.net] = e.v]>> >>
    [] e.op = "mode" -> Same(s, e) \o Flags(s, e, e.v)
    [] e.op = "forward" -> Same(s, e) \o << <<"forward.actions", e.err # "" \/ ActsOk(s, e)>> >> \o Flags(s, e, s.tr)
    [] e.op = "explore" -> Same(s, e) \o Flags(s, e, s.tr)
    [] e.op = "reload" -> Same(s, e) \o Flags(s, e, s.tr)
    [] e.op = "copy" -> Same(s, e) \o << <<"copy.shared", e.alias = 0>> >> \o Flags(s, e, s.tr)
    [] OTHER -> << <<"unknown event", FALSE>> >>
Bad(s, e) == Violated(Clauses(s, e))
Post(s, e) ==
  CASE e.op = "add" -> [s EXCEPT !.b[e.j].log = Append(@, e)]
    [] e.op = "create" -> [s EXCEPT !.t = NewTarget(s.t.c, e.nets)]
    [] e.op = "learn" -> [s EXCEPT !.t = After(s, e)]
    [] e.op = "touch" -> [s EXCEPT !.t = Touch(s.t, e.net, e.v)]
    [] e.op = "mode" -> [s EXCEPT !.tr = e.v]
    [] OTHER -> s
VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
