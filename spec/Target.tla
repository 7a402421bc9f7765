------------------------------- MODULE Target -------------------------------
(* Networks of an algorithm and their target networks.
   A network is the sequence of its values (parameters, then buffers that are
   not trained), integers scaled by a power of two.  A configuration c:
     pairs  <<online, target>> by name      always  names stepped in each learn
     late   names stepped with a delay      dk, d0  the delay: learn number n (from 0) is due iff n % dk = d0
     hard   copies at the start of a learn number n with n % k = 0 (never if k = 0);
            otherwise soft: after the steps, target := (1 - 1/d) target + 1/d online
     sdue   the soft synchronisation happens only in learns that are due
     np     number of values of a network that are parameters                  *)
EXTENDS Integers, Sequences, FiniteSets

Online(c) == {c.pairs[x][1] : x \in 1..Len(c.pairs)}
Targets(c) == {c.pairs[x][2] : x \in 1..Len(c.pairs)}
Of(c, t) == c.pairs[CHOOSE x \in 1..Len(c.pairs) : c.pairs[x][2] = t][1]
Due(c, n) == (n % c.dk) = c.d0
Copies(c, n) == c.hard /\ c.k > 0 /\ (n % c.k) = 0
Mixes(c, n) == ~c.hard /\ (c.sdue => Due(c, n))
Stepped(c, n) == c.always \cup (IF Due(c, n) THEN c.late ELSE {})
Mix(c, t, o) == [x \in 1..Len(t) |-> IF x > c.np THEN t[x] ELSE ((c.d - 1) * t[x] + o[x]) \div c.d]
\* exact in integers
MixExact(c, t, o) == \A x \in 1..c.np : (((c.d - 1) * t[x] + o[x]) % c.d) = 0
AddTo(v, dv) == [x \in 1..Len(v) |-> v[x] + dv[x]]

\* s = [c, nets, n]; dv: how the optimisers changed each network in this learn
NewTarget(c, nets) == [c |-> c, nets |-> nets, n |-> 0]
Created(c, nets) == \A t \in Targets(c) : nets[t] = nets[Of(c, t)]
Copied(s) == IF Copies(s.c, s.n) THEN [x \in DOMAIN s.nets |-> IF x \in Targets(s.c) THEN s.nets[Of(s.c, x)] ELSE s.nets[x]] ELSE s.nets
Learn(s, dv) ==
  LET a == Copied(s)
      b == [x \in DOMAIN a |-> IF x \in DOMAIN dv THEN AddTo(a[x], dv[x]) ELSE a[x]]
      m == [x \in DOMAIN b |-> IF x \in Targets(s.c) /\ Mixes(s.c, s.n) THEN Mix(s.c, b[x], b[Of(s.c, x)]) ELSE b[x]]
  IN [s EXCEPT !.nets = m, !.n = @ + 1]
Touch(s, x, v) == [s EXCEPT !.nets[x] = v]
=============================================================================
