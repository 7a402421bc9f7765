----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications.  A trace file is a JSON array of
   traces; a trace is an array of event records, the first one of which fixes
   the configuration.  A trace specification instantiates this skeleton with
     Start(e)   the specification state after the first event,
     Bad(s, e)  the set of names of the clauses of the specification which
                event e violates in state s (empty: e is allowed),
     Post(s, e) the specification state after e.
   Each trace ends in a line DONE or in a line FAIL naming the clauses, so that
   the verdict is total.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt, FiniteSetsExt

Traces == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))

\* a set of violated clauses built from a sequence of <<name, holds>> pairs,
\* where a pair may also be << >> (not applicable)
Violated(cs) == {cs[k][1] : k \in {j \in 1..Len(cs) : Len(cs[j]) = 2 /\ ~cs[j][2]}}
Clause(name, ok) == <<name, ok>>

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MapSeq(F(_), s) == [k \in 1..Len(s) |-> F(s[k])]
Range2(s) == {s[k] : k \in 1..Len(s)}
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Has(r, f) == f \in DOMAIN r
Fld(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
=============================================================================
