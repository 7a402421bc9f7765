------------------------------- MODULE Stats --------------------------------
(* Running statistics, their use by the normalising vector environment, moving
   averages and summaries.  A running statistic over d dimensions is the number
   of rows, their sums and their sums of squares, hence exact:
     mean = S/n, population variance = (n Q - S^2)/n^2.
   Before the first row it is the given initial estimate (m0, s0).             *)
EXTENDS Integers, Sequences, SequencesExt

NewStat(d, m0, s0, clip) == [n |-> 0, s |-> [k \in 1..d |-> 0], q |-> [k \in 1..d |-> 0], m0 |-> m0, s0 |-> s0, clip |-> clip]
AddRow(st, row) == [st EXCEPT !.n = @ + 1,
                              !.s = [k \in 1..Len(row) |-> @[k] + row[k]],
                              !.q = [k \in 1..Len(row) |-> @[k] + row[k] * row[k]]]
AddRows(st, rows) == FoldLeft(AddRow, st, rows)
VarNum(st, k) == st.n * st.q[k] - st.s[k] * st.s[k]     \* n^2 times the variance
Abs(x) == IF x < 0 THEN -x ELSE x
\* "got is the mean / variance, in thousandths, up to rounding"
MeanOk(st, k, got) == IF st.n = 0 THEN got = 1000 * st.m0 ELSE Abs(got * st.n - 1000 * st.s[k]) <= st.n
VarOk(st, k, got) == IF st.n = 0 THEN got = 1000 * st.s0 * st.s0 ELSE Abs(got * st.n * st.n - 1000 * VarNum(st, k)) <= st.n * st.n
\* the distance of x from the mean compared with clip standard deviations, squared and times n^2
Dist(st, k, x) == IF st.n = 0 THEN (x - st.m0) * (x - st.m0) ELSE (st.n * x - st.s[k]) * (st.n * x - st.s[k])
Lim(st, k) == st.clip * st.clip * (IF st.n = 0 THEN st.s0 * st.s0 ELSE VarNum(st, k))
Up(st, k, x) == IF st.n = 0 THEN x > st.m0 ELSE st.n * x > st.s[k]
Clipped == 100000
\* what normalising x gives: x itself (after undoing the affine map), or a bound
NormOk(st, k, x, got) ==
  LET c == IF Up(st, k, x) THEN Clipped ELSE -Clipped IN
  IF st.clip = 0 \/ Dist(st, k, x) < Lim(st, k) \/ Dist(st, k, x) = 0 THEN got = x
  ELSE IF Dist(st, k, x) > Lim(st, k) THEN got = c
  ELSE got \in {x, c}

\* moving averages
MAdd(cache, size, xs) == LET c == cache \o xs IN IF size > 0 /\ Len(c) > size THEN SubSeq(c, Len(c) - size + 1, Len(c)) ELSE c
Sum(xs) == FoldLeft(LAMBDA a, b : a + b, 0, xs)
SumSq(xs) == FoldLeft(LAMBDA a, b : a + b * b, 0, xs)
SeqMeanOk(xs, got) == IF xs = << >> THEN got = 0 ELSE Abs(got * Len(xs) - 1000 * Sum(xs)) <= Len(xs)
SeqVarOk(xs, got) == IF xs = << >> THEN got = 0
                     ELSE Abs(got * Len(xs) * Len(xs) - 1000 * (Len(xs) * SumSq(xs) - Sum(xs) * Sum(xs))) <= Len(xs) * Len(xs)
=============================================================================
