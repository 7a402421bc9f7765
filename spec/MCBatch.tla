------------------------------- MODULE MCBatch ------------------------------
(* The column-wise operators against a row-wise reading of a batch: whatever
   sequence of operations, the columns are those of the ghost list of rows.  *)
EXTENDS BatchAlg, TLC, Json, IOUtils, FiniteSetsExt
MaxRows == atoi(IOEnv.VF_R)
MaxOps == atoi(IOEnv.VF_N)
Edges == IOEnv.VF_EDGES = "1"
P == {<<"a">>, <<"b", "c">>, <<"b", "o">>}
KindOf(p) == IF p = <<"b", "o">> THEN "o" ELSE "ni"
VARIABLES B, rows, n
\* a fresh batch of c rows with real entries D, the other paths being reserved
Tok(x, j, p) == 10 * x + 2 * j + (IF p = <<"a">> THEN 0 ELSE 1)
Fresh(D, c, x) == [p \in P |-> IF p \in D THEN [k |-> KindOf(p), v |-> [j \in 1..c |-> Tok(x, j, p)]]
                               ELSE [k |-> "R", v |-> << >>]]
FRow(D, j, x) == [p \in P |-> IF p \in D THEN Tok(x, j, p) ELSE Zero(KindOf(p))]
V(b) == [p \in 1..3 |-> LET q == (<<<<"a">>, <<"b", "c">>, <<"b", "o">>>>)[p]
                        IN IF b[q].k = "R" THEN <<-1>> ELSE Map(LAMBDA x : IF x = Zero(b[q].k) THEN 0 ELSE 1, b[q].v)]
View == V(B)
Log(a, nb) == IF Edges THEN PrintT("VE|" \o ToJson(V(B)) \o "|" \o ToJson(a) \o "|" \o ToJson(V(nb))) ELSE TRUE
Names(D) == [j \in 1..3 |-> IF (<<<<"a">>, <<"b", "c">>, <<"b", "o">>>>)[j] \in D THEN 1 ELSE 0]
Init == B = Fresh({<<"a">>}, 1, 0) /\ rows = <<FRow({<<"a">>}, 1, 0)>> /\ n = 0
Step(a, nb, nr) == B' = nb /\ rows' = nr /\ n' = n + 1 /\ n < MaxOps /\ Log(a, nb)
DoCat(D, c, front) ==
  /\ D # {} /\ Len(rows) + c <= MaxRows
  /\ LET f == Fresh(D, c, n + 1) fr == [j \in 1..c |-> FRow(D, j, n + 1)]
     IN Step([op |-> "cat", d |-> Names(D), c |-> c, front |-> front],
             IF front = 1 THEN Cat(<<f, B>>) ELSE Cat(<<B, f>>), IF front = 1 THEN fr \o rows ELSE rows \o fr)
DoRows(J) == Step([op |-> "rows", idx |-> Map(LAMBDA j : j - 1, J)], Rows(B, J), Map(LAMBDA j : rows[j], J))
DoAssign(j, D) == LET f == [p \in D \cap Real(B) |-> Fresh(D, 1, n + 1)[p]]
                  IN /\ D \subseteq Real(B)
                     /\ Step([op |-> "assign", idx |-> j - 1, d |-> Names(D)], Assign(B, <<j>>, f),
                             [rows EXCEPT ![j] = FRow(D, 1, n + 1)])
DoEmpty(j) == Step([op |-> "empty", idx |-> j - 1], EmptyAt(B, <<j>>), [rows EXCEPT ![j] = FRow({}, 1, 0)])
Next == \/ \E D \in SUBSET P, c \in 1..2, f \in 0..1 : DoCat(D, c, f)
        \/ \E m \in 1..2 : \E J \in [1..m -> 1..Len(rows)] : DoRows(J)
        \/ \E j \in 1..Len(rows), D \in SUBSET P : DoAssign(j, D)
        \/ \E j \in 1..Len(rows) : DoEmpty(j)
Spec == Init /\ [][Next]_<<B, rows, n>>
Agree == \A p \in P : IF p \in Real(B) THEN B[p].v = Map(LAMBDA r : r[p], rows)
                      ELSE \A j \in 1..Len(rows) : rows[j][p] = Zero(KindOf(p))
RowsBack == Size(B) = Len(rows) /\ Assign(EmptyAt(B, [j \in 1..Size(B) |-> j]), [j \in 1..Size(B) |-> j], B) = B
Stacks == LET q == StackRows([j \in 1..Len(rows) |-> Rows(B, <<j>>)]) IN [p \in Real(B) |-> q[p]] = [p \in Real(B) |-> B[p]]
Pieces(s, m) == LET z == Sizes(Len(rows), s, m) IN
   /\ FoldLeft(LAMBDA a, b : a + b, 0, z) = Len(rows)
   /\ \A j \in 1..Len(z) : z[j] >= 1 /\ (j < Len(z) => z[j] = s) /\ (m /\ Len(rows) >= s => z[j] >= s) /\ (~m => z[j] <= s)
Splits == \A s \in 1..4, m \in BOOLEAN : Pieces(s, m)
NullIsRows == AllRows(DropNull(Tidy(B))) = IF DropNull(B) = NoBatch THEN << >> ELSE
                AllRows(Rows(ToNumpy(B), Keep(B, 1, Size(B))))
=============================================================================
