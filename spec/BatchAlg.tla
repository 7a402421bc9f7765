------------------------------ MODULE BatchAlg ------------------------------
(* A batch as a tree of columns.  It is a function from paths (sequences of
   keys) to leaves [k, v]: k is the kind of the entry
     "nb" "ni" "nf"  numpy booleans, integers, floats
     "tb" "ti" "tf"  the same as torch tensors
     "o"             numpy objects
     "N"             None,   "R"  an empty (reserved) batch
   and v its rows.  Null stands for None or NaN in a row.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Null == -7777
None0 == 99999                     \* an omitted bound of a slice
Plain(k) == k \notin {"R", "N"}
Real(B) == {p \in DOMAIN B : Plain(B[p].k)}
NoBatch == [p \in {} |-> 0]
Zero(k) == IF k = "o" THEN Null ELSE 0
Numpy(k) == CASE k = "tb" -> "nb" [] k = "ti" -> "ni" [] k = "tf" -> "nf" [] OTHER -> k
Torch(k) == CASE k = "nb" -> "tb" [] k = "ni" -> "ti" [] k = "nf" -> "tf" [] OTHER -> k
Size(B) == IF Real(B) = {} THEN 0
           ELSE LET L == {Len(B[p].v) : p \in Real(B)} IN CHOOSE m \in L : \A q \in L : m <= q
Map(F(_), s) == [j \in 1..Len(s) |-> F(s[j])]
Each(B, F(_)) == [p \in DOMAIN B |-> IF Plain(B[p].k) THEN F(B[p]) ELSE B[p]]

------------------------------------------------------------- (* indices *)
Norm(n, j) == IF j < 0 THEN j + n + 1 ELSE j + 1
Clamp(n, j, d) == IF j = None0 THEN d ELSE LET x == IF j < 0 THEN j + n ELSE j IN IF x < 0 THEN 0 ELSE IF x > n THEN n ELSE x
SliceIdx(n, a, b, s) ==
  LET lo == Clamp(n, a, 0)  hi == Clamp(n, b, n)
      c == IF hi <= lo THEN 0 ELSE (hi - lo + s - 1) \div s
  IN [j \in 1..c |-> lo + (j - 1) * s + 1]
RECURSIVE MaskIdx(_, _)
MaskIdx(m, j) == IF j > Len(m) THEN << >> ELSE (IF m[j] = 1 THEN <<j>> ELSE << >>) \o MaskIdx(m, j + 1)
Idx(n, ix) == CASE ix.t = "i" -> <<Norm(n, ix.v[1])>>
                [] ix.t = "a" -> Map(LAMBDA j : Norm(n, j), ix.v)
                [] ix.t = "s" -> SliceIdx(n, ix.v[1], ix.v[2], ix.v[3])
                [] ix.t = "m" -> MaskIdx(ix.v, 1)
                [] ix.t = "all" -> [j \in 1..n |-> j]
InRange(n, J) == \A j \in 1..Len(J) : J[j] \in 1..n

---------------------------------------------------------- (* operations *)
Rows(B, J) == Each(B, LAMBDA l : [l EXCEPT !.v = Map(LAMBDA j : l.v[j], J)])
\* the rows J become those of V; what V lacks becomes zero or None
Heads(B) == {p[1] : p \in DOMAIN B}
Known(B, V) == \A p \in DOMAIN V : \/ p \in DOMAIN B
                                   \/ ~Plain(V[p].k) /\ \E q \in DOMAIN B : IsPrefix(p, q)
Pos(J, r) == CHOOSE j \in 1..Len(J) : J[j] = r
Assign(B, J, V) ==
  [p \in DOMAIN B |-> IF ~Plain(B[p].k) THEN B[p] ELSE
     [B[p] EXCEPT !.v = [r \in 1..Len(B[p].v) |->
        IF ~\E j \in 1..Len(J) : J[j] = r THEN B[p].v[r]
        ELSE IF p \in Real(V) THEN (IF Len(V[p].v) = 1 THEN V[p].v[1] ELSE V[p].v[Pos(J, r)])
        ELSE Zero(B[p].k)]]]
EmptyAt(B, J) == Assign(B, J, NoBatch)
\* joining along the first axis: bs is a sequence of batches
Firsts(bs, p) == CHOOSE j \in 1..Len(bs) : p \in Real(bs[j]) /\ \A q \in 1..(j - 1) : p \notin Real(bs[q])
JoinKind(bs, p) ==
  LET ks == {bs[j][p].k : j \in {q \in 1..Len(bs) : p \in Real(bs[q])}}
  IN IF Cardinality(ks) = 1 THEN CHOOSE k \in ks : TRUE ELSE Numpy(bs[Firsts(bs, p)][p].k)
SameStructure(bs) == \A x, y \in 1..Len(bs) : DOMAIN bs[x] = DOMAIN bs[y]
AllPaths(bs) == UNION {DOMAIN bs[x] : x \in 1..Len(bs)}
Column(b, p, k) == IF p \in Real(b) THEN b[p].v ELSE [j \in 1..Size(b) |-> Zero(k)]
Join(bs) ==
  [p \in AllPaths(bs) |->
     IF \A x \in 1..Len(bs) : p \notin Real(bs[x]) THEN [k |-> "R", v |-> << >>]
     ELSE LET k == JoinKind(bs, p)
          IN [k |-> k, v |-> FoldLeft(LAMBDA acc, b : acc \o Column(b, p, k), << >>, bs)]]
\* in a union of structures, a reserved path above a real one vanishes
Tidy(B) == [p \in {q \in DOMAIN B : B[q].k # "R" \/ ~\E r \in DOMAIN B : r # q /\ IsPrefix(q, r)} |-> B[p]]
NonEmpty(bs) == SelectSeq(bs, LAMBDA b : DOMAIN b # {})
Cat(bs) == IF NonEmpty(bs) = << >> THEN NoBatch ELSE Join(NonEmpty(bs))
CatOk(bs) == SameStructure(NonEmpty(bs))
\* rows (batches whose entries have one row each) become the rows of one batch
StackRows(bs) == IF NonEmpty(bs) = << >> THEN NoBatch ELSE
  LET cs == NonEmpty(bs)
  IN Tidy([p \in AllPaths(cs) |->
     IF \A x \in 1..Len(cs) : p \notin Real(cs[x]) THEN [k |-> "R", v |-> << >>]
     ELSE LET k == JoinKind(cs, p)
          IN [k |-> k, v |-> [x \in 1..Len(cs) |-> IF p \in Real(cs[x]) THEN cs[x][p].v[1] ELSE Zero(k)]]])
StackBatches(bs, axis) ==        \* of equal length n: leaf rows are sequences
  LET n == Size(bs[1]) m == Len(bs)
  IN Tidy([p \in AllPaths(bs) |->
     IF \A x \in 1..m : p \notin Real(bs[x]) THEN [k |-> "R", v |-> << >>]
     ELSE LET k == JoinKind(bs, p)
              e(x, r) == IF p \in Real(bs[x]) THEN bs[x][p].v[r] ELSE Zero(k)
          IN [k |-> k, v |-> IF axis = 0 THEN [x \in 1..m |-> [r \in 1..n |-> e(x, r)]]
                             ELSE [r \in 1..n |-> [x \in 1..m |-> e(x, r)]]]])
Update(B, V) == [p \in {q \in DOMAIN B : q[1] \notin Heads(V)} \cup DOMAIN V |-> IF p \in DOMAIN V THEN V[p] ELSE B[p]]
Num(x, F(_)) == IF x = Null THEN Null ELSE F(x)
AddNum(B, c) == Each(B, LAMBDA l : [l EXCEPT !.v = Map(LAMBDA x : Num(x, LAMBDA y : y + c), l.v)])
MulNum(B, c) == Each(B, LAMBDA l : [l EXCEPT !.v = Map(LAMBDA x : Num(x, LAMBDA y : y * c), l.v)])
DivNum(B, c) == Each(B, LAMBDA l : [l EXCEPT !.v = Map(LAMBDA x : Num(x, LAMBDA y : y \div c), l.v)])
AddBatch(A, B) == [p \in DOMAIN A |-> IF ~Plain(A[p].k) THEN A[p] ELSE
    [A[p] EXCEPT !.v = [j \in 1..Len(A[p].v) |-> IF A[p].v[j] = Null \/ B[p].v[j] = Null THEN Null ELSE A[p].v[j] + B[p].v[j]]]]
ToNumpy(B) == [p \in DOMAIN B |-> [B[p] EXCEPT !.k = Numpy(@)]]
ToTorch(B) == [p \in DOMAIN B |-> [B[p] EXCEPT !.k = Torch(@)]]
IsNull(B) == [p \in DOMAIN B |-> IF B[p].k = "R" THEN B[p] ELSE
               [k |-> "nb", v |-> IF B[p].k = "N" THEN <<1>> ELSE Map(LAMBDA x : IF x = Null THEN 1 ELSE 0, B[p].v)]]
NullRow(B, j) == \E p \in DOMAIN B : B[p].k = "N" \/ (Plain(B[p].k) /\ B[p].v[j] = Null)
HasNull(B) == \E p \in DOMAIN B : B[p].k = "N" \/ (Plain(B[p].k) /\ \E j \in 1..Len(B[p].v) : B[p].v[j] = Null)
RECURSIVE Keep(_, _, _)
Keep(B, j, n) == IF j > n THEN << >> ELSE (IF NullRow(B, j) THEN << >> ELSE <<j>>) \o Keep(B, j + 1, n)
DropNull(B) == LET J == Keep(B, 1, Size(B)) IN IF J = << >> THEN NoBatch ELSE ToNumpy(Rows(B, J))
Equal(A, B) == ToNumpy(A) = ToNumpy(B)
SetKey(B, key, k, ix, vals, dflt) ==
  LET n == Size(B) p == <<key>>
      base == IF p \in DOMAIN B THEN B[p] ELSE [k |-> k, v |-> [j \in 1..n |-> dflt]]
      J == Idx(n, ix)
      new == IF ix.t = "none" THEN [k |-> k, v |-> vals]
             ELSE [base EXCEPT !.v = [r \in 1..n |-> IF \E j \in 1..Len(J) : J[j] = r THEN vals[Pos(J, r)] ELSE base.v[r]]]
      keep == {q \in DOMAIN B : q[1] # key}
  IN [q \in keep \cup {p} |-> IF q = p THEN new ELSE B[q]]
SetKeyOk(B, key, ix, vals) ==
  IF ix.t = "none" THEN Len(vals) = Size(B)
  ELSE ~\E q \in DOMAIN B : q[1] = key /\ (Len(q) > 1 \/ B[q].k = "R")
---------------------------------------------------------------- (* split *)
Sizes(n, size, merge) ==
  LET s == IF size = -1 THEN n ELSE size
      full == n \div s  rest == n % s
  IN IF rest = 0 THEN [j \in 1..full |-> s]
     ELSE IF ~merge \/ full = 0 THEN Append([j \in 1..full |-> s], rest)
     ELSE [j \in 1..full |-> IF j = full THEN s + rest ELSE s]
RowAt(B, j) == [p \in Real(B) |-> B[p].v[j]]
RECURSIVE Count(_, _)
Count(s, x) == IF s = << >> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
SameBag(s, u) == Len(s) = Len(u) /\ \A j \in 1..Len(s) : Count(s, s[j]) = Count(u, s[j])
AllRows(B) == [j \in 1..Size(B) |-> RowAt(B, j)]
SplitOk(B, size, shuffle, merge, pieces) ==
  LET n == Size(B) rows == FoldLeft(LAMBDA acc, b : acc \o AllRows(b), << >>, pieces)
  IN << Map(LAMBDA b : Size(b), pieces) = Sizes(n, size, merge),
        IF shuffle THEN SameBag(rows, AllRows(B)) ELSE rows = AllRows(B),
        \A x \in 1..Len(pieces) : /\ DOMAIN pieces[x] = DOMAIN B
                                  /\ \A p \in DOMAIN B : pieces[x][p].k = B[p].k >>
=============================================================================
