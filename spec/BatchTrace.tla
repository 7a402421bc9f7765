----------------------------- MODULE BatchTrace -----------------------------
(* Judges recorded operations on real batches.  The state is the sequence of
   the batches held by the driver; after every operation all of them are read
   again, so that a change of an operand or of an unrelated batch shows.      *)
EXTENDS TraceBase, BatchAlg
Build(ls) == [p \in {ls[j].p : j \in 1..Len(ls)} |-> LET j == CHOOSE j \in 1..Len(ls) : ls[j].p = p IN [k |-> ls[j].k, v |-> ls[j].v]]
Regs(e) == MapSeq(Build, e.regs)
Start(e) == Regs(e)
\* what an operation yields: [ok |-> admissible, val |-> value of the target register or of res]
Yield(st, e) ==
  LET A == st[e.a]
      o == e.op
      Ok(x) == [ok |-> TRUE, val |-> x]
      If(c, x) == [ok |-> c, val |-> IF c THEN x ELSE A]
  IN CASE o = "rows" -> Ok(Rows(A, Idx(Size(A), e.ix)))
       [] o = "assign" -> LET W == Build(e.v) IN If(Known(A, W), Assign(A, Idx(Size(A), e.ix), W))
       [] o = "empty" -> Ok(EmptyAt(A, Idx(Size(A), e.ix)))
       [] o \in {"cat", "cat_"} -> LET bs == MapSeq(LAMBDA j : st[j], e.bs) IN If(CatOk(bs), Cat(bs))
       [] o = "stackrows" -> Ok(StackRows(MapSeq(Build, e.vs)))
       [] o = "stack" -> LET bs == MapSeq(LAMBDA j : st[j], e.bs)
                         IN If(e.axis = 0 \/ \A x, y \in 1..Len(bs) : Real(bs[x]) = Real(bs[y]), StackBatches(bs, e.axis))
       [] o = "update" -> Ok(Update(A, Build(e.v)))
       [] o = "addnum" -> Ok(AddNum(A, e.c))
       [] o = "mulnum" -> Ok(MulNum(A, e.c))
       [] o = "divnum" -> Ok(DivNum(A, e.c))
       [] o = "addbatch" -> Ok(AddBatch(A, st[e.bs[1]]))
       [] o = "tonumpy" -> Ok(ToNumpy(A))
       [] o = "totorch" -> Ok(ToTorch(A))
       [] o = "copy" -> Ok(A)
       [] o = "isnull" -> Ok(IsNull(A))
       [] o = "dropnull" -> Ok(DropNull(A))
       [] o = "setkey" -> If(SetKeyOk(A, e.key, e.ix, e.vals), SetKey(A, e.key, e.k, e.ix, e.vals, e.dflt))
       [] o = "pop" -> Ok([p \in {q \in DOMAIN A : q[1] # e.key} |-> A[p]])
       [] o = "new" -> Ok(Build(e.v))
       [] OTHER -> Ok(A)
\* operations whose value is not kept
Loose == {"isnull", "stack", "split", "eq", "len", "hasnull", "listofdicts"}
Clauses(st, e) ==
  LET A == st[e.a]  y == Yield(st, e)  now == Regs(e)
      want == IF e.op \in Loose \/ ~y.ok THEN st ELSE [st EXCEPT ![e.dst] = y.val]
  IN << <<e.op \o ".raised " \o e.err, y.ok => e.err = "">>,
        <<e.op \o ".must-be-rejected", y.ok \/ e.err = "ValueError">>,
        <<e.op \o ".wrong-value", e.err # "" \/ ~y.ok \/ e.op \in Loose \/ now[e.dst] = y.val>>,
        <<e.op \o ".changed-another-batch", \A r \in 1..Len(st) : (r = e.dst /\ e.op \notin Loose) \/ now[r] = st[r]>>,
        <<e.op \o ".rejected-but-changed", y.ok \/ e.op = "assign" \/ now = st>> >> \o
     (IF e.err # "" THEN << >> ELSE
      CASE e.op \in {"isnull", "stack"} -> << <<e.op \o ".wrong-result", ~y.ok \/ Build(e.res) = y.val>> >>
        [] e.op = "split" -> LET s == SplitOk(A, e.size, e.shuffle = 1, e.merge = 1, MapSeq(Build, e.pieces))
                             IN << <<"split.sizes", s[1]>>, <<"split.rows", s[2]>>, <<"split.kinds", s[3]>> >>
        [] e.op = "eq" -> << <<"eq.wrong", (e.val = 1) = Equal(A, st[e.bs[1]])>> >>
        [] e.op = "len" -> << <<"len.wrong", e.val = Size(A)>>,
                              <<"iter.wrong", MapSeq(LAMBDA r : RowAt(Build(r), 1), e.vs) = AllRows(A)>> >>
        [] e.op = "hasnull" -> << <<"hasnull.wrong", (e.val = 1) = HasNull(A)>> >>
        [] e.op = "listofdicts" -> << <<"listofdicts.wrong", MapSeq(LAMBDA r : RowAt(Build(r), 1), e.vs) = AllRows(A)>> >>
        [] OTHER -> << >>)
Bad(st, e) == Violated(Clauses(st, e))
Post(st, e) == Regs(e)

VARIABLES t, i, st
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t][1])
Next == /\ i < Len(Traces[t])
        /\ LET e == Traces[t][i + 1]
               bad == Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT("VF|FAIL|" \o ToString(t) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad))
                   /\ i' = Len(Traces[t]) + 1 /\ UNCHANGED <<t, st>>
              ELSE /\ st' = Post(st, e) /\ i' = i + 1 /\ t' = t
                   /\ (i + 1 = Len(Traces[t]) => PrintT("VF|DONE|" \o ToString(t)))
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
