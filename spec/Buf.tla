-------------------------------- MODULE Buf --------------------------------
(* Replay buffers of tianshou: plain, vector (a manager of sub-buffers laid out
   contiguously) and cached.  The state mirrors the implementation: a circular
   queue per sub-buffer with an insertion pointer, and running episode
   statistics.  A stored transition is a record [x, r, te, tr]: x identifies
   it (observation, action, next observation and info are functions of x).

   A buffer is [kind, stack, avail, ign, subs]:
     kind  "plain" | "vec" | "cached" (sub 1 is the main buffer)
     stack, avail, ign: the options stack_num, sample_avail, ignore_obs_next
     subs  sequence of [cap, slots, ins, size, ret, len, start, known]       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Empty == [x |-> -1, r |-> <<0>>, te |-> 0, tr |-> 0]
NewSub(cap, rdim) == [cap |-> cap, slots |-> [k \in 1..cap |-> Empty], ins |-> 0, size |-> 0,
                      ret |-> [k \in 1..rdim |-> 0], len |-> 0, start |-> 0, known |-> TRUE]
NewBuf(kind, caps, stack, avail, ign, rdim) ==
  [kind |-> kind, stack |-> stack, avail |-> avail, ign |-> ign, rdim |-> rdim,
   subs |-> [k \in 1..Len(caps) |-> NewSub(caps[k], rdim)]]

Done(tr) == tr.te = 1 \/ tr.tr = 1
VAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Zeros(n) == [k \in 1..n |-> 0]

----------------------------------------------------------------------------
(* one sub-buffer; indices are local and start at 0 as in the code *)

\* valid local indices, oldest first
Chron(s) == IF s.size = 0 THEN << >>
            ELSE [k \in 1..s.size |-> (s.ins - s.size + (k - 1) + s.cap) % s.cap]
At(s, i) == s.slots[i + 1]
Newest(s) == (s.ins - 1 + s.cap) % s.cap
Oldest(s) == Chron(s)[1]
Contents(s) == [k \in 1..s.size |-> At(s, Chron(s)[k])]

PrevL(s, i) == IF i = Oldest(s) THEN i
               ELSE LET j == (i - 1 + s.cap) % s.cap
                    IN IF Done(At(s, j)) THEN i ELSE j
NextL(s, i) == IF i = Newest(s) \/ Done(At(s, i)) THEN i ELSE (i + 1) % s.cap
RECURSIVE PrevN(_, _, _)
PrevN(s, i, n) == IF n = 0 THEN i ELSE PrevN(s, PrevL(s, i), n - 1)
UnfinishedL(s) == IF s.size > 0 /\ ~Done(At(s, Newest(s))) THEN <<Newest(s)>> ELSE << >>

\* number of stored predecessors of i in its episode
RECURSIVE Preds(_, _)
Preds(s, i) == IF PrevL(s, i) = i THEN 0 ELSE 1 + Preds(s, PrevL(s, i))
AvailL(s, stack, avail) ==
  IF stack > 1 /\ avail THEN SelectSeq(Chron(s), LAMBDA i : Preds(s, i) >= stack - 1)
  ELSE Chron(s)
StackL(s, i, n) == [k \in 1..n |-> PrevN(s, i, n - k)]

\* add one transition: returns the new sub-buffer; the values which add reports are AddRes
AddSub(s, t) ==
  LET nins == (s.ins + 1) % s.cap
      d == Done(t)
  IN [s EXCEPT !.slots[s.ins + 1] = t, !.ins = nins,
               !.size = IF s.size < s.cap THEN s.size + 1 ELSE s.cap,
               !.ret = IF d THEN Zeros(Len(s.ret)) ELSE VAdd(s.ret, t.r),
               !.len = IF d THEN 0 ELSE s.len + 1,
               !.start = IF d THEN nins ELSE s.start,
               !.known = d \/ s.known]
AddRes(s, t) ==
  [idx |-> s.ins, ret |-> IF Done(t) THEN VAdd(s.ret, t.r) ELSE Zeros(Len(s.ret)),
   len |-> IF Done(t) THEN s.len + 1 ELSE 0, start |-> s.start, known |-> s.known]

ResetSub(s, keep) == [s EXCEPT !.ins = 0, !.size = 0, !.start = 0,
                               !.ret = IF keep THEN s.ret ELSE Zeros(Len(s.ret)),
                               !.len = IF keep THEN s.len ELSE 0,
                               !.known = keep => s.known]

\* move the transitions ts into s; moved data is not counted by the episode
\* statistics of the destination, which are known again after the next episode end
MoveSub(s, ts) ==
  LET m == FoldLeft(LAMBDA a, t : [AddSub(a, t) EXCEPT !.ret = s.ret, !.len = s.len], s, ts)
  IN IF ts = << >> THEN s
     ELSE [m EXCEPT !.known = s.known /\ s.len = 0 /\ Done(ts[Len(ts)]),
                    !.start = IF Done(ts[Len(ts)]) THEN m.ins ELSE s.start]
MoveIdx(s, ts) == [k \in 1..Len(ts) |-> (s.ins + k - 1) % s.cap]

----------------------------------------------------------------------------
(* whole buffers; global indices *)
RECURSIVE Off(_, _)
Off(b, k) == IF k = 1 THEN 0 ELSE Off(b, k - 1) + b.subs[k - 1].cap
Shift(seq, o) == [k \in 1..Len(seq) |-> seq[k] + o]
NSub(b) == Len(b.subs)
PerSub(b, F(_)) == FlattenSeq([k \in 1..NSub(b) |-> Shift(F(b.subs[k]), Off(b, k))])
TotCap(b) == Off(b, NSub(b)) + b.subs[NSub(b)].cap
BLen(b) == FoldLeft(LAMBDA a, s : a + s.size, 0, b.subs)
AllIdx(b) == PerSub(b, Chron)
AvailIdx(b) == PerSub(b, LAMBDA s : AvailL(s, b.stack, b.avail))
Unfinished(b) == PerSub(b, UnfinishedL)
SubOf(b, g) == CHOOSE k \in 1..NSub(b) : Off(b, k) <= g /\ g < Off(b, k) + b.subs[k].cap
Valid(b, g) == /\ g >= 0 /\ g < TotCap(b)
               /\ LET k == SubOf(b, g) IN \E j \in 1..b.subs[k].size : Chron(b.subs[k])[j] = g - Off(b, k)
Tr(b, g) == LET k == SubOf(b, g) IN At(b.subs[k], g - Off(b, k))
BPrev(b, g) == LET k == SubOf(b, g) IN PrevL(b.subs[k], g - Off(b, k)) + Off(b, k)
BNext(b, g) == LET k == SubOf(b, g) IN NextL(b.subs[k], g - Off(b, k)) + Off(b, k)
Stacked(b, g) == LET k == SubOf(b, g)
                 IN Shift(StackL(b.subs[k], g - Off(b, k), b.stack), Off(b, k))
Xs(b, idx) == [k \in 1..Len(idx) |-> Tr(b, idx[k]).x]
\* observation identifiers of row g: the stacked ones
ObsX(b, g) == Xs(b, Stacked(b, g))
\* the next observation of row g is given by (identifier, TRUE) when it is the stored next observation
\* of transition x and by (identifier, FALSE) when it is the observation of transition x
ObsNextX(b, g) == IF b.ign THEN Xs(b, Stacked(b, BNext(b, g))) ELSE Xs(b, Stacked(b, g))

\* add(batch, ids): ts[k] goes to sub-buffer ids[k] (1-based position of the sub-buffer)
\* processed in order, as several transitions for one sub-buffer are allowed
RECURSIVE AddMany(_, _, _)
AddMany(b, ids, ts) ==
  IF ids = << >> THEN b
  ELSE AddMany([b EXCEPT !.subs[Head(ids)] = AddSub(b.subs[Head(ids)], Head(ts))], Tail(ids), Tail(ts))
RECURSIVE AddManyRes(_, _, _)
AddManyRes(b, ids, ts) ==
  IF ids = << >> THEN << >>
  ELSE LET k == Head(ids)
           r == AddRes(b.subs[k], Head(ts))
           o == Off(b, k)
       IN <<[r EXCEPT !.idx = r.idx + o, !.start = r.start + o]>>
          \o AddManyRes([b EXCEPT !.subs[k] = AddSub(b.subs[k], Head(ts))], Tail(ids), Tail(ts))

\* cached buffer: after an add the finished episodes move to the main buffer (sub 1)
RECURSIVE Publish(_, _, _)
Publish(b, ids, ts) ==
  IF ids = << >> THEN b
  ELSE IF ~Done(Head(ts)) THEN Publish(b, Tail(ids), Tail(ts))
  ELSE LET c == Contents(b.subs[Head(ids)])
           b2 == [b EXCEPT !.subs[1] = MoveSub(b.subs[1], c),
                           !.subs[Head(ids)] = ResetSub(b.subs[Head(ids)], FALSE)]
       IN Publish(b2, Tail(ids), Tail(ts))
RECURSIVE PublishRes(_, _, _, _)
PublishRes(b, ids, ts, res) ==   \* b: after the add
  IF ids = << >> THEN << >>
  ELSE IF ~Done(Head(ts)) THEN <<Head(res)>> \o PublishRes(b, Tail(ids), Tail(ts), Tail(res))
  ELSE LET c == Contents(b.subs[Head(ids)])
           mi == MoveIdx(b.subs[1], c)
           b2 == [b EXCEPT !.subs[1] = MoveSub(b.subs[1], c),
                           !.subs[Head(ids)] = ResetSub(b.subs[Head(ids)], FALSE)]
       IN <<[Head(res) EXCEPT !.idx = mi[Len(mi)], !.start = mi[1]]>>
          \o PublishRes(b2, Tail(ids), Tail(ts), Tail(res))

Add(b, ids, ts) == LET a == AddMany(b, ids, ts)
                   IN IF b.kind = "cached" THEN Publish(a, ids, ts) ELSE a
AddReport(b, ids, ts) ==
  IF b.kind = "cached" THEN PublishRes(AddMany(b, ids, ts), ids, ts, AddManyRes(b, ids, ts))
  ELSE AddManyRes(b, ids, ts)
Reset(b, keep) == [b EXCEPT !.subs = [k \in 1..NSub(b) |-> ResetSub(b.subs[k], keep)]]
\* update(src) of a plain buffer: everything src lists as available moves in order
Update(b, ts) == [b EXCEPT !.subs[1] = MoveSub(b.subs[1], ts)]
UpdateIdx(b, ts) == MoveIdx(b.subs[1], ts)
Moved(src) == [k \in 1..Len(AllIdx(src)) |-> Tr(src, AllIdx(src)[k])]
=============================================================================
