------------------------------- MODULE MCBuf -------------------------------
(* Bounded exhaustive model of Buf: every schedule of adds (any subset of the
   environments, any done pattern), resets with and without keeping statistics
   and moves from another buffer.  Ghost variables record the history and the
   invariants state properties B01-B05 over it.
   VF_CFG selects the layout; with VF_EDGES=1 every transition is printed, in
   the abstract view AV, for replay against the code.                        *)
EXTENDS Buf, TLC, Json, IOUtils, FiniteSetsExt

CfgName == IOEnv.VF_CFG
Edges == IOEnv.VF_EDGES = "1"
MaxTok == atoi(IOEnv.VF_N)

Kind == IF CfgName \in {"plain1", "plain2", "plain3", "plain4"} THEN "plain"
        ELSE IF CfgName \in {"vec22", "vec31", "vec123", "vec33"} THEN "vec" ELSE "cached"
Caps == CASE CfgName = "plain1" -> <<1>>
          [] CfgName = "plain2" -> <<2>>
          [] CfgName = "plain3" -> <<3>>
          [] CfgName = "plain4" -> <<4>>
          [] CfgName = "vec22" -> <<2, 2>>
          [] CfgName = "vec33" -> <<3, 3>>
          [] CfgName = "vec31" -> <<3, 1>>
          [] CfgName = "vec123" -> <<1, 2, 3>>
          [] CfgName = "cached322" -> <<3, 2, 2>>
          [] CfgName = "cached43" -> <<4, 3>>
          [] CfgName = "cached232" -> <<2, 3, 2>>
MaxLen == atoi(IOEnv.VF_L)

VARIABLES b, hist, since, pub, n, rep
vars == <<b, hist, since, pub, n, rep>>

\* environments that can deliver: sub-buffer positions
Envs == IF Kind = "cached" THEN 2..Len(Caps) ELSE 1..Len(Caps)
T(x, d) == [x |-> x, r |-> <<1 + (x % 3)>>, te |-> IF d = 1 THEN 1 ELSE 0, tr |-> IF d = 2 THEN 1 ELSE 0]

Init == /\ b = NewBuf(Kind, Caps, 1, FALSE, FALSE, 1)
        /\ hist = [k \in 1..Len(Caps) |-> << >>]     \* all transitions since the last reset
        /\ since = [k \in 1..Len(Caps) |-> << >>]    \* those of the running episode
        /\ pub = << >>                               \* completed episodes (cached)
        /\ n = 0
        /\ rep = << >>

\* all orders of all non-empty subsets of the environments
Orders == UNION {SetToSeqs(S) : S \in (SUBSET Envs \ {{}})}

\* the abstract view: everything but the identity of the transitions
SubView(s) == [i |-> s.ins, z |-> s.size, l |-> s.len, st |-> s.start, k |-> s.known,
               d |-> [j \in 1..s.size |-> IF Done(At(s, Chron(s)[j])) THEN 1 ELSE 0]]
AVof(bb) == [k \in 1..Len(bb.subs) |-> SubView(bb.subs[k])]
AV == AVof(b)
Log(a, nb) == IF Edges THEN PrintT("VE|" \o ToJson(AVof(b)) \o "|" \o ToJson(a) \o "|" \o ToJson(AVof(nb))) ELSE TRUE

DoAdd(ids, ds) ==
  LET ts == [k \in 1..Len(ids) |-> T(n + k, ds[k])]
      nb == Add(b, ids, ts)
      res == AddReport(b, ids, ts)
  IN /\ n + Len(ids) <= MaxTok
     /\ \A k \in 1..Len(ids) : b.subs[ids[k]].len < MaxLen
     /\ b' = nb
     /\ n' = n + Len(ids)
     /\ rep' = [k \in 1..Len(ids) |-> [s |-> ids[k], t |-> ts[k], res |-> res[k], ep |-> Append(since[ids[k]], ts[k])]]
     /\ hist' = [k \in DOMAIN hist |->
          IF \E j \in 1..Len(ids) : ids[j] = k
          THEN LET j == CHOOSE j \in 1..Len(ids) : ids[j] = k
               IN IF Kind = "cached" /\ Done(ts[j]) THEN << >> ELSE Append(hist[k], ts[j])
          ELSE hist[k]]
     /\ since' = [k \in DOMAIN since |->
          IF \E j \in 1..Len(ids) : ids[j] = k
          THEN LET j == CHOOSE j \in 1..Len(ids) : ids[j] = k
               IN IF Done(ts[j]) THEN << >> ELSE Append(since[k], ts[j])
          ELSE since[k]]
     /\ pub' = IF Kind # "cached" THEN pub
               ELSE pub \o FlattenSeq([j \in 1..Len(ids) |->
                      IF Done(ts[j])
                      THEN LET e == Append(hist[ids[j]], ts[j])
                               m == Len(e)
                               c == Caps[ids[j]]
                           IN SubSeq(e, IF m > c THEN m - c + 1 ELSE 1, m)
                      ELSE << >>])
     /\ Log([op |-> "add", ids |-> ids, ds |-> ds], nb)

DoReset(keep) ==
  LET nb == Reset(b, keep)
  IN /\ n > 0
     /\ b' = nb
     /\ hist' = [k \in DOMAIN hist |-> << >>]
     /\ since' = IF keep THEN since ELSE [k \in DOMAIN since |-> << >>]
     /\ pub' = << >> /\ rep' = << >> /\ n' = n
     /\ Log([op |-> "reset", keep |-> IF keep THEN 1 ELSE 0], nb)

\* plain buffers: move m transitions from another buffer, the last one ends an episode
DoUpdate(m) ==
  LET ts == [k \in 1..m |-> T(n + k, IF k = m THEN 1 ELSE 0)]
      nb == Update(b, ts)
  IN /\ Kind = "plain" /\ n + m <= MaxTok /\ b.subs[1].len = 0
     /\ b' = nb /\ n' = n + m
     /\ hist' = [hist EXCEPT ![1] = @ \o ts]
     /\ since' = since /\ pub' = pub /\ rep' = << >>
     /\ Log([op |-> "update", m |-> m], nb)

Next == \/ \E ids \in Orders : \E ds \in [1..Len(ids) -> 0..1] : DoAdd(ids, ds)
        \/ \E keep \in BOOLEAN : DoReset(keep)
        \/ \E m \in 1..3 : DoUpdate(m)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
LastN(seq, c) == SubSeq(seq, IF Len(seq) > c THEN Len(seq) - c + 1 ELSE 1, Len(seq))
Given(k) == IF Kind = "cached" /\ k = 1 THEN pub ELSE hist[k]

\* B01/B05: exactly the most recent transitions, oldest first
MostRecent == \A k \in 1..Len(Caps) : Contents(b.subs[k]) = LastN(Given(k), Caps[k])
\* B02: running statistics are those of the running episode
Stats == \A k \in Envs : LET s == b.subs[k]
           IN s.known => /\ s.len = Len(since[k])
                         /\ s.ret = <<FoldLeft(LAMBDA a, t : a + t.r[1], 0, since[k])>>
\* B02: reports
Reports == \A j \in 1..Len(rep) :
   LET r == rep[j].res
       e == rep[j].ep
       s == b.subs[IF Kind = "cached" /\ Done(rep[j].t) THEN 1 ELSE rep[j].s]
       o == Off(b, IF Kind = "cached" /\ Done(rep[j].t) THEN 1 ELSE rep[j].s)
   IN IF ~Done(rep[j].t) THEN r.len = 0 /\ r.ret = <<0>>
      ELSE r.known => /\ r.len = Len(e)
                      /\ r.ret = <<FoldLeft(LAMBDA a, t : a + t.r[1], 0, e)>>
                      /\ (Len(rep) = 1 /\ r.len < s.cap /\ \A q \in 1..Len(e) :
                             \E z \in 1..s.size : Contents(s)[z] = e[q])
                           => [q \in 1..Len(e) |-> At(s, (r.start - o + q - 1) % s.cap)] = e
\* B03: chains
Chains == \A k \in 1..Len(Caps) : LET s == b.subs[k] IN
   \A p \in 1..s.size : LET i == Chron(s)[p] IN
     /\ PrevL(s, i) = IF p > 1 /\ ~Done(Contents(s)[p - 1]) THEN Chron(s)[p - 1] ELSE i
     /\ NextL(s, i) = IF p < s.size /\ ~Done(Contents(s)[p]) THEN Chron(s)[p + 1] ELSE i
     /\ (PrevL(s, i) # i => NextL(s, PrevL(s, i)) = i)
     /\ (NextL(s, i) # i => PrevL(s, NextL(s, i)) = i)
Unf == \A k \in 1..Len(Caps) : LET s == b.subs[k]
       IN UnfinishedL(s) = IF s.size > 0 /\ ~Done(Contents(s)[s.size]) THEN <<Chron(s)[s.size]>> ELSE << >>
\* valid local indices are always the first `size` ones
Dense == \A k \in 1..Len(Caps) : {Chron(b.subs[k])[p] : p \in 1..b.subs[k].size} = 0..(b.subs[k].size - 1)
\* B04: each part equals a stand-alone buffer which only ever saw its own transitions
Isolated == Kind = "vec" => \A k \in 1..Len(Caps) :
   LET alone == FoldLeft(LAMBDA s, t : AddSub(s, t), NewSub(Caps[k], 1), hist[k])
   IN Contents(alone) = Contents(b.subs[k]) /\ alone.ins = b.subs[k].ins
      /\ UnfinishedL(alone) = UnfinishedL(b.subs[k])
\* B05: the cached parts hold running episodes only
OnlyRunning == Kind = "cached" => \A k \in Envs : \A p \in 1..b.subs[k].size : ~Done(Contents(b.subs[k])[p])
Small == n <= MaxTok
=============================================================================
