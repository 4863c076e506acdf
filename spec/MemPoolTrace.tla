---- MODULE MemPoolTrace ----
(* Recorded executions of DynMem checked against MemPool.  Every event carries the full projection of the real state:
     r.live  sequence of <<handle, reported sizes (3), lo1, hi1, lo2, hi2, lo3, hi3>>: address intervals of every live block,
             rank-compressed per kind (order and overlap are preserved)
     r.bad   handles whose contents changed although nobody wrote to them
     r.cap   total capacity per kind;  r.thrown  whether the call refused                                     *)
EXTENDS TraceKit
CONSTANT Handles
P == INSTANCE MemPool WITH Sizes <- {}, MaxOps <- 0, Naive <- FALSE, pool <- 0, part <- 0, nops <- 0
VARIABLES l, pool, part
tvars == <<l, pool, part>>
Ev == TraceLog[l]
TInit == l = 1 /\ pool = <<>> /\ part = [h \in Handles |-> P!Dead]

Row(h) == {k \in 1..Len(Ev.r.live) : Ev.r.live[k][1] = h}
LiveOK(pt) ==
  LET L == Ev.r.live
      LH == {h \in Handles : pt[h] # P!Dead}
  IN /\ Len(L) = Cardinality(LH)
     /\ {L[k][1] : k \in 1..Len(L)} = LH
     /\ \A k \in 1..Len(L) : /\ <<L[k][2], L[k][3], L[k][4]>> = pt[L[k][1]].size
                             /\ \A d \in 1..3 : IF pt[L[k][1]].size[d] > 0 THEN L[k][3 + 2 * d] < L[k][4 + 2 * d] ELSE TRUE
     /\ \A a, b \in 1..Len(L) : a # b => \A d \in 1..3 :
          (L[a][1 + d] > 0 /\ L[b][1 + d] > 0) => (L[a][4 + 2 * d] <= L[b][3 + 2 * d] \/ L[b][4 + 2 * d] <= L[a][3 + 2 * d])
     /\ Ev.r.bad = <<>>
CapOK(pl) == \A k \in 1..3 : Ev.r.cap[k] <= P!SumCap(pl, k)
CapSame(pl) == \A k \in 1..3 : Ev.r.cap[k] = P!SumCap(pl, k)
Step(pl, pt, thrown) == /\ pool' = pl /\ part' = pt /\ l' = l + 1
                        /\ LiveOK(pt) /\ CapOK(pl) /\ Ev.r.thrown = thrown

Fre(pl, p) == IF p = P!Dead THEN pl ELSE P!DoFree(pl, p)
TCase == Ev.op = "case" /\ pool' = <<>> /\ part' = [h \in Handles |-> P!Dead] /\ l' = l + 1
TAlloc == /\ Ev.op \in {"alloc", "talloc"}
          /\ LET pl0 == Fre(pool, part[Ev.h])      \* a handle that is still alive is released first by the script
                 a == P!DoAlloc(pl0, Ev.s)
             IN Step(a.pool, [part EXCEPT ![Ev.h] = a.part], FALSE)
TFree == /\ Ev.op \in {"free", "destroy"}
         /\ Step(Fre(pool, part[Ev.h]), [part EXCEPT ![Ev.h] = P!Dead], FALSE)
TMove == /\ Ev.op = "move"
         /\ IF Ev.h = Ev.g THEN Step(pool, part, FALSE)
            ELSE Step(Fre(pool, part[Ev.g]), [part EXCEPT ![Ev.g] = part[Ev.h], ![Ev.h] = P!Dead], FALSE)
TDefrag == /\ Ev.op = "defrag"
           /\ IF P!DefragRefused(pool) THEN Step(pool, part, TRUE)
              ELSE Step(P!DoDefrag(pool), part, FALSE) /\ CapSame(P!DoDefrag(pool))
TNext == \/ l <= TraceLen /\ (TCase \/ TAlloc \/ TFree \/ TMove \/ TDefrag)
         \/ l > TraceLen /\ UNCHANGED tvars
====
