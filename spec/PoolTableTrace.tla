---- MODULE PoolTableTrace ----
(* Histories of DynMemParallel recorded from real threads: call / ret events in one total order.  A history is accepted
   when the calls can be linearized inside their call..ret intervals as operations of PoolTable; the linearization
   points are silent steps that TLC infers.  get(id) reports which pool object (numbered by first appearance) it returned. *)
EXTENDS TraceKit
CONSTANT NT
P == INSTANCE PoolTable WITH Threads <- {}, MaxPools <- 0, MaxOps <- 0, Atomic <- TRUE,
        size <- 0, unused <- 0, held <- 0, pc <- 0, tmp <- 0, nops <- 0
VARIABLES l, size, free, pend, obj
\* free: set of released ids (the order in which ids are reused is not promised); obj: id -> pool object (0 unknown)
tv == <<l, size, free, pend, obj>>
Ev == TraceLog[l]
Idle == [op |-> "none", st |-> "none", res |-> 0, arg |-> 0]
NoPend == [t \in 1..NT |-> Idle]
TInit == TLCSet(1, 1) /\ l = 1 /\ size = 0 /\ free = {} /\ pend = NoPend /\ obj = <<>>
TCase == Ev.op = "case" /\ l' = l + 1 /\ size' = 0 /\ free' = {} /\ pend' = NoPend /\ obj' = <<>>
TMark == Ev.op = "sched" /\ l' = l + 1 /\ UNCHANGED <<size, free, pend, obj>>
TCall == /\ Ev.op = "call" /\ pend[Ev.t].st = "none"
         /\ pend' = [pend EXCEPT ![Ev.t] = [op |-> Ev.f, st |-> "called", res |-> 0, arg |-> Ev.arg]]
         /\ l' = l + 1 /\ UNCHANGED <<size, free, obj>>
TRet == /\ Ev.op = "ret" /\ pend[Ev.t].st = "done" /\ pend[Ev.t].op = Ev.f
        /\ IF Ev.f = "get"      \* res = the id asked for; r = the object returned
           THEN LET k == pend[Ev.t].res + 1 IN
                IF k <= Len(obj) /\ obj[k] # 0 THEN obj[k] = Ev.r /\ UNCHANGED obj
                ELSE /\ \A j \in 1..Len(obj) : obj[j] # Ev.r      \* different ids, different pools
                     /\ obj' = [j \in 1..Max2(k, Len(obj)) |-> IF j = k THEN Ev.r ELSE IF j <= Len(obj) THEN obj[j] ELSE 0]
           ELSE Ev.r = pend[Ev.t].res /\ UNCHANGED obj
        /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
        /\ l' = l + 1 /\ UNCHANGED <<size, free>>
Done(t, res) == pend' = [pend EXCEPT ![t].st = "done", ![t].res = res]
\* only linearize when some later ret needs it: keeps the search small
LinAlloc(t) == /\ pend[t].op = "alloc"
               /\ IF free = {} THEN Done(t, size) /\ size' = size + 1 /\ UNCHANGED free
                  ELSE \E id \in free : Done(t, id) /\ free' = free \ {id} /\ UNCHANGED size
LinRel(t) == pend[t].op = "release" /\ Done(t, 0) /\ free' = free \cup {pend[t].arg} /\ UNCHANGED size
LinGet(t) == pend[t].op = "get" /\ Done(t, pend[t].arg) /\ UNCHANGED <<size, free>>
LinRange(t) == /\ pend[t].op = "range"
               /\ IF Cardinality(free) = size
                  THEN Done(t, 0) /\ size' = pend[t].arg /\ free' = {}
                  ELSE Done(t, size) /\ size' = size + pend[t].arg /\ UNCHANGED free
LinRelRange(t) == /\ pend[t].op = "relrange" /\ Done(t, 0)
                  /\ free' = free \cup (pend[t].arg[1] .. (pend[t].arg[2] - 1)) /\ UNCHANGED size
LinRelAll(t) == pend[t].op = "relall" /\ Done(t, 0) /\ free' = 0..(size - 1) /\ UNCHANGED size
LinClear(t) == pend[t].op = "clear" /\ Done(t, 0) /\ size' = 0 /\ free' = {}
TLin == \E t \in 1..NT : /\ pend[t].st = "called"
                         /\ (LinAlloc(t) \/ LinRel(t) \/ LinGet(t) \/ LinRange(t) \/ LinRelRange(t) \/ LinRelAll(t) \/ LinClear(t))
                         \* pools destroyed by a shrinking range or clear lose their identity
                         /\ obj' = IF size' < size THEN SubSeq(obj, 1, Min2(size', Len(obj))) ELSE obj
                         /\ UNCHANGED l
TNext == \/ l <= TraceLen /\ (TCase \/ TMark \/ TCall \/ TRet)
         \/ l <= TraceLen /\ Ev.op = "ret" /\ TLin
         \/ l > TraceLen /\ UNCHANGED tv
TConstraint == TLCSet(1, Max2(TLCGet(1), l))
TReport == PrintT(<<"FURTHEST", TLCGet(1), TraceLen>>)
====
