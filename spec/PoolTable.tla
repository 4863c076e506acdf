---- MODULE PoolTable ----
(* The table of per-thread memory pools (Ani::DynMemParallel) under arbitrary interleavings.
   Every call is one critical section.  Atomic = FALSE splits alloc into "read the last unused id" and "remove it",
   which is what the code does when the lock does not cover both.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxPools, MaxOps, Atomic
VARIABLES size,     \* number of pools in the table
          unused,   \* stack of released ids
          held,     \* held[t] = set of ids thread t holds
          pc, tmp, nops
vars == <<size, unused, held, pc, tmp, nops>>

Init == size = 0 /\ unused = <<>> /\ held = [t \in Threads |-> {}] /\ pc = [t \in Threads |-> "idle"]
        /\ tmp = [t \in Threads |-> 0] /\ nops = 0
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* the pure table operations, shared with the trace specification
AllocRes(sz, un) == IF un = <<>> THEN [id |-> sz, size |-> sz + 1, unused |-> un]
                    ELSE [id |-> un[Len(un)], size |-> sz, unused |-> Front(un)]
RangeRes(sz, un, n) == IF Len(un) = sz THEN [a |-> 0, size |-> n, unused |-> <<>>]
                       ELSE [a |-> sz, size |-> sz + n, unused |-> un]

Count == nops < MaxOps /\ nops' = nops + 1
Alloc(t) == /\ Atomic /\ pc[t] = "idle" /\ Count
            /\ LET r == AllocRes(size, unused) IN
               /\ r.size <= MaxPools
               /\ size' = r.size /\ unused' = r.unused /\ held' = [held EXCEPT ![t] = @ \cup {r.id}]
            /\ UNCHANGED <<pc, tmp>>
AllocRead(t) == /\ ~Atomic /\ pc[t] = "idle" /\ Count /\ unused # <<>>
                /\ tmp' = [tmp EXCEPT ![t] = unused[Len(unused)]] /\ pc' = [pc EXCEPT ![t] = "pop"]
                /\ UNCHANGED <<size, unused, held>>
AllocPop(t) == /\ pc[t] = "pop"
               /\ unused' = (IF unused = <<>> THEN <<>> ELSE Front(unused)) /\ held' = [held EXCEPT ![t] = @ \cup {tmp[t]}]
               /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<size, tmp, nops>>
AllocNew(t) == /\ ~Atomic /\ pc[t] = "idle" /\ Count /\ unused = <<>> /\ size < MaxPools
               /\ size' = size + 1 /\ held' = [held EXCEPT ![t] = @ \cup {size}] /\ UNCHANGED <<unused, pc, tmp>>
Release(t) == /\ pc[t] = "idle" /\ Count /\ \E id \in held[t] :
                 held' = [held EXCEPT ![t] = @ \ {id}] /\ unused' = Append(unused, id)
              /\ UNCHANGED <<size, pc, tmp>>
Range(t) == /\ Atomic /\ pc[t] = "idle" /\ Count /\ \E n \in 1..2 :
               LET r == RangeRes(size, unused, n) IN
               /\ r.size <= MaxPools
               /\ size' = r.size /\ unused' = r.unused
               /\ held' = [held EXCEPT ![t] = @ \cup (r.a .. (r.a + n - 1))]
            /\ UNCHANGED <<pc, tmp>>
Next == \E t \in Threads : Alloc(t) \/ AllocRead(t) \/ AllocPop(t) \/ AllocNew(t) \/ Release(t) \/ Range(t)
Spec == Init /\ [][Next]_vars

Exclusive == \A s, t \in Threads : s # t => held[s] \cap held[t] = {}
NoDup == \A a, b \in 1..Len(unused) : a # b => unused[a] # unused[b]
InTable == \A t \in Threads : \A id \in held[t] : id < size
HeldNotUnused == \A t \in Threads : \A a \in 1..Len(unused) : unused[a] \notin held[t]
Conserved == Atomic => (UNION {held[t] : t \in Threads}) \cup {unused[a] : a \in 1..Len(unused)} = 0..(size - 1)
====
