---- MODULE MemPool ----
(* The chunked work-memory pool (Ani::DynMem) as a transition system.
   A pool is a sequence of chunks; a chunk has capacities and a bump mark per element kind (1 = scalars, 2 = indices,
   3 = matrices).  A part (handle) is a block of each kind inside one chunk.  Freeing the youngest part of a chunk
   lowers the marks, freeing an older one leaves a hole until the chunk is empty.
   The operators are pure (pool -> pool) so that the trace specification runs the same design.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Kinds == 1..3
EmptyPool == <<>>
Zero3 == <<0, 0, 0>>
NewChunk == [cap |-> Zero3, busy |-> Zero3, n |-> 0, next |-> 0]
Dead == [c |-> 0, pid |-> 0, off |-> Zero3, size |-> Zero3]

Fits(ch, s) == \A k \in Kinds : ch.busy[k] = 0 \/ ch.cap[k] >= ch.busy[k] + s[k]
FirstFit(pool, s) ==
  IF \E c \in 1..Len(pool) : Fits(pool[c], s)
  THEN CHOOSE c \in 1..Len(pool) : Fits(pool[c], s) /\ \A d \in 1..(c - 1) : ~Fits(pool[d], s)
  ELSE Len(pool) + 1

\* result: [pool |-> , part |-> ]
DoAlloc(pool, s) ==
  LET c  == FirstFit(pool, s)
      ch == IF c > Len(pool) THEN NewChunk ELSE pool[c]
      grown(k) == IF s[k] > 0 /\ ch.busy[k] = 0 /\ ch.cap[k] < s[k] THEN s[k] ELSE ch.cap[k]
      ch2 == [cap  |-> <<grown(1), grown(2), grown(3)>>,
              busy |-> <<ch.busy[1] + s[1], ch.busy[2] + s[2], ch.busy[3] + s[3]>>,
              n |-> ch.n + 1, next |-> ch.next + 1]
      part == [c |-> c, pid |-> ch.next, off |-> ch.busy, size |-> s]
  IN [pool |-> IF c > Len(pool) THEN Append(pool, ch2) ELSE [pool EXCEPT ![c] = ch2], part |-> part]

Lower(busy, s) == <<busy[1] - s[1], busy[2] - s[2], busy[3] - s[3]>>
DoFree(pool, p) ==
  LET ch == pool[p.c]
      youngest == p.pid + 1 = ch.next
      ch2 == IF ch.n = 1 THEN [ch EXCEPT !.n = 0, !.busy = Zero3, !.next = 0]
             ELSE IF youngest THEN [ch EXCEPT !.n = @ - 1, !.busy = Lower(@, p.size), !.next = @ - 1]
             ELSE [ch EXCEPT !.n = @ - 1]
  IN [pool EXCEPT ![p.c] = ch2]
\* the wrong variant: the part id is the number of parts alive at allocation time, so ids repeat after a hole
DoAllocNaive(pool, s) == LET r == DoAlloc(pool, s) IN [r EXCEPT !.part.pid = r.pool[r.part.c].n - 1]
DoFreeNaive(pool, p) ==
  LET ch == pool[p.c]
      ch1 == [ch EXCEPT !.n = @ - 1]
      ch2 == IF ch1.n = p.pid THEN [ch1 EXCEPT !.busy = Lower(@, p.size)] ELSE ch1
  IN [pool EXCEPT ![p.c] = IF ch2.n = 0 THEN [ch2 EXCEPT !.busy = Zero3] ELSE ch2]

SumCap(pool, k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE pool[i].cap[k] + S(i - 1) IN S(Len(pool))
AllFree(pool) == \A c \in 1..Len(pool) : pool[c].n = 0
\* merging is refused while a block is alive; a pool of at most one chunk has nothing to merge
DefragRefused(pool) == Len(pool) > 1 /\ ~AllFree(pool)
DoDefrag(pool) == IF Len(pool) <= 1 THEN pool
                  ELSE <<[NewChunk EXCEPT !.cap = <<SumCap(pool, 1), SumCap(pool, 2), SumCap(pool, 3)>>]>>

CONSTANTS Handles, Sizes, MaxOps, Naive
VARIABLES pool, part, nops
vars == <<pool, part, nops>>

Alive(h) == part[h] # Dead
Init == pool = EmptyPool /\ part = [h \in Handles |-> Dead] /\ nops = 0
Alloc(h, s) == /\ ~Alive(h)
               /\ LET r == IF Naive THEN DoAllocNaive(pool, s) ELSE DoAlloc(pool, s)
                  IN pool' = r.pool /\ part' = [part EXCEPT ![h] = r.part]
Free(h) == /\ Alive(h)
           /\ pool' = IF Naive THEN DoFreeNaive(pool, part[h]) ELSE DoFree(pool, part[h])
           /\ part' = [part EXCEPT ![h] = Dead]
Move(h, g) == /\ h # g /\ Alive(h)
              /\ pool' = IF Alive(g) THEN DoFree(pool, part[g]) ELSE pool
              /\ part' = [part EXCEPT ![g] = part[h], ![h] = Dead]
Defrag == ~DefragRefused(pool) /\ pool' = DoDefrag(pool) /\ UNCHANGED part
          /\ (\A h \in Handles : Alive(h) => Len(pool) <= 1)
Next == /\ nops < MaxOps /\ nops' = nops + 1
        /\ \/ \E h \in Handles, s \in Sizes : Alloc(h, s)
           \/ \E h \in Handles : Free(h)
           \/ \E h, g \in Handles : ~Naive /\ Move(h, g)
           \/ Defrag
Spec == Init /\ [][Next]_vars

Overlap(p, q, k) == p.c = q.c /\ p.size[k] > 0 /\ q.size[k] > 0
                    /\ p.off[k] < q.off[k] + q.size[k] /\ q.off[k] < p.off[k] + p.size[k]
Disjoint == \A h, g \in Handles : (h # g /\ Alive(h) /\ Alive(g)) => \A k \in Kinds : ~Overlap(part[h], part[g], k)
InChunk == \A h \in Handles : Alive(h) => \A k \in Kinds :
              part[h].size[k] > 0 => part[h].off[k] + part[h].size[k] <= pool[part[h].c].cap[k]
Counted == \A c \in 1..Len(pool) : pool[c].n = Cardinality({h \in Handles : Alive(h) /\ part[h].c = c})
EmptyIsReset == \A c \in 1..Len(pool) : pool[c].n = 0 => pool[c].busy = Zero3 /\ pool[c].next = 0
MarkAbove == \A h \in Handles : Alive(h) => \A k \in Kinds : part[h].off[k] + part[h].size[k] <= pool[part[h].c].busy[k]
\* capacity is never lost, and a merged (single chunk) idle pool does not grow for a request it can hold
NoLoss == [][\A k \in Kinds : SumCap(pool', k) >= SumCap(pool, k)]_vars
NoNeedlessGrowth == [][(Len(pool) = 1 /\ pool[1].n = 0 /\ \A s \in Sizes, k \in Kinds : pool[1].cap[k] >= s[k])
                       => (\A k \in Kinds : SumCap(pool', k) = SumCap(pool, k))]_vars
====
