---- MODULE RawLayout ----
(* Carving typed blocks out of one raw region (Ani::PlainMemory / PlainMemoryX).
   A region starts at an address whose residue modulo 16 is `base` and has `sz` bytes.  A request is a sequence of
   <<count, element size, alignment>>.  The design places the non-empty blocks one after another, each at the next
   aligned address; Enough is the size that suffices whatever the residue and the order of the blocks.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

UpTo(x, a) == ((x + a - 1) \div a) * a
Bytes(b) == b[1] * b[2]
Enough(req) == LET f(b) == IF b[1] > 0 THEN (b[3] - 1) + Bytes(b) ELSE 0
                   RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f(req[i]) + S(i - 1)
               IN S(Len(req))
\* a placement: offs[i] = offset of block i from the start of the region
Placed(req, offs, base, sz) ==
  /\ \A i \in 1..Len(req) : req[i][1] > 0 =>
        /\ (base + offs[i]) % req[i][3] = 0
        /\ offs[i] >= 0 /\ offs[i] + Bytes(req[i]) <= sz
  /\ \A i, j \in 1..Len(req) : (i # j /\ req[i][1] > 0 /\ req[j][1] > 0) =>
        (offs[i] + Bytes(req[i]) <= offs[j] \/ offs[j] + Bytes(req[j]) <= offs[i])

CONSTANTS Blocks, Tight
VARIABLES todo, cur, offs, req, base, sz, st
vars == <<todo, cur, offs, req, base, sz, st>>
\* the blocks of `req` are placed in any order; the region has exactly the promised size
Init == /\ req \in Blocks /\ base \in 0..15
        /\ sz = (IF Tight THEN LET t == Enough(req) IN IF t > 0 THEN t - 1 ELSE 0 ELSE Enough(req))
        /\ todo = {i \in 1..Len(req) : req[i][1] > 0} /\ cur = 0 /\ offs = [i \in 1..Len(req) |-> 0] /\ st = "run"
Place(i) == /\ i \in todo /\ st = "run"
            /\ LET a == UpTo(base + cur, req[i][3]) - base
               IN IF a + Bytes(req[i]) <= sz
                  THEN offs' = [offs EXCEPT ![i] = a] /\ cur' = a + Bytes(req[i]) /\ todo' = todo \ {i} /\ UNCHANGED st
                  ELSE st' = "fail" /\ UNCHANGED <<offs, cur, todo>>
            /\ UNCHANGED <<req, base, sz>>
Next == \E i \in todo : Place(i)
Spec == Init /\ [][Next]_vars
NeverFails == st # "fail"
Sound == todo = {} => Placed(req, offs, base, sz)
====
