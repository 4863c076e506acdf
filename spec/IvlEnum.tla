---- MODULE IvlEnum ----
(* interval_enum: the numbering 0,1,2,.. of an increasing list of integers stored by intervals of consecutive values.  A cursor walks it. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Universe
VARIABLES V, cur            \* V: the values in increasing order; cur: position of the cursor (Len(V) = end)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sort(S \ {m})
\* storage: <<number of first value of the interval, first value>> for each maximal interval, then a closing pair
Blocks(s) == LET st == Sort({i \in 1..Len(s) : i = 1 \/ s[i - 1] + 1 # s[i]})
             IN [k \in 1..Len(st) |-> <<st[k] - 1, s[st[k]]>>] \o (IF s = <<>> THEN <<>> ELSE << <<Len(s), s[Len(s)] + 1>> >>)
\* decoding the storage gives the list back
Decode(b) == IF b = <<>> THEN <<>> ELSE [i \in 1..b[Len(b)][1] |-> LET k == CHOOSE k \in 1..(Len(b) - 1) : b[k][1] <= i - 1 /\ i - 1 < b[k + 1][1] IN b[k][2] + (i - 1 - b[k][1])]
FindRight(s, v) == IF \E i \in 1..Len(s) : s[i] = v THEN (CHOOSE i \in 1..Len(s) : s[i] = v) - 1 ELSE Len(s)
LowerRight(s, v) == Cardinality({i \in 1..Len(s) : s[i] < v})
FindLeft(s, n) == IF n >= 0 /\ n < Len(s) THEN n ELSE Len(s)
LowerLeft(s, n) == IF n < 0 THEN 0 ELSE FindLeft(s, n)
Init == \E S \in SUBSET Universe : V = Sort(S) /\ cur = 0
Fwd == cur < Len(V) /\ cur' = cur + 1 /\ UNCHANGED V
Bwd == cur > 0 /\ cur' = cur - 1 /\ UNCHANGED V
Next == Fwd \/ Bwd
Spec == Init /\ [][Next]_<<V, cur>>
RoundTrip == Increasing(V) /\ Decode(Blocks(V)) = V
Inverse == \A i \in 0..(Len(V) - 1) : FindRight(V, V[i + 1]) = i
Bounds == \A v \in Universe : LET k == LowerRight(V, v) IN (k > 0 => V[k] < v) /\ (k < Len(V) => V[k + 1] >= v)
====
