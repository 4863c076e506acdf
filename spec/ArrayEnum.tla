---- MODULE ArrayEnum ----
(* Lexicographic enumeration of the set B obtained from a finite set A of N-tuples by inserting, at position n, every value
   of 0 .. rg[a[m]]-1 (positions count from 0).  This is the global numbering scheme of degrees of freedom.
   The state machine is a cursor over B (an iterator): step forward/backward, jump to a number, find a tuple.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

LexLt(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
LexLe(a, b) == a = b \/ LexLt(a, b)
Insert(a, n, s) == SubSeq(a, 1, n) \o <<s>> \o SubSeq(a, n + 1, Len(a))
Ext(A, n, m, rg) == UNION {{Insert(a, n, s) : s \in 0..(rg[a[m + 1] + 1] - 1)} : a \in A}
Rank(B, q) == Cardinality({b \in B : LexLt(b, q)})
At(B, k) == CHOOSE b \in B : Rank(B, b) = k

CONSTANTS Digits, MaxRange
VARIABLES A, n, m, rg, B, pos
vars == <<A, n, m, rg, B, pos>>
Init == /\ A \in SUBSET [1..2 -> Digits] /\ n \in 0..2 /\ m \in 0..1
        /\ rg \in [1..Cardinality(Digits) -> 0..MaxRange]
        /\ B = Ext(A, n, m, rg) /\ pos = 0
Inc == pos < Cardinality(B) /\ pos' = pos + 1 /\ UNCHANGED <<A, n, m, rg, B>>
Dec == pos > 0 /\ pos' = pos - 1 /\ UNCHANGED <<A, n, m, rg, B>>
Next == Inc \/ Dec
Spec == Init /\ [][Next]_vars
\* rank is a bijection onto 0..|B|-1, monotone, and the cursor visits the elements in order
Bijective == \A k \in 0..(Cardinality(B) - 1) : \E b \in B : Rank(B, b) = k
Inverse == \A b \in B : At(B, Rank(B, b)) = b
Monotone == \A a, b \in B : LexLt(a, b) <=> Rank(B, a) < Rank(B, b)
Size == Cardinality(B) = LET RECURSIVE S(_) S(X) == IF X = {} THEN 0 ELSE LET a == CHOOSE x \in X : TRUE IN rg[a[m + 1] + 1] + S(X \ {a}) IN S(A)
StepOrder == [][(pos' = pos + 1) => (pos' >= Cardinality(B) \/ LexLt(At(B, pos), At(B, pos')))]_vars
====
