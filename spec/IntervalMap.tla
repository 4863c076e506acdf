---- MODULE IntervalMap ----
(* A map from (half-open) integer intervals to values.  Abstract state: a partial function on the integers.  It is represented on a
   window LoKey..HiKey; the two border keys stand for "everything to the left / right", so an insertion without a left (right)
   border covers LoKey (HiKey).  Finite borders lie strictly inside the window.  0 = no value.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS LoKey, HiKey, Values
VARIABLE f
Keys == LoKey..HiKey
NoMap == [k \in Keys |-> 0]
\* [s, e) with s = LoKey: unbounded to the left, e = HiKey + 1: unbounded to the right
Range(s, e) == {k \in Keys : s <= k /\ k < e}
CanInsert(g, s, e, v) == s < e /\ \A k \in Range(s, e) : g[k] \in {0, v}
Inserted(g, s, e, v) == [k \in Keys |-> IF k \in Range(s, e) THEN v ELSE g[k]]
\* maximal runs of equal value in increasing order: the observable content of the container
Starts(g) == {k \in Keys : g[k] # 0 /\ (k = LoKey \/ g[k - 1] # g[k])}
RunEnd(g, s) == CHOOSE e \in s..HiKey : (e = HiKey \/ g[e + 1] # g[s]) /\ \A k \in s..e : g[k] = g[s]
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Runs(g) == LET ss == SortSet(Starts(g)) IN [i \in 1..Len(ss) |-> <<ss[i], RunEnd(g, ss[i]) + 1, g[ss[i]]>>]
\* observers
Find(rs, k) == IF \E i \in 1..Len(rs) : rs[i][1] <= k /\ k < rs[i][2] THEN CHOOSE i \in 1..Len(rs) : rs[i][1] <= k /\ k < rs[i][2] ELSE Len(rs) + 1
Lower(rs, k) == IF \E i \in 1..Len(rs) : k < rs[i][2] THEN CHOOSE i \in 1..Len(rs) : k < rs[i][2] /\ \A j \in 1..(i - 1) : k >= rs[j][2] ELSE Len(rs) + 1
Upper(rs, k) == IF k >= HiKey THEN Len(rs) ELSE Lower(rs, k + 1)   \* first interval with an element greater than k

Init == f = NoMap
Insert(s, e, v) == f' = IF CanInsert(f, s, e, v) THEN Inserted(f, s, e, v) ELSE f
Clear == f' = NoMap
Borders == (LoKey + 1)..HiKey
Next == \/ \E s \in Borders \cup {LoKey}, e \in Borders \cup {HiKey + 1}, v \in Values : Insert(s, e, v)
        \/ Clear
Spec == Init /\ [][Next]_f
TypeOK == f \in [Keys -> Values \cup {0}]
\* the runs are disjoint, ordered, maximal, and describe the same function
Canonical == LET rs == Runs(f) IN
   /\ \A i \in 1..Len(rs) : rs[i][1] < rs[i][2] /\ rs[i][3] # 0
   /\ \A i \in 1..(Len(rs) - 1) : rs[i][2] <= rs[i + 1][1] /\ (rs[i][2] = rs[i + 1][1] => rs[i][3] # rs[i + 1][3])
   /\ \A k \in Keys : f[k] = (LET i == Find(rs, k) IN IF i > Len(rs) THEN 0 ELSE rs[i][3])
NoOverwrite == [][\A k \in Keys : f[k] # 0 => (f'[k] = f[k] \/ f' = NoMap)]_f
\* insertions of compatible intervals commute
Commute == \A s1, e1, s2, e2 \in Borders : \A v1, v2 \in Values :
    (CanInsert(f, s1, e1, v1) /\ CanInsert(Inserted(f, s1, e1, v1), s2, e2, v2)) =>
      /\ CanInsert(f, s2, e2, v2) /\ CanInsert(Inserted(f, s2, e2, v2), s1, e1, v1)
      /\ Inserted(Inserted(f, s1, e1, v1), s2, e2, v2) = Inserted(Inserted(f, s2, e2, v2), s1, e1, v1)
====
