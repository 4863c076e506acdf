---- MODULE Sparsity ----
(* A part of the tetrahedron: a set of its elements <<dimension, number>>, dimension 0..3. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLE sp
N(d) == <<4, 6, 4, 1>>[d + 1]
Elems == UNION {{<<d, i>> : i \in 0..(N(d) - 1)} : d \in 0..3}
Verts(x) == CASE x[1] = 0 -> {x[2]}
              [] x[1] = 1 -> << {0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3} >>[x[2] + 1]
              [] x[1] = 2 -> << {0, 1, 2}, {1, 2, 3}, {0, 2, 3}, {0, 1, 3} >>[x[2] + 1]
              [] x[1] = 3 -> {0, 1, 2, 3}
Closure(x) == {y \in Elems : Verts(y) \subseteq Verts(x)}
OfDim(d) == {x \in Elems : x[1] = d}
What(x, cl) == IF cl THEN Closure(x) ELSE {x}
Set(S, x, cl) == S \cup What(x, cl)
Unset(S, x, cl) == S \ What(x, cl)
\* elements of one dimension, ascending; all elements in the order of traversal
Ids(S, d) == LET RECURSIVE Q(_) Q(i) == IF i = N(d) THEN <<>> ELSE (IF <<d, i>> \in S THEN <<i>> ELSE <<>>) \o Q(i + 1) IN Q(0)
Walk(S) == LET RECURSIVE Q(_) Q(d) == IF d = 4 THEN <<>> ELSE [i \in 1..Len(Ids(S, d)) |-> <<d, Ids(S, d)[i]>>] \o Q(d + 1) IN Q(0)
Init == sp = {}
Next == \/ \E x \in Elems, cl \in BOOLEAN : sp' = Set(sp, x, cl) \/ sp' = Unset(sp, x, cl)
        \/ \E d \in 0..3 : sp' = sp \cup OfDim(d) \/ sp' = sp \ OfDim(d)
        \/ sp' = Elems \ sp
Spec == Init /\ [][Next]_sp
Closed(S) == \A x \in S : Closure(x) \subseteq S
\* the traversal visits exactly the chosen elements; the closure of an element is closed and has the right number of elements
WalkAll == LET w == Walk(sp) IN Len(w) = Cardinality(sp) /\ {w[i] : i \in 1..Len(w)} = sp
ClosureShape == \A x \in Elems : Closed(Closure(x)) /\ Cardinality(Closure(x)) = <<1, 3, 7, 15>>[x[1] + 1]
StaysClosed == Closed(sp) => \A x \in Elems : Closed(Set(sp, x, TRUE))
====
