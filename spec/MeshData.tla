---- MODULE MeshData ----
(* Degrees of freedom of a mesh function stored on the elements of the mesh.
   An element keeps its values in the order of its vertices by global number; a cell lists its vertices in an order of
   its own.  A degree of freedom of the cell is found by carrying its place along the ranks of the vertices; oriented
   ones change sign when the element is turned the other way.
   Model: two cells with a common face, arranged independently: both read the same cell of storage for a place of the
   common face, with opposite signs of normals and the same directions of edges. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Arrangements, Broken
VARIABLES gn, one, two
vars == <<gn, one, two>>
S == INSTANCE Symmetry WITH sg <- 0, locus <- 0

\* ranks of the vertices of a cell, by number
Rank(q) == [i \in 0..3 |-> Cardinality({j \in 1..4 : q[j] < q[i + 1]})]
\* the vertices of an element of the cell in ascending order of rank, as local numbers
ByRank(x, e, s) == LET vs == S!SetOf(S!Verts(x, e)) o == TLCEval(S!Ascending({s[v] : v \in vs})) IN [i \in 1..Len(o) |-> CHOOSE v \in vs : s[v] = o[i]]
Others(x, e) == S!Ascending((0..3) \ S!SetOf(S!Verts(x, e)))
Even(q) == S!Inversions(q) % 2 = 0
\* edges go from the smaller number to the larger one; faces are seen from the opposite vertex, cells are arranged positively
Sign(x, e, s) == CASE x = 2 -> IF Even(ByRank(x, e, s)) THEN 1 ELSE -1
                   [] x = 4 -> IF Broken
                               THEN IF Cardinality({k \in 0..2 : s[(e + k) % 4] > s[(e + k + 1) % 4]}) = 1 THEN 1 ELSE -1
                               ELSE IF Even(Others(x, e) \o ByRank(x, e, s)) THEN -1 ELSE 1
                   [] OTHER -> 1
\* position among the values of the element, for a degree of freedom <<type, element, number, group, index>> of a map with the counts nd
Place(d, nd, s) == (IF d[1] \in {2, 4} THEN nd[d[1]] ELSE 0) + (IF d[4] = 255 THEN d[3] ELSE d[3] - d[5] + S!Reordered(d[1], d[2], d[4], d[5], s))
\* values on an element of dimension 0..3
Stored(nd) == << nd[1], nd[2] + nd[3], nd[4] + nd[5], nd[6] >>

\* ---------------------------------------------------------------- two cells: vertices 1 2 3 are common, 4 and 5 are the tops
Seqs(V) == {q \in [1..4 -> V] : \A i, j \in 1..4 : i # j => q[i] # q[j]}
Hand(q) == Even(q)           \* 1 2 3 4 is positive, so is an even arrangement; 1 2 3 5 lies on the other side
Init == /\ gn \in {g \in [1..5 -> 1..5] : \A i, j \in 1..5 : i # j => g[i] # g[j]}
        /\ one \in {q \in Seqs({1, 2, 3, 4}) : Hand(q)} /\ two \in {q \in Seqs({1, 2, 3, 5}) : ~ Hand(q)}
        /\ (Arrangements = 0 \/ one[1] <= Arrangements)
\* a cell is arranged anew, turning three of its vertices
Turn(q) == {<<q[2], q[3], q[1], q[4]>>, <<q[1], q[3], q[4], q[2]>>}
Next == (one' \in Turn(one) /\ UNCHANGED <<gn, two>>) \/ (two' \in Turn(two) /\ UNCHANGED <<gn, one>>)
Spec == Init /\ [][Next]_vars
R(q) == Rank([i \in 1..4 |-> gn[q[i]]])
Global(q, vs) == {q[v + 1] : v \in vs}
Find(q, x, V) == CHOOSE e \in 0..(S!Count(x) - 1) : Global(q, S!SetOf(S!Verts(x, e))) = V
Labels(q, x, e, p) == [v \in Global(q, S!SetOf(S!Verts(x, e))) |-> LET vs == S!Verts(x, e) IN p[CHOOSE i \in 1..Len(vs) : q[vs[i] + 1] = v]]
FaceSigns == Sign(4, Find(one, 4, {1, 2, 3}), R(one)) = - Sign(4, Find(two, 4, {1, 2, 3}), R(two))
EdgeSigns == \A V \in {{1, 2}, {2, 3}, {1, 3}} :
    LET a == Find(one, 2, V) b == Find(two, 2, V) va == S!Verts(2, a) vb == S!Verts(2, b)
    IN Sign(2, a, R(one)) * (IF one[va[1] + 1] = two[vb[1] + 1] THEN 1 ELSE -1) = Sign(2, b, R(two))
\* the same labels on the same vertices are the same cell of storage
SameStore == \A x \in {1, 3} : \A V \in (IF x = 1 THEN {{1, 2}, {2, 3}, {1, 3}} ELSE {{1, 2, 3}}) :
    LET a == Find(one, x, V) b == Find(two, x, V) IN
    \A g \in 0..(Len(S!Groups(x)) - 1) : \A i, j \in 0..(S!Vol(x, g) - 1) :
        (S!Reordered(x, a, g, i, R(one)) = S!Reordered(x, b, g, j, R(two))) <=>
        (Labels(one, x, a, S!Groups(x)[g + 1][i + 1]) = Labels(two, x, b, S!Groups(x)[g + 1][j + 1]))
====
