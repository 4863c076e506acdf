---- MODULE Symmetry ----
(* The symmetric group of the four vertices acting on the tetrahedron and on symmetric groups of degrees of freedom.
   A degree of freedom of a symmetry group is a placement of labels on the vertices of its element; a permutation
   carries the element and the placement along.  Types 0..5: node, edge, oriented edge, face, oriented face, cell. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES sg, locus
vars == <<sg, locus>>

EdgeV == << <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>> >>
\* vertices of a face in the order the face numbers its degrees of freedom
FaceV == << <<0, 1, 2>>, <<1, 2, 3>>, <<2, 3, 0>>, <<3, 0, 1>> >>
Dim(x) == <<0, 1, 1, 2, 2, 3>>[x + 1]
Count(x) == <<4, 6, 6, 4, 4, 1>>[x + 1]
Verts(x, e) == CASE Dim(x) = 0 -> <<e>> [] Dim(x) = 1 -> EdgeV[e + 1] [] Dim(x) = 2 -> FaceV[e + 1] [] Dim(x) = 3 -> <<0, 1, 2, 3>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* element with the given vertices
Elem(x, vs) == CHOOSE e \in 0..(Count(x) - 1) : SetOf(Verts(x, e)) = vs

\* placements as sequences of labels along the vertices of the element
Groups1 == << << <<0>> >> >>
Groups2 == << << <<0, 0>> >>, << <<0, 1>>, <<1, 0>> >> >>
Groups3 == << << <<0, 0, 0>> >>, << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>,
              << <<0, 1, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<0, 2, 1>>, <<2, 1, 0>>, <<1, 0, 2>> >> >>
Groups4 == << << <<0, 0, 0, 0>> >>,
              << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>,
              \* aabb abab baab abba baba bbaa
              << <<0, 0, 1, 1>>, <<0, 1, 0, 1>>, <<1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 0, 1, 0>>, <<1, 1, 0, 0>> >>,
              \* abcc bcac cabc acbc cbac bacc bcca cacb accb cbca ccab ccba, with a = 1, b = 2, c = 0 (the last two as the library lists them)
              << <<1, 2, 0, 0>>, <<2, 0, 1, 0>>, <<0, 1, 2, 0>>, <<1, 0, 2, 0>>, <<0, 2, 1, 0>>, <<2, 1, 0, 0>>,
                 <<2, 0, 0, 1>>, <<0, 1, 0, 2>>, <<1, 0, 0, 2>>, <<0, 2, 0, 1>>, <<0, 0, 2, 1>>, <<0, 0, 1, 2>> >>,
              << <<0, 1, 2, 3>>, <<1, 2, 0, 3>>, <<2, 0, 1, 3>>, <<0, 2, 1, 3>>, <<2, 1, 0, 3>>, <<1, 0, 2, 3>>,
                 <<0, 1, 3, 2>>, <<1, 2, 3, 0>>, <<2, 0, 3, 1>>, <<0, 2, 3, 1>>, <<2, 1, 3, 0>>, <<1, 0, 3, 2>>,
                 <<0, 3, 1, 2>>, <<1, 3, 2, 0>>, <<2, 3, 0, 1>>, <<0, 3, 2, 1>>, <<2, 3, 1, 0>>, <<1, 3, 0, 2>>,
                 <<3, 0, 1, 2>>, <<3, 1, 2, 0>>, <<3, 2, 0, 1>>, <<3, 0, 2, 1>>, <<3, 2, 1, 0>>, <<3, 1, 0, 2>> >> >>
Groups(x) == CASE Dim(x) = 0 -> Groups1 [] Dim(x) = 1 -> Groups2 [] Dim(x) = 2 -> Groups3 [] Dim(x) = 3 -> Groups4
Vol(x, g) == Len(Groups(x)[g + 1])
IndexIn(x, g, p) == (CHOOSE i \in 1..Vol(x, g) : Groups(x)[g + 1][i] = p) - 1

\* ---------------------------------------------------------------- permutations of vertices: functions 0..3 -> 0..3
Perms == {s \in [0..3 -> 0..3] : \A i, j \in 0..3 : i # j => s[i] # s[j]}
Compose(t, s) == [i \in 0..3 |-> t[s[i]]]
Inverse(s) == [i \in 0..3 |-> CHOOSE j \in 0..3 : s[j] = i]
ImageElem(x, e, s) == Elem(x, {s[v] : v \in SetOf(Verts(x, e))})
\* labels on the vertices after the element is carried by s, as a function of the vertex
Carried(x, e, g, l, s) == LET vs == Verts(x, e) p == Groups(x)[g + 1][l + 1]
                          IN [w \in {s[v] : v \in SetOf(vs)} |-> LET i == CHOOSE j \in 1..Len(vs) : s[vs[j]] = w IN p[i]]
Ascending(S) == LET RECURSIVE A(_) A(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE y \in T : \A z \in T : y <= z IN <<m>> \o A(T \ {m}) IN A(S)
\* index in the group when the vertices of the image are taken in ascending order
Reordered(x, e, g, l, s) == LET c == TLCEval(Carried(x, e, g, l, s)) o == TLCEval(Ascending(DOMAIN c)) IN IndexIn(x, g, [i \in 1..Len(o) |-> c[o[i]]])
\* index in the group in the numbering of the image element
Remapped(x, e, g, l, s) == LET c == TLCEval(Carried(x, e, g, l, s)) o == TLCEval(Verts(x, ImageElem(x, e, s))) IN IndexIn(x, g, [i \in 1..Len(o) |-> c[o[i]]])
\* orientation: ascending order of vertices
Inversions(q) == Cardinality({<<i, j>> \in (1..Len(q)) \X (1..Len(q)) : i < j /\ q[i] > q[j]})
Sign(x, e, s) == IF x \in {2, 4} THEN LET o == Ascending(SetOf(Verts(x, e))) IN IF Inversions([i \in 1..Len(o) |-> s[o[i]]]) % 2 = 0 THEN 1 ELSE -1 ELSE 1
Stabilizer(x, e) == {s \in Perms : {s[v] : v \in SetOf(Verts(x, e))} = SetOf(Verts(x, e))}
RECURSIVE Generated(_, _)
Generated(S, gens) == LET T == TLCEval(S \cup {Compose(g, s) : g \in gens, s \in S}) IN IF T = S THEN S ELSE Generated(T, gens)
Id == [i \in 0..3 |-> i]

\* ---------------------------------------------------------------- degrees of freedom of a map
\* ds: <<type, element, number, group, index>>; where each one goes, with its sign; several may share locus and index
SameClass(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[4] = b[4] /\ a[5] = b[5]
Image(d, s) == <<d[1], ImageElem(d[1], d[2], s), 0, d[4], IF d[4] = 255 THEN d[5] ELSE Remapped(d[1], d[2], d[4], d[5], s)>>
MapDofs(ds, s) == [j \in 1..Len(ds) |->
    LET im == TLCEval(Image(ds[j], s)) k == Cardinality({i \in 1..(j - 1) : SameClass(ds[i], ds[j])})
        cand == {i \in 1..Len(ds) : SameClass(ds[i], im)}
        to == CHOOSE i \in cand : Cardinality({h \in cand : h < i}) = k
    IN <<to - 1, Sign(ds[j][1], ds[j][2], s)>>]

\* ---------------------------------------------------------------- the model: a degree of freedom is carried step by step
AllLoci == UNION {UNION {{<<x, e, g, l>> : e \in 0..(Count(x) - 1), l \in 0..(Vol(x, g) - 1)} : g \in 0..(Len(Groups(x)) - 1)} : x \in 0..5}
Gens == { [i \in 0..3 |-> <<1, 0, 2, 3>>[i + 1]], [i \in 0..3 |-> <<1, 2, 3, 0>>[i + 1]] }
Carry(d, s) == <<d[1], ImageElem(d[1], d[2], s), d[3], Remapped(d[1], d[2], d[3], d[4], s)>>
Init == sg = Id /\ locus \in {<<d, d>> : d \in AllLoci}
Next == \E g \in Gens : sg' = Compose(g, sg) /\ locus' = <<locus[1], Carry(locus[2], g)>>
Spec == Init /\ [][Next]_vars
\* carrying step by step is carrying by the composition: the numbering is an action of the group
Action == locus[2] = Carry(locus[1], sg)
\* nothing is lost: the inverse carries back
Returns == Carry(locus[2], Inverse(sg)) = locus[1]
\* every placement of the labels of a group is listed exactly once
Multiset(p) == [v \in 0..3 |-> Cardinality({i \in 1..Len(p) : p[i] = v})]
Complete == \A x \in 0..5 : \A g \in 0..(Len(Groups(x)) - 1) :
    LET P == SetOf(Groups(x)[g + 1]) n == Dim(x) + 1
    IN Cardinality(P) = Vol(x, g) /\ P = {p \in [1..n -> 0..3] : Multiset(p) = Multiset(Groups(x)[g + 1][1])}
ASSUME Complete
Signs == \A g \in Gens : Sign(locus[1][1], locus[1][2], Compose(g, sg)) = Sign(locus[1][1], locus[1][2], sg) * Sign(locus[1][1], ImageElem(locus[1][1], locus[1][2], sg), g)
====
