---- MODULE DofMap ----
(* Degrees of freedom of a space on one tetrahedron.
   A map is a term:  U - counts per element type, S - counts per symmetry group, V - d copies of a map,
   C - concatenation of maps.  Its meaning is the sequence of degrees of freedom in the order of the contiguous
   tetrahedron index: <<type, element, number on the element, symmetry group, number in the group>>.
   Types 0..5: node, edge, oriented edge, face, oriented face, cell. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Bases, MaxOps, MaxDofs
VARIABLES term, nops
vars == <<term, nops>>

NE == <<4, 6, 6, 4, 4, 1>>
DM == <<0, 1, 1, 2, 2, 3>>
Vol == << <<1>>, <<1, 2>>, <<1, 2>>, <<1, 3, 6>>, <<1, 3, 6>>, <<1, 4, 6, 12, 24>> >>
NoSym == <<255, 255>>
T6 == 0..5
Sum(s) == LET RECURSIVE S(_) S(n) == IF n = 0 THEN 0 ELSE s[n] + S(n - 1) IN S(Len(s))
Cat(ss) == LET RECURSIVE S(_) S(n) == IF n = 0 THEN <<>> ELSE S(n - 1) \o ss[n] IN S(Len(ss))
Rep(n, F(_)) == [i \in 1..n |-> F(i - 1)]

\* ---------------------------------------------------------------- counts
RECURSIVE NumDofs(_)
NumDofs(t) == CASE t.k = "U" -> t.n
                [] t.k = "S" -> [x \in 1..6 |-> Sum([g \in 1..Len(Vol[x]) |-> Vol[x][g] * t.s[x][g]])]
                [] t.k = "V" -> LET b == TLCEval(NumDofs(t.b)) IN [x \in 1..6 |-> t.d * b[x]]
                [] t.k = "C" -> LET b == TLCEval([i \in 1..Len(t.p) |-> NumDofs(t.p[i])])
                                IN [x \in 1..6 |-> Sum([i \in 1..Len(t.p) |-> b[i][x]])]
OnTet(nd) == [x \in 1..6 |-> NE[x] * nd[x]]
Total(nd) == Sum(OnTet(nd))
MaskSet(m) == {x \in T6 : (m \div (2 ^ x)) % 2 = 1}
CountMask(nd, m) == Sum([x \in 1..6 |-> IF (x - 1) \in MaskSet(m) THEN NE[x] * nd[x] ELSE 0])
GeomMask(nd) == Sum([x \in 1..6 |-> IF nd[x] > 0 THEN 2 ^ (x - 1) ELSE 0])
\* symmetry groups in use on a type; bit 5: no symmetry structure is known
RECURSIVE SymBits(_, _)
SymBits(t, x) == CASE t.k = "U" -> {5}
                   [] t.k = "S" -> {g \in 0..(Len(Vol[x + 1]) - 1) : t.s[x + 1][g + 1] > 0}
                   [] t.k = "V" -> SymBits(t.b, x)
                   [] t.k = "C" -> UNION {SymBits(t.p[i], x) : i \in 1..Len(t.p)}

\* ---------------------------------------------------------------- the degrees of freedom
SymOf(t, x, leid) ==
    IF t.k = "U" THEN NoSym
    ELSE LET RECURSIVE G(_, _)
             G(g, off) == LET w == Vol[x + 1][g] * t.s[x + 1][g] IN IF leid < off + w THEN <<g - 1, (leid - off) % Vol[x + 1][g]>> ELSE G(g + 1, off + w)
         IN G(1, 0)
LeafDofs(t) == LET nd == TLCEval(NumDofs(t))
               IN Cat([x \in 1..6 |-> Cat([e \in 1..NE[x] |-> [l \in 1..nd[x] |-> <<x - 1, e - 1, l - 1>> \o SymOf(t, x - 1, l - 1)]])])
Shift(ds, by) == [i \in 1..Len(ds) |-> [ds[i] EXCEPT ![3] = @ + by[ds[i][1] + 1]]]
RECURSIVE Dofs(_)
Dofs(t) == CASE t.k \in {"U", "S"} -> LeafDofs(t)
             [] t.k = "V" -> LET b == TLCEval(Dofs(t.b)) nb == TLCEval(NumDofs(t.b))
                             IN Cat([c \in 1..t.d |-> Shift(b, [x \in 1..6 |-> (c - 1) * nb[x]])])
             [] t.k = "C" -> LET ns == TLCEval([i \in 1..Len(t.p) |-> NumDofs(t.p[i])])
                             IN Cat([i \in 1..Len(t.p) |-> Shift(Dofs(t.p[i]), [x \in 1..6 |-> Sum([j \in 1..(i - 1) |-> ns[j][x]])])])
Geom(d) == <<d[1], d[2], d[3]>>
\* contiguous index of a geometric locus
IndexOf(ds, g) == CHOOSE i \in 0..(Len(ds) - 1) : Geom(ds[i + 1]) = g

\* ---------------------------------------------------------------- subspaces
RECURSIVE SubTerm(_, _)
\* path (component numbers, from 0) -> the subspace, or "none"
Child(t, i) == IF t.k = "V" /\ i >= 0 /\ i < t.d THEN t.b ELSE IF t.k = "C" /\ i >= 0 /\ i < Len(t.p) THEN t.p[i + 1] ELSE [k |-> "none"]
SubTerm(t, path) == IF path = <<>> THEN t
                    ELSE LET ch == Child(t, Head(path)) IN IF ch.k = "none" THEN ch ELSE SubTerm(ch, Tail(path))
\* number of degrees of freedom before component i of a map, in all (0) and per element type (1..6)
Before(t, i) == IF t.k = "V" THEN LET nb == NumDofs(t.b) IN <<i * Total(nb)>> \o [x \in 1..6 |-> i * nb[x]]
                ELSE LET ns == TLCEval([j \in 1..i |-> NumDofs(t.p[j])])
                     IN <<Sum([j \in 1..i |-> Total(ns[j])])>> \o [x \in 1..6 |-> Sum([j \in 1..i |-> ns[j][x]])]
RECURSIVE PathShift(_, _)
PathShift(t, path) == IF path = <<>> THEN <<0, 0, 0, 0, 0, 0, 0>>
                      ELSE LET b == TLCEval(Before(t, Head(path))) r == TLCEval(PathShift(Child(t, Head(path)), Tail(path)))
                           IN [x \in 1..7 |-> b[x] + r[x]]

\* ---------------------------------------------------------------- enumeration of the part of the tetrahedron
\* sp: 4 sets of element numbers (by dimension); without preference: component by component
Positions(sp) == Cat([d \in 1..4 |-> LET n == <<4, 6, 4, 1>>[d] IN SelectSeq(Rep(n, LAMBDA e : <<d - 1, e>>), LAMBDA p : p[2] \in sp[d])])
TypesOfDim == << <<0>>, <<1, 2>>, <<3, 4>>, <<5>> >>
LeafIter(t, sp) == LET nd == TLCEval(NumDofs(t))
                       st == TLCEval([x \in 1..6 |-> Sum([y \in 1..(x - 1) |-> NE[y] * nd[y]])])
                       One(p) == Cat([j \in 1..Len(TypesOfDim[p[1] + 1]) |-> LET x == TypesOfDim[p[1] + 1][j] + 1
                                                                             IN [l \in 1..nd[x] |-> st[x] + p[2] * nd[x] + l - 1]])
                       ps == TLCEval(Positions(sp))
                   IN Cat([i \in 1..Len(ps) |-> One(ps[i])])
RECURSIVE Iter(_, _)
Iter(t, sp) == CASE t.k \in {"U", "S"} -> LeafIter(t, sp)
                 [] t.k = "V" -> LET b == TLCEval(Iter(t.b, sp)) n == Total(NumDofs(t.b)) IN Cat([c \in 1..t.d |-> [i \in 1..Len(b) |-> b[i] + (c - 1) * n]])
                 [] t.k = "C" -> LET off == TLCEval([i \in 1..Len(t.p) |-> Before(t, i - 1)[1]])
                                 IN Cat([i \in 1..Len(t.p) |-> LET b == TLCEval(Iter(t.p[i], sp)) IN [j \in 1..Len(b) |-> b[j] + off[i]]])
Single(p) == [d \in 1..4 |-> IF d = p[1] + 1 THEN {p[2]} ELSE {}]
\* element by element, on one element component by component
IterGeom(t, sp) == LET ps == TLCEval(Positions(sp)) IN Cat([i \in 1..Len(ps) |-> Iter(t, Single(ps[i]))])

\* ---------------------------------------------------------------- algebra
Same(a, b) == a = b
Vec(d, b) == [k |-> "V", d |-> d, b |-> b]
Com(p) == [k |-> "C", p |-> p]
IsLeaf(t) == t.k \in {"U", "S"}
Butlast(s) == SubSeq(s, 1, Len(s) - 1)
Splice(t) == IF t.k = "C" THEN t.p ELSE <<t>>
RECURSIVE Mul(_, _)
\* the product with simplification: neighbours that are equal are gathered into a vector
Mul(a, b) ==
    IF Same(a, b) THEN IF a.k = "V" THEN Vec(a.d + b.d, a.b) ELSE Vec(2, a)
    ELSE IF a.k = "C" /\ b.k = "C" THEN
        IF a.p # <<>> /\ b.p # <<>> THEN Com(Butlast(a.p) \o Splice(Mul(a.p[Len(a.p)], b.p[1])) \o Tail(b.p)) ELSE Com(a.p \o b.p)
    ELSE IF a.k = "C" THEN (IF a.p = <<>> THEN Com(<<b>>) ELSE Com(Butlast(a.p) \o Splice(Mul(a.p[Len(a.p)], b))))
    ELSE IF b.k = "C" THEN (IF b.p = <<>> THEN Com(<<a>>) ELSE Com(Splice(Mul(a, b.p[1])) \o Tail(b.p)))
    ELSE IF a.k = "V" /\ b.k # "V" /\ Same(a.b, b) THEN Vec(a.d + 1, a.b)
    ELSE IF b.k = "V" /\ a.k # "V" /\ Same(b.b, a) THEN Vec(b.d + 1, b.b)
    ELSE Com(<<a, b>>)
PowS(a, k) == IF a.k = "V" THEN Vec(a.d * k, a.b) ELSE Vec(k, a)
MergeS(ts) == LET RECURSIVE M(_) M(i) == IF i = 1 THEN ts[1] ELSE Mul(M(i - 1), ts[i]) IN M(Len(ts))
\* runs of equal neighbours become vectors
Compress(ts) == IF Len(ts) <= 1 THEN Com(ts)
                ELSE LET RECURSIVE R(_, _)
                         R(i, run) == IF i > Len(ts) THEN <<IF run = 1 THEN ts[i - 1] ELSE Vec(run, ts[i - 1])>>
                                      ELSE IF Same(ts[i], ts[i - 1]) THEN R(i + 1, run + 1)
                                      ELSE <<IF run = 1 THEN ts[i - 1] ELSE Vec(run, ts[i - 1])>> \o R(i + 1, 1)
                     IN Com(R(2, 1))

\* ---------------------------------------------------------------- the model: maps built step by step
Init == term \in Bases /\ nops = 0
Small(t) == Total(NumDofs(t)) <= MaxDofs
Step == /\ nops < MaxOps /\ nops' = nops + 1
        /\ \/ \E k \in 1..3 : term' = Vec(k, term)
           \/ \E k \in 1..2 : term' = PowS(term, k)
           \/ \E b \in Bases : term' = Com(<<term, b>>) \/ term' = Com(<<b, term>>) \/ term' = Mul(term, b) \/ term' = Mul(b, term)
           \/ term' = Mul(term, term)
           \/ \E a, b \in Bases : term' = Mul(term, Mul(a, b)) \/ term' = Compress(<<a, term, term, b>>)
        /\ Small(term')
Next == Step
Spec == Init /\ [][Next]_vars

Full == << 0..3, 0..5, 0..3, {0} >>
Parts == {Full, <<{}, {}, {}, {}>>, <<{0, 2}, {}, {1}, {0}>>, <<{}, {1, 5}, {3, 2}, {}>>, <<{3}, 0..5, {}, {0}>>, <<{1}, {0}, {0, 3}, {}>>}
Ix(s) == {s[i] : i \in 1..Len(s)}
Inj(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
\* every locus of the tetrahedron has exactly one index and vice versa
Bijection == LET ds == TLCEval(Dofs(term)) nd == TLCEval(NumDofs(term))
             IN /\ Len(ds) = Total(nd)
                /\ {Geom(ds[i]) : i \in 1..Len(ds)} = UNION {{<<x, e, l>> : e \in 0..(NE[x + 1] - 1), l \in 0..(nd[x + 1] - 1)} : x \in T6}
\* the enumeration of a part visits each degree of freedom on it exactly once
OnPart == LET ds == TLCEval(Dofs(term)) IN
          \A sp \in Parts : LET a == TLCEval(Iter(term, sp)) b == TLCEval(IterGeom(term, sp))
                                want == {i \in 0..(Len(ds) - 1) : ds[i + 1][2] \in sp[DM[ds[i + 1][1] + 1] + 1]}
                            IN Ix(a) = want /\ Inj(a) /\ Ix(b) = want /\ Inj(b)
                               /\ \A i \in 1..(Len(b) - 1) : LET u == ds[b[i] + 1] w == ds[b[i + 1] + 1]
                                                                 du == DM[u[1] + 1] dw == DM[w[1] + 1] IN du < dw \/ (du = dw /\ u[2] <= w[2])
\* simplification keeps every degree of freedom where it was
SimplifyKeeps == \A b \in Bases :
    /\ Dofs(Mul(term, b)) = Dofs(Com(<<term, b>>)) /\ Dofs(Mul(b, term)) = Dofs(Com(<<b, term>>))
    /\ Dofs(PowS(term, 2)) = Dofs(Vec(2, term))
    /\ Dofs(Compress(<<term, term, b>>)) = Dofs(Com(<<term, term, b>>))
\* a subspace occupies a contiguous range of indices, shifted the same way on every element
Nested == \A i \in 0..3 : Child(term, i).k # "none" =>
             LET c == Child(term, i) s == TLCEval(PathShift(term, <<i>>)) ds == TLCEval(Dofs(term))
             IN SubSeq(ds, s[1] + 1, s[1] + Total(NumDofs(c))) = Shift(Dofs(c), [x \in 1..6 |-> s[x + 1]])
====
