---- MODULE GeoModel ----
(* The facts on which the statements about geometry rest, checked for all small integer matrices: elimination with complete
   pivoting (fraction-free, so that all numbers stay whole), as a state machine, ends with the determinant and only takes
   maximal pivots; Cramer's rule; the outward normals of a tetrahedron with the lengths of twice the areas sum up to zero. *)
EXTENDS Geometry
CONSTANTS Dm, Top, Lo   \* Lo: least entry of the first row and column
VARIABLES A, W, k, prev, sgn, p, q, st
vars == <<A, W, k, prev, sgn, p, q, st>>
Ent == (-Top)..Top
Ix == 0..Dm - 1
Init == /\ A \in [1..(Dm * Dm) -> Ent] /\ (\A c \in 1..(Dm * Dm) : c <= Dm \/ c % Dm = 1 => A[c] >= Lo) /\ W = A /\ k = 0 /\ prev = 1 /\ sgn = 1 /\ p = Up(Dm) /\ q = Up(Dm) /\ st = "run"
w(i, j) == At(W, Dm, i, j)
Left == {ij \in (k..Dm - 1) \X (k..Dm - 1) : TRUE}
Best == {ij \in Left : w(ij[1], ij[2]) # 0 /\ \A kl \in Left : Abs(w(ij[1], ij[2])) >= Abs(w(kl[1], kl[2]))}
Swp(i, a, b) == IF i = a THEN b ELSE IF i = b THEN a ELSE i
SwpS(s, a, b) == [c \in 1..Len(s) |-> s[Swp(c - 1, a, b) + 1]]
Step(ij) == LET V(i, j) == w(Swp(i, k, ij[1]), Swp(j, k, ij[2])) pv == V(k, k)
            IN /\ W' = [c \in 1..(Dm * Dm) |-> LET i == (c - 1) % Dm j == (c - 1) \div Dm
                                             IN IF i > k /\ j > k THEN (pv * V(i, j) - V(i, k) * V(k, j)) \div prev ELSE V(i, j)]
               /\ p' = SwpS(p, k, ij[1]) /\ q' = SwpS(q, k, ij[2])
               /\ sgn' = sgn * (IF ij[1] = k THEN 1 ELSE -1) * (IF ij[2] = k THEN 1 ELSE -1)
               /\ prev' = pv /\ k' = k + 1 /\ UNCHANGED A
               /\ st' = IF k + 1 = Dm THEN "done" ELSE "run"
Next == /\ st = "run"
        /\ \/ \E ij \in Best : Step(ij)
           \/ Best = {} /\ st' = "singular" /\ UNCHANGED <<A, W, k, prev, sgn, p, q>>
\* every entry in the remaining square is a minor of the permuted matrix (so the division is exact and pivots are the quotients)
Entries == \A i, j \in k..Dm - 1 : Md(w(i, j)) = Minor(A, Dm, SubSeq(p, 1, k) \o <<p[i + 1]>>, SubSeq(q, 1, k) \o <<q[j + 1]>>)
DetOk == /\ st = "done" => Md(sgn * prev) = Det(A, Dm)
         /\ st = "singular" => Det(A, Dm) = 0
\* the factors: L(i,c) = w(i,c)/w(c,c), U(c,j) = w(c,j)/prev(c); multipliers are at most 1, pivots maximal in their row
Multipliers == \A c \in 0..k - 1 : \A i \in c..Dm - 1 : Abs(w(i, c)) <= Abs(w(c, c)) /\ Abs(w(c, i)) <= Abs(w(c, c))
Pv(c) == IF c = 0 THEN 1 ELSE w(c - 1, c - 1)
Factors == st = "done" => \A i, j \in Ix :
             Sum([c \in 1..(1 + (IF i < j THEN i ELSE j)) |->
                    Quo(Mul(Md(w(i, c - 1)), Md(w(c - 1, j))), Mul(Md(w(c - 1, c - 1)), Md(Pv(c - 1))))])
             = Md(At(A, Dm, p[i + 1], q[j + 1]))
\* Cramer: the matrix of cofactors solves A X = det(A) I
Cof(i, j) == LET d == Minor(A, Dm, RemoveAt(Up(Dm), j + 1), RemoveAt(Up(Dm), i + 1)) IN IF (i + j) % 2 = 0 THEN d ELSE Md(-d)
Cramer == st = "run" /\ k = 0 => LET X == [c \in 1..(Dm * Dm) |-> Cof((c - 1) % Dm, (c - 1) \div Dm)]
                                 IN MatEq(A, Dm, Dm, X, Dm, Unit(Dm), Det(A, Dm))
\* Cauchy-Binet: sums of squared minors are the invariants of A^T A
Gram == [c \in 1..(Dm * Dm) |-> Prod([t \in 1..(Dm * Dm) |-> At(A, Dm, (t - 1) \div Dm, (t - 1) % Dm)], Dm, Dm, A, (c - 1) % Dm, (c - 1) \div Dm)]
Binet == st = "run" /\ k = 0 => \A s \in 1..Dm : Sym(A, Dm, Dm, s) = Sum([t \in 1..Len(SetToSeq(Choose(Dm, s))) |-> LET r == SetToSeq(Choose(Dm, s))[t] IN Minor(Gram, Dm, r, r)])
\* the tetrahedron 0, columns of A
Tet == <<<<0, 0, 0>>>> \o [j \in 1..3 |-> [i \in 1..3 |-> At(A, 3, i - 1, j - 1)]]
Closed == Dm = 3 /\ st = "run" /\ k = 0 /\ Det(A, 3) # 0 =>
            \A c \in 1..3 : FaceOf(Tet, 0)[c] + FaceOf(Tet, 1)[c] + FaceOf(Tet, 2)[c] + FaceOf(Tet, 3)[c] = 0
====
