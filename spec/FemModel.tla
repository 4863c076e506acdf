---- MODULE FemModel ----
(* The identities that tie the pieces of Fem together, checked for every space, operator and tetrahedron of a finite set. *)
EXTENDS Fem
CONSTANTS Tets, Spaces, VSpaces
VARIABLES T, sp
Init == T \in Tets /\ sp \in Spaces
Next == UNCHANGED <<T, sp>>
All == {0, 1, 2, 3}
Vals(p) == [n \in {<<1,2,3,1>>, <<0,1,5,2>>, <<4,1,0,0>>} |-> Eval(p, At(n))]
Same(p, q) == Vals(p) = Vals(q)
Shape == LET b == Basis(sp, T) IN Len(b) = Nfa(sp) /\ Len(Rad(sp, T)) = Nfa(sp) /\ \A i \in 1..Len(b) : Len(b[i]) = Dim(sp)
Degrees == \A i \in 1..Nfa(sp) : \A k \in 1..Dim(sp) : Degree(Basis(sp, T)[i][k]) <= Order(sp)
\* basis functions are dual to the functionals
Dual == sp.k \in ScalarLeaves \cup VectorLeaves =>
        LET b == Basis(sp, T) r == Rad(sp, T)
        IN \A i, j \in 1..Len(b) : Mul(r[i], LeafDof(sp.k, i, b[j], T)) = (IF i = j THEN r[i] ELSE 0) \/ (sp.k \in VectorLeaves /\ LeafDof(sp.k, i, b[j], T) = (IF i = j THEN 1 ELSE 0))
\* a functional has on linear functions the value at its place
AtPlace == sp.k \in ScalarLeaves => \A i \in 1..Nfa(sp) : \A j \in 1..4 : LeafDof(sp.k, i, <<Lam(j - 1)>>, T) = At(PlaceOf(sp.k, i))[j]
\* the divergence theorem ties volume, face and normal functionals
Gauss == Dim(sp) = 3 =>
         \A i \in 1..Nfa(sp) :
            LET phi == Basis(sp, T)[i]
            IN Mul(Quo(Abs(Det(T)), 6), Mean(All, Apply("DIV", phi, T)[1]))
               = Sum([f \in 1..4 |-> Mul(Inv(2), Mean({FaceV[f][v] : v \in 1..3}, DotVec(phi, FaceVec(T, f - 1))[1]))])
Grad == \A i \in 1..Nfa(sp) : \A k \in 1..Dim(sp) : \A j \in 1..3 :
            LET phi == Basis(sp, T)[i]
            IN Mul(Quo(Abs(Det(T)), 6), Mean(All, Apply("GRAD", phi, T)[3 * (k - 1) + j]))
               = Sum([f \in 1..4 |-> Mul(Quo(FaceVec(T, f - 1)[j], 2), Mean({FaceV[f][v] : v \in 1..3}, phi[k]))])
\* curl grad = 0, div curl = 0, and the partial derivatives are the rows of the gradient
Exact == \A i \in 1..Nfa(sp) :
            LET phi == Basis(sp, T)[i]
            IN /\ \A k \in 1..Dim(sp) : \A c \in 1..3 : Same(Apply("CURL", Apply("GRAD", <<phi[k]>>, T), T)[c], Zero)
               /\ Dim(sp) = 3 => Same(Apply("DIV", Apply("CURL", phi, T), T)[1], Zero)
               /\ \A k \in 1..Dim(sp) : /\ Same(Apply("DUDX", phi, T)[k], Apply("GRAD", phi, T)[3 * k - 2])
                                        /\ Same(Apply("DUDY", phi, T)[k], Apply("GRAD", phi, T)[3 * k - 1])
                                        /\ Same(Apply("DUDZ", phi, T)[k], Apply("GRAD", phi, T)[3 * k])
\* constants are reproduced by the nodal elements
Unity == sp.k \in {"P0", "P1", "P2", "P3", "CR1"} => Same(Cat([i \in 1..Nfa(sp) |-> Basis(sp, T)[i][1]]), One)
Geometry == /\ \A k \in 1..3 : Sum([i \in 1..4 |-> GradLam(T)[i][k]]) = 0
            /\ \A k, j \in 1..3 : Sum([i \in 1..4 |-> Mul(GradLam(T)[i][k], Md(T[i][j]))]) = (IF k = j THEN 1 ELSE 0)
            /\ \A f \in 0..3 : Dot3(FaceVec(T, f), Sub3(T[Opp(f) + 1], T[FaceV[f + 1][1] + 1])) < 0
            /\ \A j \in 1..3 : FaceVec(T, 0)[j] + FaceVec(T, 1)[j] + FaceVec(T, 2)[j] + FaceVec(T, 3)[j] = 0
\* the functionals determine the functions of every space of the set; interpolation of the basis functions gives them back
Independent == Unisolvent(sp) /\ Rank(Gram(sp, T)) = Nfa(sp)
Carried == Len(Locus(sp)) = Nfa(sp)
====
