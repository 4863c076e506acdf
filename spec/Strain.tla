---- MODULE Strain ----
(* Hyperelasticity: invariants of the right Cauchy-Green tensor C = I + 2 E of a deformation F (C = F^T F), their first and
   second derivatives by E, kinematics and stresses (anifem++/autodiff/cauchy_strain_*.h).

   Matrices are sequences of 9 integers, row by row.  Invariants are integer polynomials in C; a derivative by E along the
   symmetric matrix (e_i e_j^T + e_j e_i^T) / 2 is a derivative by C along e_i e_j^T + e_j e_i^T, and is obtained exactly from
   differences of values (the polynomials have degree at most 3). *)
EXTENDS AutoDiff, Tensor

Ut == UT(6)
\* the directions, in the order in which symmetric matrices are stored: 00, 01, 02, 11, 12, 22
Slots == SlotsOf["sym"][3]
Dir == [k \in 1..6 |-> [q \in 1..9 |-> LET i == (q - 1) \div 3 j == (q - 1) % 3 t == Slots[k]
                                       IN (IF <<i, j>> = t THEN 1 ELSE 0) + (IF <<j, i>> = t THEN 1 ELSE 0)]]
MM(a, b) == TLCEval([q \in 1..9 |-> LET i == (q - 1) \div 3 j == (q - 1) % 3 IN a[3 * i + 1] * b[j + 1] + a[3 * i + 2] * b[j + 4] + a[3 * i + 3] * b[j + 7]])
Tr(a) == a[1] + a[5] + a[9]
TT(a) == [q \in 1..9 |-> a[3 * ((q - 1) % 3) + (q - 1) \div 3 + 1]]
MV(a, v) == [i \in 1..3 |-> a[3 * i - 2] * v[1] + a[3 * i - 1] * v[2] + a[3 * i] * v[3]]
VV(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
MAdd(a, c, b) == TLCEval([q \in 1..9 |-> a[q] + c * b[q]])
Id3 == Ident(3, 1)
Det3(a) == a[1] * (a[5] * a[9] - a[6] * a[8]) - a[2] * (a[4] * a[9] - a[6] * a[7]) + a[3] * (a[4] * a[8] - a[5] * a[7])

Names == {"I0", "I1", "I2", "I3", "I4", "I5"}
\* value of an invariant, exactly
Val(nm, C, f, s) == CASE nm = "I0" -> VV(f, s)
                      [] nm = "I1" -> Tr(C)
                      [] nm = "I2" -> (Tr(C) * Tr(C) - Tr(MM(C, C))) \div 2
                      [] nm = "I3" -> Det3(C)
                      [] nm = "I4" -> VV(f, MV(C, s))
                      [] nm = "I5" -> VV(MV(C, f), MV(C, s))
Grad(nm, C, f, s) == [k \in 1..6 |-> LET V(t) == Val(nm, MAdd(C, t, Dir[k]), f, s) IN (8 * (V(1) - V(-1)) - (V(2) - V(-2))) \div 12]
Hess(nm, C, f, s) == [k \in 1..21 |-> LET V(t, u) == Val(nm, MAdd(MAdd(C, t, Dir[Ut[k][1]]), u, Dir[Ut[k][2]]), f, s)
                                      IN (V(1, 1) - V(1, -1) - V(-1, 1) + V(-1, -1)) \div 4]
MdAll(s) == [i \in 1..Len(s) |-> Md(s[i])]
JetOf(nm, C, f, s) == TLCEval([v |-> Md(Val(nm, C, f, s)), g |-> MdAll(Grad(nm, C, f, s)), h |-> MdAll(Hess(nm, C, f, s))])
\* J = sqrt(det C), j its value
JetJ(C, j) == SqrtJet(Ut, JetOf("I3", C, <<0, 0, 0>>, <<0, 0, 0>>), Md(j))

(* Kinematics.  twice E and twice its variation along dF *)
Twice(F) == [q \in 1..9 |-> MM(TT(F), F)[q] - Id3[q]]
TwiceVar(F, dF) == MAdd(MM(TT(F), dF), 1, MM(TT(dF), F))
\* first Piola-Kirchhoff stress, and its derivative by F: d_ik S_lj + F_in F_km dS_njml
Stress(F, S) == MM(F, S)
F3(F, i, j) == F[3 * i + j + 1]
DStress(F, S, dS) == [q \in 1..81 |-> LET t == TupleNo("ten", 3, q) i == t[1] j == t[2] k == t[3] l == t[4]
                                     IN (IF i = k THEN F3(S, l, j) ELSE 0)
                                        + SumN([c \in 1..9 |-> LET a == (c - 1) \div 3 b == (c - 1) % 3 IN F3(F, i, a) * F3(F, k, b) * At("bisym", 3, dS, <<a, j, b, l>>)])]
\* dS : X
Apply(dS, X) == [q \in 1..9 |-> SumN([c \in 1..9 |-> At("bisym", 3, dS, <<(q - 1) \div 3, (q - 1) % 3, (c - 1) \div 3, (c - 1) % 3>>) * X[c]])]
====
