---- MODULE Dirichlet ----
(* Imposing Dirichlet values on an elemental system A u = F.
   Matrices are sequences of rows; everything rational is carried with an explicit common denominator. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Ent, Rhs, Rots
VARIABLES A, F, rot, nd, res
vars == <<A, F, rot, nd, res>>

Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Dot(x, y) == Sum([i \in 1..Len(x) |-> x[i] * y[i]])
\* ---------------------------------------------------------------- values of single unknowns
\* pairs: sequence of <<equation, unknown>> (from 0); value[unknown + 1]
Rs(ps) == {ps[i][1] + 1 : i \in 1..Len(ps)}
Cs(ps) == {ps[i][2] + 1 : i \in 1..Len(ps)}
Pairs(ps) == {<<ps[i][1] + 1, ps[i][2] + 1>> : i \in 1..Len(ps)}
Cut(M, ps) == LET R == TLCEval(Rs(ps)) C == TLCEval(Cs(ps)) IN [i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> IF i \in R \/ j \in C THEN 0 ELSE M[i][j]]]
Unit(M, ps) == LET Z == TLCEval(Cut(M, ps)) P == TLCEval(Pairs(ps)) IN [i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> IF <<i, j>> \in P THEN 1 ELSE Z[i][j]]]
Zero(v, ps) == LET R == TLCEval(Rs(ps)) IN [i \in 1..Len(v) |-> IF i \in R THEN 0 ELSE v[i]]
Known(M, v, ps, g) == LET R == TLCEval(Rs(ps))
                      IN [i \in 1..Len(v) |-> IF i \in R THEN LET p == CHOOSE p \in Pairs(ps) : p[1] = i IN g[p[2]]
                                              ELSE v[i] - Sum([p \in 1..Len(ps) |-> M[i][ps[p][2] + 1] * g[ps[p][2] + 1]])]

\* ---------------------------------------------------------------- values of components along given directions
\* dofs: positions (from 0) of the components; q / den: orthogonal matrix; ids: directions (rows of q, from 0) with known values
Pos(dofs, i) == IF \E m \in 1..Len(dofs) : dofs[m] + 1 = i THEN (CHOOSE m \in 1..Len(dofs) : dofs[m] + 1 = i) ELSE 0
\* equations of the components combined along the directions, times den
RotRow(M, i, dofs, q, den) == LET m == Pos(dofs, i) IN
    IF m = 0 THEN [j \in 1..Cols(M) |-> den * M[i][j]] ELSE [j \in 1..Cols(M) |-> Sum([p \in 1..Len(dofs) |-> q[m][p] * M[dofs[p] + 1][j]])]
RotM(M, dofs, q, den) == [i \in 1..Rows(M) |-> RotRow(M, i, dofs, q, den)]
RotV(v, dofs, q, den) == [i \in 1..Len(v) |-> LET m == Pos(dofs, i) IN IF m = 0 THEN den * v[i] ELSE Sum([p \in 1..Len(dofs) |-> q[m][p] * v[dofs[p] + 1]])]
\* known directions taken out of a row (times den^2): row - (row . v) v
Along(row, dofs, v) == Sum([p \in 1..Len(dofs) |-> row[dofs[p] + 1] * v[p]])
Project(row, dofs, q, den, ids) ==
    LET c == TLCEval([k \in 1..Len(ids) |-> Along(row, dofs, q[ids[k] + 1])])
    IN [j \in 1..Len(row) |-> LET m == Pos(dofs, j) IN IF m = 0 THEN den * den * row[j] ELSE den * den * row[j] - Sum([k \in 1..Len(ids) |-> c[k] * q[ids[k] + 1][m]])]
\* rows that state the known values
Stating(dofs, ids) == {dofs[ids[k] + 1] + 1 : k \in 1..Len(ids)}
Which(dofs, ids, i) == CHOOSE k \in 1..Len(ids) : dofs[ids[k] + 1] + 1 = i
\* results, times den^3
VecMatrix(M, dofs, q, den, ids) ==
    LET B == TLCEval(RotM(M, dofs, q, den)) IN
    [i \in 1..Rows(M) |-> IF i \in Stating(dofs, ids)
        THEN [j \in 1..Cols(M) |-> LET m == Pos(dofs, j) IN IF m = 0 THEN 0 ELSE den * den * q[ids[Which(dofs, ids, i)] + 1][m]]
        ELSE Project(B[i], dofs, q, den, ids)]
VecRhs(M, v, dofs, q, den, ids, bc) ==
    LET B == TLCEval(RotM(M, dofs, q, den)) w == TLCEval(RotV(v, dofs, q, den)) IN
    [i \in 1..Len(v) |-> IF i \in Stating(dofs, ids) THEN den * den * den * bc[Which(dofs, ids, i)]
                         ELSE den * (den * w[i] - Sum([k \in 1..Len(ids) |-> Along(B[i], dofs, q[ids[k] + 1]) * bc[k]]))]
VecResidual(v, dofs, q, den, ids) == LET w == TLCEval(RotV(v, dofs, q, den)) IN [i \in 1..Len(v) |-> IF i \in Stating(dofs, ids) THEN 0 ELSE den * den * w[i]]
VecCol(b, dofs, q, den, ids) == VecResidual(b, dofs, q, den, ids)
VecRow(c, dofs, q, den, ids) == [j \in 1..Len(c) |-> den * Project(c, dofs, q, den, ids)[j]]

\* ---------------------------------------------------------------- the model: a 3x3 system, unknowns 1 and 2 form a vector
Dofs == <<2, 0>>
Init == /\ A \in [1..3 -> [1..3 -> Ent]] /\ F \in [1..3 -> Rhs] /\ rot \in Rots /\ nd \in 0..2 /\ res = <<>>
Ids == IF nd = 0 THEN <<>> ELSE IF nd = 1 THEN <<1>> ELSE <<1, 0>>
Bc == SubSeq(<<2, -1>>, 1, Len(Ids))
Do == res = <<>> /\ res' = <<VecMatrix(A, Dofs, rot.q, rot.d, Ids), VecRhs(A, F, Dofs, rot.q, rot.d, Ids, Bc)>> /\ UNCHANGED <<A, F, rot, nd>>
Spec == Init /\ [][Do]_vars
U == [1..3 -> {-rot.d, 0, rot.d * 2, 1}]
\* u = x / d carries the known values
Meets(x) == \A k \in 1..Len(Ids) : Along(x, Dofs, rot.q[Ids[k] + 1]) = rot.d * rot.d * Bc[k]
\* on every field with the known values the new equations say what the old ones (combined) said; and they state the known values
Equivalent == res # <<>> => \A x \in U : \A i \in 1..3 :
    LET new == Dot(res[1][i], x) - rot.d * res[2][i]                                   \* times d^4
        old == Dot(RotRow(A, i, Dofs, rot.q, rot.d), x) - rot.d * RotV(F, Dofs, rot.q, rot.d)[i]   \* times d^2
    IN IF i \in Stating(Dofs, Ids) THEN (Meets(x) => new = 0) ELSE (Meets(x) => new = rot.d * rot.d * old)
\* the known directions no longer couple into the other equations
Decoupled == res # <<>> => \A i \in 1..3 \ Stating(Dofs, Ids) : \A k \in 1..Len(Ids) : Along(res[1][i], Dofs, rot.q[Ids[k] + 1]) = 0
\* one known direction per component of the identity is the scalar elimination
ScalarCase == (res # <<>> /\ rot.q = <<<<1, 0>>, <<0, 1>>>>) =>
    LET ps == [k \in 1..Len(Ids) |-> <<Dofs[Ids[k] + 1], Dofs[Ids[k] + 1]>>] g == [j \in 1..3 |-> IF \E k \in 1..Len(Ids) : Dofs[Ids[k] + 1] = j - 1 THEN Bc[CHOOSE k \in 1..Len(Ids) : Dofs[Ids[k] + 1] = j - 1] ELSE 0]
    IN res = <<Unit(A, ps), Known(A, F, ps, g)>>
====
