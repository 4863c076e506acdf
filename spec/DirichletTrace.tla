---- MODULE DirichletTrace ----
EXTENDS TraceKit
VARIABLES l, dummy
D == INSTANCE Dirichlet WITH Ent <- {}, Rhs <- {}, Rots <- {}, A <- 0, F <- 0, rot <- 0, nd <- 0, res <- 0
M == INSTANCE DofMap WITH Bases <- {}, MaxOps <- 0, MaxDofs <- 0, term <- 0, nops <- 0
Ev == TraceLog[l]
TInit == l = 1 /\ dummy = 0
\* what each call does to the matrix and to the right hand side, given the pairs of equations and unknowns and the values
ResA(f, ps) == CASE f \in {"dir", "matrix", "resA"} -> D!Unit(Ev.A, ps)
                 [] f \in {"none", "noneA"} -> D!Cut(Ev.A, ps)
                 [] f = "res" -> Ev.A
ResF(f, ps, g) == CASE f = "dir" -> D!Known(Ev.A, Ev.F, ps, g)
                    [] f \in {"none", "res", "resA"} -> D!Zero(Ev.F, ps)
                    [] f \in {"matrix", "noneA"} -> Ev.F
TOne == /\ Ev.op = "one"
        /\ LET ps == <<<<Ev.k, Ev.k>>>> g == [j \in 1..D!Cols(Ev.A) |-> Ev.bc]
           IN Ev.r.A = ResA(Ev.f, ps) /\ Ev.r.F = ResF(Ev.f, ps, g)
Sp == [d \in 1..4 |-> ToSet(Ev.sp[d])]
\* equations and unknowns met together, walking the part of the tetrahedron element by element on both maps
Zip(t, u) == LET a == TLCEval(M!IterGeom(t, Sp)) b == TLCEval(M!IterGeom(u, Sp)) IN [i \in 1..Min2(Len(a), Len(b)) |-> <<b[i], a[i]>>]
TMap == /\ Ev.op = "map"
        /\ LET ps == TLCEval(IF Ev.two THEN Zip(Ev.trial, Ev.test) ELSE Zip(Ev.trial, Ev.trial))
               g == IF Ev.const THEN [j \in 1..D!Cols(Ev.A) |-> Ev.g[1]] ELSE Ev.g
           IN Ev.r.A = ResA(Ev.f, ps) /\ Ev.r.F = (IF Ev.f = "res" /\ Ev.two THEN D!Zero(Ev.F, [i \in 1..Len(M!Iter(Ev.test, Sp)) |-> <<M!Iter(Ev.test, Sp)[i], 0>>]) ELSE ResF(Ev.f, ps, g))
Ids == IF Ev.orth = <<>> THEN [k \in 1..Ev.ndc |-> k - 1] ELSE SubSeq(Ev.orth, 1, Ev.ndc)
Sc(v) == [i \in 1..Len(v) |-> v[i] * Ev.den * Ev.den * Ev.den]
ScM(m) == [i \in 1..Len(m) |-> Sc(m[i])]
TVec == /\ Ev.op = "vec" /\ Ev.r.exact
        /\ CASE Ev.f = "full" -> Ev.r.A = D!VecMatrix(Ev.A, Ev.dofs, Ev.q, Ev.den, Ids) /\ Ev.r.F = D!VecRhs(Ev.A, Ev.F, Ev.dofs, Ev.q, Ev.den, Ids, Ev.bc)
             [] Ev.f = "matrix" -> Ev.r.A = D!VecMatrix(Ev.A, Ev.dofs, Ev.q, Ev.den, Ids) /\ Ev.r.F = Sc(Ev.F)
             [] Ev.f = "res" -> Ev.r.A = ScM(Ev.A) /\ Ev.r.F = D!VecResidual(Ev.F, Ev.dofs, Ev.q, Ev.den, Ids)
             [] Ev.f = "col" -> Ev.r.A = ScM(Ev.A) /\ Ev.r.F = D!VecCol(Ev.F, Ev.dofs, Ev.q, Ev.den, Ids)
             [] Ev.f = "row" -> Ev.r.A = ScM(Ev.A) /\ Ev.r.F = D!VecRow(Ev.F, Ev.dofs, Ev.q, Ev.den, Ids)
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ UNCHANGED dummy /\ (Ev.op = "case" \/ TOne \/ TMap \/ TVec)
         \/ l > TraceLen /\ UNCHANGED <<l, dummy>>
====
