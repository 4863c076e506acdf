---- MODULE GeoTrace ----
(* Recorded calls of the library's geometry and dense linear algebra.  Numbers arrive as integers: exact coordinates, residues
   of results times the integer e.S (see Fem), multiples of 1/F, or errors measured in units of the rounding error.
   e.ea, e.eb: the data was multiplied with these powers of two, the driver has divided them out of the results. *)
EXTENDS Geometry, TraceKit
VARIABLE l
Ev == TraceLog[l]
S(v) == ProdOf(v.S)
Sc(s, a) == [i \in 1..Len(a) |-> Mul(s, Md(a[i]))]
Inv3(v) == v.r.det = Det(v.A, 3) /\ MatEq(v.A, 3, 3, v.r.X, 3, Unit(3), S(v))
\* normal times twice the area, four times the squared area
NormalOk(n, a2, w) == n = w /\ a2 = Dot3(w, w)
FNormal(v) == LET w == Outward(v.p[1], v.p[2], v.p[3], v.p[4]) IN NormalOk(v.r.n, v.r.a2, w)
TetraOk(v) == /\ v.r.c4 = Centre4(v.T) /\ v.r.d2 = Diam2(v.T)
              /\ \A i \in 0..3 : v.r.nd[i + 1] = FaceOf(v.T, i) /\ v.r.n[i + 1] = FaceOf(v.T, i)
\* barycentric coordinates times S
BaryOk(v) == \A k \in 1..Len(v.X) : /\ Sum([i \in 1..4 |-> v.r.b[k][i]]) = S(v)
                                    /\ \A c \in 1..3 : Sum([i \in 1..4 |-> Mul(v.r.b[k][i], Md(v.T[i][c]))]) = Mul(S(v), Md(v.X[k][c]))
Solved(v) == MatEq(v.A, v.N, v.N, v.r.X, v.M, v.B, S(v))
Inverted(v) == MatEq(v.A, v.N, v.N, v.r.X, v.N, Unit(v.N), S(v))
PosDef(v) == \A i \in 1..v.N : v.lead[i] > 0 /\ Md(v.lead[i]) = Det(Sub2(v.A, v.N, i), i)
Chol(v) == IF PosDef(v) THEN ~v.r.refused /\ Solved(v) ELSE v.r.refused
\* permutations relative to the given ones
Rel(p, p0) == [i \in 1..Len(p) |-> CHOOSE k \in 1..Len(p0) : p0[k] = p[i]]
LU(v) == LET a == Rel(v.r.p, v.p) b == Rel(v.r.q, v.q)
         IN /\ ToSet(v.r.p) = ToSet(v.p) /\ ToSet(v.r.q) = ToSet(v.q)
            /\ \A i, j \in 1..v.N : v.r.LU[i + (j - 1) * v.N] = Md(At(v.A, v.N, a[i] - 1, b[j] - 1))
            /\ \A i \in 1..Len(v.r.L) : v.r.L[i] <= F + 1
            /\ \A i \in 1..Len(v.r.U) : v.r.U[i] <= F + 1
\* Q, R in multiples of 1/F
QR(v) == /\ v.r.upper /\ Orthonormal(v.r.Q, v.N)
         /\ \A i \in 0..v.N - 1, j \in 0..v.M - 1 :
              Near(SumZ([t \in 1..v.M |-> At(v.r.Q, v.N, i, t - 1) * At(v.r.R, v.M, t - 1, j)]), At(v.A, v.N, i, j) * F * F, v.M * F * 12 + 64)
         /\ v.r.qq <= 32 * v.N /\ v.r.res <= 32 * v.N
K(v) == Min2(v.N, v.M)
SVD(v) == /\ v.r.code = 0 /\ v.r.desc
          /\ \A i \in 1..K(v) - 1 : v.r.s[i] >= v.r.s[i + 1]
          /\ \A i \in 1..K(v) : v.r.s[i] >= 0
          /\ \A k \in 1..K(v) : v.r.e[k] = Sym(v.A, v.N, v.M, k)
          /\ v.u => Orthonormal(v.r.U, v.N) /\ v.r.uu <= 32 * v.N
          /\ v.v => Orthonormal(v.r.V, v.M) /\ v.r.vv <= 32 * v.M
          /\ v.u /\ v.v => /\ v.r.res <= 8
                           /\ \A i \in 0..v.N - 1, j \in 0..v.M - 1 :
                                 Near(SumZ([t \in 1..K(v) |-> ((At(v.r.U, v.N, i, t - 1) * v.r.s[t]) \div F) * At(v.r.V, v.M, j, t - 1)]),
                                      At(v.A, v.N, i, j) * F * F, K(v) * F * 24 + 64)
TInit == l = 1
TNext == \/ /\ l <= TraceLen
            /\ l' = l + 1
            /\ Ev.op \notin {"case", "crash"} => Ev.r.x /\ Ev.r.kept
            /\ CASE Ev.op = "case" -> TRUE
                 [] Ev.op = "inv3" -> Inv3(Ev)
                 [] Ev.op = "cross" -> Ev.r.n = Cross3(Ev.p[1], Ev.p[2])
                 [] Ev.op = "cross3" -> Ev.r.n = Cross3(Minus3(Ev.p[1], Ev.p[3]), Minus3(Ev.p[2], Ev.p[3]))
                 [] Ev.op = "area" -> LET w == Cross3(Minus3(Ev.p[1], Ev.p[3]), Minus3(Ev.p[2], Ev.p[3])) IN Ev.r.a2 = Dot3(w, w)
                 [] Ev.op = "fnormal" -> FNormal(Ev)
                 [] Ev.op = "tetra" -> TetraOk(Ev)
                 [] Ev.op = "bary" -> BaryOk(Ev)
                 [] Ev.op = "chol" -> Chol(Ev)
                 [] Ev.op \in {"lusolve", "lupsolve"} -> Solved(Ev)
                 [] Ev.op \in {"cholinv", "luinv"} -> Inverted(Ev)
                 [] Ev.op = "lu" -> LU(Ev)
                 [] Ev.op = "qr" -> QR(Ev)
                 [] Ev.op = "svd" -> SVD(Ev)
                 [] OTHER -> FALSE
         \/ l > TraceLen /\ UNCHANGED l
====
