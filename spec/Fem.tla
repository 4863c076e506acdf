---- MODULE Fem ----
(* Finite elements on a tetrahedron, specified exactly.

   Everything that the library evaluates on a tetrahedron with integer vertices is a rational number (or a rational
   number times the square root of a squared face area or edge length, which the specification keeps apart, see Rad).
   TLC has 32 bit integers, so the specification works in the field of P = 46337 elements: a rational a/b is a * Inv(b).
   A recorded real number x arrives as  round(x * S) mod P  with an integer scale S for which x * S is a whole number,
   and is accepted when that residue is  x * S  in the field.

   Polynomials are sequences of terms <<coefficient, code>>; code = e0 + 16 e1 + 256 e2 + 4096 e3 encodes the
   exponents of the barycentric coordinates.

   Spaces are terms: [k |-> "P1"], ..., [k |-> "vec", n |-> 3, a |-> sp], [k |-> "prod", a |-> <<..>>], [k |-> "union", a |-> <<..>>].
   Values: a function of a space of dimension d is a sequence of d polynomials. *)
EXTENDS Field

\* ------------------------------------------------------------------ polynomials in barycentric coordinates
Zero == <<>>
One == << <<1, 0>> >>
X16 == <<1, 16, 256, 4096>>
Lam(i) == << <<1, X16[i + 1]>> >>
Ex(c, i) == (c \div X16[i + 1]) % 16
Deg1(c) == Ex(c, 0) + Ex(c, 1) + Ex(c, 2) + Ex(c, 3)
PScale(a, p) == IF a = 0 THEN <<>> ELSE [t \in 1..Len(p) |-> <<Mul(a, p[t][1]), p[t][2]>>]
PSum(p, q) == p \o q
PMul(p, q) == [t \in 1..(Len(p) * Len(q)) |->
                 LET u == p[((t - 1) \div Len(q)) + 1] v == q[((t - 1) % Len(q)) + 1] IN <<Mul(u[1], v[1]), u[2] + v[2]>>]
\* collect terms with equal monomials
Norm(p) == LET cs == SetToSeq({p[t][2] : t \in 1..Len(p)})
               co == [k \in 1..Len(cs) |-> Sum([t \in 1..Len(p) |-> IF p[t][2] = cs[k] THEN p[t][1] ELSE 0])]
           IN SelectSeq([k \in 1..Len(cs) |-> <<co[k], cs[k]>>], LAMBDA t : t[1] # 0)
PN(p) == IF Len(p) <= 1 THEN p ELSE Norm(p)
PLin(cs, ps) == Cat([k \in 1..Len(cs) |-> PScale(cs[k], ps[k])])
\* derivative with respect to lambda_i taken as an independent variable
PDer(p, i) == LET d == SelectSeq(p, LAMBDA t : Ex(t[2], i) > 0) IN [t \in 1..Len(d) |-> <<Mul(d[t][1], Ex(d[t][2], i)), d[t][2] - X16[i + 1]>>]
Degree(p) == LET ds == {Deg1(p[t][2]) : t \in 1..Len(p)} IN IF ds = {} THEN 0 ELSE CHOOSE d \in ds : \A e \in ds : d >= e
\* value at the point with barycentric coordinates lam (field elements)
Eval(p, lam) == Sum([t \in 1..Len(p) |-> Mul(p[t][1], Mul(Mul(Pow(lam[1], Ex(p[t][2], 0)), Pow(lam[2], Ex(p[t][2], 1))),
                                                       Mul(Pow(lam[3], Ex(p[t][2], 2)), Pow(lam[4], Ex(p[t][2], 3)))))])
Fact == [n \in 0..14 |-> ProdOf([i \in 1..n |-> i])]
MaxDeg == 10
Codes == {c \in 0..(MaxDeg * 4096) : Deg1(c) <= MaxDeg}
\* mean value of the monomial c over the sub-simplex spanned by the vertices in S:  k! e0! e1! e2! e3! / (|e| + k)!,  k = |S| - 1
MeanOf(S, c) == IF \E i \in 0..3 \ S : Ex(c, i) > 0 THEN 0
                ELSE LET k == Cardinality(S) - 1
                     IN Quo(Mul(Fact[k], Mul(Mul(Fact[Ex(c, 0)], Fact[Ex(c, 1)]), Mul(Fact[Ex(c, 2)], Fact[Ex(c, 3)]))), Fact[Deg1(c) + k])
Shapes == {{0,1,2,3}, {0,1,2}, {1,2,3}, {0,2,3}, {0,1,3}, {0,1}, {0,2}, {0,3}, {1,2}, {1,3}, {2,3}, {0}, {1}, {2}, {3}}
MeanTab == [S \in Shapes |-> [c \in Codes |-> MeanOf(S, c)]]
Mean(S, p) == LET tab == MeanTab[S] IN Sum([t \in 1..Len(p) |-> Mul(p[t][1], tab[p[t][2]])])

\* ------------------------------------------------------------------ geometry: T = <<x0, x1, x2, x3>>, integer points
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(T) == Dot3(Sub3(T[2], T[1]), Cross3(Sub3(T[3], T[1]), Sub3(T[4], T[1])))
\* det * grad lambda_i : integer vectors
Cof(T) == LET a == Sub3(T[2], T[1]) b == Sub3(T[3], T[1]) c == Sub3(T[4], T[1])
              n1 == Cross3(b, c) n2 == Cross3(c, a) n3 == Cross3(a, b)
          IN << <<-(n1[1] + n2[1] + n3[1]), -(n1[2] + n2[2] + n3[2]), -(n1[3] + n2[3] + n3[3])>>, n1, n2, n3>>
GradLam(T) == LET d == Inv(Det(T)) IN [i \in 1..4 |-> [k \in 1..3 |-> Mul(Md(Cof(T)[i][k]), d)]]
EdgeV == << <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>> >>
FaceV == << <<0, 1, 2>>, <<1, 2, 3>>, <<2, 3, 0>>, <<3, 0, 1>> >>     \* face f is opposite to vertex (f+3)%4
Opp(f) == (f + 3) % 4
\* outward normal of face f times twice its area = the integer vector  -+ Cof[opp]
FaceVec(T, f) == LET c == Cof(T)[Opp(f) + 1] s == IF Det(T) > 0 THEN -1 ELSE 1 IN <<s * c[1], s * c[2], s * c[3]>>
FaceN2(T, f) == Dot3(FaceVec(T, f), FaceVec(T, f))          \* (2 area)^2
EdgeVec(T, e) == Sub3(T[EdgeV[e + 1][2] + 1], T[EdgeV[e + 1][1] + 1])
EdgeN2(T, e) == Dot3(EdgeVec(T, e), EdgeVec(T, e))          \* length^2
\* the coordinate x_k as a polynomial
Coord(T, k) == [i \in 1..4 |-> <<Md(T[i][k]), X16[i]>>]

\* ------------------------------------------------------------------ spaces
N(a, b) == Quo(a, b)
P2F == [i \in 1..4 |-> <<<<2, 2 * X16[i]>>, <<Md(-1), X16[i]>>>>] \o [e \in 1..6 |-> <<<<4, X16[EdgeV[e][1] + 1] + X16[EdgeV[e][2] + 1]>>>>]
P3F == [i \in 1..4 |-> <<<<N(9, 2), 3 * X16[i]>>, <<N(-9, 2), 2 * X16[i]>>, <<1, X16[i]>>>>]
       \o Cat([e \in 1..6 |-> LET a == X16[EdgeV[e][1] + 1] b == X16[EdgeV[e][2] + 1]
                              IN << <<<<N(27, 2), 2 * a + b>>, <<N(-9, 2), a + b>>>>, <<<<N(27, 2), a + 2 * b>>, <<N(-9, 2), a + b>>>> >>])
       \o [f \in 1..4 |-> <<<<27, X16[FaceV[f][1] + 1] + X16[FaceV[f][2] + 1] + X16[FaceV[f][3] + 1]>>>>]
ScalarLeaves == {"P0", "P1", "P2", "P3", "B2", "B4", "CR1"}
VectorLeaves == {"RT0", "ND0"}
Scalar(k) == CASE k = "P0" -> << One >>
               [] k = "P1" -> [i \in 1..4 |-> Lam(i - 1)]
               [] k = "P2" -> P2F
               [] k = "P3" -> P3F
               [] k = "B2" -> SubSeq(P2F, 5, 10)
               [] k = "B4" -> << <<<<256, 1 + 16 + 256 + 4096>>>> >>
               [] k = "CR1" -> [f \in 1..4 |-> << <<1, 0>>, <<Md(-3), X16[Opp(f - 1) + 1]>> >>]
\* without the factors sqrt(FaceN2) and sqrt(EdgeN2)
RT(T) == [f \in 1..4 |-> LET o == Opp(f - 1) d == Inv(Abs(Det(T)))
                         IN [k \in 1..3 |-> [v \in 1..3 |-> LET a == FaceV[f][v] IN <<Mul(d, Md(T[a + 1][k] - T[o + 1][k])), X16[a + 1]>>]]]
ND(T) == LET g == GradLam(T)
         IN [e \in 1..6 |-> LET a == EdgeV[e][1] + 1 b == EdgeV[e][2] + 1
                            IN [k \in 1..3 |-> << <<g[b][k], X16[a]>>, <<Md(-g[a][k]), X16[b]>> >>]]
Blow(phi, before, after) == [k \in 1..before |-> Zero] \o phi \o [k \in 1..after |-> Zero]
RECURSIVE Dim(_)
Dim(sp) == CASE sp.k \in ScalarLeaves -> 1
             [] sp.k \in VectorLeaves -> 3
             [] sp.k = "vec" -> sp.n * Dim(sp.a)
             [] sp.k = "union" -> Dim(sp.a[1])
             [] sp.k = "prod" -> FoldLeft(LAMBDA acc, s : acc + Dim(s), 0, sp.a)
RECURSIVE Nfa(_)
Nfa(sp) == CASE sp.k = "P0" -> 1 [] sp.k = "P1" -> 4 [] sp.k = "P2" -> 10 [] sp.k = "P3" -> 20
             [] sp.k = "B2" -> 6 [] sp.k = "B4" -> 1 [] sp.k = "CR1" -> 4 [] sp.k = "RT0" -> 4 [] sp.k = "ND0" -> 6
             [] sp.k = "vec" -> sp.n * Nfa(sp.a)
             [] sp.k \in {"union", "prod"} -> FoldLeft(LAMBDA acc, s : acc + Nfa(s), 0, sp.a)
RECURSIVE Order(_)
Order(sp) == CASE sp.k = "P0" -> 0 [] sp.k \in {"P1", "CR1", "RT0", "ND0"} -> 1 [] sp.k \in {"P2", "B2"} -> 2
               [] sp.k = "P3" -> 3 [] sp.k = "B4" -> 4
               [] sp.k = "vec" -> Order(sp.a)
               [] OTHER -> LET os == {Order(sp.a[i]) : i \in 1..Len(sp.a)} IN CHOOSE o \in os : \A x \in os : o >= x
DimBefore(s, i) == FoldLeft(LAMBDA acc, x : acc + Dim(x), 0, SubSeq(s, 1, i - 1))
RECURSIVE Basis(_, _)
Basis(sp, T) ==
    CASE sp.k \in ScalarLeaves -> LET b == Scalar(sp.k) IN [i \in 1..Len(b) |-> << b[i] >>]
      [] sp.k = "RT0" -> RT(T)
      [] sp.k = "ND0" -> ND(T)
      [] sp.k = "vec" -> LET b == TLCEval(Basis(sp.a, T)) d == Dim(sp.a)
                         IN Cat([c \in 1..sp.n |-> [i \in 1..Len(b) |-> Blow(b[i], d * (c - 1), d * (sp.n - c))]])
      [] sp.k = "prod" -> Cat([c \in 1..Len(sp.a) |-> LET b == Basis(sp.a[c], T)
                                                     IN [i \in 1..Len(b) |-> Blow(b[i], DimBefore(sp.a, c), Dim(sp) - DimBefore(sp.a, c + 1))]])
      [] sp.k = "union" -> Cat([c \in 1..Len(sp.a) |-> Basis(sp.a[c], T)])
\* N2 of the factor sqrt(N2) kept out of each basis function
RECURSIVE Rad(_, _)
Rad(sp, T) == CASE sp.k \in ScalarLeaves -> [i \in 1..Nfa(sp) |-> 1]
                [] sp.k = "RT0" -> [f \in 1..4 |-> FaceN2(T, f - 1)]
                [] sp.k = "ND0" -> [e \in 1..6 |-> EdgeN2(T, e - 1)]
                [] sp.k = "vec" -> Cat([c \in 1..sp.n |-> Rad(sp.a, T)])
                [] OTHER -> Cat([c \in 1..Len(sp.a) |-> Rad(sp.a[c], T)])

\* ------------------------------------------------------------------ differential operators
DPoly(T, g, p, k) == PN(Cat([i \in 1..4 |-> PScale(g[i][k], PDer(p, i - 1))]))
OpDim(op, d) == CASE op \in {"IDEN", "CURL", "DUDX", "DUDY", "DUDZ"} -> d [] op = "GRAD" -> 3 * d [] op = "DIV" -> d \div 3
Apply(op, phi, T) ==
    IF op = "IDEN" THEN phi
    ELSE LET g == TLCEval(GradLam(T)) D(j, k) == DPoly(T, g, phi[j], k)
         IN CASE op = "GRAD" -> [m \in 1..(3 * Len(phi)) |-> D(((m - 1) \div 3) + 1, ((m - 1) % 3) + 1)]
              [] op = "DIV" -> << PN(D(1, 1) \o D(2, 2) \o D(3, 3)) >>
              [] op = "CURL" -> << PN(D(3, 2) \o PScale(P - 1, D(2, 3))), PN(D(1, 3) \o PScale(P - 1, D(3, 1))), PN(D(2, 1) \o PScale(P - 1, D(1, 2))) >>
              [] op = "DUDX" -> [j \in 1..Len(phi) |-> D(j, 1)]
              [] op = "DUDY" -> [j \in 1..Len(phi) |-> D(j, 2)]
              [] op = "DUDZ" -> [j \in 1..Len(phi) |-> D(j, 3)]
OpBasis(sp, op, T) == LET b == Basis(sp, T) IN TLCEval([i \in 1..Len(b) |-> Apply(op, b[i], T)])

\* ------------------------------------------------------------------ tensors D(x) = C1 + x C2 + y C3 + z C4, multiplied by 1 + iTet when per = TRUE
\* integer matrices as sequences of rows
\* D.t: "N" identity, "C" scalar (a 1x1 matrix), "S" symmetric, "G" general; rows: the number of rows of D
DEntry(D, T, r, i, j) ==
    LET m == IF D.per THEN r + 1 ELSE 1
        c == D.c
    IN Cat([q \in 1..Len(c) |-> PScale(Md(m * c[q][i][j]), IF q = 1 THEN One ELSE Coord(T, q - 1))])
\* D applied to a value u (sequence of polynomials)
DApply(D, T, r, u) ==
    CASE D.t = "N" -> u
      [] D.t = "C" -> LET s == DEntry(D, T, r, 1, 1) IN [k \in 1..Len(u) |-> PN(PMul(s, u[k]))]
      [] OTHER -> [i \in 1..Len(D.c[1]) |-> PN(Cat([j \in 1..Len(u) |-> IF u[j] = <<>> THEN <<>> ELSE PMul(DEntry(D, T, r, i, j), u[j])]))]
Inner(u, v) == Cat([k \in 1..Len(v) |-> IF u[k] = <<>> \/ v[k] = <<>> THEN <<>> ELSE PMul(u[k], v[k])])
\* contraction of a value of dimension 3 d with a vector, the direction index running fastest
DotVec(u, n) == [j \in 1..(Len(u) \div 3) |-> Cat([k \in 1..3 |-> PScale(Md(n[k]), u[3 * (j - 1) + k])])]

\* ------------------------------------------------------------------ elemental matrices: sequence (over the columns) of sequences (over the rows)
\* without the square roots kept apart in Rad and in the measure
Elem(T, r, spU, opU, spV, opV, D, nrm, Lin(_)) ==
    LET bu == OpBasis(spU, opU, T)
        bv == OpBasis(spV, opV, T)
        du == TLCEval([j \in 1..Len(bu) |-> LET w == DApply(D, T, r, bu[j]) IN IF nrm = <<>> THEN w ELSE DotVec(w, nrm)])
    IN [j \in 1..Len(bu) |-> [i \in 1..Len(bv) |-> Lin(Inner(du[j], bv[i]))]]
\* measure of the support without the square root
TetElem(T, r, spU, opU, spV, opV, D) == LET m == Quo(Abs(Det(T)), 6) IN Elem(T, r, spU, opU, spV, opV, D, <<>>, LAMBDA p : Mul(m, Mean({0, 1, 2, 3}, p)))
FaceElem(T, r, f, spU, opU, spV, opV, D) == LET m == Inv(2) S == {FaceV[f + 1][i] : i \in 1..3} IN Elem(T, r, spU, opU, spV, opV, D, <<>>, LAMBDA p : Mul(m, Mean(S, p)))
FaceNElem(T, r, f, spU, opU, spV, opV, D) == LET m == Inv(2) S == {FaceV[f + 1][i] : i \in 1..3} IN Elem(T, r, spU, opU, spV, opV, D, FaceVec(T, f), LAMBDA p : Mul(m, Mean(S, p)))
EdgeElem(T, r, e, spU, opU, spV, opV, D) == LET S == {EdgeV[e + 1][i] : i \in 1..2} IN Elem(T, r, spU, opU, spV, opV, D, <<>>, LAMBDA p : Mean(S, p))
NodeElem(T, r, n, spU, opU, spV, opV, D) == Elem(T, r, spU, opU, spV, opV, D, <<>>, LAMBDA p : Mean({n}, p))
\* points: pts[n] = integer barycentric coordinates over den; weights: integers; points or weights in excess do not count
PntLam(pt, den) == [i \in 1..4 |-> Quo(pt[i], den)]
PntElem(T, r, pts, den, w, spU, opU, spV, opV, D) ==
    LET L == TLCEval([n \in 1..Len(pts) |-> PntLam(pts[n], den)])
    IN Elem(T, r, spU, opU, spV, opV, D, <<>>, LAMBDA p : Sum([n \in 1..(IF Len(w) < Len(pts) THEN Len(w) ELSE Len(pts)) |-> Mul(Md(w[n]), Eval(p, L[n]))]))
\* values D(x) op(u)(x) at points, u given by its degrees of freedom (integers, to be multiplied by the square roots of Rad)
Values(T, r, pts, den, sp, op, dofs, D) ==
    LET b == OpBasis(sp, op, T)
        d == Len(b[1])
        u == TLCEval([k \in 1..d |-> PN(Cat([i \in 1..Len(b) |-> PScale(Md(dofs[i]), b[i][k])]))])
        w == TLCEval(DApply(D, T, r, u))
    IN [n \in 1..Len(pts) |-> LET lam == TLCEval(PntLam(pts[n], den)) IN [k \in 1..Len(w) |-> Eval(w[k], lam)]]

\* ------------------------------------------------------------------ interpolation functionals of the leaves, applied to a vector of
\* polynomials f (without the square roots: RT0 and ND0 functionals are to be multiplied by sqrt(Rad))
NodeOf(k, i) == CASE k \in {"P1", "P2", "P3"} /\ i <= 4 -> [j \in 1..4 |-> IF j = i THEN 1 ELSE 0]
                  [] k = "P2" /\ i > 4 -> [j \in 1..4 |-> IF \E a \in 1..2 : EdgeV[i - 4][a] = j - 1 THEN 1 ELSE 0]
                  [] k = "B2" -> [j \in 1..4 |-> IF \E a \in 1..2 : EdgeV[i][a] = j - 1 THEN 1 ELSE 0]
                  [] k = "P3" /\ i > 4 /\ i <= 16 -> LET e == EdgeV[((i - 5) \div 2) + 1] s == (i - 5) % 2
                                                     IN [j \in 1..4 |-> IF j - 1 = e[1] THEN 2 - s ELSE IF j - 1 = e[2] THEN 1 + s ELSE 0]
                  [] k = "P3" /\ i > 16 -> [j \in 1..4 |-> IF j - 1 = Opp(i - 17) THEN 0 ELSE 1]
                  [] k = "B4" -> <<1, 1, 1, 1>>
At(pt) == LET s == pt[1] + pt[2] + pt[3] + pt[4] IN [i \in 1..4 |-> Quo(pt[i], s)]
LeafDof(k, i, f, T) ==
    CASE k = "P0" -> Mean({0, 1, 2, 3}, f[1])
      [] k = "CR1" -> Mean({FaceV[i][v] : v \in 1..3}, f[1])
      [] k \in ScalarLeaves -> Eval(f[1], At(NodeOf(k, i)))
      [] k = "RT0" -> Mean({FaceV[i][v] : v \in 1..3}, Cat([j \in 1..3 |-> PScale(Md(FaceVec(T, i - 1)[j]), f[j])]))
      [] k = "ND0" -> Mean({EdgeV[i][v] : v \in 1..2}, Cat([j \in 1..3 |-> PScale(Md(EdgeVec(T, i - 1)[j]), f[j])]))

\* the point at which a functional of a leaf takes linear functions (barycentric coordinates, as integers)
PlaceOf(k, i) == CASE k = "P0" -> <<1, 1, 1, 1>>
                   [] k \in {"CR1", "RT0"} -> [j \in 1..4 |-> IF \E v \in 1..3 : FaceV[i][v] = j - 1 THEN 1 ELSE 0]
                   [] k = "ND0" -> [j \in 1..4 |-> IF \E v \in 1..2 : EdgeV[i][v] = j - 1 THEN 1 ELSE 0]
                   [] OTHER -> NodeOf(k, i)

\* the functionals of a space: those of its leaves (of the components of f; for a union those of all its parts), one for every basis function
RECURSIVE LeafFun(_, _, _)
LeafFun(sp, f, T) ==
    CASE sp.k \in ScalarLeaves \cup VectorLeaves -> [i \in 1..Nfa(sp) |-> LeafDof(sp.k, i, f, T)]
      [] sp.k = "vec" -> LET d == Dim(sp.a) IN Cat([c \in 1..sp.n |-> LeafFun(sp.a, SubSeq(f, d * (c - 1) + 1, d * c), T)])
      [] sp.k = "prod" -> Cat([c \in 1..Len(sp.a) |-> LeafFun(sp.a[c], SubSeq(f, DimBefore(sp.a, c) + 1, DimBefore(sp.a, c + 1)), T)])
      [] sp.k = "union" -> Cat([c \in 1..Len(sp.a) |-> LeafFun(sp.a[c], f, T)])
\* the function with degrees of freedom d (residues)
Combine(sp, d, T) == LET b == TLCEval(Basis(sp, T)) IN TLCEval([k \in 1..Dim(sp) |-> PN(Cat([i \in 1..Len(b) |-> PScale(d[i], b[i][k])]))])
Gram(sp, T) == LET b == TLCEval(Basis(sp, T)) IN [j \in 1..Len(b) |-> LeafFun(sp, b[j], T)]
RECURSIVE Rank(_)
Rank(M) == IF M = <<>> \/ M[1] = <<>> THEN 0
           ELSE LET c == {i \in 1..Len(M) : M[i][1] # 0}
                IN IF c = {} THEN Rank(TLCEval([i \in 1..Len(M) |-> Tail(M[i])]))
                   ELSE LET p == CHOOSE i \in c : TRUE
                            inv == Inv(M[p][1])
                            R == SelectSeq([i \in 1..Len(M) |-> i], LAMBDA i : i # p)
                        IN 1 + Rank(TLCEval([i \in 1..Len(R) |-> LET f == Mul(M[R[i]][1], inv)
                                                                 IN [k \in 1..(Len(M[p]) - 1) |-> (M[R[i]][k + 1] + (P - Mul(f, M[p][k + 1]))) % P]]))
RefTet == << <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
\* the functionals tell the functions of the space (and of every part of it) apart
RECURSIVE Unisolvent(_)
Unisolvent(sp) ==
    CASE sp.k \in ScalarLeaves \cup VectorLeaves -> TRUE
      [] sp.k = "vec" -> Unisolvent(sp.a)
      [] sp.k = "prod" -> \A c \in 1..Len(sp.a) : Unisolvent(sp.a[c])
      [] sp.k = "union" -> (\A c \in 1..Len(sp.a) : Unisolvent(sp.a[c])) /\ Rank(Gram(sp, RefTet)) = Nfa(sp)
\* the sub-simplices that carry the degrees of freedom
SetOf(s) == {s[i] : i \in 1..Len(s)}
LeafLocus(k, i) ==
    CASE k \in {"P0", "B4"} -> {0, 1, 2, 3}
      [] k \in {"P1", "P2", "P3"} /\ i <= 4 -> {i - 1}
      [] k = "P2" /\ i > 4 -> SetOf(EdgeV[i - 4])
      [] k = "P3" /\ i > 4 /\ i <= 16 -> SetOf(EdgeV[((i - 5) \div 2) + 1])
      [] k = "P3" /\ i > 16 -> SetOf(FaceV[i - 16])
      [] k \in {"B2", "ND0"} -> SetOf(EdgeV[i])
      [] k \in {"CR1", "RT0"} -> SetOf(FaceV[i])
RECURSIVE Locus(_)
Locus(sp) == CASE sp.k \in ScalarLeaves \cup VectorLeaves -> [i \in 1..Nfa(sp) |-> LeafLocus(sp.k, i)]
               [] sp.k = "vec" -> Cat([c \in 1..sp.n |-> Locus(sp.a)])
               [] OTHER -> Cat([c \in 1..Len(sp.a) |-> Locus(sp.a[c])])
RECURSIVE Places(_)
Places(sp) == CASE sp.k \in ScalarLeaves \cup VectorLeaves -> [i \in 1..Nfa(sp) |-> [k |-> sp.k, p |-> PlaceOf(sp.k, i)]]
                [] sp.k = "vec" -> Cat([c \in 1..sp.n |-> Places(sp.a)])
                [] OTHER -> Cat([c \in 1..Len(sp.a) |-> Places(sp.a[c])])
\* the degrees of freedom <<first, last>> of the component reached by a path
RECURSIVE DofRange(_, _)
DofRange(sp, path) ==
    IF path = <<>> THEN <<1, Nfa(sp)>>
    ELSE LET c == path[1]
             part == IF sp.k = "vec" THEN sp.a ELSE sp.a[c + 1]
             off == IF sp.k = "vec" THEN c * Nfa(sp.a) ELSE FoldLeft(LAMBDA acc, s : acc + Nfa(s), 0, SubSeq(sp.a, 1, c))
             r == DofRange(part, Tail(path))
         IN <<off + r[1], off + r[2]>>
\* polynomials in the coordinates, given as sequences of <<coefficient, e1, e2, e3>>
RECURSIVE XPow(_, _, _)
XPow(T, k, n) == IF n = 0 THEN One ELSE LET c == TLCEval(Coord(T, k)) q == TLCEval(XPow(T, k, n - 1)) IN TLCEval(PN(PMul(c, q)))
XTerm(T, t) == LET a == XPow(T, 1, t[2]) b == XPow(T, 2, t[3]) c == XPow(T, 3, t[4]) ab == TLCEval(PMul(a, b)) IN PScale(Md(t[1]), TLCEval(PMul(ab, c)))
XPoly(T, ts) == TLCEval(PN(TLCEval(Cat([t \in 1..Len(ts) |-> XTerm(T, ts[t])]))))
\* u interpolates f: no functional tells them apart
Interpolates(sp, d, f, T) == LeafFun(sp, Combine(sp, d, T), T) = LeafFun(sp, f, T)
\* u, given by its degrees of freedom in s, is the projection of f to the span of their basis functions with respect to the mean over S
Projects(sp, S, s, d, f, T) ==
    LET b == TLCEval(Basis(sp, T))
        u == TLCEval([k \in 1..Dim(sp) |-> PN(Cat([i \in 1..Len(b) |-> IF i \in s THEN PScale(d[i], b[i][k]) ELSE <<>>]))])
    IN \A i \in s : Mean(S, Inner(u, b[i])) = Mean(S, Inner(f, b[i]))
====
