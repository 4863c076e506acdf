---- MODULE Geometry ----
(* Vectors, tetrahedra and dense linear algebra over the field of P elements (integer data; results that are rational
   numbers arrive multiplied with an integer).  Matrices are column-major sequences, indices from 0. *)
EXTENDS Field

At(A, n, i, j) == A[i + j * n + 1]
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Minus3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Neg3(a) == <<-a[1], -a[2], -a[3]>>
Outward(p0, p1, p2, p3) == LET n == Cross3(Minus3(p1, p0), Minus3(p2, p0)) IN IF Dot3(n, Minus3(p3, p0)) > 0 THEN Neg3(n) ELSE n
FaceOf(T, i) == Outward(T[((i + 1) % 4) + 1], T[((i + 2) % 4) + 1], T[((i + 3) % 4) + 1], T[(i % 4) + 1])
Len2(a, b) == LET d == Minus3(a, b) IN Dot3(d, d)
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Diam2(T) == MaxOf({Len2(T[i], T[j]) : i, j \in 1..4})
Centre4(T) == [k \in 1..3 |-> T[1][k] + T[2][k] + T[3][k] + T[4][k]]

\* determinant of the minor with the given rows and columns (sequences of equal length)
RECURSIVE Minor(_, _, _, _)
Minor(A, n, rs, cs) ==
  IF rs = <<>> THEN 1
  ELSE Sum([k \in 1..Len(cs) |-> LET d == Mul(Md(At(A, n, rs[1], cs[k])), Minor(A, n, Tail(rs), RemoveAt(cs, k)))
                                 IN IF k % 2 = 1 THEN d ELSE Md(-d)])
Up(n) == [i \in 1..n |-> i - 1]
Det(A, n) == Minor(A, n, Up(n), Up(n))
\* the sub-sequences of 0..n-1 of length k
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN {<<>>} ELSE IF k > n THEN {} ELSE Choose(n - 1, k) \cup {Append(s, n - 1) : s \in Choose(n - 1, k - 1)}
\* k-th elementary symmetric function of the squared singular values = sum of the squares of the k x k minors
Sym(A, n, m, k) == Sum([c \in 1..Len(SetToSeq(Choose(n, k) \X Choose(m, k))) |->
                        LET rc == SetToSeq(Choose(n, k) \X Choose(m, k))[c] d == Minor(A, n, rc[1], rc[2]) IN Mul(d, d)])
\* (A * X)(i, j), A: n x k, X: k x m
Prod(A, n, k, X, i, j) == Sum([t \in 1..k |-> Mul(Md(At(A, n, i, t - 1)), Md(At(X, k, t - 1, j)))])
MatEq(A, n, k, X, m, B, s) == \A i \in 0..n - 1, j \in 0..m - 1 : Prod(A, n, k, X, i, j) = Mul(s, Md(At(B, n, i, j)))
Unit(n) == [c \in 1..(n * n) |-> IF (c - 1) % n = (c - 1) \div n THEN 1 ELSE 0]
Sub2(A, n, i) == [c \in 1..(i * i) |-> At(A, n, (c - 1) % i, (c - 1) \div i)]

\* ---- statements about approximate results: integers that are multiples of 1/F
F == 2048
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
SumZ(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
\* columns of Q (n x n) are orthonormal
Orthonormal(Q, n) == \A a, b \in 0..n - 1 : Near(SumZ([t \in 1..n |-> At(Q, n, t - 1, a) * At(Q, n, t - 1, b)]), IF a = b THEN F * F ELSE 0, 2 * F * n + 64)
====
