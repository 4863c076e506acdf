---- MODULE Tensor ----
(* Physical tensors: what the storage classes of anifem++/autodiff/physical_tensors.h stand for.

   A tensor of rank R over dimension N is a function on index tuples <<i1, ..., iR>>, 0 <= ik < N.  A kind of tensor is given
   by the symmetries its tuples obey; it stores one number for every class of equivalent tuples:
     arr    - vectors                       mtx    - matrices                 sym  - symmetric matrices
     ten    - R_ijkl without symmetries     symten - R_ijkl = R_klij          bisym - R_ijkl = R_klij = R_jikl
   The stored numbers are ordered by their canonical tuples, lexicographically. *)
EXTENDS Field

Kinds == {"arr", "mtx", "sym", "ten", "symten", "bisym"}
RankOf(k) == CASE k = "arr" -> 1 [] k \in {"mtx", "sym"} -> 2 [] OTHER -> 4
Count(k, N) == N ^ RankOf(k)
\* tuples in lexicographic order are numbered 1 .. N^R
TupleNo(k, N, q) == LET R == RankOf(k) IN [p \in 1..R |-> ((q - 1) \div (N ^ (R - p))) % N]
NoOf(N, t) == 1 + FoldLeft(LAMBDA acc, x : acc * N + x, 0, t)
LexLe(a, b) == IF a[1] = b[1] THEN a[2] <= b[2] ELSE a[1] < b[1]
Ord2(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
Pairs(a, b) == IF LexLe(a, b) THEN a \o b ELSE b \o a
Canon(k, t) == CASE k = "sym" -> Ord2(t[1], t[2])
                 [] k = "symten" -> Pairs(<<t[1], t[2]>>, <<t[3], t[4]>>)
                 [] k = "bisym" -> Pairs(Ord2(t[1], t[2]), Ord2(t[3], t[4]))
                 [] OTHER -> t
\* tables: canonical tuples in order; the place of every tuple; the number of equivalent tuples
SlotTab(k, N) == SelectSeq([q \in 1..Count(k, N) |-> TupleNo(k, N, q)], LAMBDA t : Canon(k, t) = t)
PlaceTab(k, N) == LET cn == TLCEval([q \in 1..Count(k, N) |-> NoOf(N, Canon(k, TupleNo(k, N, q)))])
                      at == TLCEval(FoldLeft(LAMBDA acc, q : TLCEval(Append(acc, (IF q = 1 THEN 0 ELSE acc[q - 1]) + (IF cn[q] = q THEN 1 ELSE 0))), <<>>, [q \in 1..Count(k, N) |-> q]))
                  IN TLCEval([q \in 1..Count(k, N) |-> at[cn[q]]])
DupTab(k, N) == LET p == PlaceTab(k, N) s == TLCEval(SlotTab(k, N)) IN FoldLeft(LAMBDA acc, q : TLCEval([acc EXCEPT ![p[q]] = @ + 1]), [c \in 1..Len(s) |-> 0], [q \in 1..Count(k, N) |-> q])
MaxN == 5
Upto(k) == CASE k = "arr" -> 9 [] k \in {"mtx", "sym"} -> 5 [] OTHER -> 4
SlotsOf == [k \in Kinds |-> [N \in 1..Upto(k) |-> SlotTab(k, N)]]
PlacesOf == [k \in Kinds |-> [N \in 1..Upto(k) |-> PlaceTab(k, N)]]
DupOf == [k \in Kinds |-> [N \in 1..Upto(k) |-> DupTab(k, N)]]
Size(k, N) == Len(SlotsOf[k][N])
Place(k, N, t) == PlacesOf[k][N][NoOf(N, t)]

\* the tensor with stored numbers a
Full(k, N, a) == LET p == PlacesOf[k][N] IN [q \in 1..Len(p) |-> a[p[q]]]
At(k, N, a, t) == a[Place(k, N, t)]
M2(k, N, a, i, j) == a[PlacesOf[k][N][i * N + j + 1]]
\* the stored numbers of a tensor of kind k, given by its value at tuples
Store(k, N, F(_)) == LET s == SlotsOf[k][N] IN [c \in 1..Len(s) |-> F(s[c])]
SumN(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
\* full contraction
Contract(k, N, a, b) == LET p == PlacesOf[k][N] IN SumN([q \in 1..Len(p) |-> a[p[q]] * b[p[q]]])
Trace(k, N, a) == SumN([i \in 1..N |-> M2(k, N, a, i - 1, i - 1)])
MulVec(k, N, a, v) == [i \in 1..N |-> SumN([j \in 1..N |-> M2(k, N, a, i - 1, j - 1) * v[j]])]
Bilinear(k, N, a, f, s) == SumN([i \in 1..N |-> f[i] * MulVec(k, N, a, s)[i]])
\* products of matrices of kinds k, m, row by row
Product(k, m, N, a, b) == [q \in 1..N * N |-> SumN([x \in 1..N |-> M2(k, N, a, (q - 1) \div N, x - 1) * M2(m, N, b, x - 1, (q - 1) % N)])]
Transposed(k, N, a) == [q \in 1..N * N |-> M2(k, N, a, (q - 1) % N, (q - 1) \div N)]
Ident(N, c) == [q \in 1..N * N |-> IF (q - 1) \div N = (q - 1) % N THEN c ELSE 0]
\* determinant by expansion along the first column of the remaining rows (a matrix is given row by row)
Minor(N, a, i, j) == [q \in 1..(N - 1) * (N - 1) |-> LET r == (q - 1) \div (N - 1) c == (q - 1) % (N - 1)
                                                    IN a[(IF r < i THEN r ELSE r + 1) * N + (IF c < j THEN c ELSE c + 1) + 1]]
RECURSIVE DetOf(_, _)
DetOf(N, a) == IF N = 1 THEN a[1] ELSE SumN([i \in 1..N |-> IF a[(i - 1) * N + 1] = 0 THEN 0 ELSE (IF i % 2 = 1 THEN 1 ELSE -1) * a[(i - 1) * N + 1] * DetOf(N - 1, Minor(N, a, i - 1, 0))])
Adjugate(N, a) == [q \in 1..N * N |-> LET i == (q - 1) \div N j == (q - 1) % N IN IF N = 1 THEN 1 ELSE (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetOf(N - 1, Minor(N, a, j, i))]
\* f x s + s x f and s x s; f, s of kind k (rank R), the result of kind m (rank 2 R)
HalfA(t) == SubSeq(t, 1, Len(t) \div 2)
HalfB(t) == SubSeq(t, Len(t) \div 2 + 1, Len(t))
Square(m, k, N, s) == Store(m, N, LAMBDA t : At(k, N, s, HalfA(t)) * At(k, N, s, HalfB(t)))
SymProduct(m, k, N, f, s) == Store(m, N, LAMBDA t : At(k, N, f, HalfA(t)) * At(k, N, s, HalfB(t)) + At(k, N, s, HalfA(t)) * At(k, N, f, HalfB(t)))
\* twice the identity on symmetric matrices
Ident4(N, c) == [q \in 1..N ^ 4 |-> LET t == TupleNo("ten", N, q) IN (IF t[1] = t[3] /\ t[2] = t[4] THEN c ELSE 0) + (IF t[1] = t[4] /\ t[2] = t[3] THEN c ELSE 0)]
====
