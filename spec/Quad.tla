---- MODULE Quad ----
(* Quadrature on the reference segment (k = 1), triangle (k = 2) and tetrahedron (k = 3).
   A rule is a finite sequence of points (barycentric coordinates) and weights; it has order n when it gives the exact mean
   value of every monomial of the barycentric coordinates of degree at most n.  Mean values are elements of the field of P = 46337
   elements, as in Fem.  A symmetric rule is a sequence of orbits of the permutations of the vertices, ordered by size. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
P == 46337
Md(a) == a % P
Mul(a, b) == (a * b) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE LET h == TLCEval(Pow(a, n \div 2)) IN IF n % 2 = 0 THEN Mul(h, h) ELSE Mul(a, Mul(h, h))
Inv(a) == Pow(Md(a), P - 2)
Quo(a, b) == Mul(Md(a), Inv(b))
ProdOf(s) == FoldLeft(LAMBDA acc, x : Mul(acc, Md(x)), 1, s)
Sum(s) == FoldLeft(LAMBDA acc, x : (acc + x) % P, 0, s)
Fact == [n \in 0..25 |-> ProdOf([i \in 1..n |-> i])]
InvFact == [n \in 0..25 |-> Inv(Fact[n])]
Deg(e) == FoldLeft(LAMBDA acc, x : acc + x, 0, e)
\* mean value over the k-simplex of the monomial with the exponents e[1..k+1] :  k! e! / (|e| + k)!
Mean(k, e) == Mul(Mul(Fact[k], ProdOf([i \in 1..(k + 1) |-> Fact[e[i]]])), InvFact[Deg(e) + k])
\* value of a rule given in the field: pts, weights
Value(pts, w, e) == Sum([n \in 1..Len(pts) |-> Mul(Md(w[n]), ProdOf([i \in 1..Len(e) |-> Pow(pts[n][i], e[i])]))])
Exact(k, pts, w, e) == Value(pts, w, e) = Mean(k, e)
\* documented range of orders
MaxOrder(k) == IF k = 1 THEN 21 ELSE 20
Offered(k, n) == 0 <= n /\ n <= MaxOrder(k)
\* sizes of the orbits of the permutations of k + 1 vertices, in the order of the blocks of a rule
OrbitSizes(k) == CASE k = 1 -> <<1, 2>> [] k = 2 -> <<1, 3, 6>> [] k = 3 -> <<1, 4, 6, 12, 24>>
NumPoints(k, part) == FoldLeft(LAMBDA acc, i : acc + part[i] * OrbitSizes(k)[i], 0, [i \in 1..Len(part) |-> i])
\* the intervals <<first, last>> of the orbits
RECURSIVE Blocks(_, _, _, _)
Blocks(k, part, i, at) == IF i > Len(part) THEN <<>>
                          ELSE LET s == OrbitSizes(k)[i]
                               IN [b \in 1..part[i] |-> <<at + s * (b - 1), at + s * b - 1>>] \o Blocks(k, part, i + 1, at + s * part[i])
RECURSIVE Reach(_, _)
Reach(S, gens) == LET N == S \cup {gens[g][x] : g \in 1..Len(gens), x \in S} IN IF N = S THEN S ELSE Reach(N, gens)
\* gens[g][i] = the point that the g-th transposition of neighbouring vertices makes of the point i; wc[i] = class of its weight
Symmetric(k, np, part, gens, wc) ==
    /\ Len(part) = Len(OrbitSizes(k)) /\ \A i \in 1..Len(part) : part[i] >= 0
    /\ NumPoints(k, part) = np
    /\ Len(gens) = k /\ Len(wc) = np
    /\ \A g \in 1..k : Len(gens[g]) = np /\ \A i \in 1..np : gens[g][i] \in 1..np
    /\ \A g \in 1..k : \A i \in 1..np : gens[g][gens[g][i]] = i
    /\ LET bs == TLCEval(Blocks(k, part, 1, 1))
       IN \A b \in 1..Len(bs) : /\ Reach({bs[b][1]}, gens) = bs[b][1]..bs[b][2]
                                /\ \A i \in bs[b][1]..bs[b][2] : wc[i] = wc[bs[b][1]]
====
