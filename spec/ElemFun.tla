---- MODULE ElemFun ----
(* Elemental functions given to the assembler: sparsity patterns of their matrices and the wrapper objects that carry
   them (copies, shared holders, per-thread memory).
   A pattern is [m, n, col, row]: compressed columns, row numbers increasing inside a column.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Naive
VARIABLES pat, dat, buf, pos

Dense(m, n) == [m |-> m, n |-> n, col |-> [j \in 1..(n + 1) |-> (j - 1) * m], row |-> [k \in 1..(m * n) |-> (k - 1) % m]]
Nnz(p) == Len(p.row)
\* the dense place (1-based, column after column) of entry k, and the entry of a dense place (0: none)
ColOf(p, k) == CHOOSE j \in 0..(p.n - 1) : p.col[j + 1] < k /\ k <= p.col[j + 2]
Place(p, k) == ColOf(p, k) * p.m + p.row[k] + 1
Full(p, from, fill) == [x \in 1..(p.m * p.n) |->
    LET j == (x - 1) \div p.m  i == (x - 1) % p.m
        S == {k \in (p.col[j + 1] + 1)..p.col[j + 2] : p.row[k] = i} IN
    IF S = {} THEN fill ELSE from[CHOOSE k \in S : TRUE]]
Packed(p, dense) == [k \in 1..Nnz(p) |-> dense[Place(p, k)]]
Mask(p) == Full(p, [k \in 1..Nnz(p) |-> 1], 0)
Legal(p) == /\ Len(p.col) = p.n + 1 /\ p.col[1] = 0 /\ p.col[p.n + 1] = Len(p.row)
            /\ \A j \in 1..p.n : p.col[j] <= p.col[j + 1] /\ \A k \in (p.col[j] + 1)..p.col[j + 1] :
                 p.row[k] \in 0..(p.m - 1) /\ (k > p.col[j] + 1 => p.row[k - 1] < p.row[k])

\* ---- unpacking inside one array: from the last place down (Naive: from the first place up)
FromSet(m, n, S) == LET RECURSIVE R(_) R(x) == IF x > m * n THEN <<>> ELSE (IF x \in S THEN <<(x - 1) % m>> ELSE <<>>) \o R(x + 1) IN
    [m |-> m, n |-> n, col |-> [j \in 1..(n + 1) |-> Cardinality({x \in S : x <= (j - 1) * m})], row |-> R(1)]
Init == /\ \E m \in 1..3, n \in 0..3 : \E S \in SUBSET (1..(m * n)) : pat = FromSet(m, n, S)
        /\ dat = [k \in 1..Nnz(pat) |-> k] 
        /\ buf = [x \in 1..(pat.m * pat.n) |-> IF x <= Nnz(pat) THEN x ELSE 99]
        /\ pos = 0
Total == pat.m * pat.n
Entry(x) == LET S == {k \in 1..Nnz(pat) : Place(pat, k) = x} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Next == /\ pos < Total /\ pos' = pos + 1 /\ UNCHANGED <<pat, dat>>
        /\ LET x == IF Naive THEN pos + 1 ELSE Total - pos IN
           buf' = [buf EXCEPT ![x] = IF Entry(x) = 0 THEN -1 ELSE buf[Entry(x)]]
Spec == Init /\ [][Next]_<<pat, dat, buf, pos>>
PatternLegal == Legal(pat)
RoundTrip == Packed(pat, Full(pat, dat, -1)) = dat
InPlaceFull == pos = Total => buf = Full(pat, dat, -1)
MaskCounts == Cardinality({x \in 1..Total : Mask(pat)[x] = 1}) = Nnz(pat)
DenseIsAll == Nnz(pat) = Total => pat = Dense(pat.m, pat.n)
====
