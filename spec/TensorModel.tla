---- MODULE TensorModel ----
(* The tensors of Tensor: consistency of the storage of every kind and the identities their operations obey. *)
EXTENDS Tensor
CONSTANTS Top, MaxDim
VARIABLES k, n, a, b, stage
Sets(kk, nn, top) == [1..Size(kk, nn) -> -top..top]
\* tensors with at most two stored numbers different from zero
Sparse(kk, nn) == LET s == Size(kk, nn) IN {[c \in 1..s |-> (IF c = p THEN x ELSE 0) + (IF c = q THEN y ELSE 0)] : p \in 1..s, q \in 1..s, x \in {1, Top}, y \in {-1, 2}}
Tensors(kk, nn) == IF Size(kk, nn) <= 4 THEN Sets(kk, nn, Top) ELSE IF Size(kk, nn) > 30 THEN {[c \in 1..Size(kk, nn) |-> ((c * u) % 7) - 3] : u \in 1..6} ELSE Sparse(kk, nn)
Few(kk, nn) == IF Size(kk, nn) <= 3 THEN Sets(kk, nn, 1) ELSE {[c \in 1..Size(kk, nn) |-> ((c * u) % 5) - 2] : u \in 1..3}
Init == k = "" /\ n = 0 /\ a = <<>> /\ b = <<>> /\ stage = 0
Init3 == k \in Kinds /\ n = 3 /\ a = <<>> /\ b = <<>> /\ stage = 1
Next == \/ stage = 0 /\ stage' = 1 /\ k' \in Kinds /\ n' \in 1..MaxDim /\ UNCHANGED <<a, b>>
        \/ stage = 1 /\ stage' = 2 /\ a' \in Tensors(k, n) /\ UNCHANGED <<k, n, b>>
        \/ stage = 2 /\ stage' = 3 /\ b' \in Few(k, n) /\ UNCHANGED <<k, n, a>>
        \/ stage = 3 /\ UNCHANGED <<k, n, a, b, stage>>
Some == stage = 1
Rank2 == stage = 3 /\ RankOf(k) = 2
\* equivalent tuples: canonical ones are fixed, numbers of places are the classes, every class has its size
Classes == Some => /\ \A q \in 1..Count(k, n) : LET t == TupleNo(k, n, q) IN Canon(k, Canon(k, t)) = Canon(k, t) /\ NoOf(n, t) = q
                                                                             /\ SlotsOf[k][n][Place(k, n, t)] = Canon(k, t)
                   /\ SumN(DupOf[k][n]) = Count(k, n)
                   /\ \A c \in 1..Size(k, n) : Place(k, n, SlotsOf[k][n][c]) = c
Swap(t, f) == [p \in 1..Len(t) |-> t[f[p]]]
Symmetries(kk) == CASE kk = "sym" -> {<<2, 1>>} [] kk = "symten" -> {<<3, 4, 1, 2>>} [] kk = "bisym" -> {<<3, 4, 1, 2>>, <<2, 1, 3, 4>>, <<1, 2, 4, 3>>} [] OTHER -> {}
Invariant == Some => \A q \in 1..Count(k, n) : \A f \in Symmetries(k) : Canon(k, Swap(TupleNo(k, n, q), f)) = Canon(k, TupleNo(k, n, q))
\* contraction of stored numbers with multiplicities is the full contraction
Weights == stage = 3 => Contract(k, n, a, b) = SumN([c \in 1..Size(k, n) |-> DupOf[k][n][c] * a[c] * b[c]]) /\ Contract(k, n, a, b) = Contract(k, n, b, a)
Positive == stage = 2 => Contract(k, n, a, a) >= 0 /\ (Contract(k, n, a, a) = 0 <=> \A c \in 1..Size(k, n) : a[c] = 0)
A == Full(k, n, a)
B == Full(k, n, b)
MM(x, y) == Product("mtx", "mtx", n, x, y)
Dets == Rank2 => DetOf(n, MM(A, B)) = DetOf(n, A) * DetOf(n, B) /\ DetOf(n, Transposed(k, n, a)) = DetOf(n, A)
Adj == Rank2 => MM(A, Adjugate(n, A)) = Ident(n, DetOf(n, A)) /\ MM(Adjugate(n, A), A) = Ident(n, DetOf(n, A))
Trans == Rank2 => /\ Transposed("mtx", n, MM(A, B)) = MM(Transposed("mtx", n, B), Transposed("mtx", n, A))
                  /\ Trace("mtx", n, MM(A, B)) = Contract("mtx", n, A, Transposed("mtx", n, B))
                  /\ (k = "sym" => Transposed(k, n, a) = A)
\* s x s doubled is s x s + s x s; <f x s + s x f, g x g> = 2 <f, g> <s, g>
Products == stage = 3 /\ RankOf(k) < 4 =>
               LET ms == IF k = "arr" THEN {"mtx", "sym"} ELSE IF k = "mtx" THEN {"ten", "symten"} ELSE {"ten", "symten", "bisym"}
               IN \A m \in ms : (m \in {"mtx", "sym"} \/ n <= 2) =>
                     /\ SymProduct(m, k, n, a, a) = [c \in 1..Size(m, n) |-> 2 * Square(m, k, n, a)[c]]
                     /\ SymProduct(m, k, n, a, b) = SymProduct(m, k, n, b, a)
                     /\ Contract(m, n, SymProduct(m, k, n, a, b), Square(m, k, n, b)) = 2 * Contract(k, n, a, b) * Contract(k, n, b, b)
\* the fourth rank identity maps a symmetric matrix to itself
Identity4 == stage = 3 /\ k = "sym" => \A q \in 1..n * n :
               SumN([p \in 1..n * n |-> Ident4(n, 1)[(q - 1) * n * n + p] * A[p]]) = 2 * A[q]
====
