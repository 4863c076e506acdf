---- MODULE Views ----
(* Views on external memory (ArrayView, DenseMatrix): a view owns no cells, it names a window of a heap.
   Pure part: what every operation makes of the heap; the model below checks what a user relies on: cells are named
   one-to-one, nothing outside the window changes, the operations are the ones of the vector space of matrices.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* a matrix view: first cell (0-based), rows, columns, number of cells it may use
Mx(off, nr, nc) == [off |-> off, nr |-> nr, nc |-> nc]
Cell(v, i, j) == v.off + i + v.nr * j + 1                      \* column after column; heap sequences are 1-based
Window(v) == {Cell(v, i, j) : i \in 0..(v.nr - 1), j \in 0..(v.nc - 1)}
Entry(h, v, i, j) == h[Cell(v, i, j)]
\* heap after assigning f(i, j) to every entry of v
Assign(h, v, f(_, _)) == [k \in 1..Len(h) |-> IF k \in Window(v) THEN LET m == k - 1 - v.off IN f(m % v.nr, m \div v.nr) ELSE h[k]]
AddTo(h, v, w, s) == Assign(h, v, LAMBDA i, j : Entry(h, v, i, j) + s * Entry(h, w, i, j))
Times(h, v, k) == Assign(h, v, LAMBDA i, j : Entry(h, v, i, j) * k)
Over(h, v, k) == Assign(h, v, LAMBDA i, j : Entry(h, v, i, j) \div k)
ZeroOf(h, v) == Assign(h, v, LAMBDA i, j : 0)
EyeOf(h, v, c) == Assign(h, v, LAMBDA i, j : IF i = j THEN c ELSE 0)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
\* square of the Frobenius norm of a*v + b*w
Norm2(h, v, w, a, b) == LET n == v.nr * v.nc
                            val(m) == a * h[v.off + m] + (IF b = 0 THEN 0 ELSE b * h[w.off + m])
                        IN SumTo([m \in 1..n |-> val(m) * val(m)], n)
Apart(v, w) == Window(v) \cap Window(w) = {}
Alike(v, w) == v.nr = w.nr /\ v.nc = w.nc

CONSTANTS Cells, Vals, MaxOps
VARIABLES heap, va, vb, last, nops
vars == <<heap, va, vb, last, nops>>
Shapes == {m \in [off : 0..2, nr : 0..3, nc : 0..2] : m.off + m.nr * m.nc <= Cells}
Init == /\ heap \in [1..Cells -> Vals] /\ va \in Shapes /\ vb \in {w \in Shapes : Alike(va, w) /\ (w = va \/ Apart(va, w))}
        /\ last = [op |-> "none", h |-> <<>>] /\ nops = 0
Do(op, h) == heap' = h /\ last' = [op |-> op, h |-> heap] /\ nops' = nops + 1 /\ UNCHANGED <<va, vb>>
Next == nops < MaxOps /\
        \/ Do("add", AddTo(heap, va, vb, 1)) \/ Do("sub", AddTo(heap, va, vb, -1))
        \/ Do("neg", Times(heap, va, -1)) \/ Do("zero", ZeroOf(heap, va)) \/ Do("eye", EyeOf(heap, va, 2))
Spec == Init /\ [][Next]_vars
OneToOne == Cardinality(Window(va)) = va.nr * va.nc /\ Window(va) \subseteq 1..Cells
Outside == [][\A k \in 1..Cells : k \notin Window(va) => heap'[k] = heap[k]]_vars
\* taking back what was added restores the matrix; the matrix minus itself vanishes; a view of zero entries changes nothing
Undo == (last.op = "add" /\ Apart(va, vb)) => AddTo(heap, va, vb, -1) = last.h
SelfSub == (last.op = "sub" /\ va = vb) => heap = ZeroOf(last.h, va)
NegTwice == last.op = "neg" => Times(heap, va, -1) = last.h
NormZero == (Norm2(heap, va, vb, 1, 0) = 0) <=> (heap = ZeroOf(heap, va))
Pythagoras == LET a == Norm2(heap, va, vb, 1, 1) b == Norm2(heap, va, vb, 1, -1)
              IN a + b = 2 * Norm2(heap, va, va, 1, 0) + 2 * Norm2(heap, vb, vb, 1, 0)
EyeNorm == last.op = "eye" => Norm2(heap, va, va, 1, 0) = 4 * (IF va.nr < va.nc THEN va.nr ELSE va.nc)
====
