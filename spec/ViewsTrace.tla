---- MODULE ViewsTrace ----
(* Recorded operations on DenseMatrix / ArrayView / BandDenseMatrix checked against Views.
   Every event reports the whole heap (in units of 1/U), so that a write outside the window is seen.            *)
EXTENDS TraceKit
CONSTANT U
V == INSTANCE Views WITH Cells <- 0, Vals <- {}, MaxOps <- 0, heap <- 0, va <- 0, vb <- 0, last <- 0, nops <- 0
VARIABLES l, heap
tvars == <<l, heap>>
Ev == TraceLog[l]
TInit == l = 1 /\ heap = <<>>
M(x) == V!Mx(x[1], x[2], x[3])
Becomes(h) == heap' = h /\ Ev.r.heap = h
Same == Becomes(heap)
Exact(v, k) == \A c \in V!Window(v) : heap[c] % k = 0
AbsI(x) == IF x < 0 THEN -x ELSE x
Pow2(k) == k \in {1, 2, 4, -1, -2, -4}

TCase == Ev.op = "case" /\ heap' = <<>>
THeap == Ev.op = "heap" /\ Becomes([k \in 1..Len(Ev.vals) |-> Ev.vals[k] * U])
\* a view is what it was made of
TMake == Ev.op = "make" /\ Same /\ Ev.r.shape = <<Ev.v[1], Ev.v[2], Ev.v[3]>> /\ Ev.r.size = (IF Ev.cap >= 0 THEN Ev.cap ELSE Ev.v[2] * Ev.v[3])
TGet == /\ Ev.op = "get" /\ Same
        /\ Ev.r.val = V!Entry(heap, M(Ev.v), Ev.i, Ev.j)         \* const access
        /\ Ev.r.cell = V!Cell(M(Ev.v), Ev.i, Ev.j) - 1           \* the cell a writer would change
        /\ Ev.r.lin = Ev.r.cell /\ Ev.r.linval = Ev.r.val        \* the same entry by its number in the matrix
TPut == Ev.op = "put" /\ Becomes([heap EXCEPT ![V!Cell(M(Ev.v), Ev.i, Ev.j)] = Ev.c * U])
TAdd == Ev.op \in {"add", "sub"} /\ Becomes(V!AddTo(heap, M(Ev.v), M(Ev.w), IF Ev.op = "add" THEN 1 ELSE -1))
TMul == Ev.op = "mul" /\ Becomes(V!Times(heap, M(Ev.v), Ev.c))
TDiv == Ev.op = "div" /\ Pow2(Ev.c) /\ Exact(M(Ev.v), AbsI(Ev.c)) /\
        Becomes(LET h == V!Over(heap, M(Ev.v), AbsI(Ev.c)) IN IF Ev.c < 0 THEN V!Times(h, M(Ev.v), -1) ELSE h)
TZero == Ev.op = "zero" /\ Becomes(V!ZeroOf(heap, M(Ev.v)))
TEye == Ev.op = "eye" /\ Becomes(V!EyeOf(heap, M(Ev.v), (IF Ev.c = 0 THEN 1 ELSE Ev.c) * U))
\* norms are taken of whole numbers: the driver squares the answer and reports it when it is (up to rounding) an integer
TNorm == /\ Ev.op = "norm" /\ Same /\ Ev.r.ok /\ Ev.r.sign
         /\ LET hh == [k \in 1..Len(heap) |-> heap[k] \div U]
            IN Ev.r.sq = V!Norm2(hh, M(Ev.v), M(Ev.w), Ev.a, Ev.b)
\* the text has one line per row and one number per column, in the order of the matrix
TStr == /\ Ev.op = "str" /\ Same /\ Ev.r.ok
        /\ Ev.r.rows = (IF Ev.v[3] = 0 THEN <<>> ELSE [i \in 1..Ev.v[2] |-> [j \in 1..Ev.v[3] |-> V!Entry(heap, M(Ev.v), i - 1, j - 1)]])
TArr == /\ Ev.op = "arr"
        /\ LET o == Ev.v[1] n == Ev.v[2] IN
           /\ Ev.r.items = [k \in 1..n |-> heap[o + k]] /\ Ev.r.iter = Ev.r.items /\ Ev.r.citer = Ev.r.items
           /\ Ev.r.empty = (n = 0) /\ Ev.r.size = n /\ Ev.r.cleared
           /\ Becomes([k \in 1..Len(heap) |-> IF k > o /\ k <= o + n
                         THEN IF Ev.f = "zero" THEN 0 ELSE IF Ev.f = "shift" THEN heap[k] + (k - o) * U ELSE heap[k] ELSE heap[k]])
\* band matrices: parts and offsets survive every conversion, the parts are still views of the same cells
TBand == /\ Ev.op = "band" /\ Same
         /\ Ev.r.n = Len(Ev.parts) /\ Ev.r.row = Ev.row /\ Ev.r.col = Ev.col
         /\ Ev.r.parts = Ev.parts /\ Ev.r.back = Ev.parts /\ Ev.r.shared /\ Ev.r.same
TConv == /\ Ev.op = "conv" /\ Same
         /\ Ev.r.row = <<0, Ev.dim>> /\ Ev.r.col = <<0, Ev.nf>> /\ Ev.r.part = Ev.v
\* MemoryLegacy: the arrays of the stack memory are separate, inside the object, large enough for F tetrahedra and Q points
\* r.at: offset and length (in scalars) of U, V, DU, DIFF, extra, XYG, XYP, PSI, DET, MES, NRM, XYL, WG
TLeg == /\ Ev.op = "legacy" /\ Same
        /\ Ev.r.f = 1
        /\ LET f == Ev.r.F q == Ev.r.Q
               need == <<270 * q * f, 270 * q * f, 270 * q * f, 270 * q * f, 60 * q * f, 3 * q * f, 12 * f, 9 * f, f, f, 3 * f, 4 * q, q>>
           IN /\ Len(Ev.r.at) = 13
              /\ \A k \in 1..13 : /\ Ev.r.at[k][2] >= need[k] /\ Ev.r.at[k][1] >= 0 /\ Ev.r.at[k][1] + Ev.r.at[k][2] <= Ev.r.total
              /\ \A a, b \in 1..13 : a < b => \/ Ev.r.at[a][1] + Ev.r.at[a][2] <= Ev.r.at[b][1]
                                             \/ Ev.r.at[b][1] + Ev.r.at[b][2] <= Ev.r.at[a][1]
TNext == \/ /\ l <= TraceLen
            /\ (TCase \/ THeap \/ TMake \/ TGet \/ TPut \/ TAdd \/ TMul \/ TDiv \/ TZero \/ TEye \/ TNorm \/ TStr \/ TArr \/ TBand \/ TConv \/ TLeg)
            /\ l' = l + 1
         \/ l > TraceLen /\ UNCHANGED tvars
====
