---- MODULE TensorTrace ----
(* Recorded calls of the tensor classes on integer data (matrix functions: times 2^e.ea, divided out by the driver). *)
EXTENDS Tensor, TraceKit
VARIABLE l
Ev == TraceLog[l]
MdAll(s) == [i \in 1..Len(s) |-> Md(s[i])]
\* the order of the arguments of constructors: 0, 1 - stored order; mtx 2, 3 - column by column; sym 2 - lower triangle row by row
Given(v) == CASE v.kind = "mtx" /\ v.how >= 2 -> Transposed("mtx", v.N, v.a)
              [] v.kind = "sym" /\ v.how = 2 -> Store("sym", v.N, LAMBDA t : v.a[(t[2] * (t[2] + 1)) \div 2 + t[1] + 1])
              [] OTHER -> v.a
HasIt(k) == k \in {"sym", "symten", "bisym"}
Index(v) == LET s == SlotsOf[v.kind][v.N] n == Len(s)
            IN /\ v.r.rank = RankOf(v.kind) /\ v.r.size = n /\ v.r.dist = n
               /\ v.r.idx = s /\ v.r.dup = DupOf[v.kind][v.N]
               /\ v.r.pos = [q \in 1..Count(v.kind, v.N) |-> PlacesOf[v.kind][v.N][q] - 1]
               /\ v.r.it = (IF HasIt(v.kind) THEN s ELSE <<>>)
               /\ v.r.at = v.a /\ v.r.zero = [c \in 1..n |-> 0]
Fill(v) == LET a == Given(v) IN v.r.flat = a /\ v.r.full = Full(v.kind, v.N, a)
Written(v) == FoldLeft(LAMBDA acc, w : [acc EXCEPT ![Place(v.kind, v.N, w.i)] = w.v], v.a, v.w)
Put(v) == LET a == TLCEval(Written(v)) IN v.r.flat = a /\ v.r.full = Full(v.kind, v.N, a)
Step(x, s) == LET a == x[s.d + 1] b == x[s.b + 1] I == DOMAIN a
              IN [x EXCEPT ![s.d + 1] = CASE s.f \in {"add", "ade"} -> [i \in I |-> a[i] + b[i]]
                                          [] s.f \in {"sub", "sbe"} -> [i \in I |-> a[i] - b[i]]
                                          [] s.f = "neg" -> [i \in I |-> -a[i]]
                                          [] s.f \in {"mle", "mur", "mul"} -> [i \in I |-> a[i] * s.c]
                                          [] s.f \in {"dve", "div"} -> [i \in I |-> a[i] \div s.c]
                                          [] s.f = "cpy" -> b]
Lin(v) == v.r.y = FoldLeft(LAMBDA acc, s : TLCEval(Step(acc, s)), v.x, v.s)
Norm(v) == /\ v.r.f = Contract(v.kind, v.N, v.a, v.a)
           /\ v.r.d = Contract(v.kind, v.N, v.a, v.b) /\ v.r.e = v.r.d
Mat(v) == LET A == TLCEval(Full(v.kind, v.N, v.a)) d == DetOf(v.N, A) N == v.N
          IN /\ v.r.tr = Trace(v.kind, N, v.a) /\ v.r.det = Md(d)
             /\ v.r.mv = MulVec(v.kind, N, v.a, v.v) /\ v.r.mw = MulVec(v.kind, N, v.a, v.w)
             /\ v.r.dot = Bilinear(v.kind, N, v.a, v.v, v.w)
             /\ v.r.pr = Product(v.kind, v.kind, N, v.a, v.b) /\ v.r.tp = Transposed(v.kind, N, v.a)
             /\ v.r.adj = (IF N = 3 THEN Adjugate(3, A) ELSE <<>>)
             /\ IF ProdOf(v.S) = 0 THEN v.r.X = <<>> ELSE ProdOf(v.S) = Md(d) /\ v.r.X = MdAll(Adjugate(N, A))
Mixed(v) == LET N == v.N A == v.a B == TLCEval(Full("sym", N, v.b)) I == 1..N * N
            IN /\ v.r.apb = [i \in I |-> A[i] + B[i]] /\ v.r.bpa = v.r.apb
               /\ v.r.amb = [i \in I |-> A[i] - B[i]] /\ v.r.bma = [i \in I |-> B[i] - A[i]]
               /\ v.r.ab = Product("mtx", "mtx", N, A, B) /\ v.r.ba = Product("mtx", "mtx", N, B, A)
               /\ v.r.m = B /\ v.r.sym2 = [q \in I |-> A[q] + Transposed("mtx", N, A)[q]]
               /\ v.r.ida = Ident(N, v.c) /\ v.r.idb = v.r.ida /\ v.r.id1 = Ident(N, 1)
Outer(v) == /\ v.r.sq = Square(v.kind, v.of, v.N, v.s) /\ v.r.sm = SymProduct(v.kind, v.of, v.N, v.f, v.s)
\* a conversion keeps the tensor; "pack" - the stored numbers, "voigt" - the symmetric matrix of a bisymmetric tensor
Conv(v) == /\ v.r.same = v.a
           /\ CASE v.kind \in {"pack", "voigt"} \/ v.to \in {"pack", "voigt"} -> v.r.flat = v.a
                [] v.kind = "arr" -> Full(v.to, v.N, v.r.flat) = v.a
                [] v.to = "arr" -> v.r.flat = Full(v.kind, v.N, v.a)
                [] OTHER -> Full(v.to, v.N, v.r.flat) = Full(v.kind, v.N, v.a)
TInit == l = 1
TNext == \/ /\ l <= TraceLen
            /\ l' = l + 1
            /\ Ev.op \notin {"case", "crash"} => Ev.r.x
            /\ CASE Ev.op = "case" -> TRUE
                 [] Ev.op = "index" -> Index(Ev)
                 [] Ev.op = "fill" -> Fill(Ev)
                 [] Ev.op = "put" -> Put(Ev)
                 [] Ev.op = "lin" -> Lin(Ev)
                 [] Ev.op = "norm" -> Norm(Ev)
                 [] Ev.op = "mat" -> Mat(Ev)
                 [] Ev.op = "mixed" -> Mixed(Ev)
                 [] Ev.op = "outer" -> Outer(Ev)
                 [] Ev.op = "conv" -> Conv(Ev)
                 [] Ev.op = "ident4" -> [q \in 1..81 |-> 2 * Ev.r.full[q]] = Ident4(3, Ev.c)
                 [] OTHER -> FALSE
         \/ l > TraceLen /\ UNCHANGED l
====
