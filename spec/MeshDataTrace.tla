---- MODULE MeshDataTrace ----
EXTENDS TraceKit
VARIABLES l, dummy
D == INSTANCE MeshData WITH Arrangements <- 0, Broken <- FALSE, gn <- 0, one <- 0, two <- 0
S == INSTANCE Symmetry WITH sg <- 0, locus <- 0
M == INSTANCE DofMap WITH Bases <- {}, MaxOps <- 0, MaxDofs <- 0, term <- 0, nops <- 0
Ev == TraceLog[l]
TInit == l = 1 /\ dummy = 0
TRank == Ev.op = "rank" /\ Ev.r = [i \in 1..4 |-> D!Rank(Ev.g)[i - 1]]
TSign == /\ Ev.op = "sign"
         /\ LET s == [i \in 0..3 |-> Ev.s[i + 1]]
            IN Ev.r = [x \in 1..5 |-> [e \in 1..S!Count(x - 1) |-> D!Sign(CASE x \in {2, 3} -> 2 [] x \in {4, 5} -> 4 [] OTHER -> 0, e - 1, s) = 1]]
\* connectivity: vertices in the order stored or in positive order, edges and faces at their places
Minor(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) + a[2] * (b[3] * c[1] - b[1] * c[3]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Diff(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
TConn == /\ Ev.op = "conn"
         /\ LET c == Ev.cells[Ev.c + 1] n == [i \in 1..4 |-> Ev.r.n[i][1]] X(i) == Ev.xyz[n[i] + 1]
            IN /\ \A i \in 1..4 : Len(Ev.r.n[i]) = 1
               /\ ToSet(n) = ToSet(c)
               /\ IF Ev.re THEN Minor(Diff(X(1), X(4)), Diff(X(2), X(4)), Diff(X(3), X(4))) > 0 ELSE n = c
               /\ IF Ev.pr THEN /\ Len(Ev.r.e) = 6 /\ \A e \in 1..6 : Ev.r.e[e] = S!Ascending({n[v + 1] : v \in S!SetOf(S!EdgeV[e])})
                                /\ Len(Ev.r.f) = 4 /\ \A f \in 1..4 : Ev.r.f[f] = S!Ascending({n[v + 1] : v \in S!SetOf(S!FaceV[f])})
                  ELSE Ev.r.e = <<>> /\ Ev.r.f = <<>>
\* gathering
RankOf(arr, num) == D!Rank([i \in 1..4 |-> num[arr[i] + 1]])
Name(arr, x, e) == S!Ascending({arr[v + 1] : v \in S!SetOf(S!Verts(x, e))})
Entry(tag, v) == CHOOSE i \in 1..Len(tag) : tag[i].v = v
\* value of a degree of freedom of a map with the counts nd in the tag; <<>> if there is none
Value(d, nd, tag, s) == LET en == tag[Entry(tag, Name(Ev.arr, d[1], d[2]))] p == D!Place(d, nd, s)
                        IN IF en.no \/ p >= Len(en.a) THEN <<>> ELSE <<D!Sign(d[1], d[2], s) * en.a[p + 1]>>
Got(v, x) == IF v = <<>> THEN Ev.avail /\ x = -777 ELSE x = v[1]
TGather == /\ Ev.op = "gather"
           /\ LET t == Ev.term ds == TLCEval(M!Dofs(t)) nd == TLCEval(M!NumDofs(t)) s == TLCEval(RankOf(Ev.arr, Ev.old))
                  n == M!Total(M!NumDofs(M!SubTerm(t, Ev.path))) by == TLCEval(M!PathShift(t, Ev.path))[1]
              IN /\ Len(Ev.r) = Len(ds) + 1
                 /\ \A i \in 1..n : Got(TLCEval(Value(ds[by + i], nd, Ev.tags[1], s)), Ev.r[i])
                 /\ \A i \in (n + 1)..Len(Ev.r) : Ev.r[i] = -777
\* a tag for every component
Comps(t) == IF t.k = "V" THEN t.d ELSE Len(t.p)
TGathers == /\ Ev.op = "gathers"
            /\ LET t == Ev.term s == TLCEval(RankOf(Ev.arr, Ev.old))
               IN /\ \A c \in 0..(Comps(t) - 1) :
                        LET ch == M!Child(t, c) ds == TLCEval(M!Dofs(ch)) nd == TLCEval(M!NumDofs(ch)) by == TLCEval(M!Before(t, c))[1]
                        IN \A i \in 1..Len(ds) : Got(TLCEval(Value(ds[i], nd, Ev.tags[c + 1], s)), Ev.r[by + i])
                  /\ Len(Ev.r) = M!Total(M!NumDofs(t)) + 1 /\ Ev.r[Len(Ev.r)] = -777
\* renumbering of nodes: what a cell gathers by the new numbers afterwards is what it gathered by the old ones before
CellOf(v) == CHOOSE c \in ToSet(Ev.cells) : ToSet(v) \subseteq ToSet(c)
TRenum == /\ Ev.op = "renum"
          /\ LET t == Ev.term ds == TLCEval(M!Dofs(t)) nd == TLCEval(M!NumDofs(t)) st == TLCEval(D!Stored(nd)) b == Ev.block IN
             \A q \in 1..Len(Ev.tags) : \A j \in 1..Len(Ev.tags[q]) :
                LET en == Ev.tags[q][j] was == en.a now == Ev.r[q][j] dim == Len(en.v) - 1 sh == Ev.shift[dim + 1]
                    arr == TLCEval(CellOf(en.v)) so == TLCEval(RankOf(arr, Ev.old)) sn == TLCEval(RankOf(arr, Ev.new))
                    mine == TLCEval(SelectSeq(ds, LAMBDA d : S!Dim(d[1]) = dim /\ Name(arr, d[1], d[2]) = en.v))
                    from == TLCEval([i \in 1..Len(mine) |-> D!Place(mine[i], nd, so)]) to == TLCEval([i \in 1..Len(mine) |-> D!Place(mine[i], nd, sn)])
                    sg == TLCEval([i \in 1..Len(mine) |-> D!Sign(mine[i][1], mine[i][2], so) * D!Sign(mine[i][1], mine[i][2], sn)])
                IN IF en.no THEN now = <<>>
                   ELSE /\ Len(now) = Len(was)
                        /\ IF Ev.packed /\ Len(was) < sh + 2 * b THEN now = was
                           ELSE /\ Len(mine) = st[dim + 1]
                                /\ \A k \in 1..Len(was) : k <= sh \/ k > sh + b * st[dim + 1] => now[k] = was[k]
                                /\ \A i \in 1..Len(mine) : \A k \in 1..b : now[sh + b * to[i] + k] = sg[i] * was[sh + b * from[i] + k]
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ UNCHANGED dummy /\ (Ev.op = "case" \/ TRank \/ TSign \/ TConn \/ TGather \/ TGathers \/ TRenum)
         \/ l > TraceLen /\ UNCHANGED <<l, dummy>>
====
