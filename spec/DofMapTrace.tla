---- MODULE DofMapTrace ----
(* Recorded queries of real maps.  reg: the maps built so far, by name. *)
EXTENDS TraceKit
VARIABLES l, reg
M == INSTANCE DofMap WITH Bases <- {}, MaxOps <- 0, MaxDofs <- 0, term <- 0, nops <- 0
Ev == TraceLog[l]
TInit == l = 1 /\ reg = <<>>
Entry(t) == [t |-> t, d |-> TLCEval(M!Dofs(t)), n |-> TLCEval(M!NumDofs(t))]
Put(name, t) == reg' = [x \in (DOMAIN reg) \cup {name} |-> IF x = name THEN Entry(t) ELSE reg[x]]
SetSeq(S) == LET RECURSIVE Q(_) Q(n) == IF n < 0 THEN <<>> ELSE Q(n - 1) \o (IF n \in S THEN <<n>> ELSE <<>>) IN Q(40)
\* everything a user can read off a map
View(e) == [nd |-> e.n, ndt |-> M!OnTet(e.n), tot |-> Len(e.d), mask |-> M!GeomMask(e.n),
            sym |-> [x \in 1..6 |-> SetSeq(M!SymBits(e.t, x - 1))],
            def |-> [x \in 1..6 |-> e.n[x] > 0],
            table |-> e.d, types |-> [i \in 1..Len(e.d) |-> e.d[i][1]]]
\* the way a map was constructed is not a part of it
RECURSIVE Strip(_)
Strip(t) == CASE t.k = "U" -> [k |-> "U", n |-> t.n]
              [] t.k = "S" -> [k |-> "S", s |-> t.s]
              [] t.k = "V" -> [k |-> "V", d |-> t.d, b |-> Strip(t.b)]
              [] t.k = "C" -> [k |-> "C", p |-> [i \in 1..Len(t.p) |-> Strip(t.p[i])]]
TBuild == Ev.op = "build" /\ Put(Ev.r0, Strip(Ev.term)) /\ Ev.r = View(reg'[Ev.r0])
Arg(k) == reg[Ev.a[k]].t
Derived == CASE Ev.op = "pow" -> M!Vec(Ev.k, Arg(1))
             [] Ev.op = "powS" -> M!PowS(Arg(1), Ev.k)
             [] Ev.op = "mul" -> M!Mul(Arg(1), Arg(2))
             [] Ev.op \in {"merge", "push"} -> M!Com([i \in 1..Len(Ev.a) |-> Arg(i)])
             [] Ev.op = "mergeS" -> M!MergeS([i \in 1..Len(Ev.a) |-> Arg(i)])
             [] Ev.op = "compress" -> M!Compress([i \in 1..Len(Ev.a) |-> Arg(i)])
             [] Ev.op = "copy" -> Arg(1)
\* a plain leaf may be reported by its counts only, symmetry is visible in the table
RECURSIVE Plain(_)
Plain(t) == CASE t.k = "U" -> t
              [] t.k = "S" -> [k |-> "U", n |-> M!NumDofs(t)]
              [] t.k = "V" -> [t EXCEPT !.b = Plain(t.b)]
              [] t.k = "C" -> [k |-> "C", p |-> [i \in 1..Len(t.p) |-> Plain(t.p[i])]]
TDerive == /\ Ev.op \in {"pow", "powS", "mul", "merge", "push", "mergeS", "compress", "copy"}
           /\ LET t == TLCEval(Derived) IN Put(Ev.r0, t) /\ Ev.r.term = Plain(t) /\ Ev.r.view = View(reg'[Ev.r0])
Q == reg[Ev.r0]
\* all loci, in the order type, element, number
Loci(n) == M!Cat([x \in 1..6 |-> M!Cat([e \in 1..M!NE[x] |-> [i \in 1..n[x] |-> <<x - 1, e - 1, i - 1>>]])])
TGeom == /\ Ev.op = "geom" /\ UNCHANGED reg
         /\ LET ls == TLCEval(Loci(Q.n)) ds == Q.d
                ix == TLCEval([g \in {M!Geom(ds[i]) : i \in 1..Len(ds)} |-> M!IndexOf(ds, g)])
            IN Ev.r = [i \in 1..Len(ls) |-> <<ix[ls[i]], ix[ls[i]]>> \o ds[ix[ls[i]] + 1]]
TCount == Ev.op = "count" /\ UNCHANGED reg /\ Ev.r = [i \in 1..64 |-> M!CountMask(Q.n, i - 1)]
GeomOk(g) == g[1] \in 0..5 /\ g[2] < M!NE[g[1] + 1] /\ g[3] < Q.n[g[1] + 1]
SymOk(g) == LET b == M!SymBits(Q.t, g[1]) IN 5 \notin b /\ g[4] \in b /\ g[5] < M!Vol[g[1] + 1][g[4] + 1]
\* addresses as such: a place of the tetrahedron, a member of a symmetry group
PlaceOk(g) == g[1] \in 0..5 /\ g[2] < M!NE[g[1] + 1]
SymAddr(g) == g[4] # 255 /\ g[5] # 255
TValid == /\ Ev.op = "valid" /\ UNCHANGED reg
          /\ Ev.r = [tet |-> Ev.i < Len(Q.d), geom |-> GeomOk(Ev.g), full |-> (Ev.i < Len(Q.d) /\ GeomOk(Ev.g)),
                     sym |-> (Ev.i < Len(Q.d) /\ GeomOk(Ev.g) /\ SymOk(Ev.g)), thr |-> <<~(Ev.i < Len(Q.d)), ~GeomOk(Ev.g)>>,
                     addr |-> LET p == PlaceOk(Ev.g) s == SymAddr(Ev.g) IN <<p, p, p /\ s, s, FALSE, FALSE, FALSE, FALSE, FALSE, TRUE, FALSE, TRUE, FALSE>>]
\* plain iteration, any cursor arithmetic
TIter == /\ Ev.op = "iter" /\ UNCHANGED reg
         /\ LET n == Len(Q.d) a == Ev.a b == Ev.b IN
            Ev.r = [fwd |-> [i \in 1..n |-> <<i - 1>> \o Q.d[i]], bwd |-> [i \in 1..n |-> <<n - i>> \o Q.d[n + 1 - i]],
                    at |-> IF n > 0 THEN <<<<a>> \o Q.d[a + 1], <<b>> \o Q.d[b + 1], <<b>> \o Q.d[b + 1], <<b>> \o Q.d[b + 1]>> ELSE <<>>,
                    cmp |-> IF n > 0 THEN <<b - a, a = b, a # b, a < b, a > b, a <= b, a >= b>> ELSE <<>>]
Sp == [d \in 1..4 |-> ToSet(Ev.sp[d])]
Expect(e, seq) == [i \in 1..Len(seq) |-> <<seq[i]>> \o e.d[seq[i] + 1]]
TSparse == /\ Ev.op = "sparse" /\ UNCHANGED reg
           /\ Ev.r = [plain |-> Expect(Q, TLCEval(M!Iter(Q.t, Sp))), geom |-> Expect(Q, TLCEval(M!IterGeom(Q.t, Sp)))]
\* a cursor reads its position without disturbing it (copies, post-increment)
TEq == Ev.op = "eq" /\ UNCHANGED reg /\ LET e == (reg[Ev.a].t = reg[Ev.b].t) IN Ev.r = <<e, ~e, e, ~e>>
TSub == /\ Ev.op = "sub" /\ UNCHANGED reg
        /\ LET s == M!SubTerm(Q.t, Ev.path) IN Ev.r = IF s.k = "none" THEN [k |-> "none"] ELSE Plain(s)
\* the view of a subspace answers with indices of the enclosing map
TNest == /\ Ev.op = "nest" /\ UNCHANGED reg
         /\ LET s == TLCEval(M!SubTerm(Q.t, Ev.path)) IN
            IF s.k = "none" THEN Ev.r = [none |-> TRUE]
            ELSE LET sh == TLCEval(M!PathShift(Q.t, Ev.path)) n == TLCEval(M!NumDofs(s)) sd == TLCEval(M!Dofs(s)) tot == M!Total(n)
                     ds == Q.d ls == TLCEval(Loci(n))
                     Big(i) == <<i + sh[1]>> \o ds[i + sh[1] + 1]
                     ix == TLCEval([g \in {M!Geom(sd[i]) : i \in 1..Len(sd)} |-> M!IndexOf(sd, g)])
                 IN Ev.r = [none |-> FALSE, nd |-> n, tot |-> tot,
                            table |-> [i \in 1..tot |-> Big(i - 1)],
                            geom |-> [i \in 1..Len(ls) |-> <<ix[ls[i]] + sh[1]>> \o Big(ix[ls[i]])],
                            inside |-> [i \in 1..Len(ds) |-> (i - 1 >= sh[1] /\ i - 1 < sh[1] + tot)],
                            plain |-> LET q == TLCEval(M!Iter(s, Sp)) IN [i \in 1..Len(q) |-> Big(q[i])],
                            pref |-> LET q == TLCEval(M!IterGeom(s, Sp)) IN [i \in 1..Len(q) |-> Big(q[i])]]
\* a nested map is its part and its place; it is read like any map
Nested(path) == LET s == M!SubTerm(Q.t, path) IN IF s.k = "none" THEN <<"none">> ELSE <<Plain(s), s, M!PathShift(Q.t, path)>>
TNestQ == /\ Ev.op = "nestq" /\ UNCHANGED reg
          /\ LET x == TLCEval(Nested(Ev.path)) y == TLCEval(Nested(Ev.path2)) e == (x = y)
                 s == M!SubTerm(Q.t, Ev.path)
             IN /\ Ev.r.eq = <<e, e, ~e, TRUE, TRUE>>
                /\ IF s.k = "none" THEN Ev.r.none
                   ELSE LET sh == TLCEval(M!PathShift(Q.t, Ev.path)) n == TLCEval(M!NumDofs(s)) tot == M!Total(n)
                            Big(i) == <<i + sh[1]>> \o Q.d[i + sh[1] + 1]
                            P(t) == IF t.k = "none" THEN [k |-> "none"] ELSE Plain(t)
                        IN /\ ~Ev.r.none /\ Ev.r.clear
                           /\ Ev.r.sub = <<P(s), P(M!SubTerm(s, Ev.more)), P([k |-> "none"]), P([k |-> "none"])>>
                           /\ Ev.r.fwd = [i \in 1..tot |-> Big(i - 1)]
                           /\ Ev.r.bwd = [i \in 1..tot |-> Big(tot - i)]
                           /\ Ev.r.types = [i \in 1..tot |-> Big(i - 1)[2]]
                           /\ Ev.r.sym = [z \in 1..6 |-> SetSeq(M!SymBits(s, z - 1))]
                           /\ Ev.r.def = [z \in 1..6 |-> n[z] > 0]
                           /\ Ev.r.mask = M!GeomMask(n) /\ Ev.r.ndt = M!OnTet(n)
TComp == /\ Ev.op = "comp" /\ UNCHANGED reg
         /\ LET t == Q.t RECURSIVE Part(_, _) 
                Cnt == IF t.k = "V" THEN t.d ELSE Len(t.p)
                Part(j, i) == IF i + 1 < Cnt /\ M!Before(t, i + 1)[1] <= j THEN Part(j, i + 1) ELSE i
                RECURSIVE EPart(_, _, _)
                EPart(x, j, i) == IF i + 1 < Cnt /\ M!Before(t, i + 1)[x + 2] <= j THEN EPart(x, j, i + 1) ELSE i
            IN /\ Ev.r.tet = [j \in 1..Len(Q.d) |-> LET p == Part(j - 1, 0) IN <<j - 1, j - 1 - M!Before(t, p)[1], p>>]
               /\ Ev.r.back = [j \in 1..Len(Q.d) |-> j - 1]
               /\ Ev.r.elem = [x \in 1..6 |-> [j \in 1..Q.n[x] |-> LET p == EPart(x - 1, j - 1, 0) IN <<x - 1, j - 1, j - 1 - M!Before(t, p)[x + 1], p>>]]
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ ((Ev.op = "case" /\ reg' = <<>>) \/ TBuild \/ TDerive \/ TGeom \/ TCount \/ TValid \/ TIter \/ TSparse \/ TEq \/ TSub \/ TNest \/ TNestQ \/ TComp)
         \/ l > TraceLen /\ UNCHANGED <<l, reg>>
====
