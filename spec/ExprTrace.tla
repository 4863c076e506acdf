---- MODULE ExprTrace ----
(* Recorded programs over Ani::Expr, explained by ExprAlg.  Registers hold matrices; after every step all registers are
   recorded, so that a value shared between two expressions shows. *)
EXTENDS ExprAlg, TraceKit
VARIABLES l, m
Ev == TraceLog[l]
Arg(x, like) == IF Has(x, "reg") THEN m[x.reg] ELSE Fill(m[like], x.num)
Ls == [i \in 1..Len(Ev.a) |-> m[Ev.a[i]]]
\* the operand that gives the shape to a number
First(xs) == xs[CHOOSE i \in 1..Len(xs) : Has(xs[i], "reg") /\ \A j \in 1..(i - 1) : ~Has(xs[j], "reg")].reg
Refuse == CASE Ev.op = "elt" -> Ev.i >= m[Ev.a].r \/ Ev.j >= m[Ev.a].c
            [] Ev.op \in {"gather", "scalsum"} -> Ev.a = <<>> \/ \E i \in 1..Len(Ev.a) : m[Ev.a[i]] = Empty
            [] Ev.op = "det3" -> m[Ev.a].r # 3 \/ m[Ev.a].c # 3
            [] Ev.op \in {"num", "arr", "reshape", "zeroes"} -> m[Ev.a] = Empty
            [] OTHER -> FALSE
Result == CASE Ev.op = "lit" -> Mat(Ev.m)
            [] Ev.op = "mat" -> Mat(Ev.m)
            [] Ev.op = "un" -> Un(Ev.f, m[Ev.a])
            [] Ev.op = "bin" -> LET k == First(<<Ev.a, Ev.b>>) IN Bin(Ev.f, Arg(Ev.a, k), Arg(Ev.b, k))
            [] Ev.op = "tri" -> LET k == First(<<Ev.a, Ev.b, Ev.c>>) IN Tri(Ev.f, Arg(Ev.a, k), Arg(Ev.b, k), Arg(Ev.c, k))
            [] Ev.op = "inplace" -> Bin(Ev.f, m[Ev.d], m[Ev.b])
            [] Ev.op = "gather" -> Fold(Ev.f, Ls)
            [] Ev.op = "scalsum" -> ScalSum(Ls, Ev.k)
            [] Ev.op = "sub1" -> Pick(m[Ev.a], Ev.i, Ev.j)
            [] Ev.op = "sub2" -> Pick(m[Ev.a], Slice(Ev.i, Ev.di, m[Ev.a].r), Slice(Ev.j, Ev.dj, m[Ev.a].c))
            [] Ev.op = "elt" -> Pick(m[Ev.a], <<Ev.i>>, <<Ev.j>>)
            [] Ev.op = "row" -> Row(m[Ev.a], Ev.i)
            [] Ev.op = "col" -> Col(m[Ev.a], Ev.j)
            [] Ev.op = "T" -> Transp(m[Ev.a])
            [] Ev.op = "det3" -> Det3(m[Ev.a])
            [] Ev.op = "zeroes" -> M(Ev.n, Ev.k, LAMBDA i, j : 0)
            [] Ev.op = "num" -> Fill(m[Ev.a], Ev.x)
            [] Ev.op = "arr" -> [m[Ev.a] EXCEPT !.v = [k \in 1..Len(m[Ev.a].v) |-> N(Ev.x[k])]]
            [] Ev.op = "reshape" -> [m[Ev.a] EXCEPT !.r = Ev.n, !.c = Ev.k]
            [] Ev.op \in {"copy", "move"} -> m[Ev.a]
            [] Ev.op = "empty" -> Empty
Dest == IF Ev.op \in {"num", "arr", "reshape", "mat"} THEN Ev.a ELSE Ev.d
After == IF Refuse THEN m
         ELSE LET x == TLCEval(Result) IN [i \in 0..5 |-> IF i = Dest THEN x ELSE IF Ev.op = "move" /\ i = Ev.a THEN Empty ELSE m[i]]
TInit == l = 1 /\ m = [d \in 0..5 |-> Empty]
TNext == \/ /\ l <= TraceLen
            /\ l' = l + 1
            /\ IF Ev.op = "case" THEN m' = [d \in 0..5 |-> Empty]
               ELSE /\ Ev.op # "crash" /\ Ev.r.refused = Refuse /\ m' = After
                    /\ \A i \in 0..5 : Ev.r.all[i + 1] = m'[i]
         \/ l > TraceLen /\ UNCHANGED <<l, m>>
====
