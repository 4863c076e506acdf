---- MODULE SymmetryTrace ----
EXTENDS TraceKit
VARIABLES l, dummy
S == INSTANCE Symmetry WITH sg <- 0, locus <- 0
M == INSTANCE DofMap WITH Bases <- {}, MaxOps <- 0, MaxDofs <- 0, term <- 0, nops <- 0
Ev == TraceLog[l]
TInit == l = 1 /\ dummy = 0
Perm(q) == [i \in 0..3 |-> q[i + 1]]
Sg == Perm(Ev.s)
Groups(x) == Len(S!Groups(x))
\* loci of symmetric groups in the order type, element, group, index
Seq3(x, e) == M!Cat([g \in 1..Groups(x) |-> [i \in 1..S!Vol(x, g - 1) |-> <<x, e, g - 1, i - 1>>]])
Types(lo, hi) == M!Cat([x \in 1..(hi - lo + 1) |-> M!Cat([e \in 1..S!Count(lo + x - 1) |-> Seq3(lo + x - 1, e - 1)])])
AllSeq == TLCEval(Types(0, 5))
TReorder == /\ Ev.op = "reorder"
            /\ Ev.r = [i \in 1..Len(AllSeq) |-> LET d == AllSeq[i] IN S!Reordered(d[1], d[2], d[3], d[4], Sg)]
TRemap == /\ Ev.op = "remap"
          /\ Ev.r.sym = [i \in 1..Len(AllSeq) |-> LET d == AllSeq[i] IN <<d[1], S!ImageElem(d[1], d[2], Sg), d[3], S!Remapped(d[1], d[2], d[3], d[4], Sg)>>]
          /\ Ev.r.plain = M!Cat([x \in 1..6 |-> [e \in 1..S!Count(x - 1) |-> <<x - 1, S!ImageElem(x - 1, e - 1, Sg), 255, 255>>]])
          /\ Ev.r.char = M!Cat([x \in 1..6 |-> [e \in 1..S!Count(x - 1) |-> IF Sg \in S!Stabilizer(x - 1, e - 1) THEN S!Sign(x - 1, e - 1, Sg) ELSE 0]])
TStab == /\ Ev.op = "stab"
         /\ S!Generated({S!Id}, {Perm(Ev.r.gens[i]) : i \in 1..Len(Ev.r.gens)}) = S!Stabilizer(Ev.x, Ev.e)
         /\ Ev.r.key = <<<<0, 1, 1, 3, 3, 5>>[Ev.x + 1], Ev.x \in {2, 4}>>
         \* a permutation that carries the first element of the type onto this one
         /\ LET t == Perm(Ev.r.to) IN t \in S!Perms /\ S!ImageElem(Ev.x, 0, t) = Ev.e
TTables == /\ Ev.op = "tables"
           /\ Ev.r.edge = M!Cat([a \in 1..6 |-> [b \in 1..6 |-> IF a # b /\ a <= 4 /\ b <= 4 THEN S!Elem(1, {a - 1, b - 1}) ELSE 255]])
           /\ Ev.r.face = M!Cat([a \in 1..5 |-> M!Cat([b \in 1..5 |-> [c \in 1..5 |-> IF Cardinality({a, b, c}) = 3 /\ {a, b, c} \subseteq 1..4 THEN S!Elem(3, {a - 1, b - 1, c - 1}) ELSE 255]])])
           /\ {Perm(Ev.r.perms[i]) : i \in 1..Len(Ev.r.perms)} = S!Perms /\ Len(Ev.r.perms) = 24
           /\ Perm(Ev.r.id) = S!Id
           /\ Ev.r.ev = [e \in 1..6 |-> S!EdgeV[e]]
           /\ \A f \in 1..4 : ToSet(Ev.r.fv[f]) = ToSet(S!FaceV[f]) /\ Len(Ev.r.fv[f]) = 3
           /\ Ev.r.vol = [x \in 1..6 |-> [g \in 1..Groups(x - 1) |-> S!Vol(x - 1, g - 1)]]
           /\ Ev.r.amount = [x \in 1..6 |-> Groups(x - 1)]
TPerm == /\ Ev.op = "perm"
         /\ LET ds == TLCEval(M!Dofs(Ev.term)) m == TLCEval(S!MapDofs(ds, Sg))
            IN Ev.r = [j \in 1..Len(ds) |-> <<<<m[j][1], m[j][2]>>>>]
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ UNCHANGED dummy /\ (Ev.op = "case" \/ TReorder \/ TRemap \/ TStab \/ TTables \/ TPerm)
         \/ l > TraceLen /\ UNCHANGED <<l, dummy>>
====
