---- MODULE ArrayEnumTrace ----
(* Executions of ext_range_array_enum (maps = <<>>) and ext_array_enum (maps[v] = increasing values that stand for 0,1,2,... when
   the governing component is v) against ArrayEnum.                                                                  *)
EXTENDS TraceKit
E == INSTANCE ArrayEnum WITH Digits <- {}, MaxRange <- 0, A <- 0, n <- 0, m <- 0, rg <- 0, B <- 0, pos <- 0
VARIABLES l, seq, par     \* seq: the elements of B in order (canonical, unmapped form); par: parameters of the current enumerator
tv == <<l, seq, par>>
Ev == TraceLog[l]
TInit == l = 1 /\ seq = <<>> /\ par = [n |-> 0, m |-> 0, maps |-> <<>>]

\* position of the governing component inside the extended tuple (1-based)
GovPos(p) == p.m + (IF p.n <= p.m THEN 2 ELSE 1)
\* observed tuple -> canonical tuple, or <<>> when the inserted value is not a value of its map
Canon(p, t) == IF p.maps = <<>> THEN t
               ELSE LET g == t[GovPos(p)] IN
                    IF g < 0 \/ g >= Len(p.maps) THEN <<>>
                    ELSE LET mp == p.maps[g + 1] v == t[p.n + 1] IN
                         IF \E k \in 1..Len(mp) : mp[k] = v
                         THEN [t EXCEPT ![p.n + 1] = (CHOOSE k \in 1..Len(mp) : mp[k] = v) - 1] ELSE <<>>
CanonSeq(p, s) == [k \in 1..Len(s) |-> Canon(p, s[k])]
TEnum == /\ Ev.op = "enum"
         /\ LET p == [n |-> Ev.n, m |-> Ev.m, maps |-> Ev.maps]
                A == TLCEval(ToSet(Ev.ord))
                B == TLCEval(E!Ext(A, Ev.n, Ev.m, Ev.rg))
                f == TLCEval(CanonSeq(p, Ev.r.fwd))
            IN /\ Ev.r.size = Cardinality(B) /\ Len(f) = Ev.r.size /\ Ev.r.empty = (B = {})
               /\ \A k \in 1..Len(f) : f[k] \in B
               /\ \A k \in 1..(Len(f) - 1) : E!LexLt(f[k], f[k + 1])        \* forward iteration: every element once, in order
               /\ Ev.r.num = [k \in 1..Len(f) |-> k - 1]                       \* the number carried by the iterator
               /\ CanonSeq(p, Ev.r.bwd) = [k \in 1..Len(f) |-> f[Len(f) + 1 - k]] \* backward from end
               /\ CanonSeq(p, Ev.r.at) = f                                     \* number -> tuple
               /\ Ev.r.idx = [k \in 1..Len(f) |-> k - 1]                       \* tuple -> number
               /\ seq' = f /\ par' = p
Cnt(P(_)) == Cardinality({k \in 1..Len(seq) : P(k)})
TQuery == /\ Ev.op = "q"
          /\ LET c == Canon(par, Ev.a)
                 in == c # <<>> /\ \E k \in 1..Len(seq) : seq[k] = c
                 rank == Cnt(LAMBDA k : c # <<>> /\ E!LexLt(seq[k], c))
             IN /\ Ev.r.contains = in /\ Ev.r.count = (IF in THEN 1 ELSE 0)
                /\ Ev.r.find = (IF in THEN rank ELSE Len(seq))
                /\ Ev.r.findv = (IF in THEN Ev.a ELSE <<>>)
                /\ (par.maps = <<>>) =>
                     /\ Ev.r.lb = rank
                     /\ Ev.r.ub = Cnt(LAMBDA k : E!LexLe(seq[k], c))
                     /\ (rank < Len(seq) => Ev.r.lbv = seq[rank + 1])
          /\ UNCHANGED <<seq, par>>
\* a cursor: start at number k, then steps (+1/-1 by ++/--, others by +=/-=); after each step the number and the tuple
Cursor(k, steps) == LET RECURSIVE P(_) P(i) == IF i = 0 THEN k ELSE P(i - 1) + steps[i] IN [i \in 1..(Len(steps) + 1) |-> P(i - 1)]
TWalk == /\ Ev.op = "walk"
         /\ LET ps == Cursor(Ev.k, Ev.steps) IN
            /\ Ev.r.pos = ps
            /\ \A i \in 1..Len(ps) : IF ps[i] < Len(seq) THEN Canon(par, Ev.r.val[i]) = seq[ps[i] + 1] ELSE Ev.r.val[i] = <<>>
            \* comparisons of consecutive cursors: <<==, !=, <, >, <=, >=>>
            /\ \A i \in 1..(Len(ps) - 1) : LET a == ps[i] b == ps[i + 1] IN
                 Ev.r.cmp[i] = <<a = b, a # b, a < b, a > b, a <= b, a >= b>>
         /\ UNCHANGED <<seq, par>>
TClear == Ev.op = "clear" /\ Ev.r = 0 /\ seq' = <<>> /\ UNCHANGED par
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ ((Ev.op = "case" /\ UNCHANGED <<seq, par>>) \/ TEnum \/ TQuery \/ TWalk \/ TClear)
         \/ l > TraceLen /\ UNCHANGED tv
====
