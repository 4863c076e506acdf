---- MODULE IvlEnumTrace ----
EXTENDS TraceKit
VARIABLES l, V
M == INSTANCE IvlEnum WITH Universe <- {}, cur <- 0
Ev == TraceLog[l]
TInit == l = 1 /\ V = <<>>
TBuild == /\ Ev.op = "build" /\ V' = Ev.v
          /\ Ev.blocks = M!Blocks(Ev.v)           \* the script stores the list in the documented form
          /\ Ev.r = [size |-> Len(Ev.v), empty |-> (Ev.v = <<>>), fwd |-> [i \in 1..Len(Ev.v) |-> <<i - 1, Ev.v[i]>>],
                     bwd |-> [i \in 1..Len(Ev.v) |-> <<Len(Ev.v) - i, Ev.v[Len(Ev.v) + 1 - i]>>]]
Elem(i) == IF i < Len(V) THEN <<i, V[i + 1]>> ELSE <<Len(V)>>
TLeft == /\ Ev.op = "left" /\ UNCHANGED V
         /\ Ev.r = [find |-> Elem(M!FindLeft(V, Ev.k)), contains |-> (Ev.k >= 0 /\ Ev.k < Len(V)), lb |-> Elem(M!LowerLeft(V, Ev.k)), ub |-> Elem(M!LowerLeft(V, Ev.k + 1))]
TRight == /\ Ev.op = "right" /\ UNCHANGED V
          /\ Ev.r = [find |-> Elem(M!FindRight(V, Ev.k)), contains |-> (M!FindRight(V, Ev.k) < Len(V)), lb |-> Elem(M!LowerRight(V, Ev.k)), ub |-> Elem(M!LowerRight(V, Ev.k + 1))]
\* two cursors at numbers a and b: difference and comparisons
TCmp == /\ Ev.op = "cmp" /\ UNCHANGED V
        /\ Ev.r = <<Ev.a - Ev.b, Ev.a = Ev.b, Ev.a # Ev.b, Ev.a < Ev.b, Ev.a > Ev.b, Ev.a <= Ev.b, Ev.a >= Ev.b>>
\* a cursor moved by +1/-1 steps
TWalk == /\ Ev.op = "walk" /\ UNCHANGED V
         /\ LET RECURSIVE P(_) P(i) == IF i = 0 THEN Ev.a ELSE P(i - 1) + Ev.steps[i] IN Ev.r = [i \in 1..Len(Ev.steps) |-> Elem(P(i))]
TClear == Ev.op = "clear" /\ V' = <<>> /\ Ev.r = <<0, TRUE>>
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ ((Ev.op = "case" /\ V' = <<>>) \/ TBuild \/ TLeft \/ TRight \/ TCmp \/ TWalk \/ TClear)
         \/ l > TraceLen /\ UNCHANGED <<l, V>>
====
