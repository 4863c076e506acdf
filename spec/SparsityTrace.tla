---- MODULE SparsityTrace ----
EXTENDS TraceKit
VARIABLES l, a, b
S == INSTANCE Sparsity WITH sp <- {}
Ev == TraceLog[l]
TInit == l = 1 /\ a = {} /\ b = {}
\* a carries the operations, b is an operand
NewA == LET x == <<Ev.d, Ev.i>> IN
        CASE Ev.f = "set" -> S!Set(a, x, Ev.c)
          [] Ev.f = "unset" -> S!Unset(a, x, Ev.c)
          [] Ev.f = "setd" -> a \cup S!OfDim(Ev.d)
          [] Ev.f = "unsetd" -> a \ S!OfDim(Ev.d)
          [] Ev.f = "clear" -> {}
          [] Ev.f = "join" -> a \cup b
          [] Ev.f = "cut" -> a \ b
          [] Ev.f = "and" -> a \cap b
          [] Ev.f = "or" -> a \cup b
          [] Ev.f = "xor" -> (a \ b) \cup (b \ a)
          [] Ev.f = "not" -> S!Elems \ a
          [] Ev.f = "swap" -> b
          [] Ev.f = "bits" -> {S!Walk(S!Elems)[k] : k \in {j \in 1..15 : (Ev.i \div (2 ^ (j - 1))) % 2 = 1}}
View(s) == [ids |-> [d \in 1..4 |-> S!Ids(s, d - 1)], empty |-> (s = {}), emptyd |-> [d \in 1..4 |-> s \cap S!OfDim(d - 1) = {}],
            walk |-> S!Walk(s), walkd |-> [d \in 1..4 |-> S!Ids(s, d - 1)]]
TOp == /\ Ev.op = "sp" /\ a' = TLCEval(NewA) /\ b' = IF Ev.f = "swap" THEN a ELSE b
       /\ Ev.r = View(a')
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ ((Ev.op = "case" /\ a' = {} /\ b' = {}) \/ TOp)
         \/ l > TraceLen /\ UNCHANGED <<l, a, b>>
====
