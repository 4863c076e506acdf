---- MODULE IntervalMapGen ----
(* Every sequence of at most MaxLen insertions, printed as a script for the driver. *)
EXTENDS IntervalMap, Json
CONSTANT MaxLen
VARIABLE h
GInit == Init /\ h = <<>>
GNext == /\ Len(h) < MaxLen
         /\ \E s \in Borders \cup {LoKey}, e \in Borders \cup {HiKey + 1}, v \in Values :
              /\ s < e /\ Insert(s, e, v)
              /\ h' = Append(h, [op |-> "ins", s |-> s, e |-> e, v |-> v])
GReport == (Len(h) = MaxLen => PrintT(<<"BEH", ToJson(h)>>))
====
