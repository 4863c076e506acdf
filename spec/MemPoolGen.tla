---- MODULE MemPoolGen ----
(* Behaviours of MemPool printed as scripts for the driver. *)
EXTENDS MemPool, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
GAlloc == LET D == {h \in Handles : ~Alive(h)} IN D # {} /\ \E s \in Sizes : LET h == Lowest(D) IN
            Alloc(h, s) /\ hist' = Append(hist, [op |-> "alloc", h |-> h, s |-> s])
GFree == \E h \in Handles : Free(h) /\ hist' = Append(hist, [op |-> "free", h |-> h])
GMove == \E h, g \in Handles : Move(h, g) /\ hist' = Append(hist, [op |-> "move", h |-> h, g |-> g])
GDefrag == Len(pool) > 0 /\ pool' = (IF DefragRefused(pool) THEN pool ELSE DoDefrag(pool)) /\ UNCHANGED part
           /\ hist' = Append(hist, [op |-> "defrag"])
           /\ (hist # <<>> /\ hist[Len(hist)].op # "defrag")
GNext == /\ nops < MaxOps /\ nops' = nops + 1
         /\ (GAlloc \/ GFree \/ GMove \/ GDefrag)
Emit == nops = MaxOps => PrintT(<<"BEH", ToJson(hist)>>)
====
