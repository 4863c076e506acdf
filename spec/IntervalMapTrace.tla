---- MODULE IntervalMapTrace ----
(* Executions of interval_map and parse_interval_map against IntervalMap. *)
EXTENDS TraceKit
CONSTANTS LoKey, HiKey
VARIABLES l, f
M == INSTANCE IntervalMap WITH Values <- 1..4
Ev == TraceLog[l]
TInit == l = 1 /\ f = M!NoMap
\* state reported after every call
State(g) == Ev.st = M!Runs(g)
TIns == /\ Ev.op = "ins"
        /\ LET ok == M!CanInsert(f, Ev.s, Ev.e, Ev.v) g == IF ok THEN TLCEval(M!Inserted(f, Ev.s, Ev.e, Ev.v)) ELSE f
               rs == TLCEval(M!Runs(g)) IN
           /\ Ev.r = ok /\ Ev.st = rs /\ f' = g
           /\ ok => Ev.it = M!Find(rs, Ev.s)       \* the returned position is the interval that covers the inserted one
TQry == /\ Ev.op = "qry"
        /\ LET rs == TLCEval(M!Runs(f)) k == Ev.k i == M!Find(rs, k) in == i <= Len(rs) IN
           Ev.r = [contains |-> in, count |-> (IF in THEN 1 ELSE 0), find |-> i, cfind |-> i, at |-> (IF in THEN rs[i][3] ELSE 0),
                   own |-> [j \in 1..Len(rs) |-> j = i], lb |-> M!Lower(rs, k), ub |-> M!Upper(rs, k), size |-> Len(rs), empty |-> (rs = <<>>)]
        /\ UNCHANGED f
TClear == Ev.op = "clear" /\ f' = M!NoMap /\ Ev.st = <<>>
\* print then parse gives the same map
TRound == Ev.op = "round" /\ Ev.st = M!Runs(f) /\ Ev.r = M!Runs(f) /\ UNCHANGED f
\* a text that denotes the given insertions (in order)
TParse == /\ Ev.op = "parse"
          /\ LET RECURSIVE G(_) G(i) == IF i = 0 THEN M!NoMap ELSE LET g == G(i - 1) x == Ev.items[i] IN
                     IF M!CanInsert(g, x[1], x[2], x[3]) THEN M!Inserted(g, x[1], x[2], x[3]) ELSE g
             IN Ev.r = (IF Ev.bad THEN <<<<0, 0, 0>>>> ELSE M!Runs(G(Len(Ev.items))))
          /\ UNCHANGED f
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ ((Ev.op = "case" /\ f' = M!NoMap) \/ TIns \/ TQry \/ TClear \/ TRound \/ TParse)
         \/ l > TraceLen /\ UNCHANGED <<l, f>>
====
