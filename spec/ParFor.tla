---- MODULE ParFor ----
(* Static distribution of a loop over worker threads: worker w runs a contiguous batch, the calling thread runs the last
   one.  Checked: every iteration runs exactly once, whatever the interleaving, and a thread number is used by one worker. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxT, Remainder
VARIABLES n, t, done, pos
vars == <<n, t, done, pos>>
Mn(a, b) == IF a < b THEN a ELSE b
Beg(nn, tt, i) == (nn \div tt) * i + (IF Remainder THEN Mn(i, nn % tt) ELSE 0)     \* i = 0 .. t-1
End(nn, tt, i) == IF i = tt - 1 THEN nn ELSE Beg(nn, tt, i + 1)
Init == n \in 0..MaxN /\ t \in 1..MaxT /\ done = [k \in 0..(MaxN - 1) |-> 0] /\ pos = [i \in 0..(MaxT - 1) |-> IF i < t THEN Beg(n, t, i) ELSE 0]
Run(i) == i < t /\ pos[i] < End(n, t, i) /\ done' = [done EXCEPT ![pos[i]] = @ + 1] /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ UNCHANGED <<n, t>>
Next == \E i \in 0..(MaxT - 1) : Run(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOnce == \A k \in 0..(MaxN - 1) : done[k] <= (IF k < n THEN 1 ELSE 0)
Balanced == \A i \in 0..(t - 1) : Remainder => End(n, t, i) - Beg(n, t, i) \in {n \div t, n \div t + 1}
AllDone == <>(\A k \in 0..(n - 1) : done[k] = 1)
====
