---- MODULE ParForTrace ----
EXTENDS TraceKit
VARIABLE l
Ev == TraceLog[l]
TInit == l = 1
NT(e) == IF e.tp = "none" THEN 1 ELSE IF e.nt < 0 THEN e.r.hw ELSE e.nt
TPfor == /\ Ev.op = "pfor"
         /\ Len(Ev.r.cnt) = Ev.n /\ Ev.r.outside = 0 /\ Ev.r.extra = 7
         /\ Ev.r.hw >= 1 /\ Ev.r.max = NT(Ev)
         /\ \A k \in 1..Ev.n : Ev.r.cnt[k] = 1 /\ Ev.r.th[k] >= 0 /\ Ev.r.th[k] < NT(Ev) /\ Ev.r.ex[k] = 7
         /\ \A a, b \in 1..Ev.n : (Ev.r.th[a] = Ev.r.th[b]) <=> (Ev.r.os[a] = Ev.r.os[b])
\* a lock excludes others while it is held and only then; without threads there is nothing to exclude
TMutex == Ev.op = "mutex" /\ LET x == Ev.tp = "none" IN
          /\ Ev.r.held = x /\ Ev.r.after /\ Ev.r.took /\ Ev.r.held2 = x /\ Ev.r.free
          /\ Ev.r.type = (CASE Ev.tp = "none" -> 0 [] Ev.tp = "std" -> 1 [] Ev.tp = "omp" -> 2)
TNext == \/ l <= TraceLen /\ (Ev.op = "case" \/ TPfor \/ TMutex) /\ l' = l + 1
         \/ l > TraceLen /\ UNCHANGED l
====
