---- MODULE TraceKit ----
(* Reading recorded executions of the real code.  TraceLog is the NDJSON file named by the environment
   variable TRACE: one record per event, field op = name of the call, its arguments, and r = what was observed.
   A trace specification has a variable l (number of the next event); an event that no action explains is a
   deadlock, i.e. a rejection. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(TraceLog)

Has(e, f) == f \in DOMAIN e
SeqSum(s) == LET RECURSIVE S(_) S(n) == IF n = 0 THEN 0 ELSE s[n] + S(n - 1) IN S(Len(s))
ToSet(s) == {s[k] : k \in 1..Len(s)}
Inj(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
====
