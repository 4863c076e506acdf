---- MODULE RawLayoutTrace ----
EXTENDS TraceKit
L == INSTANCE RawLayout WITH Blocks <- {}, Tight <- FALSE, todo <- 0, cur <- 0, offs <- 0, req <- 0, base <- 0, sz <- 0, st <- 0
VARIABLE l
Ev == TraceLog[l]
TInit == l = 1
\* r.sz, r.al: element sizes and alignments of the types involved, in the order (scalar, index[, matrix])
Req(cnt) == [i \in 1..Len(cnt) |-> <<cnt[i], Ev.r.sz[i], Ev.r.al[i]>>]
\* the region has Ev.r.bytes bytes (the script asks for enough + a delta); blocks lie at Ev.r.off
RawOK(cnt) ==
  \* recorded sizes = requested sizes; a refused request leaves the object as it was
  /\ Ev.r.cnt = (IF Ev.r.ok \/ Ev.four THEN cnt ELSE [i \in 1..Len(cnt) |-> 0])
  /\ Ev.r.enough >= 0
  /\ (\A i \in 1..Len(cnt) : cnt[i] = 0) => Ev.r.enough = 0
  /\ Ev.r.enough <= L!Enough(Req(cnt))                            \* never asks for more than the worst-case padding
  /\ (Ev.delta >= 0 => Ev.r.ok)                                   \* the promised size suffices for every residue
  /\ Ev.r.ok => /\ L!Placed(Req(cnt), Ev.r.off, Ev.r.base, Ev.r.bytes)
                /\ Ev.r.end <= Ev.r.bytes
                /\ \A i \in 1..Len(cnt) : cnt[i] > 0 => Ev.r.end >= Ev.r.off[i] + cnt[i] * Ev.r.sz[i]
                /\ Ev.r.intact
TRaw == Ev.op = "raw" /\ RawOK(Ev.cnt)
\* PlainMemoryX carved from a typed PlainMemory of the size enoughPlainMemory() reports
TPlain == /\ Ev.op = "plain"
          /\ (Ev.delta >= 0 => Ev.r.ok)
          /\ Ev.r.ok => /\ Ev.r.cnt = Ev.cnt /\ Ev.r.intact
                        \* offsets are relative to the array each block lives in; 1: scalar array, 2: index array
                        /\ Ev.cnt[1] > 0 => Ev.r.off[1] >= 0 /\ Ev.r.off[1] + Ev.cnt[1] * Ev.r.sz[1] <= Ev.r.room[1]
                        /\ Ev.cnt[2] > 0 => Ev.r.off[2] >= 0 /\ Ev.r.off[2] + Ev.cnt[2] * Ev.r.sz[2] <= Ev.r.room[2]
                        /\ Ev.cnt[3] > 0 =>
                             LET h == Ev.from IN     \* host array of the matrices
                             /\ (Ev.r.base[h] + Ev.r.off[3]) % Ev.r.al[3] = 0
                             /\ Ev.r.off[3] + Ev.cnt[3] * Ev.r.sz[3] <= Ev.r.room[h]
                             /\ (Ev.cnt[h] > 0 => Ev.r.off[3] >= Ev.r.off[h] + Ev.cnt[h] * Ev.r.sz[h] \/ Ev.r.off[3] + Ev.cnt[3] * Ev.r.sz[3] <= Ev.r.off[h])
\* size algebra: ge / extend / append
TSize == /\ Ev.op = "size"
         /\ Ev.r.ge = (\A i \in 1..Len(Ev.a) : Ev.a[i] >= Ev.b[i])
         /\ Ev.r.extend = [i \in 1..Len(Ev.a) |-> Max2(Ev.a[i], Ev.b[i])]
         /\ Ev.r.append = [i \in 1..Len(Ev.a) |-> Ev.a[i] + Ev.b[i]]
TNext == \/ l <= TraceLen /\ (Ev.op = "case" \/ TRaw \/ TPlain \/ TSize) /\ l' = l + 1
         \/ l > TraceLen /\ UNCHANGED l
====
