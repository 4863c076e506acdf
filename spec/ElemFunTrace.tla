---- MODULE ElemFunTrace ----
(* Recorded use of sparsity patterns and elemental function wrappers. *)
EXTENDS TraceKit
F == INSTANCE ElemFun WITH Naive <- FALSE, pat <- 0, dat <- 0, buf <- 0, pos <- 0
VARIABLES l, slot, body, tab, obj
\* slot: 0..4 -> body (0 empty); body: description and table; tab: size and released ids; obj: <<table, id>> -> pool object seen
tv == <<l, slot, body, tab, obj>>
Ev == TraceLog[l]
R == Ev.r
None == [s \in 0..4 |-> 0]
TInit == TLCSet(1, 1) /\ l = 1 /\ slot = None /\ body = <<>> /\ tab = <<>> /\ obj = {}
Skip == l' = l + 1
TCase == Ev.op = "case" /\ Skip /\ slot' = None /\ body' = <<>> /\ tab' = <<>> /\ obj' = {}
\* ---- patterns
Pat == IF Ev.dense THEN F!Dense(Ev.m, Ev.n) ELSE [m |-> Ev.m, n |-> Ev.n, col |-> Ev.col, row |-> Ev.row]
TPattern == /\ Ev.op = "pattern" /\ Skip /\ UNCHANGED <<slot, body, tab, obj>>
            /\ LET p == Pat IN
               /\ F!Legal(p) /\ R.dims = <<p.m, p.n, F!Nnz(p)>>
               /\ R.full = F!Full(p, Ev.dat, Ev.fill) /\ R.inplace = F!Full(p, Ev.dat, 0)
               /\ R.packed = F!Packed(p, Ev.full) /\ R.inpacked = R.packed
               /\ R.col = p.col /\ R.row = p.row
               /\ R.mask = F!Mask(p) /\ R.cmask = R.mask /\ R.imask = R.mask
\* ---- the description of a function: what it announces
PatOf(x) == IF x.dense THEN F!Dense(x.m, x.n) ELSE [m |-> x.m, n |-> x.n, col |-> x.col, row |-> x.row]
Node == F!Dense(3, 1)
Ins(d) == IF d.kind = "raw" THEN [k \in 1..Len(d.in) |-> PatOf(d.in[k])] ELSE <<Node, Node, Node, Node>>
HasA(d) == d.as \in {"both", "mat"}
HasF(d) == d.as \in {"both", "rhs"}
Outs(d) == IF d.kind = "raw" THEN [k \in 1..Len(d.out) |-> PatOf(d.out[k])]
           ELSE (IF HasA(d) THEN <<F!Dense(d.nr, d.nc)>> ELSE <<>>) \o (IF HasF(d) THEN <<F!Dense(d.nr, 1)>> ELSE <<>>)
Work(d) == d.kind \in {"raw", "io", "wiud", "wi", "full"}          \* takes work arrays
NW(d) == IF Work(d) THEN d.nw ELSE 0
NI(d) == IF Work(d) THEN d.niw ELSE 0
UD(d) == CASE d.kind \in {"raw", "io"} -> d.ud [] d.kind \in {"ud", "wiud", "full"} -> TRUE [] OTHER -> FALSE
DM(d) == CASE d.kind \in {"raw", "io"} -> d.dm [] d.kind = "full" -> TRUE [] OTHER -> FALSE
TakesUD(d) == d.kind \in {"raw", "io", "ud", "wiud", "full"}
TakesMem(d) == d.kind \in {"raw", "io", "full"}
One(p) == [m |-> p.m, n |-> p.n, nnz |-> F!Nnz(p), same |-> TRUE, col |-> p.col, row |-> p.row]
Shape(d) == [valid |-> TRUE, sizes |-> <<Len(Ins(d)), Len(Outs(d)), NW(d), NI(d)>>, ud |-> UD(d),
             in |-> [k \in 1..Len(Ins(d)) |-> One(Ins(d)[k])], out |-> [k \in 1..Len(Outs(d)) |-> One(Outs(d)[k])]]
Desc(s) == body[slot[s]].d
Tab(s) == body[slot[s]].tab
\* ---- objects
New(d) == body' = Append(body, [d |-> d, tab |-> Len(tab) + 1]) /\ tab' = Append(tab, [size |-> 0, free |-> {}])
\* tables nobody can reach any more take their pools along
Alive(sl, bd) == {bd[sl[s]].tab : s \in {q \in 0..4 : sl[q] # 0}}
Keep(sl, bd) == obj' = {o \in obj : o[1] \in Alive(sl, bd)}
TMake == /\ Ev.op = "mk" /\ Skip /\ New(Ev) /\ slot' = [slot EXCEPT ![Ev.s] = Len(body) + 1] /\ Keep(slot', body')
         /\ R.dst = Shape(Ev)
TCopy == /\ Ev.op \in {"copy", "hold"} /\ Skip /\ New(Desc(Ev.s)) /\ slot' = [slot EXCEPT ![Ev.t] = Len(body) + 1] /\ Keep(slot', body')
         /\ R.dst = Shape(Desc(Ev.s))
TAssign == /\ Ev.op = "assign" /\ Skip /\ body' = [body EXCEPT ![slot[Ev.t]].d = Desc(Ev.s)] /\ UNCHANGED <<slot, tab, obj>>
           /\ R.dst = Shape(Desc(Ev.s))
TMove == /\ Ev.op \in {"move", "massign"} /\ Skip /\ slot' = [slot EXCEPT ![Ev.t] = slot[Ev.s], ![Ev.s] = 0]
         /\ UNCHANGED <<body, tab>> /\ Keep(slot', body) /\ R.dst = Shape(Desc(Ev.s))
TShare == /\ Ev.op = "share" /\ Skip /\ slot' = [slot EXCEPT ![Ev.t] = slot[Ev.s]] /\ UNCHANGED <<body, tab>> /\ Keep(slot', body)
          /\ R.dst = Shape(Desc(Ev.s))
TDrop == Ev.op = "drop" /\ Skip /\ slot' = [slot EXCEPT ![Ev.s] = 0] /\ UNCHANGED <<body, tab>> /\ Keep(slot', body)
         /\ R.left = Cardinality({s \in 0..4 : slot'[s] # 0})
TEmpty == Ev.op = "empty" /\ Skip /\ ~R.valid /\ UNCHANGED <<slot, body, tab, obj>>
\* ---- memory
T(s) == tab[Tab(s)]
SetT(s, sz, fr) == tab' = [tab EXCEPT ![Tab(s)] = [size |-> sz, free |-> fr]]
Same == UNCHANGED <<slot, body>>
TSetup == /\ Ev.op = "setup" /\ Skip /\ Same /\ UNCHANGED obj
          /\ IF ~DM(Desc(Ev.s)) THEN R.id = 0 /\ UNCHANGED tab
             ELSE \/ T(Ev.s).free = {} /\ R.id = T(Ev.s).size /\ SetT(Ev.s, T(Ev.s).size + 1, {})
                  \/ R.id \in T(Ev.s).free /\ SetT(Ev.s, T(Ev.s).size, T(Ev.s).free \ {R.id})
TRange == /\ Ev.op = "range" /\ Skip /\ Same /\ R.b - R.a = Ev.n
          /\ IF ~DM(Desc(Ev.s)) THEN UNCHANGED <<tab, obj>>
             ELSE IF Cardinality(T(Ev.s).free) = T(Ev.s).size
                  THEN R.a = 0 /\ SetT(Ev.s, Ev.n, {}) /\ obj' = {o \in obj : o[1] # Tab(Ev.s) \/ o[2] < Ev.n}
                  ELSE R.a = T(Ev.s).size /\ SetT(Ev.s, R.b, T(Ev.s).free) /\ UNCHANGED obj
TRelease == /\ Ev.op \in {"release", "relrange", "relall", "clear", "defrag"} /\ Skip /\ Same
            /\ IF ~DM(Desc(Ev.s)) \/ Ev.op = "defrag" THEN UNCHANGED <<tab, obj>>
               ELSE CASE Ev.op = "release" -> SetT(Ev.s, T(Ev.s).size, T(Ev.s).free \cup {Ev.id}) /\ UNCHANGED obj
                      [] Ev.op = "relrange" -> SetT(Ev.s, T(Ev.s).size, T(Ev.s).free \cup (Ev.a..(Ev.b - 1))) /\ UNCHANGED obj
                      [] Ev.op = "relall" -> SetT(Ev.s, T(Ev.s).size, 0..(T(Ev.s).size - 1)) /\ UNCHANGED obj
                      [] Ev.op = "clear" -> SetT(Ev.s, 0, {}) /\ obj' = {o \in obj : o[1] # Tab(Ev.s)}
            /\ R.dst = Shape(Desc(Ev.s))
\* ---- evaluation: the inputs are the numbers of x in order; the value of the function used by the driver
Cyc(x, k) == x[((k - 1) % Len(x)) + 1]
Start(d, a) == LET RECURSIVE S(_) S(k) == IF k = a THEN 0 ELSE F!Nnz(Ins(d)[k]) + S(k + 1) IN S(1)
ArgSum(d, x) == IF d.kind = "raw"
    THEN SeqSum([a \in 1..Len(Ins(d)) |-> LET o == SeqSum([b \in 1..(a - 1) |-> F!Nnz(Ins(d)[b])]) IN
                 SeqSum([k \in 1..F!Nnz(Ins(d)[a]) |-> a * k * Cyc(x, o + k)])])
    ELSE SeqSum([k \in 1..12 |-> k * Cyc(x, k)])
Tri(n) == (n * (n + 1)) \div 2
Gets(d) == TakesMem(d) /\ DM(d) /\ Ev.id >= 0
V(d) == d.tag + ArgSum(d, Ev.x)
        + (IF d.kind = "raw" THEN 0 ELSE (IF Work(d) /\ Ev.gw THEN Tri(d.nw) + Tri(d.niw + 1) - 1 ELSE 0)
        + (IF TakesUD(d) /\ Ev.gu THEN Ev.ud ELSE 0) + (IF Gets(d) THEN 1000 ELSE 0))
Result(d) == IF d.kind = "raw" THEN [o \in 1..Len(d.out) |-> [k \in 1..F!Nnz(Outs(d)[o]) |-> V(d) + 10 * (k - 1) + 100 * (o - 1)]]
    ELSE (IF HasA(d) THEN << [k \in 1..(d.nr * d.nc) |-> V(d) + 10 * ((k - 1) % d.nr) + 100 * ((k - 1) \div d.nr)] >> ELSE <<>>)
         \o (IF HasF(d) THEN << [k \in 1..d.nr |-> V(d) - (k - 1)] >> ELSE <<>>)
B01(x) == IF x THEN 1 ELSE 0
TCall == /\ Ev.op = "call" /\ Skip /\ Same /\ UNCHANGED tab
         /\ LET d == Desc(Ev.s)  key == <<Tab(Ev.s), Ev.id>>  hit == {o \in obj : o[1] = key[1] /\ o[2] = key[2]} IN
            /\ R.rc = (IF d.kind = "raw" THEN d.rc ELSE 0)
            /\ R.out = Result(d)
            /\ R.w = (IF Work(d) THEN B01(Ev.gw) ELSE -1) /\ R.iw = R.w
            /\ R.gud = (IF TakesUD(d) THEN B01(Ev.gu) ELSE -1)
            /\ R.ud = Ev.ud + (IF d.kind # "raw" /\ TakesUD(d) /\ Ev.gu THEN 1 ELSE 0)
            /\ IF ~TakesMem(d) THEN R.mem = -1 /\ UNCHANGED obj
               ELSE IF ~Gets(d) THEN R.mem = 0 /\ UNCHANGED obj
               ELSE /\ R.mem > 0
                    /\ IF hit # {} THEN (\A o \in hit : o[3] = R.mem) /\ UNCHANGED obj
                       ELSE (\A o \in obj : o[3] # R.mem) /\ obj' = obj \cup {<<key[1], key[2], R.mem>>}
TNext == \/ l <= TraceLen /\ (TCase \/ TPattern \/ TMake \/ TCopy \/ TAssign \/ TMove \/ TShare \/ TDrop \/ TEmpty \/ TSetup \/ TRange \/ TRelease \/ TCall)
         \/ l > TraceLen /\ UNCHANGED tv
TConstraint == TLCSet(1, Max2(TLCGet(1), l))
TReport == PrintT(<<"FURTHEST", TLCGet(1), TraceLen>>)
====
