---- MODULE FemTrace ----
(* Recorded evaluations and integrations on tetrahedra, explained by Fem.
   An event carries the call (tetrahedra, spaces, operators, tensor, place of integration, points) and the recorded
   matrix: nr, nc, the entries column by column as residues of entry * S / sqrt(nU nV nM), x = all of them were whole.
   -1 marks moderate numbers whose scaled values are too large for a double to tell (the driver decides; rare by generation). *)
EXTENDS Fem, TraceKit
VARIABLE l

Ev == TraceLog[l]
Sc(e) == ProdOf(e.S)

\* the integers under the square roots that the driver divided by
Roots(e) ==
    /\ Len(e.nU) = Len(e.T) /\ Len(e.nV) = Len(e.T)
    /\ \A r \in 1..Len(e.T) : e.nU[r] = Rad(e.spU, e.T[r]) /\ e.nV[r] = Rad(e.spV, e.T[r])
    /\ e.what = "face" => \A r \in 1..Len(e.T) : e.nM[r] = FaceN2(e.T[r], e.loc)
    /\ e.what = "edge" => \A r \in 1..Len(e.T) : e.nM[r] = EdgeN2(e.T[r], e.loc)
    /\ Has(e, "nM") => e.what \in {"face", "edge"}
\* the elemental matrix of the r-th tetrahedron (columns of rows)
One1(e, r) ==
    LET T == e.T[r] i == IF e.D.per THEN r - 1 ELSE 0
    IN CASE e.what = "tet" -> TetElem(T, i, e.spU, e.opU, e.spV, e.opV, e.D)
         [] e.what = "face" -> FaceElem(T, i, e.loc, e.spU, e.opU, e.spV, e.opV, e.D)
         [] e.what = "faceN" -> FaceNElem(T, i, e.loc, e.spU, e.opU, e.spV, e.opV, e.D)
         [] e.what = "edge" -> EdgeElem(T, i, e.loc, e.spU, e.opU, e.spV, e.opV, e.D)
         [] e.what = "node" -> NodeElem(T, i, e.loc, e.spU, e.opU, e.spV, e.opV, e.D)
         [] e.what \in {"pntL", "pntX"} -> PntElem(T, i, e.pts, e.den, e.w, e.spU, e.opU, e.spV, e.opV, e.D)
Integral(e) ==
    LET nv == Nfa(e.spV)
        nu == Nfa(e.spU)
        s == Sc(e)
    IN /\ Roots(e)
       /\ e.r.x /\ e.r.nr = nv /\ e.r.nc = nu * Len(e.T)
       /\ \A r \in 1..Len(e.T) :
             LET m == TLCEval(One1(e, r))
             IN \A j \in 1..nu : \A i \in 1..nv : e.r.v[i + nv * (j - 1 + nu * (r - 1))] \in {Mul(s, m[j][i]), -1}
\* values of D op(u) at points: [component + dim * point], one column for every tetrahedron
Value(e) ==
    LET s == Sc(e)
        D == IF e.tr = "none" THEN [t |-> "N", per |-> FALSE, c |-> <<>>] ELSE e.D
    IN /\ e.r.x
       /\ e.r.nc = Len(e.T)
       /\ \A r \in 1..Len(e.T) :
             /\ e.nU[r] = Rad(e.sp, e.T[r])
             /\ LET m == TLCEval(Values(e.T[r], r - 1, e.pts, e.den, e.sp, e.opr, e.dofs[r], D))
                    d == Len(m[1])
                IN /\ e.r.nr = d * Len(e.pts)
                   /\ \A n \in 1..Len(e.pts) : \A k \in 1..d : e.r.v[k + d * (n - 1) + e.r.nr * (r - 1)] \in {Mul(s, m[n][k]), -1}
OpOrder(sp, op) == IF op = "IDEN" THEN Order(sp) ELSE IF Order(sp) = 0 THEN 0 ELSE Order(sp) - 1
Shaped(e) == /\ e.r.nfa = Nfa(e.sp) /\ e.r.sdim = Dim(e.sp) /\ e.r.order = Order(e.sp)
             /\ e.r.dim = OpDim(e.opr, Dim(e.sp)) /\ e.r.oporder = OpOrder(e.sp, e.opr)

CShaped(e) == e.r.nfa = Nfa(e.sp) /\ e.r.dim = OpDim(e.opr, Dim(e.sp)) /\ e.r.oporder = OpOrder(e.sp, e.opr)

\* ------------------------------------------------------------------ interpolation
Fun(e, q) == LET T == e.T[1] F == e.F[q] IN IF Has(F, "p") THEN TLCEval([k \in 1..Dim(e.sp) |-> XPoly(T, F.p[k])]) ELSE Combine(e.sp, [i \in 1..Nfa(e.sp) |-> Md(F.d[i])], T)
\* degrees of freedom that the call has to set
Target(e) ==
    LET L == Locus(e.sp)
        els == {SetOf(e.sel[i]) : i \in 1..Len(e.sel)}
        R == DofRange(e.sp, e.path)
    IN {i \in 1..Nfa(e.sp) : /\ CASE e.what = "dof" -> i = e.dof + 1
                                 [] e.what = "region" -> L[i] \subseteq SetOf(e.reg)
                                 [] OTHER -> L[i] \in els
                             /\ R[1] <= i /\ i <= R[2]}
Unset == -2
Interp(e) ==
    LET n == Nfa(e.sp)
        is == Inv(Sc(e))
        tg == TLCEval(Target(e))
    IN /\ e.nU[1] = Rad(e.sp, e.T[1])
       /\ e.r.x
       /\ Len(e.r.part) = Len(e.F)
       /\ \A q \in 1..Len(e.F) : Len(e.r.part[q]) = n /\ \A i \in 1..n : (e.r.part[q][i] = Unset) = (i \notin tg)
       /\ CASE e.what = "const" -> \A i \in tg : e.r.part[1][i] = Md(e.val)
            [] e.what = "region" ->
                  Projects(e.sp, SetOf(e.reg), tg, [i \in 1..n |-> IF i \in tg THEN Mul(is, e.r.part[1][i]) ELSE 0], Fun(e, 1), e.T[1])
            [] OTHER -> \A q \in 1..Len(e.F) :
                  /\ \A i \in tg : e.r.part[q][i] = e.r.full[q][i]
                  /\ Interpolates(e.sp, [i \in 1..n |-> Mul(is, e.r.full[q][i])], Fun(e, q), e.T[1])

\* reported positions of degrees of freedom, times 12; three types of them need not have one
Placed(e) ==
    LET pl == Places(e.sp) T == e.T[1]
    IN /\ e.r.x /\ Len(e.r.p) = Len(pl)
       /\ \A i \in 1..Len(pl) :
            IF e.r.p[i] = <<>> THEN pl[i].k \in {"B4", "RT0", "ND0"}
            ELSE LET b == pl[i].p s == b[1] + b[2] + b[3] + b[4]
                 IN e.r.p[i] = [c \in 1..3 |-> Mul(Quo(12, s), Sum([j \in 1..4 |-> Mul(b[j], Md(T[j][c]))]))]

TInit == l = 1
TNext == \/ /\ l <= TraceLen
            /\ l' = l + 1
            /\ \/ Ev.op = "case"
               \/ Ev.op = "shape" /\ Shaped(Ev)
               \/ Ev.op = "cshape" /\ CShaped(Ev)
               \/ Ev.op = "itp" /\ Interp(Ev)
               \/ Ev.op = "place" /\ Placed(Ev)
               \/ Ev.op = "mkspace" /\ Ev.r.refused = ~Unisolvent(Ev.sp)
               \/ Ev.op = "fem" /\ Has(Ev, "cut") /\ Ev.r.refused           \* less memory than announced
               \/ Ev.op = "fem" /\ ~Has(Ev, "cut") /\ ~Has(Ev.r, "refused") /\ Ev.what \in {"applyL", "applyX"} /\ Value(Ev)
               \/ Ev.op = "fem" /\ ~Has(Ev, "cut") /\ ~Has(Ev.r, "refused") /\ Ev.what \notin {"applyL", "applyX"} /\ Integral(Ev)
         \/ l > TraceLen /\ UNCHANGED l
====
