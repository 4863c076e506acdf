---- MODULE QuadTrace ----
(* What the library offers as quadrature formulas: refused outside of the documented orders, symmetric, inside of the simplex,
   and exact for every monomial of degree up to the order.  A moment arrives as the residue of round(moment * S), S the product
   of the integers e.S, or as -3 when it is no integer up to rounding errors. *)
EXTENDS Quad, TraceKit
VARIABLE l
Ev == TraceLog[l]
TInit == l = 1
Rule(v) == IF Offered(v.k, v.n)
           THEN /\ ~v.r.refused /\ v.r.np > 0 /\ v.r.inside /\ v.r.unit /\ v.r.same
                /\ v.r.sym /\ Symmetric(v.k, v.r.np, v.r.part, v.r.gens, v.r.wc)
           ELSE v.r.refused
Moments(v) == /\ Offered(v.k, v.n)
              /\ Len(v.r.v) = Len(v.e)
              /\ \A i \in 1..Len(v.e) : /\ Deg(v.e[i]) <= v.n
                                        /\ v.r.v[i] = Mul(ProdOf(v.S[i]), Mean(v.k, v.e[i]))
TNext == \/ l <= TraceLen /\ l' = l + 1 /\ (Ev.op = "case" \/ (Ev.op = "rule" /\ Rule(Ev)) \/ (Ev.op = "moments" /\ Moments(Ev)))
         \/ l > TraceLen /\ UNCHANGED l
====
