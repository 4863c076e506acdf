---- MODULE StrainTrace ----
(* Recorded programs over invariants of strain: operands are invariants (objects or functions) and registers with jets. *)
EXTENDS Strain, TraceKit
VARIABLES l, m, d       \* d: the data of the case and the jets of the invariants
Ev == TraceLog[l]
Full9(a) == Full("sym", 3, a)
Data(e) == LET c == TLCEval(Full9(e.C))
           IN [dif |-> e.dif, jets |-> [nm \in {"I0", "I1", "I2", "I3", "I4", "I5"} |-> JetOf(nm, c, e.f, e.s)]
                                       @@ ("J" :> JetJ(c, e.j)) @@ ("I4f" :> JetOf("I4", c, e.f, e.f)) @@ ("I5f" :> JetOf("I5", c, e.f, e.f))]
Sound(e) == e.j > 0 /\ e.j * e.j = Det3(Full9(e.C))
Opd(o) == IF o.k = "r" THEN m[o.r] ELSE d.jets[o.k]
Told(j) == LET sc == TLCEval(ProdOf(Ev.S))
           IN /\ Ev.r.x /\ Ev.r.v = Mul(sc, j.v)
              /\ Ev.r.g = (IF d.dif >= 1 THEN [i \in 1..6 |-> Mul(sc, j.g[i])] ELSE <<>>)
              /\ Ev.r.h = (IF d.dif >= 2 THEN [k \in 1..21 |-> Mul(sc, j.h[k])] ELSE <<>>)
Q(w) == Quo(w[1], w[2])
Un(a) == CASE Ev.fn = "val" -> a
           [] Ev.fn = "neg" -> Minus1(Ut, a)
           [] Ev.fn = "sq" -> PowInt(Ut, a, 2)
           [] Ev.fn = "pow" -> PowInt(Ut, a, Ev.q)
           [] Ev.fn = "adn" -> Plus(Ut, a, Con(6, Q(Ev.c)))
           [] Ev.fn = "mun" -> Times(Ut, Con(6, Q(Ev.c)), a)
           [] Ev.fn = "nov" -> Over(Ut, Con(6, Q(Ev.c)), a)
Two(a, b) == CASE Ev.fn = "add" -> Plus(Ut, a, b)
               [] Ev.fn = "sub" -> Minus(Ut, a, b)
               [] Ev.fn = "mul" -> Times(Ut, a, b)
               [] Ev.fn = "div" -> Over(Ut, a, b)
Put(j) == LET jj == TLCEval(j) IN Told(jj) /\ m' = [m EXCEPT ![Ev.d] = jj]
Kin(v) == LET e2 == TLCEval(Twice(v.F)) de2 == TLCEval(TwiceVar(v.F, v.K)) pick(M) == [k \in 1..6 |-> M[3 * Slots[k][1] + Slots[k][2] + 1]]
          IN v.r.x /\ v.r.e = pick(e2) /\ v.r.eu = v.r.e /\ v.r.de = pick(de2) /\ v.r.deu = v.r.de
Str(v) == LET F == v.F S == TLCEval(Full9(v.Y)) IN v.r.x /\ v.r.p = Stress(F, S) /\ v.r.d = DStress(F, S, v.Z)
TInit == l = 1 /\ m = <<>> /\ d = <<>>
TNext == \/ /\ l <= TraceLen
            /\ l' = l + 1
            /\ CASE Ev.op = "case" -> UNCHANGED <<m, d>>
                 [] Ev.op = "start" -> Sound(Ev) /\ m' = [i \in 1..Ev.regs |-> Con(6, 0)] /\ d' = TLCEval(Data(Ev))
                 [] Ev.op = "fn" -> Told(d.jets[Ev.nm]) /\ UNCHANGED <<m, d>>
                 [] Ev.op = "un" -> Put(Un(TLCEval(Opd(Ev.a)))) /\ UNCHANGED d
                 [] Ev.op = "bin" -> Put(Two(TLCEval(Opd(Ev.a)), TLCEval(Opd(Ev.b)))) /\ UNCHANGED d
                 [] Ev.op = "kin" -> Kin(Ev) /\ UNCHANGED <<m, d>>
                 [] Ev.op = "stress" -> Str(Ev) /\ UNCHANGED <<m, d>>
                 [] OTHER -> FALSE
         \/ l > TraceLen /\ UNCHANGED <<l, m, d>>
====
