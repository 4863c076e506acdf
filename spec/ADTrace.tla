---- MODULE ADTrace ----
(* Recorded programs over automatic differentiation: registers hold jets.  Results arrive as residues, multiplied with e.S.
   Witnesses [num, den] in events (roots, powers, signs of differences) are checked against the state. *)
EXTENDS AutoDiff, TraceKit
VARIABLES l, m, x, dif, ut
Ev == TraceLog[l]
n == Len(x)
Q(w) == Quo(w[1], w[2])
Sgn(w) == IF w[1] > 0 THEN 1 ELSE IF w[1] < 0 THEN -1 ELSE 0
Opd(o) == CASE o.k = "v" -> Vrb(n, o.i, x[o.i])
            [] o.k = "p" -> Con(n, Q(o.c))
            [] o.k = "l" -> Plus(ut, Times(ut, Con(n, Q(o.c)), Vrb(n, o.i, x[o.i])), Vrb(n, o.j, x[o.j]))
            [] o.k = "s" -> Con(n, Sgn(o.w))
            [] OTHER -> m[o.r]
Sound(o) == o.k = "s" => m[o.r].v = Q(o.w)
Const(o) == o.k \in {"p", "s"}
\* the recorded result is the jet j, up to the computed order
Told(j) == LET s == TLCEval(ProdOf(Ev.S))
           IN /\ Ev.r.x /\ Ev.r.v = Mul(s, j.v)
              /\ dif >= 1 => \A i \in 1..n : Ev.r.g[i] = Mul(s, j.g[i])
              /\ dif >= 2 => \A k \in 1..Len(ut) : Ev.r.h[k] = Mul(s, j.h[k])
T == TLCEval([f \in DOMAIN Ev.T |-> Q(Ev.T[f])])
\* a^q for a number q = [num, den] with value v
PowNum(a, q, v) == IF q[2] = 1 THEN PowInt(ut, a, q[1]) ELSE PowRat(ut, a, Q(v), q[1], q[2])
PowSound(a, q, v) == q[2] # 1 => v[1] > 0 /\ PowVal(a.v, Q(v), q[1], q[2])
Un == LET a == TLCEval(Opd(Ev.a)) fn == Ev.fn
      IN CASE fn = "neg" -> Minus1(ut, a)
           [] fn \in {"val", "shell"} -> a
           [] fn = "abs" -> IF Sgn(Ev.w) >= 0 THEN a ELSE Minus1(ut, a)
           [] fn = "sign" -> Con(n, Sgn(Ev.w))
           [] fn = "sq" -> PowInt(ut, a, 2)
           [] fn = "cube" -> PowInt(ut, a, 3)
           [] fn \in {"powi", "powl"} -> PowInt(ut, a, Ev.q)
           [] fn = "powr" -> PowNum(a, Ev.q, Ev.v)
           [] fn = "sqrt" -> SqrtJet(ut, a, Q(Ev.w))
           [] fn = "cbrt" -> CbrtJet(ut, a, Q(Ev.w))
           [] OTHER -> Elem(ut, fn, a, T)
UnSound == LET a == TLCEval(Opd(Ev.a)) fn == Ev.fn
           IN /\ Sound(Ev.a)
              /\ fn \in {"abs", "sign"} => a.v = Q(Ev.w)
              /\ fn = "powr" => PowSound(a, Ev.q, Ev.v)
              /\ fn = "sqrt" => Ev.w[1] > 0 /\ Mul(Q(Ev.w), Q(Ev.w)) = a.v
              /\ fn = "cbrt" => Pow(Q(Ev.w), 3) = a.v
              /\ Related(T, fn, a.v)
\* binary operations, b may be a jet of a number; cb: b denotes a constant by its type
Two(a, b, cb) ==
  LET fn == Ev.fn
  IN CASE fn = "add" -> Plus(ut, a, b)
       [] fn = "sub" -> Minus(ut, a, b)
       [] fn = "mul" -> Times(ut, a, b)
       [] fn = "div" -> Over(ut, a, b)
       [] fn = "min" -> IF Sgn(Ev.w) <= 0 THEN a ELSE b
       [] fn = "max" -> IF Sgn(Ev.w) >= 0 THEN a ELSE b
       [] fn = "pow" -> IF cb THEN PowNum(a, Ev.q, Ev.v) ELSE PowJet(ut, a, b, Q(Ev.v), T["log"])
       [] fn = "atan2" -> Atan2Jet(ut, a, b, T["atan2"])
TwoSound(a, b) == /\ Ev.fn \in {"min", "max"} => Md(a.v - b.v) = Q(Ev.w)
                  /\ Ev.fn = "pow" => b.v = Q(Ev.q) /\ PowSound(a, Ev.q, Ev.v) /\ (Ev.q[2] = 1 => Q(Ev.v) = IPow(a.v, Ev.q[1]))
\* values on ties: either operand
Tie(a, b) == (Ev.op = "bin" /\ Ev.fn \in {"min", "max"} /\ Sgn(Ev.w) = 0 /\ Told(b)) \/ (Ev.op = "un" /\ Ev.fn = "abs" /\ Sgn(Ev.w) = 0 /\ Told(Minus1(ut, a)))
Put(j, other) == LET jj == TLCEval(j)
                 IN IF Told(jj) THEN m' = [m EXCEPT ![Ev.d] = jj] ELSE other # <<>> /\ Tie(other[1], other[2]) /\ m' = [m EXCEPT ![Ev.d] = IF Ev.op = "un" THEN Minus1(ut, other[1]) ELSE other[2]]
Step ==
  CASE Ev.op = "un" -> UnSound /\ Put(Un, <<Opd(Ev.a), 0>>)
    [] Ev.op = "bin" -> LET a == TLCEval(Opd(Ev.a)) b == TLCEval(Opd(Ev.b))
                        IN Sound(Ev.a) /\ Sound(Ev.b) /\ TwoSound(a, b) /\ Put(Two(a, b, Const(Ev.b)), <<a, b>>)
    [] Ev.op = "binr" -> LET a == TLCEval(Opd(Ev.a)) b == Con(n, Q(Ev.c)) IN Sound(Ev.a) /\ TwoSound(a, b) /\ Put(Two(a, b, TRUE), <<>>)
    [] Ev.op = "binl" -> LET a == TLCEval(Opd(Ev.a)) b == Con(n, Q(Ev.c)) IN Sound(Ev.a) /\ TwoSound(b, a) /\ Put(Two(b, a, Const(Ev.a)), <<>>)
    [] Ev.op = "asn" -> Put(Two(m[Ev.d], m[Ev.r0], FALSE), <<>>)
    [] Ev.op = "hypot" -> LET xs == TLCEval([i \in 1..Len(Ev.l) |-> Opd(Ev.l[i])]) s == Q(Ev.w)
                          IN Ev.w[1] > 0 /\ Mul(s, s) = Sum([i \in 1..Len(xs) |-> Mul(xs[i].v, xs[i].v)]) /\ Put(HypotJet(ut, xs, s), <<>>)
    [] Ev.op = "num" -> Ev.ord \in 0..dif /\ Put(Con(n, Q(Ev.c)), <<>>)
    [] Ev.op = "init" -> Put(m[Ev.r0], <<>>)
Cmp == LET d == Md(Opd(Ev.a).v - Opd(Ev.b).v) s == Sgn(Ev.w)
       IN /\ Sound(Ev.a) /\ Sound(Ev.b) /\ d = Q(Ev.w)
          /\ Ev.r = <<s < 0, s > 0, s <= 0, s >= 0, s = 0, s # 0>>
TInit == l = 1 /\ m = <<>> /\ x = <<>> /\ dif = 0 /\ ut = <<>>
TNext == \/ /\ l <= TraceLen
            /\ l' = l + 1
            /\ CASE Ev.op = "case" -> UNCHANGED <<m, x, dif, ut>>
                 [] Ev.op = "start" -> /\ x' = [i \in 1..Len(Ev.x) |-> Q(Ev.x[i])] /\ dif' = Ev.dif /\ ut' = UT(Len(Ev.x))
                                       /\ m' = [i \in 1..Ev.regs |-> Con(Len(Ev.x), 0)]
                 [] Ev.op = "std" -> Ev.r.v <= Ev.most /\ Ev.r.d <= Ev.most /\ Ev.r.h <= Ev.most /\ Ev.r.in = <<TRUE, TRUE, TRUE>> /\ Ev.r.sum = Ev.r.v + Ev.r.d + Ev.r.h /\ UNCHANGED <<m, x, dif, ut>>
                 [] Ev.op = "cmp" -> Cmp /\ UNCHANGED <<m, x, dif, ut>>
                 [] Ev.op \in {"un", "bin", "binr", "binl", "asn", "hypot", "num", "init"} -> Step /\ UNCHANGED <<x, dif, ut>>
                 [] OTHER -> FALSE
         \/ l > TraceLen /\ UNCHANGED <<l, m, x, dif, ut>>
====
