---- MODULE SpaceTrace ----
(* Recorded constructions of spaces, explained by SpaceAlg: registers hold terms. *)
EXTENDS SpaceAlg, TraceKit
VARIABLES l, m
Ev == TraceLog[l]
A == m[Ev.a]
B == m[Ev.b]
Ls == [i \in 1..Len(Ev.a) |-> m[Ev.a[i]]]
\* the space that the step asks for
Want == CASE Ev.op = "leaf" -> Ev.s
          [] Ev.op = "plus" -> Simple("union", <<A, B>>)
          [] Ev.op = "times" -> Simple("prod", <<A, B>>)
          [] Ev.op \in {"pow", "vecinit"} -> Vec(Ev.n, A)
          [] Ev.op \in {"unionraw", "unioninit"} -> Raw("union", Ls)
          [] Ev.op = "union" -> Simple("union", Ls)
          [] Ev.op \in {"prodraw", "prodinit"} -> Raw("prod", Ls)
          [] Ev.op = "prod" -> Simple("prod", Ls)
          [] Ev.op = "copy" -> A
Told(sp) == /\ Ev.r.valid /\ Ev.r.sp = sp
            /\ Ev.r.dim = Dim(sp) /\ Ev.r.nfa = Nfa(sp) /\ Ev.r.order = Order(sp)
Built == LET w == Want ok == (Ev.op = "pow" => Ev.n >= 0) /\ Exists(w)
         IN IF ok THEN ~Ev.r.refused /\ Told(w) /\ m' = [m EXCEPT ![Ev.d] = w]
                  ELSE Ev.r.refused /\ UNCHANGED m
SubOk == LET p == At2(A, Ev.path)
         IN /\ ~Ev.r.refused
            /\ IF p = <<>> THEN ~Ev.r.valid /\ UNCHANGED m ELSE Told(p[1]) /\ m' = [m EXCEPT ![Ev.d] = p[1]]
EqOk == LET e == (A = B) IN Ev.r.eq = e /\ Ev.r.qe = e /\ Ev.r.names = e /\ Ev.r.base = e
BasisOk == LET p == TLCEval(Parts(A, Ev.T)) lam == TLCEval(PntLam(Ev.pt, Ev.den)) s == TLCEval(ProdOf(Ev.S))
           IN /\ Ev.nU = Rad(A, Ev.T)
              /\ Ev.r.x /\ Len(Ev.r.v) = Len(p)
              /\ \A i \in 1..Len(p) : /\ Len(Ev.r.v[i]) = Len(p[i])
                                      /\ \A k \in 1..Len(p[i]) : Ev.r.v[i][k] = Mul(s, Eval(p[i][k], lam))
None == [k |-> "none"]
TInit == l = 1 /\ m = [d \in 0..9 |-> None]
TNext == \/ /\ l <= TraceLen
            /\ l' = l + 1
            /\ CASE Ev.op = "case" -> m' = [d \in 0..9 |-> None]
                 [] Ev.op = "sub" -> SubOk
                 [] Ev.op = "eq" -> EqOk /\ UNCHANGED m
                 [] Ev.op = "basis" -> BasisOk /\ UNCHANGED m
                 [] Ev.op \in {"leaf", "plus", "times", "pow", "vecinit", "unionraw", "unioninit", "union", "prodraw", "prodinit", "prod", "copy"} -> Built
                 [] OTHER -> FALSE
         \/ l > TraceLen /\ UNCHANGED <<l, m>>
====
