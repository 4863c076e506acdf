---- MODULE ExprModel ----
(* Laws that the operations of ExprAlg have to satisfy, over all triples of small matrices of a shape. *)
EXTENDS ExprAlg
CONSTANTS Vals, Shapes
VARIABLES a, b, c, s
Mats(sh) == {[r |-> sh[1], c |-> sh[2], v |-> v] : v \in [1..(sh[1] * sh[2]) -> Vals]}
Init == /\ s \in Shapes /\ a \in Mats(s) /\ b \in Mats(s) /\ c \in Mats(s)
Next == UNCHANGED <<a, b, c, s>>
Ring == /\ Bin("+", a, b) = Bin("+", b, a) /\ Bin("*", a, Bin("+", b, c)) = Bin("+", Bin("*", a, b), Bin("*", a, c))
        /\ Bin("-", Bin("+", a, b), b) = a /\ Tri("fma", a, b, c) = Bin("+", Bin("*", a, b), c)
Order == /\ Bin(">=", a, b) = Un("not", Bin("<", a, b)) /\ Bin("<=", a, b) = Bin(">=", b, a) /\ Bin(">", a, b) = Bin("<", b, a)
         /\ Bin("&&", Bin("<=", a, b), Bin(">=", a, b)) = Bin("==", a, b) /\ Bin("!=", a, b) = Un("not", Bin("==", a, b))
         /\ Bin("+", Bin("min", a, b), Bin("max", a, b)) = Bin("+", a, b)
         /\ Tri("ifelse", Bin("<", a, b), a, b) = Bin("min", a, b)
Shape == /\ Transp(Transp(a)) = a /\ Transp(Horz(a, b)) = Vert(Transp(a), Transp(b))
         /\ (a.r > 1 => Vert(Row(a, 0), Pick(a, Slice(1, 1, a.r), Slice(0, 1, a.c))) = a)
         /\ \A i \in 0..(a.r - 1) : Row(a, i) = Transp(Col(Transp(a), i))
Product == a.r = a.c => /\ Transp(Mtimes(a, b)) = Mtimes(Transp(b), Transp(a)) /\ Mtimes(Mtimes(a, b), c) = Mtimes(a, Mtimes(b, c))
Vector == Len(a.v) = 3 => /\ Cross(a, b) = Un("neg", Cross(b, a)) /\ Dot(a, Cross(a, b)).v = <<0>>
                          /\ Dot(a, Cross(b, c)) = Dot(Cross(a, b), c)
Det == (a.r = 1 /\ a.c = 3) => LET d(x, y, z) == Det3(Vert(x, Vert(y, z))) IN d(a, b, c) = Un("neg", d(b, a, c)) /\ d(Bin("+", a, b), b, c) = d(a, b, c)
====
