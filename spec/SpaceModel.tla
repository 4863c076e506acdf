---- MODULE SpaceModel ----
(* Laws of the composition, over all terms that two steps of construction reach from a few leaves.
   What is checked here: flattening keeps the functions (their basis and dimension, in order) and associativity makes
   (a + b) + c = a + (b + c), (a * b) * c = a * (b * c); sub-spaces of sub-spaces; the expressions of the basis are the
   nonzero components of the basis. *)
EXTENDS SpaceAlg
CONSTANTS Leaves, Depth, TetM
VARIABLES a, b, s, d
vars == <<a, b, s, d>>
L == {[k |-> x] : x \in Leaves}
Init == a \in L /\ b \in L /\ s \in L /\ d = 0
Next == /\ d < Depth /\ d' = d + 1 /\ b' = b /\ s' = s
        /\ \/ a' = Simple("union", <<a, b>>) /\ Dim(a) = Dim(b)
           \/ a' = Simple("prod", <<a, b>>)
           \/ a' = Raw("prod", <<b, a>>)
           \/ a' = Vec(2, a)
Plus(x, y) == Simple("union", <<x, y>>)
Times(x, y) == Simple("prod", <<x, y>>)
Assoc == Plus(Plus(a, b), s) = Plus(a, Plus(b, s)) /\ Times(Times(a, b), s) = Times(a, Times(b, s))
SameFunctions == /\ Basis(Simple("prod", <<a, b>>), TetM) = Basis(Raw("prod", <<a, b>>), TetM)
                 /\ Dim(a) = Dim(b) => Basis(Simple("union", <<a, b>>), TetM) = Basis(Raw("union", <<a, b>>), TetM)
Counts == /\ Nfa(Times(a, b)) = Nfa(a) + Nfa(b) /\ Dim(Times(a, b)) = Dim(a) + Dim(b)
          /\ Nfa(Vec(3, a)) = 3 * Nfa(a) /\ Dim(Vec(3, a)) = 3 * Dim(a)
          /\ Len(Basis(a, TetM)) = Nfa(a) /\ Len(Parts(a, TetM)) = Nfa(a)
Embedded(x, y) == \E k \in 0..(Len(y) - Len(x)) : /\ SubSeq(y, k + 1, k + Len(x)) = x
                                                  /\ \A j \in 1..Len(y) : j \in (k + 1)..(k + Len(x)) \/ y[j] = Zero
Components == LET p == Parts(a, TetM) f == Basis(a, TetM) IN \A i \in 1..Len(f) : Embedded(p[i], f[i])
Paths == UNION {[1..n -> 0..2] : n \in 0..2}
SubSub == \A p \in Paths : \A c \in 0..2 :
             At2(a, Append(p, c)) = IF At2(a, p) = <<>> THEN <<>> ELSE At2(At2(a, p)[1], <<c>>)
SubSize == \A p \in Paths : At2(a, p) # <<>> => Nfa(At2(a, p)[1]) <= Nfa(a)
====
