---- MODULE SpaceAlg ----
(* Composition of finite element spaces and their bases as expressions.

   A space is a term (see Fem).  a + b and a * b flatten a union (product) at the top of an operand, and only there; a ^ n
   keeps its operand.  A union exists only when its parts have the same dimension and the functionals of all of its
   parts tell their functions apart.  Sub-space: the term under a path of component numbers. *)
EXTENDS Fem

Flat(k, sp) == IF sp.k = k THEN sp.a ELSE << sp >>
Raw(k, ss) == [k |-> k, a |-> ss]
Simple(k, ss) == Raw(k, Cat([i \in 1..Len(ss) |-> Flat(k, ss[i])]))
Vec(n, sp) == [k |-> "vec", n |-> n, a |-> sp]
Subs(sp) == CASE sp.k = "vec" -> [i \in 1..sp.n |-> sp.a]
              [] sp.k \in {"prod", "union"} -> sp.a
              [] OTHER -> <<>>
RECURSIVE At2(_, _)
\* the component under the path: a sequence of zero or one terms
At2(sp, path) == IF path = <<>> THEN << sp >>
                 ELSE IF path[1] \in 0..(Len(Subs(sp)) - 1) THEN At2(Subs(sp)[path[1] + 1], Tail(path)) ELSE <<>>
RECURSIVE Exists(_)
Exists(sp) == CASE sp.k = "vec" -> Exists(sp.a)
                [] sp.k = "prod" -> \A i \in 1..Len(sp.a) : Exists(sp.a[i])
                [] sp.k = "union" -> /\ \A i \in 1..Len(sp.a) : Exists(sp.a[i]) /\ Dim(sp.a[i]) = Dim(sp.a[1])
                                     /\ Len(sp.a) > 1 => Rank(Gram(sp, RefTet)) = Nfa(sp)
                [] OTHER -> TRUE
\* the expressions of the basis: one for every degree of freedom, the function of the leaf that it comes from
RECURSIVE Parts(_, _)
Parts(sp, T) == CASE sp.k = "vec" -> LET b == Parts(sp.a, T) IN Cat([c \in 1..sp.n |-> b])
                  [] sp.k \in {"prod", "union"} -> Cat([c \in 1..Len(sp.a) |-> Parts(sp.a[c], T)])
                  [] OTHER -> Basis(sp, T)
====
