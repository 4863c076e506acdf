---- MODULE ADModel ----
(* Laws of the calculus of jets, over all jets of NV variables with entries in Es (values in Vs). *)
EXTENDS AutoDiff
CONSTANTS NV, Es, Vs, Three
VARIABLES a, b, c, st
ut == UT(NV)
NH == (NV * (NV + 1)) \div 2
Jets == [v : Vs, g : [1..NV -> Es], h : [1..NH -> Es]]
Init == a \in Jets /\ b = Con(NV, 0) /\ c = b /\ st = 0
Next == st = 0 /\ st' = 1 /\ b' \in Jets /\ c' \in (IF Three THEN Jets ELSE {c}) /\ UNCHANGED a
N(j) == [v |-> Md(j.v), g |-> [i \in 1..NV |-> Md(j.g[i])], h |-> [k \in 1..NH |-> Md(j.h[k])]]
A == N(a)  B == N(b)  C == N(c)
One == Con(NV, 1)
Ring == /\ Plus(ut, A, B) = Plus(ut, B, A) /\ Times(ut, A, B) = Times(ut, B, A) /\ Times(ut, A, One) = A
        /\ Minus(ut, Plus(ut, A, B), B) = A /\ Plus(ut, A, Minus1(ut, A)) = Con(NV, 0)
Assoc == /\ Times(ut, Times(ut, A, B), C) = Times(ut, A, Times(ut, B, C))
         /\ Times(ut, A, Plus(ut, B, C)) = Plus(ut, Times(ut, A, B), Times(ut, A, C))
Quotient == B.v # 0 => /\ Times(ut, Over(ut, A, B), B) = A /\ Over(ut, A, B) = Times(ut, A, PowInt(ut, B, -1))
Powers == /\ PowInt(ut, A, 0) = One /\ PowInt(ut, A, 1) = A /\ PowInt(ut, A, 2) = Times(ut, A, A)
          /\ PowInt(ut, A, 3) = Times(ut, A, Times(ut, A, A))
          /\ A.v # 0 => Times(ut, PowInt(ut, A, -2), PowInt(ut, A, 2)) = One
\* B plays the root: roots of its powers give it back
Roots == B.v # 0 => /\ SqrtJet(ut, PowInt(ut, B, 2), B.v) = B /\ CbrtJet(ut, PowInt(ut, B, 3), B.v) = B
                    /\ PowRat(ut, PowInt(ut, B, 2), Pow(B.v, 3), 3, 2) = PowInt(ut, B, 3)
                    /\ PowRat(ut, PowInt(ut, B, 3), IPow(B.v, -2), -2, 3) = PowInt(ut, B, -2)
                    /\ PowVal(Pow(B.v, 2), Pow(B.v, 3), 3, 2)
\* the function log with value 5 at A, exp with value A.v at 5
Lg(x, y) == Elem(ut, "log", x, [log |-> y])
Ex(x, y) == Elem(ut, "exp", x, [exp |-> y])
LogExp == A.v # 0 => /\ Ex(Lg(A, 5), A.v) = A
                     /\ Lg(Ex(B, A.v), B.v) = B
                     /\ PowJet(ut, A, B, 7, 5) = Ex(Times(ut, B, Lg(A, 5)), 7)
                     /\ PowJet(ut, A, Con(NV, 3), Pow(A.v, 3), 5) = PowInt(ut, A, 3)
                     /\ Elem(ut, "expm1", Elem(ut, "log1p", Minus(ut, A, One), [log1p |-> 5]), [exp |-> A.v, expm1 |-> Md(A.v - 1)]) = Minus(ut, A, One)
                     /\ B.v # 0 => Lg(Times(ut, A, B), 9) = Plus(ut, Lg(A, 4), Lg(B, 5))
\* circle with sin 3/5, cos 4/5
T5 == [sin |-> Quo(3, 5), cos |-> Quo(4, 5), tan |-> Quo(3, 4)]
S(x) == Elem(ut, "sin", x, T5)
K(x) == Elem(ut, "cos", x, T5)
Circle == /\ Related(T5, "sin", A.v)
          /\ Plus(ut, PowInt(ut, S(A), 2), PowInt(ut, K(A), 2)) = One
          /\ Times(ut, Elem(ut, "tan", A, T5), K(A)) = S(A)
          /\ Atan2Jet(ut, S(A), K(A), A.v) = A
          /\ Elem(ut, "atan", Elem(ut, "tan", A, T5), [atan |-> A.v]) = A
          /\ Elem(ut, "asin", S(A), [asin |-> A.v, root |-> Quo(4, 5)]) = A
          /\ Elem(ut, "acos", K(A), [acos |-> A.v, root |-> Quo(3, 5)]) = A
          /\ \* sine of a sum, values: sin 3/5, cos 4/5 of A; 5/13, 12/13 of B
             LET U5 == [sin |-> Quo(5, 13), cos |-> Quo(12, 13)]
                 s == Md(Mul(Quo(3, 5), Quo(12, 13)) + Mul(Quo(4, 5), Quo(5, 13))) k == Md(Mul(Quo(4, 5), Quo(12, 13)) - Mul(Quo(3, 5), Quo(5, 13)))
             IN Elem(ut, "sin", Plus(ut, A, B), [sin |-> s, cos |-> k])
                = Plus(ut, Times(ut, S(A), Elem(ut, "cos", B, U5)), Times(ut, K(A), Elem(ut, "sin", B, U5)))
Angles == (A.v # 0 /\ Md(Mul(A.v, A.v) + Mul(B.v, B.v)) # 0) => Atan2Jet(ut, B, A, 3) = Elem(ut, "atan", Over(ut, B, A), [atan |-> 3])
T4 == [sinh |-> Quo(3, 4), cosh |-> Quo(5, 4), tanh |-> Quo(3, 5)]
Hyper == /\ Related(T4, "sinh", 0)
         /\ LET s == Elem(ut, "sinh", A, T4) k == Elem(ut, "cosh", A, T4)
            IN /\ Minus(ut, PowInt(ut, k, 2), PowInt(ut, s, 2)) = One
               /\ Times(ut, Elem(ut, "tanh", A, T4), k) = s
               /\ Plus(ut, s, k) = Ex(A, 2)
\* hypotenuse of (3 t, 4 t), t = B
Hypo == B.v # 0 => HypotJet(ut, <<Times(ut, Con(NV, 3), B), Times(ut, Con(NV, 4), B)>>, Mul(5, B.v)) = Times(ut, Con(NV, 5), B)
====
