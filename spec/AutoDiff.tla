---- MODULE AutoDiff ----
(* Values with first and second derivatives ("jets") over the field of Field.tla.
   A jet is [v, g, h]: value, gradient (sequence of n), Hessian (upper triangle by rows, sequence of n (n + 1) / 2).
   All operations are composition with a function of one or two arguments whose partial derivatives are given. *)
EXTENDS Field

RECURSIVE UTrow(_, _)
UTrow(n, i) == IF i > n THEN <<>> ELSE [k \in 1..n - i + 1 |-> <<i, i + k - 1>>] \o UTrow(n, i + 1)
UT(n) == UTrow(n, 1)

Con(n, c) == [v |-> Md(c), g |-> [i \in 1..n |-> 0], h |-> [k \in 1..(n * (n + 1)) \div 2 |-> 0]]
Vrb(n, i, c) == [Con(n, c) EXCEPT !.g = [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]

\* f(a): value f, derivatives f1, f2 at a.v;  ut = UT(n)
Chain1(ut, a, f, f1, f2) ==
  [v |-> Md(f),
   g |-> TLCEval([i \in 1..Len(a.g) |-> Mul(f1, a.g[i])]),
   h |-> TLCEval([k \in 1..Len(ut) |-> Md(Mul(f2, Mul(a.g[ut[k][1]], a.g[ut[k][2]])) + Mul(f1, a.h[k]))])]
\* f(a, b): partial derivatives fa, fb, second ones faa, fab, fbb
Chain2(ut, a, b, f, fa, fb, faa, fab, fbb) ==
  [v |-> Md(f),
   g |-> TLCEval([i \in 1..Len(a.g) |-> Md(Mul(fa, a.g[i]) + Mul(fb, b.g[i]))]),
   h |-> TLCEval([k \in 1..Len(ut) |->
           LET i == ut[k][1] j == ut[k][2]
           IN Sum(<<Mul(fa, a.h[k]), Mul(fb, b.h[k]), Mul(faa, Mul(a.g[i], a.g[j])), Mul(fbb, Mul(b.g[i], b.g[j])),
                    Mul(fab, Md(Mul(a.g[i], b.g[j]) + Mul(a.g[j], b.g[i])))>>)])]

Plus(ut, a, b) == Chain2(ut, a, b, a.v + b.v, 1, 1, 0, 0, 0)
Minus(ut, a, b) == Chain2(ut, a, b, a.v - b.v, 1, P - 1, 0, 0, 0)
Minus1(ut, a) == Chain1(ut, a, -a.v, P - 1, 0)
Times(ut, a, b) == Chain2(ut, a, b, Mul(a.v, b.v), b.v, a.v, 0, 1, 0)
\* division: derivatives of a / b
Over(ut, a, b) == LET r == Inv(b.v) r2 == Mul(r, r) ar2 == Mul(a.v, r2)
                  IN Chain2(ut, a, b, Mul(a.v, r), r, Md(-ar2), 0, Md(-r2), Mul(2, Mul(ar2, r)))

\* a^q, q integer of either sign: derivatives q a^(q-1), q (q-1) a^(q-2), where terms with factor zero vanish even at a = 0
IPow(a, q) == IF q >= 0 THEN Pow(a, q) ELSE Pow(Inv(a), -q)
PowInt(ut, a, q) == Chain1(ut, a, IPow(a.v, q), IF q = 0 THEN 0 ELSE Mul(Md(q), IPow(a.v, q - 1)),
                           IF q \in {0, 1} THEN 0 ELSE Mul(Md(q * (q - 1)), IPow(a.v, q - 2)))
\* a^q, q = qn / qd, v a value with v^qd = a^qn, a # 0
PowVal(a, v, qn, qd) == Pow(v, qd) = IPow(a, qn)
PowRat(ut, a, v, qn, qd) == LET q == Quo(qn, qd) d1 == Mul(q, Quo(v, a.v))
                            IN Chain1(ut, a, v, d1, Mul(Md(q - 1), Quo(d1, a.v)))
\* a^b with v = a^b, ln = log(a)
PowJet(ut, a, b, v, ln) ==
  LET ia == Inv(a.v)
  IN Chain2(ut, a, b, v, Mul(v, Mul(b.v, ia)), Mul(v, ln), Mul(v, Mul(Mul(b.v, Md(b.v - 1)), Mul(ia, ia))),
            Mul(v, Mul(ia, Md(1 + Mul(b.v, ln)))), Mul(v, Mul(ln, ln)))
\* angle of (x, y), v its value
Atan2Jet(ut, y, x, v) ==
  LET r == Inv(Md(Mul(x.v, x.v) + Mul(y.v, y.v))) r2 == Mul(r, r)
      xy == Mul(Mul(2, r2), Mul(x.v, y.v))
  IN Chain2(ut, y, x, v, Mul(x.v, r), Md(-Mul(y.v, r)), Md(-xy), Mul(r2, Md(Mul(y.v, y.v) - Mul(x.v, x.v))), xy)
\* square root with value s # 0, cube root with value s # 0
SqrtJet(ut, a, s) == LET d == Inv(Mul(2, s)) IN Chain1(ut, a, s, d, Md(-Mul(d, Inv(Mul(2, a.v)))))
CbrtJet(ut, a, s) == LET d == Inv(Mul(3, Mul(s, s))) IN Chain1(ut, a, s, d, Md(-Mul(Mul(2, d), Inv(Mul(3, a.v)))))
HypotJet(ut, xs, s) == SqrtJet(ut, FoldLeft(LAMBDA acc, x : Plus(ut, acc, Times(ut, x, x)), Con(Len(xs[1].g), 0), xs), s)

(* Elementary functions: T maps names to the values the functions take at a.v (arbitrary but for the relations in Related). *)
Related(T, fn, a) ==
  CASE fn \in {"sin", "cos", "tan"} -> Md(Mul(T["sin"], T["sin"]) + Mul(T["cos"], T["cos"])) = 1 /\ Mul(T["tan"], T["cos"]) = T["sin"]
    [] fn \in {"exp", "expm1"} -> T["exp"] = Md(T["expm1"] + 1)
    [] fn \in {"sinh", "cosh", "tanh"} -> Md(Mul(T["cosh"], T["cosh"]) - Mul(T["sinh"], T["sinh"])) = 1 /\ Mul(T["tanh"], T["cosh"]) = T["sinh"]
    [] fn \in {"asin", "acos"} -> Md(Mul(T["root"], T["root"]) + Mul(a, a)) = 1
    [] OTHER -> TRUE
Elem(ut, fn, a, T) ==
  LET x == a.v
  IN CASE fn = "sin" -> Chain1(ut, a, T["sin"], T["cos"], Md(-T["sin"]))
       [] fn = "cos" -> Chain1(ut, a, T["cos"], Md(-T["sin"]), Md(-T["cos"]))
       [] fn = "tan" -> LET d == Md(1 + Mul(T["tan"], T["tan"])) IN Chain1(ut, a, T["tan"], d, Mul(2, Mul(T["tan"], d)))
       [] fn = "exp" -> Chain1(ut, a, T["exp"], T["exp"], T["exp"])
       [] fn = "expm1" -> Chain1(ut, a, T["expm1"], T["exp"], T["exp"])
       [] fn = "log" -> LET d == Inv(x) IN Chain1(ut, a, T["log"], d, Md(-Mul(d, d)))
       [] fn = "log1p" -> LET d == Inv(Md(1 + x)) IN Chain1(ut, a, T["log1p"], d, Md(-Mul(d, d)))
       [] fn = "sinh" -> Chain1(ut, a, T["sinh"], T["cosh"], T["sinh"])
       [] fn = "cosh" -> Chain1(ut, a, T["cosh"], T["sinh"], T["cosh"])
       [] fn = "tanh" -> LET d == Md(1 - Mul(T["tanh"], T["tanh"])) IN Chain1(ut, a, T["tanh"], d, Md(-Mul(2, Mul(T["tanh"], d))))
       [] fn = "atan" -> LET d == Inv(Md(1 + Mul(x, x))) IN Chain1(ut, a, T["atan"], d, Md(-Mul(2, Mul(x, Mul(d, d)))))
       [] fn = "asin" -> LET d == Inv(T["root"]) IN Chain1(ut, a, T["asin"], d, Mul(x, Pow(d, 3)))
       [] fn = "acos" -> LET d == Inv(T["root"]) IN Chain1(ut, a, T["acos"], Md(-d), Md(-Mul(x, Pow(d, 3))))
====
