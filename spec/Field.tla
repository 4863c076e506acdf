---- MODULE Field ----
(* The field of P elements: rational numbers for TLC, whose integers have 32 bits (see Fem). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

P == 46337
Md(a) == a % P
Mul(a, b) == (a * b) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 1 THEN Mul(a, Pow(a, n - 1)) ELSE LET h == Pow(a, n \div 2) IN Mul(h, h)
Inv(a) == Pow(Md(a), P - 2)
Quo(a, b) == Mul(Md(a), Inv(b))
ProdOf(s) == FoldLeft(LAMBDA acc, x : Mul(acc, Md(x)), 1, s)
Sum(s) == FoldLeft(LAMBDA acc, x : (acc + x) % P, 0, s)
RECURSIVE Cat(_)
Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
Abs(a) == IF a < 0 THEN -a ELSE a

====
