---- MODULE ExprAlg ----
(* Expressions: what every operation on Ani::Expr denotes, for a backend whose values are matrices over the integers
   modulo Q and whose analytic functions are uninterpreted (distinct affine functions).
   A matrix: [r, c, v], v column by column.  The empty expression: r = c = 0. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Q == 1009
N(x) == x % Q
M(r, c, f(_, _)) == [r |-> r, c |-> c, v |-> [k \in 1..(r * c) |-> N(f(((k - 1) % r) + 1, ((k - 1) \div r) + 1))]]
E(m, i, j) == m.v[i + m.r * (j - 1)]
Empty == [r |-> 0, c |-> 0, v |-> <<>>]
Scalar(m) == Len(m.v) = 1
Fill(m, x) == [r |-> m.r, c |-> m.c, v |-> [k \in 1..Len(m.v) |-> N(x)]]
Map(f(_), m) == [m EXCEPT !.v = [k \in 1..Len(m.v) |-> N(f(m.v[k]))]]
Zp(f(_, _), a, b) == LET s == IF Scalar(a) THEN b ELSE a
                      IN [r |-> s.r, c |-> s.c, v |-> [k \in 1..Len(s.v) |-> N(f(a.v[IF Scalar(a) THEN 1 ELSE k], b.v[IF Scalar(b) THEN 1 ELSE k]))]]
SumTo(n, f(_)) == FoldLeft(LAMBDA acc, k : (acc + f(k)) % Q, 0, [k \in 1..n |-> k])
Transp(a) == M(a.c, a.r, LAMBDA i, j : E(a, j, i))
Dot(a, b) == [r |-> 1, c |-> 1, v |-> << SumTo(Len(a.v), LAMBDA k : a.v[k] * b.v[k]) >>]
Cross(a, b) == LET n(k) == (k % 3) + 1 p(k) == ((k + 1) % 3) + 1
               IN [r |-> a.r, c |-> a.c, v |-> [k \in 1..3 |-> N(a.v[n(k)] * b.v[p(k)] - a.v[p(k)] * b.v[n(k)])]]
Mtimes(a, b) == M(a.r, b.c, LAMBDA i, j : SumTo(a.c, LAMBDA k : E(a, i, k) * E(b, k, j)))
Vert(a, b) == M(a.r + b.r, a.c, LAMBDA i, j : IF i <= a.r THEN E(a, i, j) ELSE E(b, i - a.r, j))
Horz(a, b) == [r |-> a.r, c |-> a.c + b.c, v |-> a.v \o b.v]
Pick(a, is, js) == M(Len(is), Len(js), LAMBDA i, j : E(a, is[i] + 1, js[j] + 1))
Row(a, i) == Pick(a, <<i>>, [j \in 1..a.c |-> j - 1])
Col(a, j) == Pick(a, [i \in 1..a.r |-> i - 1], <<j>>)
\* start, start + inc, ... while inside of 0..n-1; inc = 0 takes the start only
RECURSIVE Slice(_, _, _)
Slice(s, inc, n) == IF s < 0 \/ s >= n THEN <<>> ELSE <<s>> \o (IF inc = 0 THEN <<>> ELSE Slice(s + inc, inc, n))
B(p) == IF p THEN 1 ELSE 0

Fun1 == <<"abs", "exp", "expm1", "log", "log1p", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
          "erf", "erfc", "tgamma", "lgamma", "floor", "ceil", "sign">>
Fun2 == <<"pow", "atan2", "fmod", "hypot">>
Num(s, f) == CHOOSE k \in 1..Len(s) : s[k] = f
In(s, f) == \E k \in 1..Len(s) : s[k] = f
F1(f, x) == 7 * x + 10 * Num(Fun1, f) + 1
Un(f, a) == CASE In(Fun1, f) -> Map(LAMBDA x : F1(f, x), a)
              [] f = "neg" -> Map(LAMBDA x : -x, a)
              [] f = "not" -> Map(LAMBDA x : B(x = 0), a)
              [] f = "sq" -> Map(LAMBDA x : x * x, a)
              [] f = "norm" -> Map(LAMBDA x : F1("sqrt", x), Dot(a, a))
Bin(f, a, b) == CASE In(Fun2, f) -> Zp(LAMBDA x, y : 3 * x + 5 * y + 10 * Num(Fun2, f) + 2, a, b)
                  [] f = "+" -> Zp(LAMBDA x, y : x + y, a, b)
                  [] f = "-" -> Zp(LAMBDA x, y : x - y, a, b)
                  [] f = "*" -> Zp(LAMBDA x, y : x * y, a, b)
                  [] f = "/" -> Zp(LAMBDA x, y : 3 * x + 11 * y + 2, a, b)
                  [] f = "<" -> Zp(LAMBDA x, y : B(x < y), a, b)
                  [] f = "<=" -> Zp(LAMBDA x, y : B(x <= y), a, b)
                  [] f = ">" -> Zp(LAMBDA x, y : B(x > y), a, b)
                  [] f = ">=" -> Zp(LAMBDA x, y : B(x >= y), a, b)
                  [] f = "==" -> Zp(LAMBDA x, y : B(x = y), a, b)
                  [] f = "!=" -> Zp(LAMBDA x, y : B(x # y), a, b)
                  [] f = "&&" -> Zp(LAMBDA x, y : B(x # 0 /\ y # 0), a, b)
                  [] f = "||" -> Zp(LAMBDA x, y : B(x # 0 \/ y # 0), a, b)
                  [] f = "min" -> Zp(LAMBDA x, y : IF x < y THEN x ELSE y, a, b)
                  [] f = "max" -> Zp(LAMBDA x, y : IF x > y THEN x ELSE y, a, b)
                  [] f = "dot" -> Dot(a, b)
                  [] f = "cross" -> Cross(a, b)
                  [] f = "mtimes" -> Mtimes(a, b)
Tri(f, a, b, c) == CASE f = "fma" -> Bin("+", Bin("*", a, b), c)
                     [] f = "ifelse" -> Zp(LAMBDA x, y : x + y, Zp(LAMBDA x, y : B(x # 0) * y, a, b), Zp(LAMBDA x, y : B(x = 0) * y, a, c))
Fold(f, s) == FoldLeft(LAMBDA acc, m : IF f = "vertcat" THEN Vert(acc, m) ELSE IF f = "horzcat" THEN Horz(acc, m) ELSE Bin(f, acc, m), s[1], Tail(s))
ScalSum(s, k) == FoldLeft(LAMBDA acc, i : Zp(LAMBDA x, y : x + k[i] * y, acc, s[i]), Map(LAMBDA x : k[1] * x, s[1]), [i \in 1..(Len(s) - 1) |-> i + 1])
Det3(a) == Dot(Row(a, 0), Cross(Row(a, 1), Row(a, 2)))
Mat(rows) == M(Len(rows), Len(rows[1]), LAMBDA i, j : rows[i][j])
====
