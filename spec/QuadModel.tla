---- MODULE QuadModel ----
(* Mean values of monomials fit together, and classical rules with rational data have the orders they are known for. *)
EXTENDS Quad
CONSTANTS MaxDeg
VARIABLES k, e
Init == k \in 1..3 /\ e = [i \in 1..(k + 1) |-> 0]
Next == /\ Deg(e) < MaxDeg
        /\ \E i \in 1..(k + 1) : e' = [e EXCEPT ![i] = @ + 1]
        /\ UNCHANGED k
Swap(i) == [e EXCEPT ![i] = e[i + 1], ![i + 1] = e[i]]
\* the coordinates sum up to one
Unity == Deg(e) < MaxDeg => Mean(k, e) = Sum([i \in 1..(k + 1) |-> Mean(k, [e EXCEPT ![i] = @ + 1])])
Invariant == \A i \in 1..k : Mean(k, Swap(i)) = Mean(k, e)
\* integration by parts along the edge between the last two vertices: d = d/dl_k - d/dl_{k+1} is a derivative in the simplex, and
\* its mean is the difference of the means over the two sides times k  (l_{k+1} = 0 and l_k = 0)
Lower(i) == IF e[i] = 0 THEN 0 ELSE Mul(e[i], Mean(k, [e EXCEPT ![i] = @ - 1]))
Side(i) == IF e[i] > 0 THEN 0 ELSE Mean(k - 1, [j \in 1..k |-> IF j < i THEN e[j] ELSE e[j + 1]])
Stokes == k > 1 => (Lower(k) + (P - Lower(k + 1))) % P = Mul(k, (Side(k + 1) + (P - Side(k))) % P)
Third(n) == Quo(1, n)
Centre == [i \in 1..(k + 1) |-> Third(k + 1)]
Vertex(i) == [j \in 1..(k + 1) |-> IF i = j THEN 1 ELSE 0]
Mid(i, a, b) == [j \in 1..(k + 1) |-> IF i = j THEN a ELSE b]
Midpoint == Deg(e) <= 1 => Exact(k, <<Centre>>, <<1>>, e)
Vertices == Deg(e) <= 1 => Exact(k, [i \in 1..(k + 1) |-> Vertex(i)], [i \in 1..(k + 1) |-> Third(k + 1)], e)
Simpson == (k = 1 /\ Deg(e) <= 3) => Exact(1, <<Vertex(1), Centre, Vertex(2)>>, <<Quo(1, 6), Quo(2, 3), Quo(1, 6)>>, e)
TriMid == (k = 2 /\ Deg(e) <= 2) => Exact(2, [i \in 1..3 |-> Mid(i, 0, Quo(1, 2))], <<Third(3), Third(3), Third(3)>>, e)
Keast == (k = 3 /\ Deg(e) <= 3) => Exact(3, <<Centre>> \o [i \in 1..4 |-> Mid(i, Quo(1, 2), Quo(1, 6))], <<Md(-Quo(4, 5))>> \o [i \in 1..4 |-> Quo(9, 20)], e)
NotMore == /\ (k = 1 /\ e = <<4, 0>>) => ~Exact(1, <<Vertex(1), Centre, Vertex(2)>>, <<Quo(1, 6), Quo(2, 3), Quo(1, 6)>>, e)
           /\ (k = 3 /\ e = <<4, 0, 0, 0>>) => ~Exact(3, <<Centre>> \o [i \in 1..4 |-> Mid(i, Quo(1, 2), Quo(1, 6))], <<Md(-Quo(4, 5))>> \o [i \in 1..4 |-> Quo(9, 20)], e)
====
