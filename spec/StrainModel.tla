---- MODULE StrainModel ----
(* Laws of the specification of hyperelasticity, over all small deformations. *)
EXTENDS Strain
CONSTANTS Ent, Free      \* entries of F at the places Free are in -Ent .. Ent, the others those of the identity
VARIABLES Fm, cm, fv, sv, Km, stage
vars == <<Fm, cm, fv, sv, Km, stage>>
Ds == -Ent..Ent
Vecs == {<<1, 0, 0>>, <<0, 1, 0>>, <<1, -1, 2>>, <<2, 1, 0>>}
Ks == {[q \in 1..9 |-> IF q = a THEN 1 ELSE 0] : a \in 1..9} \cup {<<1, -1, 0, 2, 1, 1, 0, -1, 1>>}
Init == Fm \in {[q \in 1..9 |-> IF q <= 4 /\ q \in Free THEN u[q] ELSE Id3[q]] : u \in [1..4 \cap Free -> Ds]} /\ fv = <<0, 0, 0>> /\ sv = <<0, 0, 0>> /\ Km = Id3 /\ cm = Id3 /\ stage = 0
Next == \/ stage = 0 /\ stage' = 1 /\ Fm' \in {[q \in 1..9 |-> IF q <= 4 \/ q \notin Free THEN Fm[q] ELSE u[q]] : u \in [5..9 \cap Free -> Ds]} /\ cm' = MM(TT(Fm'), Fm') /\ UNCHANGED <<fv, sv, Km>>
        \/ stage = 1 /\ Fm[1] + Fm[5] + Fm[9] = 1 /\ stage' = 2 /\ fv' \in Vecs /\ sv' \in {<<1, 0, 0>>, <<1, -1, 2>>} /\ UNCHANGED <<Fm, cm, Km>>
        \/ stage = 1 /\ Fm[1] = 1 /\ Fm[2] = Fm[4] /\ Fm[9] = 1 /\ stage' = 3 /\ Km' \in Ks /\ UNCHANGED <<Fm, cm, fv, sv>>
        \/ stage >= 2 /\ UNCHANGED vars
Cof(M) == TT(Adjugate(3, M))
\* invariants in terms of F, and unchanged by rotations of the body in space
Meaning == stage = 1 => \A F \in {Fm}, c \in {cm}, f \in {fv}, s \in {sv} :
                           /\ Val("I1", c, f, s) = SumN([q \in 1..9 |-> F[q] * F[q]])
                           /\ LET o == TLCEval(Cof(F)) IN Val("I2", c, f, s) = SumN([q \in 1..9 |-> o[q] * o[q]])
                           /\ LET d == DetOf(3, F) IN Val("I3", c, f, s) = d * d
                           /\ Twice(F) = MAdd(c, -1, Id3)
                           /\ \A R \in {<<0, 1, 0, -1, 0, 0, 0, 0, 1>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0>>} : MM(TT(MM(R, F)), MM(R, F)) = c
\* Cayley - Hamilton
Cayley == stage = 1 => \A F \in {Fm}, c \in {cm}, f \in {fv}, s \in {sv} : LET c2 == TLCEval(MM(c, c)) c3 == TLCEval(MM(c2, c))
                       IN \A q \in 1..9 : c3[q] - Val("I1", c, f, s) * c2[q] + Val("I2", c, f, s) * c[q] - Val("I3", c, f, s) * Id3[q] = 0
Pick(M) == [k \in 1..6 |-> M[3 * Slots[k][1] + Slots[k][2] + 1]]
\* gradients and Hessians in closed form
Grads == stage = 1 => \A F \in {Fm}, c \in {cm}, f \in {fv}, s \in {sv} : LET z == <<0, 0, 0>>
                      IN /\ Grad("I1", c, z, z) = Pick(Ident(3, 2)) /\ Hess("I1", c, z, z) = [k \in 1..21 |-> 0]
                         /\ Grad("I2", c, z, z) = Pick([q \in 1..9 |-> 2 * (Tr(c) * Id3[q] - c[q])])
                         /\ Grad("I3", c, z, z) = Pick([q \in 1..9 |-> 2 * Adjugate(3, c)[q]])
                         /\ (Det3(F) # 0 => LET jj == TLCEval(JetJ(c, Abs(Det3(F)))) IN [k \in 1..6 |-> Mul(jj.v, jj.g[k])] = MdAll(Pick(Adjugate(3, c))))
Fibres == stage = 2 => \A F \in {Fm}, c \in {cm}, f \in {fv}, s \in {sv} : LET cf == MV(c, f) cs == MV(c, s)
                       IN /\ Val("I4", c, f, s) = VV(MV(F, f), MV(F, s)) /\ Val("I5", c, f, s) = VV(f, MV(MM(c, c), s))
                          /\ Grad("I4", c, f, s) = [k \in 1..6 |-> LET i == Slots[k][1] + 1 j == Slots[k][2] + 1 IN f[i] * s[j] + f[j] * s[i]]
                          /\ Grad("I5", c, f, s) = [k \in 1..6 |-> LET i == Slots[k][1] + 1 j == Slots[k][2] + 1 IN cf[i] * s[j] + cf[j] * s[i] + f[i] * cs[j] + f[j] * cs[i]]
                          /\ Grad("I0", c, f, s) = [k \in 1..6 |-> 0] /\ Hess("I4", c, f, s) = [k \in 1..21 |-> 0]
                          \* I5 is quadratic: its second derivative twice along dE = E is twice the quadratic part of I5(I + 2 E), F^T F = I + 2 E
                          /\ LET H == TLCEval(Hess("I5", c, f, s)) e == TLCEval(Twice(F)) IN
                             SumN([k \in 1..21 |-> LET a == Ut[k][1] b == Ut[k][2] w(x) == IF Slots[x][1] = Slots[x][2] THEN 1 ELSE 2
                                                   IN (IF a = b THEN 1 ELSE 2) * w(a) * w(b) * H[k] * Pick(e)[a] * Pick(e)[b]]) = 8 * VV(MV(e, f), MV(e, s))
\* the derivative of the stress F S(E) with S(E) = S0 + dS : (E - E0), along K;  dS even
S0 == <<1, 2, -1, 2, 0, 3, -1, 3, 2>>
DS == [k \in 1..21 |-> 2 * (((k * k) % 7) - 3)]
StressAlong(F, K, t) == LET G == MAdd(F, t, K) X == MAdd(Twice(G), -1, Twice(F)) y == TLCEval(Apply(DS, X)) IN MM(G, [q \in 1..9 |-> S0[q] + y[q] \div 2])
Tangent == stage = 3 => \A F \in {Fm}, K \in {Km} : LET D == TLCEval(DStress(F, S0, DS))
                            up1 == TLCEval(StressAlong(F, K, 1)) dn1 == TLCEval(StressAlong(F, K, -1)) up2 == TLCEval(StressAlong(F, K, 2)) dn2 == TLCEval(StressAlong(F, K, -2))
                        IN /\ \A q \in 1..9 : 12 * SumN([c \in 1..9 |-> D[9 * (q - 1) + c] * K[c]]) = 8 * (up1[q] - dn1[q]) - (up2[q] - dn2[q])
                           /\ \A a, b \in 1..9 : D[9 * (a - 1) + b] = D[9 * (b - 1) + a]
                           /\ TwiceVar(F, K) = [q \in 1..9 |-> (8 * (Twice(MAdd(F, 1, K))[q] - Twice(MAdd(F, -1, K))[q]) - (Twice(MAdd(F, 2, K))[q] - Twice(MAdd(F, -2, K))[q])) \div 12]
====
