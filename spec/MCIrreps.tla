------------------------------ MODULE MCIrreps ------------------------------
(* State machine of rational rotations: a walk multiplies by generators.  The *)
(* invariants state that Num is a representation (exactly), that the          *)
(* polynomials are harmonic and pairwise orthogonal.  Generators: the quarter *)
(* turn about z, the 3-cycle of the axes (together the octahedral group) and  *)
(* a rotation with denominator 3 of infinite order: they generate a dense     *)
(* subgroup of SO(3), so a continuous map that commutes with them commutes    *)
(* with every rotation.                                                       *)
EXTENDS Irreps, Json, IOUtils
CONSTANT CheckL                      \* degrees for the (quadratic) group checks

Simplify(M, n) ==
  LET c == FoldSet(LAMBDA p, a: Gcd(Abs(M[p[1]][p[2]]), a), n, (1..3) \X (1..3))
  IN <<[i \in 1..3 |-> [j \in 1..3 |-> M[i][j] \div c]], n \div c>>

QuarterZ == Simplify(Quat(1, 0, 0, 1), 2)
Cycle3   == Simplify(Quat(1, 1, 1, 1), 4)
Third    == Simplify(Quat(1, 1, 1, 0), 3)
Gens == <<QuarterZ, Cycle3, Third>>

\* g/d is the rotation reached, n its representation (all degrees <= CheckL);
\* gn holds the representation of the generators, computed once.
VARIABLES g, d, n, gn
vars == <<g, d, n, gn>>
Rep(M) == [l \in 0..CheckL |-> Num(M, l)]

Init == /\ g = Ident /\ d = 1 /\ n = Rep(Ident)
        /\ gn = [k \in 1..Len(Gens) |-> Rep(Gens[k][1])]
Apply(k) == LET s == Simplify(MatMul(g, Gens[k][1]), d * Gens[k][2])
            IN g' = s[1] /\ d' = s[2] /\ n' = Rep(g') /\ gn' = gn
Next == \E k \in 1..Len(Gens) : (k = 3 => d = 1) /\ Apply(k)
Spec == Init /\ [][Next]_vars

Proper == /\ Det(g) = d * d * d
          /\ MatMul(g, Transp(g)) = [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN d*d ELSE 0]]
\* D is orthogonal:  SUM_k D[m1,k] D[m2,k] = delta, exactly.  The summands are
\* N*N/F(k): multiply out with a common multiple of the F(l, .).
LcmF(l) == FoldSet(LAMBDA m, a: (a * F[l][m]) \div Gcd(a, F[l][m]), 1, -l..l)
Orthogonal == \A l \in 0..CheckL :
  LET c == LcmF(l) IN
  \A m1, m2 \in -l..l :
    SumOver(-l..l, LAMBDA k: n[l][m1][k] * n[l][m2][k] * (c \div F[l][k]))
      = IF m1 = m2 THEN c * F[l][m1] * Pow(d, 2*l) ELSE 0
\* D(g h) = D(g) D(h) for every generator h.
Homomorphism == \A l \in 0..CheckL : \A k \in 1..Len(Gens) :
  (d = 1 \/ Gens[k][2] = 1) =>
  LET r == Num(MatMul(g, Gens[k][1]), l) c == LcmF(l) IN
  \A m1, m2 \in -l..l :
    SumOver(-l..l, LAMBDA j: n[l][m1][j] * gn[k][l][j][m2] * (c \div F[l][j])) = c * r[m1][m2]

ASSUME Harmonic == \A l \in 2..LMax : \A m \in -l..l : \A e \in Mono(l - 2) : Laplace(l, Q[l][m], e) = 0
ASSUME PairwiseOrthogonal == \A l \in 0..LMax : \A m1, m2 \in -l..l :
                               m1 # m2 => Fischer(l, Q[l][m1], Q[l][m2]) = 0
=============================================================================
