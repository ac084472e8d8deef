---------------------------- MODULE MCHarmonics ----------------------------
(* Checks the recurrences of Harmonics against the exact polynomials of       *)
(* Irreps on rational directions, the addition theorem and the parity, and    *)
(* enumerates the calls to replay.                                            *)
EXTENDS Irreps, Harmonics, Json, IOUtils
CONSTANTS MaxL, ExactL

\* |v| = n exactly
Base == << <<0,0,1,1>>, <<0,3,4,5>>, <<1,2,2,3>>, <<2,3,6,7>>, <<1,4,8,9>>, <<4,4,7,9>>,
           <<2,6,9,11>>, <<6,6,7,11>>, <<3,4,12,13>>, <<0,5,12,13>>, <<2,5,14,15>>, <<2,10,11,15>> >>
VARIABLES b, perm, sgn
vars == <<b, perm, sgn>>
Perms == {<<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<2,1,3>>, <<1,3,2>>, <<3,2,1>>}
Signs == {<<1,1,1>>, <<-1,1,1>>, <<1,-1,1>>, <<1,1,-1>>, <<-1,-1,1>>, <<-1,1,-1>>, <<1,-1,-1>>, <<-1,-1,-1>>}
Init == b = 1 /\ perm = <<1,2,3>> /\ sgn = <<1,1,1>>
Next == \/ b < Len(Base) /\ b' = b + 1 /\ UNCHANGED <<perm, sgn>>
        \/ \E p \in Perms : p # perm /\ perm' = p /\ UNCHANGED <<b, sgn>>
        \/ \E s \in Signs : s # sgn /\ sgn' = s /\ UNCHANGED <<b, perm>>
Spec == Init /\ [][Next]_vars

V == [i \in 1..3 |-> sgn[i] * Base[b][perm[i]]]
N == Base[b][4]
Unit3 == [i \in 1..3 |-> RDiv(V[i] * U, N)]
Neg == [i \in 1..3 |-> -Unit3[i]]

\* Q^2 (2l-1)!! = Y^2 F n^(2l), compared after taking square roots
ExactAgree(rows) == \A l \in 0..ExactL : \A m \in -l..l :
  LET q == Eval(l, Q[l][m], V)
      y == RDiv(RDiv(q * 1000, Pow(N, l)) * RDiv(Sq(NormNum(l)) * 1000, Sq(F[l][m])), 100)
  IN (FAbs(q) < 2000000) => Near(y, rows[l + 1][m], 60)
AdditionTheorem(rows) == \A l \in 0..MaxL :
  Near(SumOver(-l..l, LAMBDA m: FMul(rows[l + 1][m], rows[l + 1][m])), U, 40 + 10*l)
ParityOk(rows) == LET r == RowsUpTo(Neg, MaxL) IN
  \A l \in 0..MaxL : \A m \in -l..l : Near(r[l + 1][m], Sgn(l) * rows[l + 1][m], 12 + l)
Correct == LET rows == TLCEval(RowsUpTo(Unit3, MaxL))
           IN ExactAgree(rows) /\ AdditionTheorem(rows) /\ ParityOk(rows)
Emit == PrintT(ToJson([v |-> V, n |-> N]))
=============================================================================
