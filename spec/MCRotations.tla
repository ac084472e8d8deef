---------------------------- MODULE MCRotations ----------------------------
(* A walk on rotations (integer quaternions), on Euler angles and on pairs of *)
(* directions.  Checks the algebra of module Rotations exactly and emits the  *)
(* states, which are replayed into the constructors of rotations.             *)
EXTENDS Rotations, Sequences, TLC, Json
CONSTANTS MaxNorm

VARIABLES kind, q, h, uv
vars == <<kind, q, h, uv>>

Gens == {<<1,1,0,0>>, <<1,0,1,0>>, <<1,0,0,-1>>, <<2,1,0,0>>, <<2,0,-1,0>>, <<3,0,0,1>>, <<1,1,1,1>>, <<0,1,1,0>>}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % (IF b < 0 THEN -b ELSE b))
Reduce(x) == LET g == Gcd(Gcd(x[1], x[2]), Gcd(x[3], x[4])) IN [i \in 1..4 |-> x[i] \div g]
\* half angles (p, q): angle 2 atan(q/p): 0, +-90, 180, +-53.1, +-36.9, 126.9, ...
Halves == { <<1,0>>, <<1,1>>, <<1,-1>>, <<0,1>>, <<2,1>>, <<2,-1>>, <<3,1>>, <<1,2>>, <<1,-3>> }
Dirs == { <<1,0,0,1>>, <<0,1,0,1>>, <<0,0,1,1>>, <<-1,0,0,1>>, <<0,-1,0,1>>, <<0,0,-1,1>>, <<3,4,0,5>>, <<0,-3,4,5>>, <<-4,0,3,5>>,
          <<1,2,2,3>>, <<-1,-2,-2,3>>, <<-2,1,2,3>>, <<2,3,6,7>>, <<-6,2,-3,7>>, <<4,-7,4,9>>, <<-4,7,-4,9>>, <<2,10,11,15>> }
D3(u) == <<u[1], u[2], u[3]>>

Init == \/ kind = "q" /\ q = <<1,0,0,0>> /\ h = << <<1,0>>, <<1,0>>, <<1,0>> >> /\ uv = << <<1,0,0,1>>, <<1,0,0,1>> >>
        \/ kind = "euler" /\ q = <<1,0,0,0>> /\ h \in Halves \X Halves \X Halves /\ uv = << <<1,0,0,1>>, <<1,0,0,1>> >>
        \/ kind = "align" /\ q = <<1,0,0,0>> /\ h = << <<1,0>>, <<1,0>>, <<1,0>> >> /\ uv \in Dirs \X Dirs
Next == /\ kind = "q" /\ UNCHANGED <<kind, h, uv>>
        /\ \E g \in Gens : q' = Reduce(QThen(q, g)) /\ Norm2(q') <= MaxNorm
Spec == Init /\ [][Next]_vars

Scale(n, M) == [i \in 1..3 |-> [j \in 1..3 |-> n * M[i][j]]]
\* ---- invariants -------------------------------------------------------------
Proper == kind = "q" => LET M == QMat(q) n == Norm2(q) IN
  Mat3(M, T3(M)) = Id3(n * n) /\ Det3(M) = n * n * n
MatchesRodrigues == kind = "q" => \A r \in {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<2,-3,5>>} : RowTimes(r, QMat(q)) = Rodrigues(q, r)
FixesAxis == kind = "q" => LET w == <<q[2], q[3], q[4]>> IN RowTimes(w, QMat(q)) = [i \in 1..3 |-> Norm2(q) * w[i]]
Composes == kind = "q" => \A g \in Gens : QMat(QThen(q, g)) = Mat3(QMat(q), QMat(g))
\* counterclockwise about x, y, z takes y to z, z to x, x to y
Counterclockwise ==
  /\ RowTimes(<<0,1,0>>, QMat(<<1,1,0,0>>)) = <<0,0,2>>
  /\ RowTimes(<<0,0,1>>, QMat(<<1,0,1,0>>)) = <<2,0,0>>
  /\ RowTimes(<<1,0,0>>, QMat(<<1,0,0,1>>)) = <<0,2,0>>
EulerOk == kind = "euler" =>
  QMat(EulerQ(h[1], h[2], h[3])) =
    Mat3(Mat3(QMat(<<h[1][1], h[1][2], 0, 0>>), QMat(<<h[2][1], 0, h[2][2], 0>>)), QMat(<<h[3][1], 0, 0, h[3][2]>>))
Anti == uv[1][4] * uv[2][4] = -Dot(D3(uv[1]), D3(uv[2]))
AlignOk == kind = "align" /\ ~Anti =>
  LET u == D3(uv[1]) v == D3(uv[2]) nu == uv[1][4] nv == uv[2][4]
      M == TLCEval(ShortestArc(u, nu, v, nv)) MM == Mat3(M, T3(M))
      uu == UnitFx(u) vv == UnitFx(v) t == RowTimes(uu, M) x == Cross(u, v) y == RowTimes(x, M) IN
  /\ \A i \in 1..3 : Near(RDiv(t[i], U), vv[i], 8)
  /\ \A i, j \in 1..3 : Near(RDiv(MM[i][j], U), IF i = j THEN U ELSE 0, 12)
  \* the axis is orthogonal to both, and the angle is the angle between them
  /\ \A i \in 1..3 : Near(RDiv(y[i], U), x[i], 1)
  /\ Near(Tr3(M), U + RDiv(RDiv(2 * U, 1) * Dot(u, v), nu * nv), 20)
Emit == PrintT(ToJson([kind |-> kind, q |-> q, h |-> h, u |-> uv[1], v |-> uv[2]]))
=============================================================================
