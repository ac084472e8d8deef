----------------------------- MODULE Rotations -----------------------------
(* Rotations of row vectors r -> r R.  An integer quaternion (a, b, c, d)     *)
(* stands for the counterclockwise rotation about the axis (b, c, d) by the   *)
(* angle 2 atan(|(b, c, d)| / a); its matrix is rational.                     *)
EXTENDS Fixed, FiniteSets

Norm2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
\* matrix of q, times Norm2(q), acting on row vectors
QMat(q) == LET a == q[1] b == q[2] c == q[3] d == q[4] IN <<
  <<a*a + b*b - c*c - d*d, 2*(b*c + a*d),         2*(b*d - a*c)>>,
  <<2*(b*c - a*d),         a*a + c*c - b*b - d*d, 2*(c*d + a*b)>>,
  <<2*(b*d + a*c),         2*(c*d - a*b),         a*a + d*d - b*b - c*c>> >>
\* first p, then q (Hamilton product q p)
QThen(p, q) == LET a == q[1] b == q[2] c == q[3] d == q[4] IN <<
  a*p[1] - b*p[2] - c*p[3] - d*p[4],
  a*p[2] + b*p[1] + c*p[4] - d*p[3],
  a*p[3] - b*p[4] + c*p[1] + d*p[2],
  a*p[4] + b*p[3] - c*p[2] + d*p[1]>>

Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Cross(u, v) == <<u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1]>>
RowTimes(v, M) == [j \in 1..3 |-> v[1]*M[1][j] + v[2]*M[2][j] + v[3]*M[3][j]]
Mat3(A, B) == [i \in 1..3 |-> RowTimes(A[i], B)]
Tr3(A) == A[1][1] + A[2][2] + A[3][3]
Det3(A) == Dot(A[1], Cross(A[2], A[3]))
Id3(n) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN n ELSE 0]]
T3(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]

\* Rodrigues' formula for q, times Norm2(q): cos r + sin (n x r) + (1-cos) n (n.r)
Rodrigues(q, r) ==
  LET w == <<q[2], q[3], q[4]>> s == Dot(w, w) IN
  [j \in 1..3 |-> (q[1]*q[1] - s) * r[j] + 2*q[1] * Cross(w, r)[j] + 2 * Dot(w, r) * w[j]]

\* Euler angles: x, then y, then z; each angle 2 atan(h[2]/h[1])
EulerQ(hx, hy, hz) == QThen(QThen(<<hx[1], hx[2], 0, 0>>, <<hy[1], 0, hy[2], 0>>), <<hz[1], 0, 0, hz[2]>>)

\* Half turn about w: r -> 2 w (w.r)/|w|^2 - r, in fixed point
UnitFx(w) ==
  LET s == Dot(w, w)
      k == ISqrt(2000000000 \div s)
  IN [i \in 1..3 |-> RDiv(w[i] * U * k, RSqrt(s * k * k))]
HalfTurn(w) == LET e == UnitFx(w) IN
  [i \in 1..3 |-> [j \in 1..3 |-> 2 * FMul(e[i], e[j]) - (IF i = j THEN U ELSE 0)]]
\* The rotation by the shortest arc from u to v (|u| = nu, |v| = nv, not
\* antiparallel): the half turn about u, then the one about the bisector.
ShortestArc(u, nu, v, nv) ==
  LET w == [i \in 1..3 |-> nv * u[i] + nu * v[i]]
      P == Mat3(HalfTurn(u), HalfTurn(w))
  IN [i \in 1..3 |-> [j \in 1..3 |-> RDiv(P[i][j], U)]]
=============================================================================
