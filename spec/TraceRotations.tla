--------------------------- MODULE TraceRotations ---------------------------
(* Recorded rotation matrices (fixed point) against module Rotations.         *)
EXTENDS TraceBase, Rotations
NearM(A, B, tol) == \A i, j \in 1..3 : Near(A[i][j], B[i][j], tol)
Over(M, n) == [i \in 1..3 |-> [j \in 1..3 |-> RDiv(M[i][j] * U, n)]]
ProperFx(R) ==
  LET RR == Mat3(R, T3(R)) C == Cross(R[1], R[2]) IN
  /\ \A i, j \in 1..3 : Near(RDiv(RR[i][j], U), IF i = j THEN U ELSE 0, 8)
  /\ \A i \in 1..3 : Near(RDiv(C[i], U), R[3][i], 8)
Common(e) ==
  Clause("the result has the documented shape", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("the matrix is a proper rotation", ProperFx(e.R))
     \cup Clause("the matrix is a proper rotation (tight)", e.orthppm <= 20)
     \cup Clause("batch elements are treated independently", e.batchppm <= 10)
     \cup Clause("derivatives are finite", e.gradok))
RotCall(e) == Common(e)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("the matrix turns about the axis by the angle, counterclockwise",
            NearM(e.R, Over(QMat(e.q), Norm2(e.q)), 6))
     \cup Clause("the matrix turns about the axis by the angle (tight)", e.ppm <= e.tol))
EulerCall(e) == Common(e)
  \cup (IF ~e.shapeok THEN {} ELSE
     LET q == EulerQ(e.h[1], e.h[2], e.h[3]) IN
     Clause("the matrix turns about x, then y, then z", NearM(e.R, Over(QMat(q), Norm2(q)), 6))
     \cup Clause("the matrix turns about x, then y, then z (tight)", e.ppm <= e.tol)
     \cup Clause("the extracted angles describe the same rotation", NearM(e.back, e.R, IF e.lock THEN 40 ELSE 8))
     \cup Clause("the extracted angles are finite", e.finite))
ExtractCall(e) ==
  LET q == e.q IN
  Clause("the result has the documented shape", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("the extracted angles describe the rotation", NearM(e.back, Over(QMat(q), Norm2(q)), IF e.lock THEN 40 ELSE 8))
     \cup Clause("the extracted angles describe the rotation (tight)", e.ppm <= IF e.lock THEN 1500 ELSE 20)
     \cup Clause("the extracted angles are finite", e.finite)
     \cup Clause("batch elements are treated independently", e.batchppm <= 5000))
\* A rotation d (in millionths) away from gimbal lock.  In single precision, the
\* middle angle is only known to about 1e-7 / d there.
PoleTol(d) == IF d < 600 THEN 1500 ELSE 10 + 480000 \div d
NearCall(e) ==
  LET q == EulerQ(e.h[1], e.h[2], e.h[3]) d == AbsI(e.d) IN
  Clause("the result has the documented shape", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("the recorded rotation is near the pole", NearM(e.R, Over(QMat(q), Norm2(q)), 8 + d \div 100))
     \cup Clause("the extracted angles describe a rotation close to gimbal lock", NearM(e.back, e.R, 8 + PoleTol(d) \div 100) /\ e.ppm <= PoleTol(d))
     \cup Clause("the extracted angles are finite", e.finite))
Opposite(e) == Dot(e.u, e.v) = -(e.nu * e.nv)
AlignCall(e) == Common(e)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("the first direction is taken to the second", e.alignppm <= 30)
     \cup Clause("the rotation takes the shortest arc",
          IF e.pert = 0 THEN
            IF Opposite(e) THEN Near(Tr3(e.R), -U, 8)
            ELSE NearM(e.R, ShortestArc(e.u, e.nu, e.v, e.nv), 10)
          ELSE Near(Tr3(e.R), e.trace, 8)))
RandCall(e) ==
  Clause("the result has the documented shape", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("the matrices are proper rotations", e.orthppm <= 20 /\ \A i \in 1..Len(e.Rs) : ProperFx(e.Rs[i]))
     \cup Clause("the rotation angle is bounded by the perturbation",
            \A i \in 1..Len(e.Rs) : Tr3(e.Rs[i]) >= e.mintrace - 12)
     \cup Clause("the rotation angle is bounded by the perturbation (all)", e.bound)
     \cup Clause("no perturbation gives the identity", e.p > 0 \/ \A i \in 1..Len(e.Rs) : NearM(e.Rs[i], Id3(U), 4))
     \cup Clause("the same key gives the same rotations", e.same)
     \cup Clause("different keys and samples give different rotations", e.p <= 0 \/ e.differ)
     \cup Clause("perturbations outside [0, 1] are clamped", e.clamped)
     \cup Clause("perturbed samples prefer no axis", \A i \in 1..Len(e.iso) : Near(e.iso[i], 0, e.sig6))
     \cup Clause("perturbed samples use the whole range of angles", e.reach)
     \cup Clause("unperturbed samples are uniform", e.p < 1000 \/ \A i \in 1..Len(e.mean) : Near(e.mean[i], 0, e.sig6)))
Fails(e) == IF e.exc # "" THEN {"a valid call raised"} ELSE
            CASE e.op = "rot" -> RotCall(e)
              [] e.op = "euler" -> EulerCall(e)
              [] e.op = "extract" -> ExtractCall(e)
              [] e.op = "near" -> NearCall(e)
              [] e.op = "align" -> AlignCall(e)
              [] e.op = "rand" -> RandCall(e)
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
