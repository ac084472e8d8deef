--------------------------- MODULE TraceHarmonics ---------------------------
(* Recorded values of the functions of so3.irreps and of Wigner-D matrices,   *)
(* in fixed point (module Fixed), decided against module Harmonics.           *)
EXTENDS TraceBase, Harmonics

WD == JsonDeserialize("gen/wigner.json")      \* exact matrices, degrees <= 4
Tol(L) == 14 + 4 * L
UnitOf(d) == [i \in 1..3 |-> RDiv(d.v[i] * U, d.n)]
Sum(S, f(_)) == FoldSet(LAMBDA x, acc: acc + f(x), 0, S)

\* ---- spherical and solid harmonics --------------------------------------------
HarmRow(e, i) ==
  LET rows == RowsUpTo(UnitOf(e.vs[i]), e.L)
  IN \A dg \in 0..e.L :
       LET o == Ord(dg, e.cart) f == NormFactor(e.norm, dg) IN
       \A k \in 1..(2*dg + 1) :
         Near(e.y[i][Flat(dg, k)], RDiv(rows[dg + 1][o[k]] * (f \div 10), U \div 10), Tol(e.L) * (1 + f \div U))
HarmCall(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the result has shape (..., (L+1)^2)", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("the values are the documented harmonics", \A i \in 1..Len(e.vs) : HarmRow(e, i))
     \cup Clause("the values are the documented harmonics (tight)", e.ppm <= 60)
     \cup Clause("a smaller maximum degree gives a prefix", e.prefixppm <= 20)
     \cup Clause("default and explicit arguments agree", e.defppm <= 20)
     \cup Clause("the values at zero are those of the polynomials",
            Len(e.zero) = (e.L + 1) * (e.L + 1)
            /\ \A k \in 1..Len(e.zero) : e.zero[k] = IF k = 1 THEN RDiv(NormFactor(e.norm, 0), 1) ELSE 0)
     \cup Clause("values and derivatives are finite", e.finite)
     \cup Clause("homogeneous functions satisfy Euler's relation", e.eulerppm <= 300)
     \cup Clause("solid harmonics are harmonic", e.lapppm <= 300))

\* ---- Wigner-D -------------------------------------------------------------------
Block(D, dg) == [i \in 1..(2*dg + 1) |-> [j \in 1..(2*dg + 1) |-> D[Flat(dg, i)][Flat(dg, j)]]]
Rotates(e, i) ==
  LET u == UnitOf(e.vs[i])
      w == [j \in 1..3 |-> FMul(u[1], e.R[1][j]) + FMul(u[2], e.R[2][j]) + FMul(u[3], e.R[3][j])]
      a == RowsUpTo(u, e.L) b == RowsUpTo(w, e.L)
  IN \A dg \in 0..e.L :
       LET o == Ord(dg, e.cart) IN
       \A j \in 1..(2*dg + 1) :
         Near(RDiv(Sum(1..(2*dg + 1), LAMBDA k: a[dg + 1][o[k]] * e.D[Flat(dg, k)][Flat(dg, j)]), U),
              b[dg + 1][o[j]], 3 * Tol(e.L))
Orthogonal(e) ==
  \A dg \in 0..e.L : \A i, j \in 1..(2*dg + 1) :
    Near(RDiv(Sum(1..(2*dg + 1), LAMBDA k: e.D[Flat(dg, i)][Flat(dg, k)] * e.D[Flat(dg, j)][Flat(dg, k)]), U),
         IF i = j THEN U ELSE 0, Tol(e.L))
WigCall(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the result has shape (..., (L+1)^2, (L+1)^2)", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("harmonics are rotated as their arguments", \A i \in 1..Len(e.vs) : Rotates(e, i))
     \cup Clause("the matrix is orthogonal", Orthogonal(e))
     \cup Clause("the matrix is block diagonal",
            \A l1, l2 \in 0..e.L : l1 # l2 =>
               \A i \in 1..(2*l1 + 1), j \in 1..(2*l2 + 1) : e.D[Flat(l1, i)][Flat(l2, j)] = 0)
     \cup Clause("the matrix is exactly the specified representation",
            e.g = 0 \/ \A dg \in 0..Min2(e.L, Len((IF e.cart THEN WD.cart ELSE WD.std)[e.g]) - 1) :
              LET W == (IF e.cart THEN WD.cart ELSE WD.std)[e.g][dg + 1] IN
              \A i, j \in 1..(2*dg + 1) : Near(e.D[Flat(dg, i)][Flat(dg, j)], W[i][j], 6))
     \cup Clause("the representation is multiplicative", e.mulppm <= 200)
     \cup Clause("blocks do not depend on the maximum degree", e.prefixppm <= 20)
     \cup Clause("batch elements are treated independently", e.batchppm <= 20)
     \cup Clause("derivatives are finite and correct", e.gradppm <= 3000))

\* ---- Clebsch-Gordan ---------------------------------------------------------------
Tri(l1, l2, l3) == l3 <= l1 + l2 /\ l1 <= l2 + l3 /\ l2 <= l1 + l3
\* block b: degrees b.l = <<l1, l2, l3>>, values b.c[i][j][k]
R3(b) == <<2*b.l[1] + 1, 2*b.l[2] + 1, 2*b.l[3] + 1>>
Intertwines(e, b) ==
  LET n == R3(b) W == IF e.cart THEN WD.cart ELSE WD.std IN
  \A g \in 1..3 :
    LET D1 == W[g][b.l[1] + 1] D2 == W[g][b.l[2] + 1] D3 == W[g][b.l[3] + 1]
        t1 == TLCEval([i \in 1..n[1] |-> TLCEval([j \in 1..n[2] |-> TLCEval([k \in 1..n[3] |->
                 RDiv(Sum(1..n[2], LAMBDA q: D2[j][q] * b.c[i][q][k]), U)])])])
    IN \A i \in 1..n[1], j \in 1..n[2], k \in 1..n[3] :
         \* SUM D1[i,p] D2[j,q] C[p,q,k] = SUM C[i,j,r] D3[r,k]
         Near(RDiv(Sum(1..n[1], LAMBDA p: D1[i][p] * t1[p][j][k]), U),
              RDiv(Sum(1..n[3], LAMBDA r: b.c[i][j][r] * D3[r][k]), U), 12)
Unitary(b) ==
  LET n == R3(b) IN \A k1, k2 \in 1..n[3] :
    Near(RDiv(Sum((1..n[1]) \X (1..n[2]), LAMBDA x: b.c[x[1]][x[2]][k1] * b.c[x[1]][x[2]][k2]), U),
         IF k1 = k2 THEN U ELSE 0, 10)
BlockZero(b) == LET n == R3(b) IN \A i \in 1..n[1], j \in 1..n[2], k \in 1..n[3] : b.c[i][j][k] = 0
\* coupling harmonics of one direction gives a multiple of the harmonics of that
\* direction, which vanishes if the degrees sum to an odd number
ProductOk(e, b) ==
  LET n == R3(b)
      m == b.l[1] + b.l[2] + b.l[3]
      lm == Max2(b.l[1], Max2(b.l[2], b.l[3])) IN
  \A x \in 1..Len(e.vs) :
    LET Y == RowsUpTo(UnitOf(e.vs[x]), lm)
        o1 == Ord(b.l[1], e.cart) o2 == Ord(b.l[2], e.cart) o3 == Ord(b.l[3], e.cart)
        z == TLCEval([k \in 1..n[3] |->
               Sum((1..n[1]) \X (1..n[2]), LAMBDA q:
                  FMul(FMul(Y[b.l[1] + 1][o1[q[1]]], Y[b.l[2] + 1][o2[q[2]]]), b.c[q[1]][q[2]][k]))])
        s == Sum(1..n[3], LAMBDA k: FMul(z[k], Y[b.l[3] + 1][o3[k]]))   \* the multiple
    IN \A k \in 1..n[3] : Near(z[k], IF m % 2 = 1 THEN 0 ELSE FMul(s, Y[b.l[3] + 1][o3[k]]), 90)
CgCall(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the result has the documented shape", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     Clause("disallowed couplings vanish", \A i \in 1..Len(e.blocks) :
        LET b == e.blocks[i] IN Tri(b.l[1], b.l[2], b.l[3]) \/ BlockZero(b))
     \cup Clause("allowed couplings are unitary", \A i \in 1..Len(e.blocks) :
        LET b == e.blocks[i] IN Tri(b.l[1], b.l[2], b.l[3]) => Unitary(b))
     \cup Clause("couplings intertwine the representations", \A i \in 1..Len(e.blocks) :
        LET b == e.blocks[i] IN
        Tri(b.l[1], b.l[2], b.l[3]) /\ Max2(b.l[1], Max2(b.l[2], b.l[3])) <= 4 => Intertwines(e, b))
     \cup Clause("coupled harmonics of one direction are harmonics of that direction",
        \A i \in 1..Len(e.blocks) :
          LET b == e.blocks[i] IN Tri(b.l[1], b.l[2], b.l[3]) => ProductOk(e, b))
     \cup Clause("couplings intertwine the representations (all, tight)", e.ppm <= 60)
     \cup Clause("exchanging the inputs gives the sign (-1)^(l1+l2+l3)", e.swapppm <= 20)
     \cup Clause("degree-wise and complete tables agree", e.degppm <= 20)
     \cup Clause("blocks do not depend on the requested maxima", e.prefixppm <= 20))

\* ---- Cartesian tensors ---------------------------------------------------------------
\* dg!/(2l-1)!! in fixed point
RECURSIVE Lead(_)
Lead(dg) == IF dg <= 1 THEN U ELSE RDiv(Lead(dg - 1) * dg, 2*dg - 1)
TensCall(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the tensor has shape (..., 3, ..., 3)", e.shapeok)
  \cup (IF ~e.shapeok THEN {} ELSE
     \* contr[i][k]: the tensor of the k-th unit irrep, contracted dg times with
     \* direction i, times (2l-1)!!/dg!
     Clause("the tensor of an irrep is its harmonic polynomial",
        \A i \in 1..Len(e.vs) :
          LET Y == RowsUpTo(UnitOf(e.vs[i]), e.l) o == Ord(e.l, e.cart) f == NormFactor(e.norm, e.l) IN
          \A k \in 1..(2*e.l + 1) :
            \* irreps in another normalization are larger by the factor f
            Near(RDiv(e.contr[i][k] * (f \div 10), U \div 10), Y[e.l + 1][o[k]], Tol(e.l) * (1 + f \div U)))
     \cup Clause("the tensor is symmetric", e.symppm <= 20)
     \cup Clause("the tensor is traceless", e.trppm <= 20)
     \cup Clause("irreps survive the round trip", e.rtppm <= 60)
     \cup Clause("traceless symmetric tensors survive the round trip", e.trtppm <= 60)
     \cup Clause("conversion commutes with rotations", e.rotppm <= 300)
     \cup Clause("conversion is linear and batch elements are independent", e.linppm <= 60)
     \cup Clause("is_traceless_symmetric recognises the tensors", e.isok)
     \cup Clause("is_traceless_symmetric rejects other tensors", e.isnot))

Fails(e) == CASE e.op = "harm" -> HarmCall(e)
              [] e.op = "wig" -> WigCall(e)
              [] e.op = "cg" -> CgCall(e)
              [] e.op = "tens" -> TensCall(e)
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
