---------------------------- MODULE TraceMatMat ----------------------------
(* Recorded matrices of irreducible blocks.  e.place holds, per probed irrep, *)
(* <<degree, index, first row, last row, first column, last column, norm>> of *)
(* the entries it feeds.  e.mat and e.rotated are the matrices of generic     *)
(* irreps and of their rotations (units of 1/2500).                           *)
EXTENDS TraceBase, MatMat
WD == JsonDeserialize("gen/wigner.json")
Unit == 10000
Max_(e) == IF e.nomax THEN 2 * Top(e.ds) ELSE e.max
InPlace(e, q) ==
  LET p == Place(e.ds, e.max, e.mult, q[1], q[2])
      a == Start(e.ds, e.mult, p.b[1], p.r) b == Start(e.ds, e.mult, p.b[2], p.c)
  IN /\ q[3] > a /\ q[4] <= a + 2 * e.ds[p.b[1]] + 1
     /\ q[5] > b /\ q[6] <= b + 2 * e.ds[p.b[2]] + 1
     /\ AbsI(q[7] - Unit) <= 20                  \* coupling preserves the norm
\* part and copy of every row
RECURSIVE RowsFrom(_, _, _)
RowsFrom(ds, mult, i) == IF i > Len(ds) THEN <<>>
  ELSE [r \in 1..(mult * (2 * ds[i] + 1)) |->
          [d |-> ds[i], start |-> Start(ds, mult, i, (r - 1) \div (2 * ds[i] + 1)), m |-> ((r - 1) % (2 * ds[i] + 1)) + 1]]
       \o RowsFrom(ds, mult, i + 1)
RECURSIVE Sum2(_, _, _)
Sum2(n, lo, f) == IF lo > n THEN 0 ELSE f[lo] + Sum2(n, lo + 1, f)
\* (D^T M D)[i, j] for one entry; D is block diagonal
Turned(M, Dk, ri, rj) ==
  LET DA == Dk[ri.d + 1] DB == Dk[rj.d + 1] IN
  Sum2(2 * ri.d + 1, 1, [a \in 1..(2 * ri.d + 1) |->
    (DA[a][ri.m] * (Sum2(2 * rj.d + 1, 1, [b \in 1..(2 * rj.d + 1) |->
        M[ri.start + a][rj.start + b] * DB[b][rj.m]]) \div 1000)) \div 10])
Equi(e) ==
  LET R == TLCEval(RowsFrom(e.ds, e.mult, 1)) IN
  \A k \in 1..3 : \A i \in 1..Len(R), j \in 1..Len(R) :
    AbsI(Turned(e.mat, WD.cart[k], R[i], R[j]) - e.rotated[k][i][j] * Unit) <= 14 * Unit
\* trace of copy (r, c) of part i = sqrt(2 d + 1) * scalar irrep
TracesOK(e) ==
  /\ Len(e.traces) = Len(e.ds) * e.mult * e.mult
  /\ \A i \in 1..Len(e.ds) : \A r \in 0..(e.mult - 1), c \in 0..(e.mult - 1) :
       LET t == e.traces[((i - 1) * e.mult + r) * e.mult + c + 1]
           s == e.scalars[TraceIndex(e.ds, e.max, e.mult, i, r, c) + 1]
           sq == <<10000, 17321, 22361, 26458>>[e.ds[i] + 1]
       IN AbsI(t - (s * sq) \div Unit) <= 6
Assemble(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("multiplicities are those of the block structure",
         \A d \in 0..(Len(e.number) - 1) : e.number[d + 1] = Number(e.ds, Max_(e), d))
  \cup Clause("parts have 2l+1 components", e.sides = [i \in 1..Len(e.ds) |-> 2 * e.ds[i] + 1])
  \cup Clause("the matrix has the documented shape and type",
         e.dtypeok /\ e.shape = <<Side(e.ds, e.mult), Side(e.ds, e.mult)>>)
  \cup (IF e.shape # <<Side(e.ds, e.mult), Side(e.ds, e.mult)>> THEN {} ELSE
       Clause("every irrep feeds exactly its own block and copies",
         \A i \in 1..Len(e.place) : InPlace(e, e.place[i]))
  \cup Clause("the zero irreps give zero or the identity", e.zeroid)
  \cup Clause("the matrix is the coupled sum of its irreps", e.refppm <= 100)
  \cup Clause("the shift adds the identity", e.shiftppm <= 20)
  \cup Clause("without shift the matrix is linear in the irreps", e.linppm <= 100)
  \cup Clause("rotating the irreps rotates the matrix on both sides", Equi(e))
  \cup Clause("rotating the irreps rotates the matrix on both sides (tight)", e.equippm <= 200)
  \cup Clause("traces are the scalar irreps", TracesOK(e))
  \cup Clause("traces are invariant", e.traceinv <= 200)
  \cup Clause("compiled and eager results agree", e.jitppm <= 50))
NL(e) == Hi(Top(e.ds), Top(e.ds), e.max) + 1
Weights(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("weights have one column per irrep",
         e.shapes = [d \in 1..NL(e) |-> <<e.shells, e.mult * e.mult * Number(e.ds, e.max, d - 1)>>])
  \cup Clause("the variance of the weights is stddev^2 / (2l+1)",
         \A d \in 1..Len(e.var) : e.size[d] = 0 \/
           \* six standard deviations of the sample variance, sqrt(2/n)
           (LET w == e.var[d] * (2 * d - 1) - Unit IN
             (AbsI(w) \div 10) * (AbsI(w) \div 10) <= (((Unit \div 10) * (Unit \div 10)) \div e.size[d]) * 90 + 100))
  \cup Clause("weights have mean zero and are independent", e.meansigma <= 60 /\ e.corrsigma <= 60)
  \cup Clause("the same key gives the same weights, another key others", e.repeat)
Chain(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("irreps of every degree have the documented shape",
         e.shapes = [d \in 1..NL(e) |-> e.batch \o <<2 * d - 1, e.mult * e.mult * Number(e.ds, e.max, d - 1)>>])
  \cup Clause("irreps are combined within their degree", e.refppm <= 100)
  \cup Clause("the matrix has the documented shape and type",
         e.shape = e.batch \o <<Side(e.ds, e.mult), Side(e.ds, e.mult)>>)
  \cup Clause("rotating the features rotates the matrix on both sides", e.equippm <= 200)
Fails(e) == CASE e.op = "assemble" -> Assemble(e) [] e.op = "weights" -> Weights(e)
              [] e.op = "chain" -> Chain(e) [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
