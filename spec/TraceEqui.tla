------------------------------ MODULE TraceEqui ------------------------------
(* Recorded outputs of layers on features x and on g.x, in fixed point        *)
(* (units of 1/10000 of the largest value of a block), for six elements g of  *)
(* O(3).  WD[order][g][l+1] is the representation matrix of g in degree l in  *)
(* fixed point, from module GenIrreps (spec/gen/wigner.json).                 *)
EXTENDS TraceBase
Ft == INSTANCE Features WITH LMax <- 4

WD == JsonDeserialize("gen/wigner.json")
Inverted == <<FALSE, FALSE, FALSE, TRUE, TRUE, TRUE>>
Unit == 10000
Tol == 12                       \* units
PpmTol == 400

\* one column: y, its transform g under element k, degree d, sign s
RECURSIVE Dot(_, _, _, _)
Dot(y, D, n, m) == IF m = 0 THEN 0 ELSE y[m] * D[m][n] + Dot(y, D, n, m - 1)
ColumnOk(D, d, s, y, g) ==
  \A n \in 1..(2*d + 1) : AbsI(s * Dot(y, D, n, 2*d + 1) - g[n] * Unit) <= Tol * Unit
BlockOk(cart, P, b) ==
  \A k \in 1..6 :
    LET D == (IF cart THEN WD.cart ELSE WD.std)[k][b.l + 1]
        s == IF Inverted[k] THEN Ft!InvSign(P, b.p, b.l) ELSE 1
    IN \A c \in 1..Len(b.y) : ColumnOk(D, b.l, s, b.y[c], b.g[k][c])

Equivariant(e) ==
  Clause("the output commutes with rotations and reflections",
         \A i \in 1..Len(e.blocks) : BlockOk(e.cart, e.P, e.blocks[i]))
  \cup Clause("the output commutes with rotations and reflections (all entries, tight)", e.ppm <= PpmTol)

AsSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Tp(p, L) == [P |-> p, L |-> L]

\* ---- tensor products --------------------------------------------------------
TensorCall(e) ==
  LET t1 == Tp(e.P1, e.L1) t2 == Tp(e.P2, e.L2)
      u == Ft!TensorType(t1, t2, e.L3, e.incl)
  IN IF ~Ft!TensorValid(t1, t2, e.L3) THEN
       Clause("an unreachable output degree is rejected", e.exc = "ValueError")
     ELSE IF e.exc # "" THEN {"the layer raised on a valid configuration"} ELSE
     Clause("the output has the documented type and shape",
            e.P = u.P /\ e.L = u.L /\ e.shape = e.batch \o <<u.P, (u.L + 1) * (u.L + 1), e.F>>)
     \cup (IF e.P # u.P \/ e.L # u.L THEN {} ELSE Equivariant(e)
     \cup Clause("an output channel is non-zero exactly if an allowed coupling feeds it",
            AsSet(e.occ) = Ft!Reach(t1, Ft!SlotsOf(t1), t2, Ft!SlotsOf(t2), u))
     \cup Clause("a pair of input channels feeds exactly the allowed output channels",
            \A i \in 1..Len(e.pairs) :
              LET q == e.pairs[i] IN
              AsSet(q.out) = Ft!PairReach(t1, <<q.a[1], q.a[2]>>, t2, <<q.b[1], q.b[2]>>, u))
     \cup Clause("every weight drives exactly its own coupling path",
            \A i \in 1..Len(e.paths) :
              LET q == e.paths[i]
                  s == {x \in {<<q.c[1], q.c[2]>>} :
                          Ft!Couples(t1, <<q.a[1], q.a[2]>>, t2, <<q.b[1], q.b[2]>>, u, x)}
              IN AsSet(q.out) = s)
     \cup Clause("the output is the weighted sum of the coupled inputs", e.refppm <= PpmTol)
     \cup Clause("features do not mix", e.mixppm <= 1)
     \cup Clause("batch elements are treated independently, with broadcasting", e.batchppm <= PpmTol)
     \cup Clause("the output is linear in each input", e.linppm <= PpmTol))

\* TensorDense: both factors come from the same input with occupied slots e.in
TDenseCall(e) ==
  LET t == Tp(e.P1, e.L1)
      u == Ft!TensorType(t, t, e.L3, e.incl)
  IN IF ~Ft!TensorValid(t, t, e.L3) THEN
       Clause("an unreachable output degree is rejected", e.exc = "ValueError")
     ELSE IF e.exc # "" THEN {"the layer raised on a valid configuration"} ELSE
     Clause("the output has the documented type and shape",
            e.P = u.P /\ e.L = u.L /\ e.shape = e.batch \o <<u.P, (u.L + 1) * (u.L + 1), e.Fout>>)
     \cup (IF e.P # u.P \/ e.L # u.L THEN {} ELSE Equivariant(e)
     \cup Clause("an output channel is non-zero exactly if an allowed coupling feeds it",
            \A i \in 1..Len(e.occs) :
              LET q == e.occs[i]
                  o == AsSet(q.in) \cup (IF e.bias THEN {<<0, 0>>} ELSE {})
              IN AsSet(q.out) = Ft!Reach(t, o, t, o, u))
     \cup Clause("batch elements are treated independently, with broadcasting", e.batchppm <= PpmTol))

\* ---- programs of layers -------------------------------------------------------
ProgCall(e) ==
  IF e.exc # "" THEN {"a program of valid layers raised"} ELSE
  Clause("the program has the type the specification derives", e.P = e.oP /\ e.L = e.oL)
  \cup (IF e.P # e.oP \/ e.L # e.oL THEN {} ELSE Equivariant(e))
  \cup Clause("only channels that can be reached are non-zero", AsSet(e.occ) \subseteq AsSet(e.oocc))
  \cup Clause("all channels that can be reached are non-zero", e.dead \/ AsSet(e.occ) = AsSet(e.oocc))
  \cup Clause("outputs are finite", e.finite)

\* A single pointwise layer: types are kept, slots do not mix, and only a bias on
\* the scalar slot makes the output for zero input non-zero.
LayerCall(e) ==
  IF e.exc # "" THEN {"a valid layer raised"} ELSE
  LET n == (e.L + 1) * (e.L + 1)
      want == e.batch \o <<e.P, n, e.Fout>>
      b == IF e.bias THEN {<<0, 0>>} ELSE {}
  IN Clause("the layer keeps the type of the features", e.shape = want)
  \cup (IF e.shape # want THEN {} ELSE
     Equivariant(e)
     \cup Clause("zero input gives zero output up to a scalar bias", AsSet(e.zero) = b)
     \cup Clause("a slot feeds only itself",
            \A i \in 1..Len(e.single) :
              LET q == e.single[i] IN
              /\ AsSet(q.out) \subseteq AsSet(<<q.in>>) \cup b
              /\ (e.kind = "dense" => AsSet(q.out) = AsSet(<<q.in>>) \cup b))
     \cup Clause("a dense layer is affine", e.linppm <= PpmTol)
     \cup Clause("the slots of a dense layer are independent", e.slotppm <= PpmTol)
     \cup Clause("batch elements are treated independently", e.batchppm <= PpmTol))

EmbedCall(e) ==
  IF e.exc # "" THEN {"a valid layer raised"} ELSE
  Clause("an embedding has scalar features", e.shape = e.batch \o <<1, 1, e.F>>)
  \cup Clause("an embedding returns the row of its index", e.ppm = 0)

\* ---- layers on graphs --------------------------------------------------------
GraphCall(e) ==
  IF e.exc # "" THEN {"a valid layer call raised"} ELSE
  Clause("the output has the documented type and shape", e.shape = e.wshape)
  \cup (IF e.shape # e.wshape THEN {} ELSE Equivariant(e))
  \cup Clause("outputs are finite", e.finite)
  \cup Clause("only channels that can be reached are non-zero", AsSet(e.occ) \subseteq AsSet(e.oocc))
  \cup Clause("all channels that can be reached are non-zero", AsSet(e.oocc) \subseteq AsSet(e.occ))

Fails(e) == CASE e.op = "tensor" -> TensorCall(e)
              [] e.op = "tdense" -> TDenseCall(e)
              [] e.op = "prog" -> ProgCall(e)
              [] e.op = "layer" -> LayerCall(e)
              [] e.op = "embed" -> EmbedCall(e)
              [] e.op = "graph" -> GraphCall(e)
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
