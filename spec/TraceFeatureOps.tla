--------------------------- MODULE TraceFeatureOps ---------------------------
(* Recorded feature arithmetic.  A column of features is a list of            *)
(* <<p, l, m, value>>; column values are scale times the labels of FeatureOps.*)
EXTENDS TraceBase
O == INSTANCE FeatureOps WITH LMax <- 4
WD == JsonDeserialize("gen/wigner.json")
T(P, L) == [P |-> P, L |-> L]
\* [t, x] after the first n steps of the program
RECURSIVE After(_, _)
After(e, n) ==
  IF n = 0 THEN [t |-> T(e.P, e.L), x |-> O!Labels(0, T(e.P, e.L))]
  ELSE LET s == TLCEval(After(e, n - 1)) o == e.prog[n] u == T(o.P, o.L) IN
    CASE o.op = "change"  -> [t |-> u, x |-> O!ChangeTo(s.t, s.x, u)]
      [] o.op = "add"     -> [t |-> O!AddType(s.t, u), x |-> O!AddTo(s.t, s.x, u, O!Labels(n, u))]
      [] o.op = "reflect" -> [t |-> s.t, x |-> O!Reflect(s.t, s.x)]
      [] o.op = "quarter" -> [t |-> s.t, x |-> O!Quarter(s.t, s.x)]
RECURSIVE Sum(_, _)
Sum(e, n) ==
  LET u == T(e.types[n][1], e.types[n][2]) IN
  IF n = 1 THEN [t |-> u, x |-> O!Labels(0, u)]
  ELSE LET s == TLCEval(Sum(e, n - 1)) IN
       [t |-> O!AddType(s.t, u), x |-> O!AddTo(s.t, s.x, u, O!Labels(n - 1, u))]
ColumnOK(s, col) ==
  /\ Len(col[2]) = Cardinality(O!Comps(s.t))
  /\ \A i \in 1..Len(col[2]) : LET q == col[2][i] IN
       /\ <<q[1], q[2], q[3]>> \in O!Comps(s.t)
       /\ q[4] = col[1] * s.x[<<q[1], q[2], q[3]>>]
Result(e, s) ==
  Clause("the result has the documented type, shape and dtype",
         e.dtypeok /\ e.shape = e.batch \o <<s.t.P, (s.t.L + 1) * (s.t.L + 1), e.F>>)
  \cup Clause("every component is in its own slot with its exact value",
         \A i \in 1..Len(e.cols) : ColumnOK(s, e.cols[i]))
  \cup Clause("features and batch elements do not mix", e.uniform)
Program(e) == IF e.exc # "" THEN {"a valid call raised"} ELSE Result(e, After(e, Len(e.prog)))
AddN(e) == IF e.exc # "" THEN {"a valid call raised"} ELSE Result(e, Sum(e, Len(e.types)))
\* ---- masks -----------------------------------------------------------------------
RECURSIVE MaskTo(_, _)
MaskTo(L, q) == IF L < 0 THEN <<>> ELSE MaskTo(L - 1, q) \o [i \in 1..(2 * L + 1) |-> (L % 2) = q]
Masks(e) == IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("masks select the components of even and odd degree",
         /\ e.even = MaskTo(e.L, 0) /\ e.odd = MaskTo(e.L, 1)
         /\ e.shape = << <<(e.L + 1) * (e.L + 1), 1>>, <<(e.L + 1) * (e.L + 1), 1>> >>)
\* ---- rotations ----------------------------------------------------------------------
RECURSIVE Dot(_, _, _, _)
Dot(y, D, n, m) == IF m = 0 THEN 0 ELSE y[m] * D[m][n] + Dot(y, D, n, m - 1)
RowOK(cart, r) ==
  LET D == (IF cart THEN WD.cart ELSE WD.std)[r[1]][r[2] + 1] IN
  \A n \in 1..(2 * r[2] + 1) : AbsI(Dot(r[3], D, n, 2 * r[2] + 1) - r[4][n] * 10000) <= 80000
Turn(e) == IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("rotated features keep their shape", e.shape = e.batch \o <<e.P, (e.L + 1) * (e.L + 1), e.F>>)
  \cup (IF e.shape # e.batch \o <<e.P, (e.L + 1) * (e.L + 1), e.F>> THEN {} ELSE
       Clause("every batch element is rotated by its own matrix", \A i \in 1..Len(e.rows) : RowOK(e.cart, e.rows[i]))
  \cup Clause("every batch element is rotated by its own matrix (tight)", e.ppm <= 20))
\* ---- requests --------------------------------------------------------------------------
Shapes(e) ==
  LET ok == O!Addable(e.a, e.b) /\ e.dtype = "float32" IN
  IF ok THEN Clause("a valid sum was rejected", e.exc = "")
             \cup (IF e.exc # "" THEN {} ELSE
                   Clause("the sum has the joint type",
                     /\ Len(e.shape) = Len(e.a)
                     /\ \A i \in 1..Len(e.a) : e.shape[i] = Max2(e.a[i], e.b[i])))
  ELSE Clause("features that cannot be added are rejected", e.exc = "ValueError")
TurnShape(e) ==
  IF O!Turnable(e.a, e.b) THEN Clause("a valid rotation was rejected", e.exc = "") \cup
       (IF e.exc # "" THEN {} ELSE Clause("rotated features keep their shape", e.shape = e.a))
  ELSE Clause("matrices that do not fit are rejected", e.exc = "ValueError")
Fails(e) == CASE e.op = "program" -> Program(e) [] e.op = "addn" -> AddN(e) [] e.op = "masks" -> Masks(e)
              [] e.op = "turn" -> Turn(e) [] e.op = "shapes" -> Shapes(e) [] e.op = "turnshape" -> TurnShape(e)
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
