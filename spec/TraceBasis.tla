----------------------------- MODULE TraceBasis -----------------------------
(* Recorded basis expansions: e.y[i][flat component][function] for the        *)
(* displacement of length e.xs[i] in direction e.vs[i].                       *)
EXTENDS TraceBase, Basis
UnitOf(d) == [i \in 1..3 |-> RDiv(d.v[i] * U, d.n)]
\* errors of the fixed-point radial functions are amplified by k * k
Tol(e, k, f) == (25 + 4 * e.L + 3 * k * k * (IF e.fn = "exponential" THEN 1 + (e.gamma \div U) ELSE 1)) * (1 + f \div U)
RowOK(e, i) ==
  LET x == e.xs[i]
      rows == TLCEval(Ang(e, UnitOf(e.vs[i]), x, e.L))
      r0 == TLCEval(Rad(e, x, 0)) r1 == TLCEval(Rad(e, x, 1))
  IN \A d \in 0..e.L : LET o == Ord(d, e.cart) f == NormFactor(e.norm, d) IN
       \A j \in 1..(2 * d + 1), k \in 1..e.num :
         Near(e.y[i][Flat(d, j)][k], Entry(e, rows, IF d = 0 THEN r0 ELSE r1, d, o[j], k), Tol(e, k, f))
Vanish(e) == \A i \in 1..Len(e.xs) : e.cut # "none" /\ e.xs[i] >= e.cutlim + 2 =>
  \A j \in 1..Len(e.y[i]) : \A k \in 1..e.num : e.y[i][j][k] = 0
ExtraOK(e) ==
  LET o == Outputs(e) IN
  /\ e.nout = Len(o) /\ e.tuple = (Len(o) > 1)
  /\ \A a \in 2..Len(o) : \A i \in 1..Len(e.xs) :
       Near(e.extra[a - 1][i], IF o[a] = "cutoff" THEN Cut(e, e.xs[i]) ELSE e.xs[i], 10)
Call(e) ==
  IF ~ValidOptions(e) THEN Clause("a cutoff that does not exist cannot be returned", e.exc = "ValueError") ELSE
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the outputs have the documented shape, type and order", e.shapeok /\ e.dtypeok)
  \cup (IF ~e.shapeok THEN {} ELSE
    Clause("cutoff values and lengths are returned as requested", ExtraOK(e) /\ e.extrappm <= 20)
    \cup Clause("every entry is harmonic times radial function times cutoff and damping",
           \A i \in 1..Len(e.xs) : RowOK(e, i))
    \cup Clause("every entry is harmonic times radial function times cutoff and damping (tight)", e.ppm <= 400)
    \cup Clause("the basis vanishes beyond the cutoff", Vanish(e))
    \cup Clause("elements of a batch are treated independently", e.singleppm <= 20 /\ e.empty)
    \cup Clause("compiled and eager results agree", e.jitppm <= 20)
    \cup Clause("values and first derivatives are finite everywhere", e.finite)
    \cup Clause("second derivatives are finite at zero and away from it", e.finite2)
    \cup Clause("derivatives are those of the product", e.d1ppm <= 1500)
    \cup Clause("the trainable width is a single positive parameter with the requested initial value",
           e.module => e.params = <<<<>>>> /\ e.gammappm <= 10)
    \cup Clause("the trainable width acts as gamma of the radial function", e.gamma2ppm <= 400 /\ e.paramgrad))
Fails(e) == IF e.op = "basis" THEN Call(e) ELSE {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
