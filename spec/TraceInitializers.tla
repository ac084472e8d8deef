------------------------- MODULE TraceInitializers -------------------------
(* Recorded initial kernels.  Each row is                                     *)
(* <<p1, l1, p2, l2, p3, l3, zeros, var, bound>>: the path, whether all its   *)
(* weights are exactly zero, the sample variance and the variance implied by  *)
(* the largest weight (for bounded distributions), both in units of scale/U.  *)
EXTENDS TraceBase
I == INSTANCE Initializers WITH LMax <- 3
UU == 10000
T(e, i) == [P |-> e.types[i][1], L |-> e.types[i][2]]
Rule(e) == IF e.name = "variance_scaling" THEN <<e.scale, e.mode, e.dist>> ELSE I!Named(e.name)
\* measured 2*var*... : var * denom2 = 2 U (scale / recorded scale)
Close(x, d2, want, pct) == AbsI(x * d2 - want) <= (want * pct) \div 1000 + 2 * d2  \* pct in tenths of a percent
RowOK(e, r) ==
  LET t1 == T(e, 1) t2 == T(e, 2) t3 == T(e, 3)
      s1 == <<r[1], r[2]>> s2 == <<r[3], r[4]>> s3 == <<r[5], r[6]>>
      q == Rule(e)
      d2 == I!Denom2(q[2], t1, s1, t2, s2, t3, s3)
      want == (2 * UU * q[1]) \div 10
  IN IF ~I!Allowed(t1, s1, t2, s2, t3, s3) THEN r[7] = 1
     ELSE /\ r[7] = 0 /\ Close(r[8], d2, want, 70)
          /\ q[3] = "uniform" => Close(r[9], d2, want, 8)
          /\ q[3] = "truncated_normal" => Close(r[9], d2, want, 35)
Kurt(d) == CASE d = "uniform" -> 180 [] d = "normal" -> 300 [] d = "truncated_normal" -> 237
Kernel(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the kernel has the requested shape and type", e.shapeok /\ e.dtypeok)
  \cup Clause("forbidden couplings are zero and all others have the variance of the rule",
         /\ Len(e.rows) = Cardinality(I!SlotsOf(T(e, 1))) * Cardinality(I!SlotsOf(T(e, 2))) * Cardinality(I!SlotsOf(T(e, 3)))
         /\ \A i \in 1..Len(e.rows) : RowOK(e, e.rows[i]))
  \cup Clause("weights have mean zero and are independent", e.meansigma <= 65 /\ e.corrsigma <= 65)
  \cup Clause("weights have the requested distribution", e.kurt < 0 \/ AbsI(e.kurt - Kurt(Rule(e)[3])) <= 25)
  \cup Clause("the same key gives the same weights, another key others", e.repeat)
\* fused kernels: rows are <<masked, zeros, var, bound, scale>>
Fused(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the kernel has the requested shape and type", e.shapeok /\ e.dtypeok)
  \cup Clause("masked weights are zero and all others have the requested variance",
         \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
           IF r[1] = 1 THEN r[2] = 1 ELSE r[2] = 0 /\ Close(r[3], 1, r[5], 70)
             /\ Close(r[4], 1, r[5], IF e.dist = "uniform" THEN 8 ELSE 35))
  \cup Clause("weights have mean zero and are independent", e.meansigma <= 65 /\ e.corrsigma <= 65)
  \cup Clause("weights have the requested distribution", e.kurt < 0 \/ AbsI(e.kurt - Kurt(e.dist)) <= 25)
  \cup Clause("the same key gives the same weights, another key others", e.repeat)
Fails(e) == IF e.op = "kernel" THEN Kernel(e) ELSE IF e.op = "fused" THEN Fused(e) ELSE {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
