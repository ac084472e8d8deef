---------------------------- MODULE TraceRadial ----------------------------
(* Recorded calls of the radial function sets, windows, cutoffs, mappings,    *)
(* damping and switching functions.  e.xs are the arguments and e.ys the      *)
(* returned rows (fixed point); both are ordered by increasing argument.      *)
EXTENDS TraceBase, Radial
One(y) == <<y>>
Weighted(e, m, s) == IF e.weight THEN [k \in 1..Len(s) |-> FMul(s[k], m)] ELSE s
Mapped(e, m) == Weighted(e, m, TLCEval(Set(e.fam, IF e.fam = "chebyshev" THEN m ELSE U - m, e.num)))
Row(e, x) ==
  CASE e.fn = "basic"         -> Set(e.fam, Scaled(x, e.lim), e.num)
    [] e.fn = "reciprocal"    -> Mapped(e, RecMap(e.kind, x))
    [] e.fn = "exponential"   -> Mapped(e, ExpMap(e.gamma, e.cuspless, x))
    [] e.fn = "window"        -> (CASE e.fam = "rectangular" -> Rect(x, e.num, e.lim)
                                    [] e.fam = "triangular"  -> Tri(x, e.num, e.lim)
                                    [] e.fam = "smooth"      -> Smooth(x, e.num, e.lim))
    [] e.fn = "cutoff"        -> One(IF e.fam = "smooth" THEN SmoothCutoff(Scaled(x, e.lim)) ELSE CosineCutoff(Scaled(x, e.lim)))
    [] e.fn = "damping"       -> One(Damping(e.gamma, x))
    [] e.fn = "reciprocal_mapping"  -> One(RecMap(e.kind, x))
    [] e.fn = "exponential_mapping" -> One(ExpMap(e.gamma, e.cuspless, x))
    [] e.fn = "switch"        -> One(Switch01(Scaled(x - e.x0, e.lim)))
\* An error of the mapped argument (gamma units) is amplified by k * k.
Tol(e, k) == 20 + 3 * k * k * (IF e.fn = "exponential" THEN 1 + (e.gamma \div U) ELSE 1)
NR(e) == Len(e.xs)
\* ---- structure, on the recorded values -----------------------------------------
SumR(s) == LET RECURSIVE S(_)
               S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))
RowsOK(e, P(_, _)) == \A i \in 1..NR(e) : P(e.xs[i], e.ys[i])
AllIn(lo, hi, y) == \A k \in 1..Len(y) : y[k] >= lo /\ y[k] <= hi
Small(e) == e.num <= 9
Partition(e) ==
  IF e.fam = "bernstein" /\ ~e.weight THEN RowsOK(e, LAMBDA x, y : Near(SumR(y), U, e.num + 2))
  ELSE IF e.fn = "window" /\ e.fam \in {"triangular", "smooth"}
       THEN RowsOK(e, LAMBDA x, y : x * e.num <= (e.num - 1) * e.lim => Near(SumR(y), U, e.num + 2))
  ELSE IF e.fn = "window" THEN RowsOK(e, LAMBDA x, y : x < e.lim - 5 => SumR(y) = U)
  ELSE TRUE
InRange(e) ==
  IF e.fam = "bernstein" \/ e.fn \in {"window", "cutoff", "damping", "reciprocal_mapping", "exponential_mapping", "switch"}
    THEN RowsOK(e, LAMBDA x, y : AllIn(0, U, y))
  ELSE IF e.fam = "gaussian" THEN RowsOK(e, LAMBDA x, y : AllIn(0, U, y))
  ELSE RowsOK(e, LAMBDA x, y : AllIn(-U - 1, U + 1, y))
Monotone(e) ==
  IF e.fn \in {"cutoff", "reciprocal_mapping", "exponential_mapping"}
    THEN \A i \in 1..(NR(e) - 1) : e.ys[i][1] >= e.ys[i+1][1]
  ELSE IF e.fn \in {"switch", "damping"} THEN \A i \in 1..(NR(e) - 1) : e.ys[i][1] <= e.ys[i+1][1]
  ELSE TRUE
Vanish(e) ==
  CASE e.fn = "cutoff" -> RowsOK(e, LAMBDA x, y : x >= e.lim => y[1] = 0)
    [] e.fn = "switch" -> RowsOK(e, LAMBDA x, y : (x <= e.x0 => y[1] = 0) /\ (x >= e.x0 + e.lim => y[1] = U))
    [] e.fn = "window" -> RowsOK(e, LAMBDA x, y : x > e.lim + 5 => AllIn(0, 0, y))
    [] e.fn = "basic" /\ e.fam = "sinc" -> RowsOK(e, LAMBDA x, y : x > e.lim + 5 => AllIn(0, 0, y))
    [] OTHER -> TRUE
Call(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the result has one entry per argument and function", e.shapeok /\ e.dtypeok)
  \cup Clause("the values are those of the defining formula",
       Small(e) => RowsOK(e, LAMBDA x, y :
         LET w == TLCEval(Row(e, x)) IN Len(y) = Len(w) /\ \A k \in 1..Len(w) : Near(y[k], w[k], Tol(e, k))))
  \cup Clause("the values are accurate", e.valppm <= e.tolppm)
  \cup Clause("the functions of a set add up to one", Partition(e))
  \cup Clause("the values stay in the range of the function", InRange(e))
  \cup Clause("the function is monotonic", Monotone(e))
  \cup Clause("the function vanishes or saturates outside its range", Vanish(e))
  \cup Clause("derivatives are those of the defining formula", e.d1ppm <= e.told1 /\ e.d2ppm <= e.told2)
  \cup Clause("values and derivatives are finite at and beyond the ends of the domain", e.finite)
  \cup Clause("values at the ends of the domain are accurate", e.endppm <= e.tolppm)
  \cup Clause("derivatives at the origin are those of the defining formula", e.e1ppm <= 2000 /\ e.e2ppm <= 5000)
  \cup Clause("results do not depend on the shape of the argument", e.shapes)
Fails(e) == IF e.op = "radial" THEN Call(e) ELSE {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
