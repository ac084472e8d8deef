------------------------------ MODULE MCRadial ------------------------------
(* The structural identities of the specified function sets, over a walk of   *)
(* the argument; enumerates the calls to replay.                              *)
EXTENDS Radial, Json
CONSTANTS KMax, Step
VARIABLES fn, num, x
vars == <<fn, num, x>>
Sets1 == {"bernstein", "chebyshev", "fourier", "gaussian", "sinc"}
Windows == {"rectangular", "triangular", "smooth"}
Scalars == {"smooth_cutoff", "cosine_cutoff", "damping", "switch", "shifted", "damped", "cuspless", "exponential"}
Init == x = 0 /\ \/ fn \in Sets1 \cup Windows /\ num \in 1..KMax
                 \/ fn \in Scalars /\ num = 0
Next == x + Step <= 12000 /\ x' = x + Step /\ UNCHANGED <<fn, num>>
Spec == Init /\ [][Next]_vars
SumF(s) == LET RECURSIVE S(_)
               S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))
Val(t) == CASE fn = "smooth_cutoff" -> SmoothCutoff(t) [] fn = "cosine_cutoff" -> CosineCutoff(t)
            [] fn = "damping" -> Damping(2 * U, 8 * t) [] fn = "switch" -> Switch01(t)
            [] fn \in {"shifted", "damped", "cuspless"} -> RecMap(fn, 5 * t)
            [] fn = "exponential" -> ExpMap(U, TRUE, 5 * t)
FSet(t) == CASE fn \in Sets1 -> Set(fn, t, num) [] fn = "rectangular" -> Rect(t, num, U)
            [] fn = "triangular" -> Tri(t, num, U) [] fn = "smooth" -> Smooth(t, num, U)
\* ---- identities ----------------------------------------------------------------
Partition ==
  /\ fn = "bernstein" => LET s == TLCEval(Set(fn, x, num)) IN
       Near(SumF(s), U, num * num) /\ \A k \in 1..num : s[k] >= 0
  /\ fn = "triangular" /\ x <= RDiv((num - 1) * U, num) => Near(SumF(FSet(x)), U, 12)
  /\ fn = "smooth" /\ x <= RDiv((num - 1) * U, num) => Near(SumF(FSet(x)), U, 12)
Bounded == fn \in Sets1 \cup Windows =>
  LET s == TLCEval(FSet(x)) IN \A k \in 1..num : FAbs(s[k]) <= U + 4 * k * k
Monotone == fn \in Scalars /\ x >= Step =>
  LET a == Val(x - Step) b == Val(x) IN
  /\ a >= 0 /\ a <= U /\ b >= 0 /\ b <= U
  /\ IF fn \in {"damping", "switch"} THEN b >= a - 3 ELSE b <= a + 3
Symmetric == /\ fn = "switch" => Near(Switch01(x) + Switch01(U - x), U, 4)
             /\ fn = "bernstein" /\ x <= U => LET a == TLCEval(Set(fn, x, num)) b == TLCEval(Set(fn, U - x, num)) IN
                  \A k \in 1..num : Near(a[k], b[num + 1 - k], num * num)
Ends == /\ Switch01(0) = 0 /\ Switch01(U) = U /\ SmoothCutoff(0) = U /\ SmoothCutoff(U) = 0
        /\ CosineCutoff(0) = U /\ Near(CosineCutoff(U - 1), 0, 1) /\ Damping(U, 0) = 0
        /\ \A k \in {"shifted", "damped", "cuspless"} : RecMap(k, 0) = U
        /\ ExpMap(U, TRUE, 0) = U /\ ExpMap(U, FALSE, 0) = U
\* cos(k pi t) = T_k(cos(pi t))
Consistent == fn = "fourier" => LET f == FourierSet(x, num) c == TLCEval(ChebSet(FCosPi(x), num)) IN
  \A k \in 1..num : Near(f[k], c[k], 4 + 6 * k * k)
Emit == x = 0 => PrintT(ToJson([fn |-> fn, num |-> num]))
=============================================================================
