------------------------------- MODULE Radial -------------------------------
(* Radial basis sets, window, cutoff, damping and switching functions, in     *)
(* fixed point.  Function sets are sequences over k = 0..K-1.                 *)
EXTENDS FixedMath, FiniteSets, TLC

\* ---- on the unit interval --------------------------------------------------
RECURSIVE BernSet(_, _)
BernSet(m, K) ==      \* B(K, k) = m B(K-1, k-1) + (1-m) B(K-1, k)
  IF K = 1 THEN <<U>>
  ELSE LET p == TLCEval(BernSet(m, K - 1)) IN
       [k \in 1..K |-> (IF k > 1 THEN FMul(m, p[k-1]) ELSE 0) + (IF k < K THEN FMul(U - m, p[k]) ELSE 0)]
RECURSIVE ChebSet(_, _)
ChebSet(y, K) ==      \* T(k+1) = 2 y T(k) - T(k-1)
  IF K = 1 THEN <<U>> ELSE IF K = 2 THEN <<U, y>>
  ELSE LET p == TLCEval(ChebSet(y, K - 1)) IN Append(p, RDiv(2 * y * p[K-1], U) - p[K-2])
FourierSet(t, K) == [k \in 1..K |-> FCosPi((k - 1) * t)]
GaussSet(t, K) ==
  LET G == RSqrt(2 * K * U * U) * (K - 1) IN
  [k \in 1..K |-> IF K = 1 THEN U ELSE
     LET d == t - RDiv((k - 1) * U, K - 1) IN FExpNeg(RDiv(FMul(d, d) * (G \div 100), U \div 100))]
Sinc(z) == IF z < 1500 THEN LET q == FMul(RDiv(z * PI, U), RDiv(z * PI, U)) IN U - RDiv(FMul(q, U - RDiv(q, 20)), 6)
           ELSE RDiv(FSinPi(z) * U, RDiv(z * (PI \div 4), U) * 4)
SincSet(t, K) == [k \in 1..K |-> IF t > U THEN 0 ELSE Sinc(k * t)]
Clamp(m) == IF m < 0 THEN 0 ELSE IF m > U THEN U ELSE m
Set(family, m, K) ==  \* m in [0, 1] is the mapped distance, growing with it
  CASE family = "bernstein" -> BernSet(Clamp(m), K)
    [] family = "chebyshev" -> ChebSet(2 * Clamp(m) - U, K)
    [] family = "fourier"   -> FourierSet(m, K)
    [] family = "gaussian"  -> GaussSet(m, K)
    [] family = "sinc"      -> SincSet(m, K)

\* ---- mappings of [0, oo) to (0, 1] -------------------------------------------
RecMap(kind, x) ==
  CASE kind = "shifted"  -> RDiv(U * U, x + U)
    [] kind = "damped"   -> IF x < 2000 THEN U - FMul(RDiv(x, 2), U - FMul(RDiv(x, 3), U - RDiv(x, 4)))
                            ELSE RDiv((U - FExpNeg(x)) * U, x)
    [] kind = "cuspless" -> RDiv(U * U, x + FExpNeg(x))
GMul(g, x) == RDiv((g \div 10) * x, U \div 10)     \* gamma * x
ExpMap(g, cuspless, x) == FExpNeg(GMul(g, IF cuspless THEN x + FExpNeg(x) - U ELSE x))

\* ---- windows ---------------------------------------------------------------------
Scaled(x, lim) == RDiv(x * U, lim)
\* position in units of the window width
Pos(x, K, lim) == RDiv(x * K * (U \div 10), lim) * 10
Rect(x, K, lim) == [k \in 1..K |-> LET p == Pos(x, K, lim) IN IF p >= (k-1) * U /\ p <= k * U THEN U ELSE 0]
Tri(x, K, lim) == [k \in 1..K |->
  LET d == FAbs(Pos(x, K, lim) - (k - 1) * U) IN IF d >= U THEN 0 ELSE U - d]
S32 == 8660       \* sqrt(3)/2
Switch01(t) == IF t <= 0 THEN 0 ELSE IF t >= U THEN U
               ELSE LET z == RDiv(U * U, t) - RDiv(U * U, U - t) IN
                    IF z > 20 * U THEN 0 ELSE IF z < -20 * U THEN U ELSE FLogistic(RDiv(z * (S32 \div 10), U \div 10))
Smooth(x, K, lim) == [k \in 1..K |->
  LET p == Pos(x, K, lim) - (k - 1) * U IN Switch01(p + U) - Switch01(p)]

\* ---- scalar functions ---------------------------------------------------------------
SmoothCutoff(t) == IF t >= U THEN 0
                   ELSE LET d == U - FMul(t, t) IN IF d < 400 THEN 0 ELSE FExpNeg(RDiv(U * U, d) - U)
CosineCutoff(t) == IF t >= U THEN 0 ELSE RDiv(FCosPi(t) + U, 2)
Damping(g, x) == LET e == FExpNeg(GMul(g, x)) IN
                 IF U - e < 400 THEN 0 ELSE FExpNeg(RDiv(e * U, U - e))
=============================================================================
