----------------------------- MODULE FixedMath -----------------------------
(* Elementary functions in fixed point (module Fixed).                        *)
EXTENDS Fixed
LN2 == 6931
PI == 31416
\* a*b for large b (multiples of ten)
BMul(a, b) == RDiv(a * RDiv(b, 10), U \div 10)

\* exp(-z), z >= 0
FExpNeg(z) ==
  LET n == z \div LN2
      r == z - n * LN2
      p == U - RDiv(r, 6)
      p5 == U - RDiv(FMul(r, p), 5)
      p4 == U - RDiv(FMul(r, p5), 4)
      p3 == U - RDiv(FMul(r, p4), 3)
      p2 == U - RDiv(FMul(r, p3), 2)
      p1 == U - FMul(r, p2)
  IN IF n >= 18 THEN 0 ELSE RDiv(p1, 2^n)
\* 1/(1 + exp(z)), any z
FLogistic(z) == IF z >= 0 THEN LET e == FExpNeg(z) IN RDiv(e * U, U + e)
                ELSE RDiv(U * U, U + FExpNeg(-z))
\* cos(pi t)
FCosPi(t) ==
  LET a == t % (2 * U)
      b == IF a > U THEN 2 * U - a ELSE a
      d == IF 2 * b > U THEN U - b ELSE b
      x == RDiv(d * PI, U)
      q == FMul(x, x)
      c4 == U - RDiv(q, 56)
      c3 == U - RDiv(FMul(q, c4), 30)
      c2 == U - RDiv(FMul(q, c3), 12)
      c1 == U - RDiv(FMul(q, c2), 2)
  IN IF 2 * b > U THEN -c1 ELSE c1
FSinPi(t) == FCosPi(t - U \div 2)
=============================================================================
