------------------------------- MODULE Fixed -------------------------------
(* Fixed-point arithmetic for real-valued definitions: the integer n stands   *)
(* for n/U.  TLC's integers have 32 bits, so |a*b| must stay below 2^31.      *)
EXTENDS Integers, Sequences
U == 10000

RDiv(n, d) == IF d < 0 THEN (2*(-n) + (-d)) \div (2*(-d)) ELSE (2*n + d) \div (2*d)
FMul(a, b) == RDiv(a * b, U)
FAbs(a) == IF a < 0 THEN -a ELSE a

\* largest s with s*s <= n, by bisection on the bits
RECURSIVE ISqrtFrom(_, _, _)
ISqrtFrom(n, s, b) == IF b = 0 THEN s
                      ELSE LET t == s + b
                           IN ISqrtFrom(n, IF t <= 46340 /\ t * t <= n THEN t ELSE s, b \div 2)
ISqrt(n) == ISqrtFrom(n, 0, 32768)
\* rounded to nearest
RSqrt(n) == LET s == ISqrt(n) IN IF n - s * s > s THEN s + 1 ELSE s
Near(a, b, tol) == FAbs(a - b) <= tol
=============================================================================
