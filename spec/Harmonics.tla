----------------------------- MODULE Harmonics -----------------------------
(* Real spherical harmonics of a unit vector in fixed point, by recurrence    *)
(* in the degree (any degree, unlike the exact polynomials of Irreps), and    *)
(* the conventions of the library: order of the components, normalizations.   *)
EXTENDS Fixed, TLC

\* sqrt(n) in units of 1/1000
Sq(n) == RSqrt(n * 1000000)

NextRow(dg, row, prev, u) ==      \* row dg+1 from rows dg and dg-1
  [m \in -(dg+1)..(dg+1) |->
     IF m = dg + 1 THEN
       (IF dg = 0 THEN u[1] ELSE
        RDiv((FMul(u[1], row[dg]) - FMul(u[2], row[-dg])) * Sq(2*dg + 1), Sq(2*dg + 2)))
     ELSE IF m = -(dg + 1) THEN
       (IF dg = 0 THEN u[2] ELSE
        RDiv((FMul(u[1], row[-dg]) + FMul(u[2], row[dg])) * Sq(2*dg + 1), Sq(2*dg + 2)))
     ELSE LET a == IF m < 0 THEN -m ELSE m
              p == IF a = dg THEN 0 ELSE RDiv(Sq(dg*dg - m*m) * prev[m], 1000)
          IN RDiv(((2*dg + 1) * FMul(u[3], row[m]) - p) * 1000, Sq((dg+1)*(dg+1) - m*m))]
RECURSIVE RowsUpTo(_, _)
RowsUpTo(u, dg) ==                 \* <<row 0, ..., row dg>>, Racah normalization
  IF dg = 0 THEN <<[m \in {0} |-> U]>>
  ELSE LET r == TLCEval(RowsUpTo(u, dg - 1))
       IN Append(r, TLCEval(NextRow(dg - 1, r[dg], IF dg > 1 THEN r[dg - 1] ELSE r[dg], u)))

StdOrder(dg)  == [k \in 1..(2*dg + 1) |-> k - 1 - dg]
CartOrder(dg) == [k \in 1..(2*dg + 1) |->
                   IF k = 2*dg + 1 THEN 0
                   ELSE IF k % 2 = 1 THEN dg - (k - 1) \div 2 ELSE -(dg - (k - 2) \div 2)]
Ord(dg, cart) == IF cart THEN CartOrder(dg) ELSE StdOrder(dg)

\* normalization factor of degree dg, in fixed point
NormFactor(norm, dg) == CASE norm = "4pi" -> RDiv(Sq(2*dg + 1) * U, 1000)
                         [] norm = "orthonormal" -> RDiv(Sq(2*dg + 1) * 2821, 1000)
                         [] OTHER -> U
\* position of component k (1..2l+1) of degree dg in the flat layout
Flat(dg, k) == dg * dg + k

\* Legendre polynomials of c (fixed point), degrees 0..L
RECURSIVE Legendre(_, _)
Legendre(c, L) == IF L = 0 THEN <<U>> ELSE IF L = 1 THEN <<U, c>> ELSE
  LET p == TLCEval(Legendre(c, L - 1))
  IN Append(p, RDiv((2*L - 1) * FMul(c, p[L]) - (L - 1) * p[L - 1], L))
=============================================================================
