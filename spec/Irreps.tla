------------------------------- MODULE Irreps -------------------------------
(* Representation theory of O(3) in exact integer arithmetic.                *)
(*                                                                           *)
(* Q(l, m), m in -l..l, is the real harmonic polynomial of degree l and      *)
(* order m with coprime integer coefficients (m > 0 ~ cos, m < 0 ~ sin), a   *)
(* function from exponent triples to integers.  With the Fischer product     *)
(* <p, q> = SUM alpha! p_alpha q_alpha and F(l, m) = <Q, Q>, the harmonic in *)
(* Racah normalization is  Y(l, m) = Q(l, m) * sqrt((2l-1)!! / F(l, m)).     *)
(*                                                                           *)
(* A rotation is an integer matrix M with a common denominator d acting on   *)
(* row vectors, r |-> r M / d.  Y(r M/d) = Y(r) D with                       *)
(*     D[m1, m2] = Num(M, l, m1, m2) / (d^l sqrt(F(l,m1) F(l,m2))).          *)
(* Nothing here refers to the library's own tables.                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

RECURSIVE Fact(_)
Fact(n) == IF n <= 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE DFact(_)
DFact(n) == IF n <= 0 THEN 1 ELSE n * DFact(n - 2)          \* n!!
RECURSIVE Falling(_, _)
Falling(n, k) == IF k = 0 THEN 1 ELSE n * Falling(n - 1, k - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1
               ELSE (Binom(n, k - 1) * (n - k + 1)) \div k
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc: acc + f(x), 0, S)

\* ---- polynomials -----------------------------------------------------------
Mono(l) == {<<a, b, l - a - b>> : <<a, b>> \in {p \in (0..l) \X (0..l) : p[1] + p[2] <= l}}
MultiFact(e) == Fact(e[1]) * Fact(e[2]) * Fact(e[3])
Fischer(l, p, q) == SumOver(Mono(l), LAMBDA e: MultiFact(e) * p[e] * q[e])

\* coefficient of x^i y^j in Re or Im of (x + i y)^n, i + j = n
ReC(n, j) == IF j % 2 = 0 THEN Sgn(j \div 2) * Binom(n, j) ELSE 0
ImC(n, j) == IF j % 2 = 1 THEN Sgn((j - 1) \div 2) * Binom(n, j) ELSE 0

\* Unreduced coefficient of x^a y^b z^c in the harmonic of degree l, order m:
\*   SUM_k (-1)^k C(l,k) C(2l-2k,l) (l-2k)_|m|  (x^2+y^2+z^2)^k z^(l-2k-|m|) * (Re|Im)(x+iy)^|m|
RawCoef(l, m, e) ==
  LET n == Abs(m) IN
  SumOver({k \in 0..(l \div 2) : l - 2*k - n >= 0}, LAMBDA k:
    LET zr == e[3] - (l - 2*k - n)                 \* z power from (r^2)^k
    IN IF zr < 0 \/ zr % 2 = 1 THEN 0 ELSE
       Sgn(k) * Binom(l, k) * Binom(2*l - 2*k, l) * Falling(l - 2*k, n) *
       SumOver({j \in 0..n : /\ j <= e[2] /\ (e[2] - j) % 2 = 0
                             /\ n - j <= e[1] /\ (e[1] - (n - j)) % 2 = 0}, LAMBDA j:
         LET u == (e[1] - (n - j)) \div 2  v == (e[2] - j) \div 2  w == zr \div 2
         IN IF u + v + w # k THEN 0
            ELSE (Fact(k) \div (Fact(u) * Fact(v) * Fact(w)))
                 * (IF m >= 0 THEN ReC(n, j) ELSE ImC(n, j))))
RawPoly(l, m) == [e \in Mono(l) |-> RawCoef(l, m, e)]
Content(l, p) == FoldSet(LAMBDA e, g: Gcd(Abs(p[e]), g), 0, Mono(l))
QDef(l, m) == LET r == RawPoly(l, m) g == Content(l, r) IN [e \in Mono(l) |-> r[e] \div g]

CONSTANT LMax
MonoT == [l \in 0..(LMax + 1) |-> Mono(l)]
MF == [l \in 0..LMax |-> [e \in Mono(l) |-> MultiFact(e)]]
Q == [l \in 0..LMax |-> [m \in -l..l |-> QDef(l, m)]]
F == [l \in 0..LMax |-> [m \in -l..l |-> Fischer(l, Q[l][m], Q[l][m])]]
\* the support of Q: the monomials with a non-zero coefficient
Supp == [l \in 0..LMax |-> [m \in -l..l |-> {e \in MonoT[l] : Q[l][m][e] # 0}]]
FischerQ(l, m, p) == SumOver(Supp[l][m], LAMBDA e: MF[l][e] * Q[l][m][e] * p[e])
\* squared Racah normalization factor of Q is DFact(2l-1) / F
NormNum(l) == DFact(2*l - 1)

Pow(b, n) == IF n = 0 THEN 1 ELSE b^n
Eval(l, p, r) == SumOver(Mono(l), LAMBDA e: p[e] * Pow(r[1], e[1]) * Pow(r[2], e[2]) * Pow(r[3], e[3]))

\* The Laplacian of Q vanishes: coefficient of monomial e of degree l-2.
Laplace(l, p, e) ==
  LET t(i) == [e EXCEPT ![i] = @ + 2]
  IN SumOver(1..3, LAMBDA i: (e[i] + 2) * (e[i] + 1) * p[t(i)])

\* ---- order of the components of degree l ------------------------------------
StandardOrder(l)  == [k \in 1..(2*l + 1) |-> k - 1 - l]                \* -l..l
CartesianOrder(l) == [k \in 1..(2*l + 1) |->                           \* l,-l,l-1,...,0
                        IF k = 2*l + 1 THEN 0
                        ELSE IF k % 2 = 1 THEN l - (k - 1) \div 2 ELSE -(l - (k - 2) \div 2)]
Order(l, cart) == IF cart THEN CartesianOrder(l) ELSE StandardOrder(l)

\* ---- rotations ---------------------------------------------------------------
\* p(r M): substitute x_j -> SUM_i r_i M[i][j].  PowLin(M, e): the expansion of
\* the monomial e, as a polynomial of the same degree.
MulLin(l, p, v) ==     \* (polynomial of degree l) * (v1 x + v2 y + v3 z)
  [e \in MonoT[l + 1] |->
     (IF e[1] > 0 THEN v[1] * p[<<e[1]-1, e[2], e[3]>>] ELSE 0) +
     (IF e[2] > 0 THEN v[2] * p[<<e[1], e[2]-1, e[3]>>] ELSE 0) +
     (IF e[3] > 0 THEN v[3] * p[<<e[1], e[2], e[3]-1>>] ELSE 0)]
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
RECURSIVE PowTab(_, _)
\* PowTab(M, l)[e]: expansion of the monomial e of degree l, built degree by degree
\* (TLCEval: TLC would otherwise evaluate the functions anew at each application)
PowTab(M, l) ==
  IF l = 0 THEN TLCEval([e \in MonoT[0] |-> [x \in MonoT[0] |-> 1]])
  ELSE LET prev == PowTab(M, l - 1) IN
       TLCEval([e \in MonoT[l] |->
          LET j == IF e[1] > 0 THEN 1 ELSE IF e[2] > 0 THEN 2 ELSE 3
          IN TLCEval(MulLin(l - 1, prev[[e EXCEPT ![j] = @ - 1]], Col(M, j)))])
Num(M, l) ==
  LET ex == PowTab(M, l)
      sub == TLCEval([m \in -l..l |-> TLCEval([x \in MonoT[l] |->
                SumOver(Supp[l][m], LAMBDA e: Q[l][m][e] * ex[e][x])])])
  IN TLCEval([m1 \in -l..l |-> TLCEval([m2 \in -l..l |-> FischerQ(l, m1, sub[m2])])])

\* integer quaternion -> integer matrix with denominator |q|^2
Quat(a, b, c, d) == <<
  <<a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)>>,
  <<2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)>>,
  <<2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d>> >>
MatMul(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j]]]
Ident == Quat(1, 0, 0, 0)
Transp(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
Det(A) == A[1][1]*(A[2][2]*A[3][3]-A[2][3]*A[3][2]) - A[1][2]*(A[2][1]*A[3][3]-A[2][3]*A[3][1])
          + A[1][3]*(A[2][1]*A[3][2]-A[2][2]*A[3][1])

\* ---- features: slots (parity channel p, degree l) ---------------------------
\* One parity channel: degree l has parity (-1)^l (proper tensors).  Two parity
\* channels: channel 0 holds even, channel 1 odd parity, for every degree.
Parity(P, p, l) == IF P = 2 THEN p ELSE l % 2            \* 0 even, 1 odd
Slots(P, L) == {<<p, l>> : p \in 0..(P - 1), l \in 0..L}
\* Sign of slot (p, l) under the inversion.
InvSign(P, p, l) == Sgn(Parity(P, p, l))
\* proper tensors have parity (-1)^l, pseudotensors -(-1)^l
IsPseudo(P, p, l) == (Parity(P, p, l) + l) % 2 = 1
=============================================================================
