------------------------------- MODULE Basis -------------------------------
(* The radial-angular basis: for a displacement of length x (fixed point) in  *)
(* direction u, entry (degree d, order m, function k) is                      *)
(*   Y(d, m; u) * g_k(x) * [c(x)] * [damping(x) if d > 0].                    *)
(* An option record q has fields fn, fam, num, kind, cuspless, weight, lim,   *)
(* gamma (radial functions), cut ("none", "smooth", "cosine"), cutlim, damp   *)
(* (BOOLEAN), dgamma, norm (normalization of the angular functions), cart.    *)
EXTENDS Harmonics, Radial
RadWeighted(q, m, s) == IF q.weight THEN [k \in 1..Len(s) |-> FMul(s[k], m)] ELSE s
RadMapped(q, m) == RadWeighted(q, m, TLCEval(Set(q.fam, IF q.fam = "chebyshev" THEN m ELSE U - m, q.num)))
RadRow(q, x) ==
  CASE q.fn = "basic"       -> Set(q.fam, Scaled(x, q.lim), q.num)
    [] q.fn = "reciprocal"  -> RadMapped(q, RecMap(q.kind, x))
    [] q.fn = "exponential" -> RadMapped(q, ExpMap(q.gamma, q.cuspless, x))
Cut(q, x) == CASE q.cut = "none" -> U
               [] q.cut = "smooth" -> SmoothCutoff(Scaled(x, q.cutlim))
               [] q.cut = "cosine" -> CosineCutoff(Scaled(x, q.cutlim))
Damp(q, x) == IF q.damp THEN Damping(q.dgamma, x) ELSE U
Ang(q, u, x, L) == IF x > 0 THEN RowsUpTo(u, L) ELSE
  [d \in 1..(L + 1) |-> [m \in (1 - d)..(d - 1) |-> IF d = 1 THEN U ELSE 0]]
\* value of the radial part for degree d
Rad(q, x, d) == LET r == TLCEval(RadRow(q, x)) c == Cut(q, x) dm == Damp(q, x) IN
  TLCEval([k \in 1..Len(r) |-> FMul(FMul(r[k], c), IF d > 0 THEN dm ELSE U)])
\* the value of an angular function, normalised
AngVal(q, rows, d, m) == RDiv(rows[d + 1][m] * (NormFactor(q.norm, d) \div 10), U \div 10)
Entry(q, rows, radial, d, m, k) == FMul(AngVal(q, rows, d, m), radial[k])
\* what the call returns, in order
Outputs(q) == <<"basis">> \o (IF q.retcut THEN <<"cutoff">> ELSE <<>>) \o (IF q.retnorm THEN <<"norm">> ELSE <<>>)
ValidOptions(q) == q.retcut => q.cut # "none"
=============================================================================
