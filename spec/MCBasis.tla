------------------------------ MODULE MCBasis ------------------------------
(* The stages of a basis expansion for every combination of options, lengths  *)
(* around the special points, and a few directions.                           *)
EXTENDS Basis, Json
CONSTANTS ML
VARIABLES q, x, u, stage, rad, out
vars == <<q, x, u, stage, rad, out>>
Dirs == {<<U, 0, 0>>, <<0, 0, -U>>, <<3333, 6667, -6667>>, <<-6000, 0, 8000>>}
Xs == {0, 1, 100, 5000, 10000, 19990, 20000, 20001, 60000}
Opts == [fn : {"reciprocal"}, fam : {"bernstein"}, num : {3}, kind : {"shifted"}, cuspless : {FALSE}, weight : {FALSE},
         lim : {U}, gamma : {U}, cut : {"none", "smooth", "cosine"}, cutlim : {20000}, damp : BOOLEAN, dgamma : {U},
         norm : {"racah", "4pi"}, cart : {TRUE}, retcut : BOOLEAN, retnorm : BOOLEAN]
Init == q \in Opts /\ x \in Xs /\ u \in Dirs /\ stage = "start" /\ rad = <<>> /\ out = <<>>
Reject == stage = "start" /\ ~ValidOptions(q) /\ stage' = "rejected" /\ UNCHANGED <<q, x, u, rad, out>>
Radial_ == /\ stage = "start" /\ ValidOptions(q) /\ stage' = "radial"
           /\ rad' = [d \in 0..ML |-> Rad(q, x, d)] /\ UNCHANGED <<q, x, u, out>>
Expand == /\ stage = "radial" /\ stage' = "done"
          /\ LET rows == TLCEval(Ang(q, u, x, ML)) IN
             out' = [d \in 0..ML |-> [m \in (-d)..d |-> [k \in 1..q.num |-> Entry(q, rows, rad[d], d, m, k)]]]
          /\ UNCHANGED <<q, x, u, rad>>
Next == Reject \/ Radial_ \/ Expand
Spec == Init /\ [][Next]_vars
Done == stage = "done"
VanishBeyond == Done /\ q.cut # "none" /\ x >= q.cutlim =>
  \A d \in 0..ML : \A m \in (-d)..d : \A k \in 1..q.num : out[d][m][k] = 0
OriginScalar == Done /\ x = 0 => \A d \in 1..ML : \A m \in (-d)..d : \A k \in 1..q.num : out[d][m][k] = 0
\* the scalar part does not depend on direction or damping
ScalarPart == Done => \A k \in 1..q.num : Near(out[0][0][k], FMul(TLCEval(RadRow(q, x))[k], Cut(q, x)), 2)
RECURSIVE SumSq(_, _, _, _)
SumSq(o, d, k, m) == IF m > d THEN 0 ELSE FMul(o[d][m][k], o[d][m][k]) + SumSq(o, d, k, m + 1)
\* the length of every degree is the radial part (addition theorem)
Length_ == Done /\ x > 0 /\ q.norm = "racah" => \A d \in 0..ML : \A k \in 1..q.num :
  Near(SumSq(out, d, k, -d), FMul(rad[d][k], rad[d][k]), 20)
Arity == Len(Outputs(q)) = 1 + (IF q.retcut THEN 1 ELSE 0) + (IF q.retnorm THEN 1 ELSE 0)
RejectsOnly == stage = "rejected" <=> (stage \in {"rejected"} /\ q.retcut /\ q.cut = "none")
Emit == Done /\ x = 0 /\ u = <<U, 0, 0>> => PrintT(ToJson([cut |-> q.cut, damp |-> q.damp, norm |-> q.norm, retcut |-> q.retcut, retnorm |-> q.retnorm]))
=============================================================================
