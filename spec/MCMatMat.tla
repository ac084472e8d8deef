----------------------------- MODULE MCMatMat -----------------------------
(* All small block structures; a behaviour assembles the matrix block by      *)
(* block, taking the next unused irreps of every degree.                      *)
EXTENDS MatMat, Json, TLC
CONSTANTS ML, MaxParts, MaxMult
VARIABLES ds, mult, max, pos, idx, filled
vars == <<ds, mult, max, pos, idx, filled>>
Lists == UNION {[1..n -> 0..ML] : n \in 1..MaxParts}
Init == /\ ds \in Lists /\ mult \in 1..MaxMult
        /\ max \in Top(ds)..(2 * Top(ds))
        /\ pos = <<1, 1>>
        /\ idx = [d \in 0..max |-> 0] /\ filled = 0
Rank(i, j) == (2 * ds[i] + 1) * (2 * ds[j] + 1) * mult * mult
Done == pos[1] > Len(ds)
Next == /\ ~Done
        /\ \A d \in 0..max : Uses(ds, max, pos, d) => idx[d] = First(ds, max, mult, pos, d)
        /\ idx' = [d \in 0..max |-> idx[d] + (IF Uses(ds, max, pos, d) THEN mult * mult ELSE 0)]
        /\ filled' = filled + Rank(pos[1], pos[2])
        /\ pos' = IF pos[2] < Len(ds) THEN <<pos[1], pos[2] + 1>> ELSE <<pos[1] + 1, 1>>
        /\ UNCHANGED <<ds, mult, max>>
Spec == Init /\ [][Next]_vars
\* never more irreps than there are, none left over, every entry written once
NoOverrun == \A d \in 0..max : idx[d] <= mult * mult * Number(ds, max, d)
Complete == Done => /\ \A d \in 0..max : idx[d] = mult * mult * Number(ds, max, d)
                    /\ filled = Side(ds, mult) * Side(ds, mult)
\* with all degrees admitted the irreps are as many as the entries
Count == max = 2 * Top(ds) => mult * mult * Dims(ds, max, max) = Side(ds, mult) * Side(ds, mult)
\* irreps and (block, copies) are in bijection
OneToOne == pos = <<1, 1>> => \A d \in 0..max :
  LET n == mult * mult * Number(ds, max, d)
  IN Cardinality({Place(ds, max, mult, d, k) : k \in 0..(n - 1)}) = n
Traces == pos = <<1, 1>> => \A i \in 1..Len(ds) : \A r \in 0..(mult - 1), c \in 0..(mult - 1) :
  Place(ds, max, mult, 0, TraceIndex(ds, max, mult, i, r, c)) = [b |-> <<i, i>>, r |-> r, c |-> c]
NotStuck == ~Done => ENABLED Next
Emit == Done => PrintT(ToJson([ds |-> ds, mult |-> mult, max |-> max]))
=============================================================================
