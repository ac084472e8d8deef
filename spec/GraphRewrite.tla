---------------------------- MODULE GraphRewrite ----------------------------
(* Ways of writing down one graph.  A description is sparse (a sequence of    *)
(* entries <<d, s>>, padding entries having d = s = Pad) or dense (a row of   *)
(* sources per node, padding sources Pad), with a labelling of the nodes:     *)
(* perm[i] is the original node now called i-1.  Each action rewrites the     *)
(* description; the bag of edges in original labels never changes, so neither *)
(* may the result of a layer (up to the labelling).                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS N, Graphs, MaxSteps, MaxPad
VARIABLES base, fmt, list, perm, steps, hist
vars == <<base, fmt, list, perm, steps, hist>>
Pad == N
Nodes == 0..(N - 1)

\* ---- meaning -------------------------------------------------------------------
SparseBag(l) == SelectSeq(l, LAMBDA e: e[1] # Pad)
DenseBag(l) == FlattenSeq([i \in 1..Len(l) |->
   SelectSeq([k \in 1..Len(l[i]) |-> <<i - 1, l[i][k]>>], LAMBDA e: e[2] # Pad)])
Original(e) == <<perm[e[1] + 1], perm[e[2] + 1]>>
Meaning == LET b == IF fmt = "sparse" THEN SparseBag(list) ELSE DenseBag(list)
           IN [k \in 1..Len(b) |-> Original(b[k])]
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) : Count(s, x) = Count(t, x)

\* ---- rewriting -------------------------------------------------------------------
Init == /\ base \in Graphs /\ fmt = "sparse" /\ list = base
        /\ perm = [i \in 1..N |-> i - 1] /\ steps = <<>>
        /\ hist = <<[fmt |-> "sparse", list |-> base, perm |-> perm]>>
Do(name, f, l, p) ==
  /\ Len(steps) < MaxSteps
  /\ fmt' = f /\ list' = l /\ perm' = p /\ base' = base
  /\ steps' = Append(steps, name)
  /\ hist' = Append(hist, [fmt |-> f, list |-> l, perm |-> p])
Swapped(s, i, j) == [k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
\* sparse descriptions
Swap == fmt = "sparse" /\ \E i, j \in 1..Len(list) :
          i < j /\ list[i] # list[j] /\ Do("swap", fmt, Swapped(list, i, j), perm)
Reverse2 == fmt = "sparse" /\ Len(list) > 1 /\ Do("reverse", fmt, Reverse(list), perm)
PadAt == fmt = "sparse" /\ Len(list) < Len(base) + MaxPad
         /\ \E i \in 0..Len(list) :
              Do("pad", fmt, SubSeq(list, 1, i) \o <<<<Pad, Pad>>>> \o SubSeq(list, i + 1, Len(list)), perm)
Sort == fmt = "sparse" /\ Do("sort", fmt, SortSeq(list, LAMBDA a, b: a[1] < b[1]), perm)
\* relabel: the node called i becomes p[i]
Perms == {p \in [1..N -> Nodes] : \A i, j \in 1..N : i # j => p[i] # p[j]}
InvPerm(p) == [k \in 1..N |-> CHOOSE i \in 1..N : p[i] = k - 1]
Ren(p, x) == IF x = Pad THEN Pad ELSE p[x + 1]
Relabel == \E p \in Perms : p # [i \in 1..N |-> i - 1] /\
   LET q == InvPerm(p)
       np == [k \in 1..N |-> perm[q[k]]]
   IN Do("relabel", fmt,
         IF fmt = "sparse" THEN [k \in 1..Len(list) |-> <<Ren(p, list[k][1]), Ren(p, list[k][2])>>]
         ELSE [k \in 1..N |-> [j \in 1..Len(list[q[k]]) |-> Ren(p, list[q[k]][j])]], np)
\* dense descriptions
Rows == [i \in 1..N |-> LET s == SelectSeq(SparseBag(list), LAMBDA e: e[1] = i - 1)
                         IN [k \in 1..Len(s) |-> s[k][2]]]
Width(r) == Max({Len(r[i]) : i \in 1..N} \cup {1})
Fill(r, w) == [i \in 1..N |-> r[i] \o [k \in 1..(w - Len(r[i])) |-> Pad]]
ToDense == fmt = "sparse" /\ Do("dense", "dense", Fill(Rows, Width(Rows)), perm)
ToSparse == fmt = "dense" /\ Do("sparse", "sparse", DenseBag(list), perm)
Widen == fmt = "dense" /\ Len(list[1]) < Len(base) + MaxPad
         /\ Do("widen", fmt, [i \in 1..N |-> IF i % 2 = 0 THEN Append(list[i], Pad)
                                             ELSE <<Pad>> \o list[i]], perm)
RowReverse == fmt = "dense" /\ Len(list[1]) > 1 /\
              \E i \in 1..N : Do("row", fmt, [list EXCEPT ![i] = Reverse(@)], perm)
Next == Swap \/ Reverse2 \/ PadAt \/ Sort \/ Relabel \/ ToDense \/ ToSparse \/ Widen \/ RowReverse
Spec == Init /\ [][Next]_vars

\* ---- properties -------------------------------------------------------------------
SameMeaning == SameBag(Meaning, base)
WellFormed == /\ ToSet(perm) = Nodes
              /\ (fmt = "dense" => Len(list) = N /\ \A i \in 1..N : Len(list[i]) = Len(list[1]))
\* nodes whose result may depend on the inputs of node v (direct sources, and itself)
Affected(v) == {Original(e)[1] : e \in {x \in ToSet(SparseBag(base)) : x[2] = v}} \cup {v}
Isolated == {v \in Nodes : \A k \in 1..Len(base) : base[k][1] # v}
=============================================================================
