---------------------------- MODULE Transforms ----------------------------
(* Ways of evaluating one function on a batch of elements.  A batched array   *)
(* is [dim, at]: the batch shape (a sequence) and a function from multi-      *)
(* indices to elements.  A program is a sequence of transformations, applied  *)
(* from the outside in; the innermost evaluation is one call of the batched   *)
(* primitive.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE IdxOf(_)
IdxOf(dim) == IF dim = <<>> THEN {<<>>} ELSE {<<k>> \o r : k \in 1..dim[1], r \in IdxOf(Tail(dim))}
Arr(dim, at) == [dim |-> dim, at |-> at]
DropAt(s, a) == SubSeq(s, 1, a - 1) \o SubSeq(s, a + 1, Len(s))
PutAt(s, a, k) == SubSeq(s, 1, a - 1) \o <<k>> \o SubSeq(s, a, Len(s))
SwapDims(s) == <<s[2], s[1]>> \o SubSeq(s, 3, Len(s))
\* ---- slices and joins ------------------------------------------------------
Slice(A, a, k) == LET d == DropAt(A.dim, a) IN Arr(d, [i \in IdxOf(d) |-> A.at[PutAt(i, a, k)]])
\* arrays S[1..n] of equal shape joined along a new axis a
Join(S, n, a) == LET d == PutAt(S[1].dim, a, n) IN Arr(d, [i \in IdxOf(d) |-> S[i[a]].at[DropAt(i, a)]])
Swapped(A) == LET d == SwapDims(A.dim) IN Arr(d, [i \in IdxOf(d) |-> A.at[SwapDims(i)]])
Flat(A) == LET n == A.dim[1] * A.dim[2]
               d == <<n>> \o SubSeq(A.dim, 3, Len(A.dim))
           IN Arr(d, [i \in IdxOf(d) |-> A.at[<<((i[1] - 1) \div A.dim[2]) + 1, ((i[1] - 1) % A.dim[2]) + 1>> \o SubSeq(i, 2, Len(i))]])
Unflat(A, d1, d2) == LET d == <<d1, d2>> \o SubSeq(A.dim, 2, Len(A.dim))
                     IN Arr(d, [i \in IdxOf(d) |-> A.at[<<(i[1] - 1) * d2 + i[2]>> \o SubSeq(i, 3, Len(i))]])
Back(A) == Arr(A.dim, [i \in IdxOf(A.dim) |-> A.at[<<A.dim[1] + 1 - i[1]>> \o SubSeq(i, 2, Len(i))]])
Longer(A, x) == LET d == <<A.dim[1] + 1>> \o Tail(A.dim) IN
                Arr(d, [i \in IdxOf(d) |-> IF i[1] > A.dim[1] THEN x ELSE A.at[i]])
Shorter(A) == LET d == <<A.dim[1] - 1>> \o Tail(A.dim) IN Arr(d, [i \in IdxOf(d) |-> A.at[i]])
\* ---- transformations -------------------------------------------------------------
\* jit, remat:      compile / recompute                  (any shape)
\* vmap a:          vectorised mapping over batch axis a
\* loop, lmap:      one element of the first axis at a time (in Python / in XLA)
\* swap, flat:      another layout of the first two axes
\* back:            the first axis in reverse order
\* pad:             one more (unrelated) entry in the first axis
Ts == {<<"jit", 0>>, <<"remat", 0>>, <<"vmap", 1>>, <<"vmap", 2>>, <<"loop", 0>>, <<"lmap", 0>>, <<"swap", 0>>,
       <<"flat", 0>>, <<"back", 0>>, <<"pad", 0>>}
Needs(t) == CASE t[1] \in {"jit", "remat"} -> 0
              [] t = <<"vmap", 2>> -> 2
              [] t[1] \in {"swap", "flat"} -> 2
              [] OTHER -> 1
Consumes(t) == IF t[1] \in {"vmap", "loop", "lmap", "flat"} THEN 1 ELSE 0
RECURSIVE Typed(_, _)
Typed(prog, rank) == IF prog = <<>> THEN TRUE
                     ELSE IF rank < Needs(prog[1]) THEN FALSE
                     ELSE Typed(Tail(prog), rank - Consumes(prog[1]))
RECURSIVE Run(_, _, _, _)
\* P(A): the batched primitive; x: an unrelated element
Run(P(_), prog, A, x) ==
  IF prog = <<>> THEN P(A)
  ELSE LET t == prog[1]
           R(B) == Run(P, Tail(prog), B, x)
           Mapped(a) == Join([k \in 1..A.dim[a] |-> R(Slice(A, a, k))], A.dim[a], a) IN
  CASE t[1] \in {"jit", "remat"} -> R(A)
    [] t[1] = "vmap" -> Mapped(t[2])
    [] t[1] \in {"loop", "lmap"} -> Mapped(1)
    [] t[1] = "swap" -> Swapped(R(Swapped(A)))
    [] t[1] = "flat" -> Unflat(R(Flat(A)), A.dim[1], A.dim[2])
    [] t[1] = "back" -> Back(R(Back(A)))
    [] t[1] = "pad"  -> Shorter(R(Longer(A, x)))
=============================================================================
