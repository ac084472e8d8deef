------------------------------- MODULE Graph -------------------------------
(* Index lists of e3x and the operations defined on them.                    *)
(*                                                                           *)
(* A sparse index list is a pair of equally long sequences (dst, src); a     *)
(* dense index list is a sequence of rows, row i listing the sources of node *)
(* i-1.  Node indices are 0-based.  Every index >= pad is padding: an entry  *)
(* is an edge iff both its ends are < pad.  The meaning of either list is    *)
(* the bag of its edges; everything below is stated on that bag.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

\* ---- the edges a list denotes ---------------------------------------------
SparseEdges(dst, src, pad) ==
  SelectSeq([k \in 1..Len(dst) |-> <<dst[k], src[k]>>],
            LAMBDA e: e[1] < pad /\ e[2] < pad)

DenseEdges(adj, pad) ==
  FlattenSeq([i \in 1..Len(adj) |->
     SelectSeq([k \in 1..Len(adj[i]) |-> <<i - 1, adj[i][k]>>],
               LAMBDA e: e[1] < pad /\ e[2] < pad)])

Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in ToSet(s) \cup ToSet(t) : Count(s, x) = Count(t, x)

\* ---- conversions ------------------------------------------------------------
MaxOf(S, d) == IF S = {} THEN d ELSE Max(S)

\* Without a given padding index every entry is an edge, so the index that marks
\* padding in the result has to lie above every node index in the list.
ImpliedPad(dst, src) == 1 + MaxOf(ToSet(dst) \cup ToSet(src), -1)

ToDense(dst, src, pad) ==
  LET row(i) == SelectSeq(SparseEdges(dst, src, pad), LAMBDA e: e[1] = i)
      width  == MaxOf({Len(row(i)) : i \in 0..(pad - 1)}, 0)
  IN [i \in 1..pad |->
        [k \in 1..width |-> IF k <= Len(row(i-1)) THEN row(i-1)[k][2] ELSE pad]]

ToSparse(adj, pad) ==
  LET es == DenseEdges(adj, pad)
  IN [dst |-> [k \in 1..Len(es) |-> es[k][1]],
      src |-> [k \in 1..Len(es) |-> es[k][2]]]

AllPairs(n, maskSelf) ==
  {p \in (0..(n-1)) \X (0..(n-1)) : maskSelf => p[1] # p[2]}

\* ---- reductions over the edges into a node ----------------------------------
\* vals[k] is the (scalar) value carried by entry k of the list.
InEdges(dst, i) == {k \in 1..Len(dst) : dst[k] = i}
ReduceSum(dst, vals, i) ==
  FoldSet(LAMBDA k, a: a + vals[k], 0, InEdges(dst, i))
ReduceMin(dst, vals, i) == Min({vals[k] : k \in InEdges(dst, i)})
ReduceMax(dst, vals, i) == Max({vals[k] : k \in InEdges(dst, i)})

\* Softmax weights when the logits are k*ln(2): the weight of entry k is
\* mask[k] * 2^(x[k]-max), so that the result is rational.
Pow2(n) == 2^n
SoftNum(mask, x, mx, k) == mask[k] * Pow2(12 + x[k] - mx)   \* |x-mx| <= 12
SoftDen(dst, mask, x, mx, i) ==
  FoldSet(LAMBDA k, a: a + SoftNum(mask, x, mx, k), 0, InEdges(dst, i))

\* ---- state machine: building an index list ----------------------------------
CONSTANTS N, MaxLen        \* nodes 0..N-1, padding index N
VARIABLES dst, src
gvars == <<dst, src>>

GInit == dst = <<>> /\ src = <<>>
AddEdge(d, s) == /\ Len(dst) < MaxLen
                 /\ dst' = Append(dst, d) /\ src' = Append(src, s)
AddPad        == /\ Len(dst) < MaxLen
                 /\ dst' = Append(dst, N) /\ src' = Append(src, N)
GNext == AddPad \/ \E d, s \in 0..(N-1) : AddEdge(d, s)
GSpec == GInit /\ [][GNext]_gvars

\* Conversions are inverse to each other on the denoted bag of edges.
RoundTrip ==
  LET a == ToDense(dst, src, N)  b == ToSparse(a, N)
  IN /\ Len(a) = N
     /\ SameBag(DenseEdges(a, N), SparseEdges(dst, src, N))
     /\ SameBag(SparseEdges(b.dst, b.src, N), SparseEdges(dst, src, N))
     /\ ToDense(b.dst, b.src, N) = a

\* With the implied padding index nothing is lost either.
ImpliedRoundTrip ==
  LET p == ImpliedPad(dst, src)
  IN SameBag(DenseEdges(ToDense(dst, src, p), p),
             [k \in 1..Len(dst) |-> <<dst[k], src[k]>>])

\* Sums over the dense list (padding masked) equal sums over the sparse list.
SumAgrees ==
  \A i \in 0..(N-1) :
    LET vals == [k \in 1..Len(src) |-> 10 * src[k] + 1]
        a    == ToDense(dst, src, N)
        row  == SelectSeq(a[i+1], LAMBDA s: s < N)
    IN FoldLeft(LAMBDA u, s: u + 10 * s + 1, 0, row) = ReduceSum(dst, vals, i)
=============================================================================
