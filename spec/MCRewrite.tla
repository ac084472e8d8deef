------------------------------ MODULE MCRewrite ------------------------------
(* Bounded instances of GraphRewrite: all graphs with few edges (exhaustive   *)
(* search) or the given larger ones (simulation; behaviours are replayed).    *)
EXTENDS GraphRewrite, TLC, Json
CONSTANTS EmitLen
Edges == Nodes \X Nodes
Small == {<<a, b>> : a, b \in Edges} \cup {<<a>> : a \in Edges}
\* loops, repeated edges, isolated nodes, one-way and two-way edges
Large == {<< <<0, 1>>, <<1, 0>>, <<0, 2>> >>,
          << <<0, 1>>, <<0, 1>>, <<2, 0>>, <<1, 2>> >>,
          << <<3, 1>>, <<1, 3>>, <<0, 3>>, <<0, 1>>, <<1, 0>> >>,
          << <<2, 2>>, <<2, 3>>, <<3, 1>> >>,
          << <<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 0>>, <<0, 2>>, <<2, 0>> >>,
          << <<3, 0>>, <<3, 1>>, <<3, 2>>, <<3, 2>> >>,
          << <<1, 3>> >>}
Emit == Len(steps) = EmitLen => PrintT(ToJson([steps |-> steps, hist |-> hist, base |-> base, n |-> N,
                                              isolated |-> Isolated]))
=============================================================================
