------------------------------ MODULE MCGraph ------------------------------
(* Exhaustive model of Graph within MaxLen entries over N nodes; every       *)
(* reachable list is also printed as a case to replay against the library.   *)
EXTENDS Graph, TLC, Json, IOUtils
mcN == atoi(IOEnv.GRAPH_N)
mcMaxLen == atoi(IOEnv.GRAPH_LEN)
Emit == PrintT(ToJson([dst |-> dst, src |-> src, n |-> N, adj |-> ToDense(dst, src, N)]))
=============================================================================
