------------------------------ MODULE MCCache -------------------------------
(* CacheFile with a history of its steps, to emit schedules for replay.       *)
EXTENDS CacheFile
VARIABLE hist
H(a, p, x) == hist' = Append(hist, [a |-> a, p |-> p, x |-> x])
HInit == Init /\ hist = <<>>
HNext == \/ \E p \in Procs :
              \/ \E w \in Degrees, c \in {1, 1, 0} : Start(p, w, c = 1) /\ H("start", p, <<w, c>>)
              \/ Load(p) /\ H("load", p, <<>>)
              \/ Write(p) /\ H("write", p, <<>>)
              \/ Rename(p) /\ H("rename", p, <<>>)
              \/ WriteFail(p) /\ H("fail", p, <<>>)
              \/ Crash(p) /\ H("crash", p, <<>>)
              \/ CrashWrite(p) /\ H("crashwrite", p, <<>>)
         \/ \E k \in {"empty", "cut", "garbage", "text"} : Corrupt /\ H("corrupt", 0, <<k>>)
         \/ Delete /\ H("delete", 0, <<>>)
HSpec == HInit /\ [][HNext]_<<vars, hist>>
Quiet == \A p \in Procs : pc[p] \in {"idle", "done", "dead"}
Emit == (Quiet /\ runs = MaxRuns) => PrintT(ToJson([hist |-> hist]))
=============================================================================
