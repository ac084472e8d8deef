----------------------------- MODULE CacheFile ------------------------------
(* The on-disk cache of a lookup table (one file per table), shared by        *)
(* processes that start, read, generate, write and may be stopped anywhere,   *)
(* and by an environment that damages or deletes the file.                    *)
(*                                                                            *)
(* file: None, Bad (not a complete table) or the maximum degree it holds.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, D, Atomic, MaxEnv, MaxRuns
VARIABLES file, damaged, pc, want, on, have, got, env, runs
vars == <<file, damaged, pc, want, on, have, got, env, runs>>

None == -1
Bad  == -2
Degrees == 0..D
Seen(f) == IF f = Bad THEN None ELSE f

TypeOK == /\ file \in {None, Bad} \cup Degrees
          /\ damaged \in BOOLEAN
          /\ pc \in [Procs -> {"idle", "load", "write", "rename", "done", "dead"}]
          /\ want \in [Procs -> Degrees] /\ on \in [Procs -> BOOLEAN]
          /\ have \in [Procs -> {None} \cup Degrees]
          /\ got \in [Procs -> SUBSET Degrees]

Init == /\ file = None /\ damaged = FALSE /\ env = 0 /\ runs = 0
        /\ pc = [p \in Procs |-> "idle"] /\ want = [p \in Procs |-> 0]
        /\ on = [p \in Procs |-> FALSE] /\ have = [p \in Procs |-> None]
        /\ got = [p \in Procs |-> {}]

Start(p, w, c) ==
  /\ pc[p] \in {"idle", "done", "dead"} /\ runs < MaxRuns
  /\ pc' = [pc EXCEPT ![p] = "load"] /\ want' = [want EXCEPT ![p] = w]
  /\ on' = [on EXCEPT ![p] = c] /\ have' = [have EXCEPT ![p] = None]
  /\ got' = [got EXCEPT ![p] = {}] /\ runs' = runs + 1
  /\ UNCHANGED <<file, damaged, env>>
\* read the cache (if one is configured); generate what it lacks
Load(p) ==
  /\ pc[p] = "load"
  /\ LET s == IF on[p] THEN Seen(file) ELSE None IN
     /\ have' = [have EXCEPT ![p] = s]
     /\ got' = [got EXCEPT ![p] = {d \in Degrees : d <= s /\ d <= want[p]} \cup
                                  {d \in Degrees : d > s /\ d <= want[p]}]
     /\ pc' = [pc EXCEPT ![p] = IF s >= want[p] \/ ~on[p] THEN "done" ELSE "write"]
  /\ UNCHANGED <<file, damaged, want, on, env, runs>>
\* write the table: to a separate file (Atomic) or in place
Write(p) ==
  /\ pc[p] = "write" /\ pc' = [pc EXCEPT ![p] = "rename"]
  /\ IF Atomic THEN UNCHANGED file ELSE file' = Bad
  /\ UNCHANGED <<damaged, want, on, have, got, env, runs>>
Rename(p) ==
  /\ pc[p] = "rename" /\ pc' = [pc EXCEPT ![p] = "done"]
  /\ file' = want[p] /\ damaged' = FALSE
  /\ UNCHANGED <<want, on, have, got, env, runs>>
\* the disk is full: the result is returned anyway
WriteFail(p) ==
  /\ pc[p] = "write" /\ pc' = [pc EXCEPT ![p] = "done"] /\ env < MaxEnv /\ env' = env + 1
  /\ IF Atomic THEN UNCHANGED file ELSE file' = Bad
  /\ UNCHANGED <<damaged, want, on, have, got, runs>>
\* stopped between two operations
Crash(p) ==
  /\ pc[p] \in {"load", "write", "rename"} /\ env < MaxEnv /\ env' = env + 1
  /\ pc' = [pc EXCEPT ![p] = "dead"]
  /\ UNCHANGED <<file, damaged, want, on, have, got, runs>>
\* stopped in the middle of writing
CrashWrite(p) ==
  /\ pc[p] = "write" /\ env < MaxEnv /\ env' = env + 1
  /\ pc' = [pc EXCEPT ![p] = "dead"]
  /\ IF Atomic THEN UNCHANGED file ELSE file' = Bad
  /\ UNCHANGED <<damaged, want, on, have, got, runs>>
Corrupt == /\ env < MaxEnv /\ env' = env + 1 /\ file # Bad
           /\ file' = Bad /\ damaged' = TRUE /\ UNCHANGED <<pc, want, on, have, got, runs>>
Delete  == /\ env < MaxEnv /\ env' = env + 1 /\ file # None
           /\ file' = None /\ damaged' = FALSE /\ UNCHANGED <<pc, want, on, have, got, runs>>

Step(p) == Load(p) \/ Write(p) \/ Rename(p)
Next == \/ \E p \in Procs : \/ \E w \in Degrees, c \in BOOLEAN : Start(p, w, c)
                            \/ Step(p) \/ WriteFail(p) \/ Crash(p) \/ CrashWrite(p)
        \/ Corrupt \/ Delete
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

\* ---- properties --------------------------------------------------------------
\* Only the environment makes the file incomplete.
NeverPartial == file = Bad => damaged
\* Every answered request has all degrees, whatever was on disk.
Answered == \A p \in Procs : pc[p] = "done" => got[p] = {d \in Degrees : d <= want[p]}
\* Without a configured cache the file is never touched: any table in the file
\* was written for a request with a cache.
OnlyConfigured == \A p \in Procs : pc[p] \in {"write", "rename"} => on[p]
\* Every started request is answered unless its process is stopped.
Terminates == \A p \in Procs : pc[p] = "load" ~> pc[p] \in {"done", "dead"}
=============================================================================
