------------------------------- MODULE Replay -------------------------------
(* Checks recorded behaviours of the library against System: every recorded      *)
(* scenario is one behaviour, every recorded call one step.                       *)
EXTENDS System, Json, IOUtils, FiniteSets
VARIABLES st_sc, st_at, st_heap, st_bad
Data == JsonDeserialize(IOEnv.TRACE)
Scn == Data.scn
Trees == Data.trees
Node(i) == IF i = 0 THEN None ELSE Trees[i]
Ev(s, k) == LET e == Scn[s].ev[k] IN [e EXCEPT !.n = Node(e.n), !.tree = Node(e.tree), !.log = [i \in 1..Len(e.log) |-> Node(e.log[i])], !.snap = [i \in 1..Len(e.snap) |-> Node(e.snap[i])]]
Init == /\ st_sc \in 1..Len(Scn)
        /\ st_at = 0 /\ st_heap = <<>> /\ st_bad = <<>>
Next == /\ st_at < Len(Scn[st_sc].ev) /\ st_bad = <<>>
        /\ st_at' = st_at + 1
        /\ UNCHANGED st_sc
        /\ LET e == Ev(st_sc, st_at + 1)
           IN /\ st_bad' = Failed(st_heap, e)
              /\ st_heap' = IF st_bad' = <<>> THEN Effect(st_heap, e) ELSE st_heap
(* reported, not stopped at *)
Finds == {Finding(st_bad[i], st_heap, Ev(st_sc, st_at)) : i \in 1..Len(st_bad)}
Report == st_bad # <<>> =>
  IF "" \notin Finds /\ Cardinality(Finds) = 1
  THEN PrintT("KNOWN " \o ToJson([id |-> Scn[st_sc].id, at |-> st_at, bad |-> st_bad, find |-> CHOOSE f \in Finds : TRUE]))
  ELSE PrintT("BAD " \o ToJson([id |-> Scn[st_sc].id, at |-> st_at, bad |-> st_bad]))
=============================================================================
