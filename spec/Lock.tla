-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* The lock of a repository (P14)                                          *)
(*                                                                         *)
(* Processes take and give up the locks of repositories, are forked and    *)
(* killed. A process that holds a lock may take it again and holds it      *)
(* until it gave it up as often as it took it.                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS
  Procs,      \* processes
  First,      \* processes that exist in the beginning
  Repos,      \* repositories
  MaxDepth,   \* bound: how often a process takes a lock
  Inherit     \* does a forked process believe to hold the locks of its parent?
              \* (FALSE; TRUE shows why not)

None == "-"

VARIABLES
  alive,      \* processes that exist now
  started,    \* processes that have existed
  depth,      \* process -> repository -> how often it has taken the lock
  holds,      \* repository -> processes that hold its lock in the file system
  waits       \* process -> repository whose lock it is waiting for
vars == <<alive, started, depth, holds, waits>>

Init ==
  /\ alive = First
  /\ started = First
  /\ depth = [p \in Procs |-> [r \in Repos |-> 0]]
  /\ holds = [r \in Repos |-> {}]
  /\ waits = [p \in Procs |-> None]

Active(p) == p \in alive /\ waits[p] = None

Request(p, r) ==
  /\ Active(p)
  /\ waits' = [waits EXCEPT ![p] = r]
  /\ UNCHANGED <<alive, started, depth, holds>>

Grant(p) ==
  /\ p \in alive /\ waits[p] # None
  /\ LET r == waits[p] IN
     /\ IF depth[p][r] > 0
        THEN UNCHANGED holds
        ELSE holds[r] = {} /\ holds' = [holds EXCEPT ![r] = {p}]
     /\ depth' = [depth EXCEPT ![p][r] = @ + 1]
  /\ waits' = [waits EXCEPT ![p] = None]
  /\ UNCHANGED <<alive, started>>

\* waiting is interrupted, the process does not have the lock
Cancel(p) ==
  /\ p \in alive /\ waits[p] # None
  /\ depth[p][waits[p]] = 0
  /\ waits' = [waits EXCEPT ![p] = None]
  /\ UNCHANGED <<alive, started, depth, holds>>

Release(p, r) ==
  /\ Active(p) /\ depth[p][r] > 0
  /\ depth' = [depth EXCEPT ![p][r] = @ - 1]
  /\ holds' = [holds EXCEPT ![r] = IF depth[p][r] = 1 THEN @ \ {p} ELSE @]
  /\ UNCHANGED <<alive, started, waits>>

\* giving up a lock that is not held is an error, and changes nothing
Refused(p, r) ==
  /\ Active(p) /\ depth[p][r] = 0
  /\ UNCHANGED vars

Fork(p, c) ==
  /\ Active(p) /\ c \notin started
  /\ alive' = alive \union {c}
  /\ started' = started \union {c}
  /\ depth' = [depth EXCEPT ![c] = IF Inherit THEN depth[p] ELSE [r \in Repos |-> 0]]
  /\ UNCHANGED <<holds, waits>>

Kill(p) ==
  /\ p \in alive
  /\ alive' = alive \ {p}
  /\ depth' = [depth EXCEPT ![p] = [r \in Repos |-> 0]]
  /\ holds' = [r \in Repos |-> holds[r] \ {p}]
  /\ waits' = [waits EXCEPT ![p] = None]
  /\ UNCHANGED started

Next ==
  \E p \in Procs :
    \/ Grant(p) \/ Cancel(p) \/ Kill(p)
    \/ \E r \in Repos : Request(p, r) \/ Release(p, r) \/ Refused(p, r)
    \/ \E c \in Procs : Fork(p, c)
Spec == Init /\ [][Next]_vars
Live ==
  Spec /\ \A p \in Procs :
    SF_vars(Grant(p)) /\ \A r \in Repos : WF_vars(Release(p, r))

Bound == \A p \in Procs, r \in Repos : depth[p][r] <= MaxDepth

-----------------------------------------------------------------------------
\* in a locked section
Inside(r) == {p \in alive : depth[p][r] > 0}

Exclusive == \A r \in Repos : Cardinality(Inside(r)) <= 1
Backed == \A r \in Repos : Inside(r) = holds[r]
LastRelease ==
  [][\A p \in alive, r \in Repos :
       p \in holds[r] /\ p \notin holds'[r] => depth'[p][r] = 0]_vars
ForkedHoldsNothing ==
  [][\A p \in Procs : p \notin started /\ p \in started' =>
       \A r \in Repos : p \notin holds'[r] /\ depth'[p][r] = 0]_vars
=============================================================================
