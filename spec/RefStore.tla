------------------------------ MODULE RefStore ------------------------------
(***************************************************************************)
(* Object reference stores (P13, P14, parts of P11 and P12)                *)
(*                                                                         *)
(* Every repository has a store of object references, that keep stored     *)
(* objects from being garbage collected, and may have two legacy stores    *)
(* (for trees and for blobs). Processes collect references and flush them  *)
(* to the store of a repository. A flush is a sequence of storage          *)
(* commands; the actions between Begin and End are the commands that can   *)
(* be observed from outside. Each of them may fail, or the process may be   *)
(* killed before or after it, and several processes may flush at the same  *)
(* time.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Procs,       \* processes
  Repos,       \* repositories
  Refs,        \* object references
  MaxBegin,    \* bound: number of flushes
  MaxEnv,      \* bound: number of other changes of the environment
  Fix          \* parts of the protocol that are in place, all of Parts
               \* unless one wants to see what they are needed for

Parts == {"lock",      \* read and update of the store under a lock
          "legacy",    \* delete legacy stores after the update
          "keep"}      \* a store that cannot be read is no empty store

Kinds == {"trees", "blobs"}
Unknown == "?"                          \* the repository is not known
Absent == [ex |-> FALSE, s |-> {}]
Store(s) == [ex |-> TRUE, s |-> s]

VARIABLES
  cur,       \* repository -> store
  leg,       \* repository -> kind -> legacy store
  broken,    \* repository -> "no", "root" or "inner" (a part cannot be read)
  pend,      \* process -> set of <<reference, repository>>
  seen,      \* process -> repositories whose legacy stores were migrated
  pc,        \* process -> state of its flush
  repo,      \* process -> repository that is flushed
  todo,      \* process -> legacy stores that are not read yet
  rem,       \* process -> legacy stores that should be deleted
  snap,      \* process -> what was read of the store
  lock,      \* repository -> set of processes that hold its lock
  goal,      \* process -> references that were pending when the flush began
  count      \* numbers of flushes and of changes of the environment
vars == <<cur, leg, broken, pend, seen, pc, repo, todo, rem, snap, lock, goal, count>>
procVars == <<pend, seen, pc, repo, todo, rem, snap, goal>>

Pending(p, r) == {x \in Refs : <<x, r>> \in pend[p] \/ <<x, Unknown>> \in pend[p]}
Without(p, r) == {e \in pend[p] : e[2] \notin {r, Unknown}}

Init ==
  /\ cur = [r \in Repos |-> Absent]
  /\ leg = [r \in Repos |-> [k \in Kinds |-> Absent]]
  /\ broken = [r \in Repos |-> "no"]
  /\ pend = [p \in Procs |-> {}]
  /\ seen = [p \in Procs |-> {}]
  /\ pc = [p \in Procs |-> "idle"]
  /\ repo = [p \in Procs |-> Unknown]
  /\ todo = [p \in Procs |-> {}]
  /\ rem = [p \in Procs |-> {}]
  /\ snap = [p \in Procs |-> {}]
  /\ goal = [p \in Procs |-> {}]
  /\ lock = [r \in Repos |-> {}]
  /\ count = [begin |-> 0, env |-> 0]

-----------------------------------------------------------------------------
(* Environment. Legacy stores are not written, and nothing breaks, while     *)
(* flushes are running.                                                    *)
Legacy(r, k, s) ==
  /\ \A p \in Procs : repo[p] # r
  /\ leg' = [leg EXCEPT ![r][k] = Store(s)]
  /\ count' = [count EXCEPT !.env = @ + 1]
  /\ UNCHANGED <<cur, broken, lock, procVars>>

Break(r, how) ==
  /\ cur[r].ex
  /\ \A p \in Procs : repo[p] # r
  /\ broken' = [broken EXCEPT ![r] = how]
  /\ count' = [count EXCEPT !.env = @ + 1]
  /\ UNCHANGED <<cur, leg, lock, procVars>>

Repair(r) ==
  /\ broken' = [broken EXCEPT ![r] = "no"]
  /\ UNCHANGED <<cur, leg, lock, procVars, count>>

-----------------------------------------------------------------------------
(* Processes *)
Add(p, x, r) ==
  /\ pc[p] = "idle"
  /\ pend' = [pend EXCEPT ![p] = @ \union {<<x, r>>}]
  /\ UNCHANGED <<cur, leg, broken, lock, seen, pc, repo, todo, rem, snap, goal, count>>

Begin(p, r) ==
  /\ pc[p] = "idle"
  /\ pc' = [pc EXCEPT ![p] = "legacy"]
  /\ repo' = [repo EXCEPT ![p] = r]
  /\ \E t \in {Kinds} \union (IF r \in seen[p] THEN {{}} ELSE {}) :
        todo' = [todo EXCEPT ![p] = t]
  /\ rem' = [rem EXCEPT ![p] = {}]
  /\ snap' = [snap EXCEPT ![p] = {}]
  /\ goal' = [goal EXCEPT ![p] = Pending(p, r)]
  /\ count' = [count EXCEPT !.begin = @ + 1]
  /\ UNCHANGED <<cur, leg, broken, lock, pend, seen>>

\* legacy stores become pending references
ReadLegacy(p, k) ==
  /\ pc[p] = "legacy" /\ k \in todo[p]
  /\ LET r == repo[p] IN
     /\ todo' = [todo EXCEPT ![p] = @ \ {k}]
     /\ pend' = [pend EXCEPT ![p] = @ \union (leg[r][k].s \X {r})]
     /\ rem' = [rem EXCEPT ![p] = @ \union (IF leg[r][k].ex THEN {k} ELSE {})]
  /\ UNCHANGED <<cur, leg, broken, lock, seen, pc, repo, snap, goal, count>>

\* nothing to be done
Skip(p) ==
  /\ pc[p] = "legacy" /\ todo[p] = {} /\ Pending(p, repo[p]) = {}
  /\ pc' = [pc EXCEPT ![p] = "delete"]
  /\ UNCHANGED <<cur, leg, broken, lock, pend, seen, repo, todo, rem, snap, goal, count>>

Acquire(p) ==
  /\ pc[p] = "legacy" /\ todo[p] = {} /\ Pending(p, repo[p]) # {}
  /\ "lock" \in Fix => lock[repo[p]] = {}
  /\ lock' = [lock EXCEPT ![repo[p]] = @ \union {p}]
  /\ pc' = [pc EXCEPT ![p] = "read"]
  /\ UNCHANGED <<cur, leg, broken, pend, seen, repo, todo, rem, snap, goal, count>>

ReadCur(p) ==
  /\ pc[p] = "read"
  /\ IF broken[repo[p]] = "root" /\ "keep" \notin Fix
     THEN snap' = [snap EXCEPT ![p] = {}]
     ELSE /\ broken[repo[p]] # "root"
          /\ snap' = [snap EXCEPT ![p] = cur[repo[p]].s]
  /\ pc' = [pc EXCEPT ![p] = "update"]
  /\ UNCHANGED <<cur, leg, broken, lock, pend, seen, repo, todo, rem, goal, count>>

Update(p) ==
  /\ pc[p] = "update"
  /\ cur' = [cur EXCEPT ![repo[p]] = Store(snap[p] \union Pending(p, repo[p]))]
  /\ pc' = [pc EXCEPT ![p] = "release"]
  /\ UNCHANGED <<leg, broken, lock, pend, seen, repo, todo, rem, snap, goal, count>>

Release(p) ==
  /\ pc[p] = "release"
  /\ pc' = [pc EXCEPT ![p] = "delete"]
  /\ pend' = [pend EXCEPT ![p] = Without(p, repo[p])]
  /\ lock' = [lock EXCEPT ![repo[p]] = @ \ {p}]
  /\ UNCHANGED <<cur, leg, broken, seen, repo, todo, rem, snap, goal, count>>

Delete(p, k) ==
  /\ \/ pc[p] = "delete"
     \/ pc[p] = "legacy" /\ "legacy" \notin Fix
  /\ k \in rem[p]
  /\ leg' = [leg EXCEPT ![repo[p]][k] = Absent]
  /\ rem' = [rem EXCEPT ![p] = @ \ {k}]
  /\ UNCHANGED <<cur, broken, lock, pend, seen, pc, repo, todo, snap, goal, count>>

Idle(p) ==
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ repo' = [repo EXCEPT ![p] = Unknown]
  /\ todo' = [todo EXCEPT ![p] = {}]
  /\ rem' = [rem EXCEPT ![p] = {}]
  /\ snap' = [snap EXCEPT ![p] = {}]
  /\ goal' = [goal EXCEPT ![p] = {}]
  /\ lock' = [r \in Repos |-> lock[r] \ {p}]

\* the flush was successful
End(p) ==
  /\ pc[p] = "delete" /\ rem[p] = {}
  /\ seen' = [seen EXCEPT ![p] = @ \union {repo[p]}]
  /\ Idle(p)
  /\ UNCHANGED <<cur, leg, broken, pend, count>>

\* the flush raised an error; everything can be tried again
Fail(p) ==
  /\ pc[p] # "idle"
  /\ Idle(p)
  /\ UNCHANGED <<cur, leg, broken, pend, seen, count>>

Kill(p) ==
  /\ Idle(p)
  /\ pend' = [pend EXCEPT ![p] = {}]
  /\ seen' = [seen EXCEPT ![p] = {}]
  /\ UNCHANGED <<cur, leg, broken, count>>

\* not visible but for the changes of stores
Step(p) ==
  \/ \E k \in Kinds : ReadLegacy(p, k) \/ Delete(p, k)
  \/ Skip(p) \/ Acquire(p) \/ ReadCur(p) \/ Update(p) \/ Release(p)

Next ==
  \/ \E p \in Procs :
       \/ Step(p) \/ End(p) \/ Fail(p) \/ Kill(p)
       \/ \E r \in Repos : Begin(p, r)
       \/ \E x \in Refs, r \in Repos \union {Unknown} : Add(p, x, r)
  \/ \E r \in Repos :
       \/ \E k \in Kinds, s \in SUBSET Refs : ~leg[r][k].ex /\ Legacy(r, k, s)
       \/ \E how \in {"root", "inner"} : broken[r] = "no" /\ Break(r, how)
       \/ broken[r] # "no" /\ Repair(r)
Spec == Init /\ [][Next]_vars

Bound == count.begin <= MaxBegin /\ count.env <= MaxEnv

-----------------------------------------------------------------------------
TypeOK ==
  /\ \A r \in Repos : cur[r].s \subseteq Refs /\ (cur[r].s # {} => cur[r].ex)
  /\ \A p \in Procs : pend[p] \subseteq Refs \X (Repos \union {Unknown})

All(r) == cur[r].s \union leg[r]["trees"].s \union leg[r]["blobs"].s

\* The store only grows, and no reference is lost together with a legacy store
Grows ==
  [][\A r \in Repos : cur[r].s \subseteq cur'[r].s /\ (cur[r].ex => cur'[r].ex)]_vars
Kept == [][\A r \in Repos : All(r) \subseteq (cur[r].s \union leg[r]["trees"].s
                               \union leg[r]["blobs"].s)']_vars
LegacyMigrated ==
  [][\A r \in Repos, k \in Kinds :
       leg[r][k].ex /\ ~leg'[r][k].ex => leg[r][k].s \subseteq cur[r].s]_vars

\* A successful flush has stored all that was pending
Complete ==
  [][\A p \in Procs :
       pc[p] = "delete" /\ pc'[p] = "idle" /\ seen'[p] # {} /\ pend'[p] = pend[p]
         => goal[p] \subseteq cur[repo[p]].s \/ rem[p] # {}]_vars

\* A store that cannot be read stays as it is
BrokenKept == [][\A r \in Repos : broken[r] = "root" => cur'[r] = cur[r]]_vars

\* References are added to no other store, and stay pending for the others
Separate ==
  [][/\ \A r \in Repos : \A x \in cur'[r].s \ cur[r].s :
          \E p \in Procs : repo[p] = r /\ x \in Pending(p, r)
     /\ \A p \in Procs : ~Kill(p) =>
          \A e \in pend[p] \ pend'[p] :
             /\ e[2] \in {repo[p], Unknown}
             /\ e[1] \in cur[repo[p]].s]_vars

\* What is pending anywhere or in a store is not forgotten by a failure
FailKeeps == [][\A p \in Procs : Fail(p) => pend'[p] = pend[p]]_vars

Exclusive == "lock" \in Fix => \A r \in Repos : Cardinality(lock[r]) <= 1
=============================================================================
