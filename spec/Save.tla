-------------------------------- MODULE Save --------------------------------
(***************************************************************************)
(* Saving as a sequence of storage commands (P10, P11, P12)                *)
(*                                                                         *)
(* A structure is a directed acyclic graph of stored objects. A save       *)
(* stores the objects of a structure with several commands, and may then   *)
(* let an entry point of the repository refer to it. A flush adds          *)
(* references to the object reference store. Each command may fail,        *)
(* before or after it had an effect, or the process may be killed. The     *)
(* state between two commands is what a crash leaves behind.               *)
(*                                                                         *)
(* kids are all objects an object refers to; tree are those objects whose  *)
(* references git knows about (git does not look into the text of blobs).  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS
  Objects, Entries,
  Shapes,       \* possible values of kids
  Trees,        \* possible values of tree
  MaxOps,       \* bound: number of operations
  Fix           \* parts of the protocol; all of Parts, unless one wants to
                \* see what they are needed for

Parts == {"order",     \* an entry point is changed after everything is stored
          "register",  \* references are collected after the objects are stored
          "saved"}     \* objects count as saved after they are stored

NoRef == "-"

VARIABLES
  kids, tree,   \* the graph, does not change
  stored,       \* objects that are stored
  entry,        \* entry point -> object or NoRef
  refs,         \* object reference store
  pend,         \* references that are collected, but not flushed
  saved,        \* objects that count as saved
  wrote,        \* what was saved in this session
  lost,         \* stored, but not protected when a process was killed
  op,           \* operation that is running
  count
vars == <<kids, tree, stored, entry, refs, pend, saved, wrote, lost, op, count>>
graph == <<kids, tree>>

RECURSIVE Closure(_)
Closure(x) == {x} \union UNION {Closure(y) : y \in kids[x]}
RECURSIVE GitReach(_)
GitReach(x) == {x} \union IF x \in tree THEN UNION {GitReach(y) : y \in kids[x]} ELSE {}

Complete(x) == Closure(x) \subseteq stored

NoOp == [kind |-> "none", goal |-> NoRef, e |-> NoRef]

Init ==
  /\ kids \in Shapes /\ tree \in Trees
  /\ stored = {} /\ refs = {} /\ pend = {} /\ saved = {} /\ wrote = {} /\ lost = {}
  /\ entry = [e \in Entries |-> NoRef]
  /\ op = NoOp
  /\ count = 0

\* goal will be the reference of the saved structure, e the entry point that
\* is to refer to it. Kinds:
\*   tree   save a file tree or dataset tree,
\*   top    save a structure that an entry point refers to,
\*   part   save something else,
\*   flush  flush references,
\*   load   load something
Saves == {"tree", "top", "part"}
Begin(kind, goal, e) ==
  /\ op.kind = "none"
  /\ op' = [kind |-> kind, goal |-> goal, e |-> e]
  /\ count' = count + 1
  /\ UNCHANGED <<graph, lost, stored, entry, refs, pend, saved, wrote>>

Store(S) ==
  /\ op.kind \in Saves
  /\ stored' = stored \union S
  /\ UNCHANGED <<graph, lost, entry, refs, pend, saved, wrote, op, count>>

SetEntry(x) ==
  /\ op.kind = "top"
  /\ x = op.goal
  /\ "order" \in Fix => Complete(x)
  /\ entry' = [entry EXCEPT ![op.e] = x]
  /\ UNCHANGED <<graph, lost, stored, refs, pend, saved, wrote, op, count>>

\* no command
Register(S) ==
  /\ op.kind \in Saves
  /\ "register" \in Fix => \A x \in S : Complete(x)
  /\ pend' = pend \union S
  /\ UNCHANGED <<graph, lost, stored, entry, refs, saved, wrote, op, count>>

AddRefs(S) ==
  /\ op.kind = "flush"
  /\ S \subseteq pend
  /\ refs' = refs \union S
  /\ UNCHANGED <<graph, lost, stored, entry, pend, saved, wrote, op, count>>

SavedNow(S) ==
  /\ "saved" \in Fix => \A x \in S : Complete(x)
  /\ saved' = S

Reached(S) == UNION {GitReach(y) : y \in S}

\* when all that is pending is flushed, x survives a garbage collection
\* (a killed process does not flush what it has collected)
Protected(x, e) ==
  Closure(x) \subseteq Reached(pend \union refs) \union lost
                       \union (IF e # NoRef THEN GitReach(entry[e]) ELSE {})

\* the operation is successful; S: what counts as saved
End(S) ==
  /\ op.kind # "none"
  /\ op.kind \in Saves /\ op.goal # NoRef => Complete(op.goal)
  /\ op.kind = "top" => entry[op.e] = op.goal
  /\ op.kind \in {"top", "tree"} /\ op.goal # NoRef => Protected(op.goal, op.e)
  /\ op.kind = "flush" => pend \subseteq refs
  /\ pend' = IF op.kind = "flush" THEN {} ELSE pend
  /\ wrote' = IF op.kind \in {"tree", "top"} /\ op.goal # NoRef
              THEN wrote \union {<<op.goal, op.e>>} ELSE wrote
  /\ SavedNow(S)
  /\ op' = NoOp
  /\ UNCHANGED <<graph, lost, stored, entry, refs, count>>

\* the operation raised an error
Fail(S) ==
  /\ op.kind # "none"
  /\ SavedNow(S)
  /\ op' = NoOp
  /\ UNCHANGED <<graph, lost, stored, entry, refs, pend, wrote, count>>

Kill ==
  /\ op' = NoOp
  /\ pend' = {} /\ saved' = {} /\ wrote' = {}
  /\ lost' = lost \union (stored \ Reached(refs))
  /\ UNCHANGED <<graph, stored, entry, refs, count>>

Next ==
  \/ \E x \in Objects : \E e \in Entries : Begin("top", x, e)
  \/ \E x \in Objects \union {NoRef}, kind \in {"tree", "part"} : Begin(kind, x, NoRef)
  \/ \E kind \in {"flush", "load"} : Begin(kind, NoRef, NoRef)
  \/ \E S \in SUBSET Objects :
       \/ op.kind \in Saves /\ op.goal # NoRef /\ S \subseteq Closure(op.goal) /\ (Store(S) \/ Register(S))
       \/ AddRefs(S)
       \/ End(S) \/ Fail(S)
  \/ \E x \in Objects : SetEntry(x)
  \/ Kill
Spec == Init /\ [][Next]_vars
Bound == count <= MaxOps

-----------------------------------------------------------------------------
\* P10: whenever the process is killed, entry points lead to complete structures
EntryComplete == \A e \in Entries : entry[e] # NoRef => Complete(entry[e])
\* ... to what was saved before, or what is being saved
EntryChange ==
  [][\A e \in Entries : entry'[e] # entry[e] => op.kind = "top" /\ entry'[e] = op.goal]_vars
RefsGrow == [][refs \subseteq refs']_vars
\* references lead to stored objects
RefsComplete == \A x \in refs : Complete(x)
\* P11: what counts as saved is stored
SavedStored == \A x \in saved : Complete(x)
\* P12: after a flush, everything that was saved is protected
FlushProtects ==
  op.kind = "none" /\ pend = {} =>
    \A w \in wrote : w[2] = NoRef \/ entry[w[2]] = w[1] => Protected(w[1], w[2])
=============================================================================
