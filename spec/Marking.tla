------------------------------ MODULE Marking -------------------------------
(***************************************************************************)
(* Serialised objects carry a mark with their type and the version of the  *)
(* model, on every level of nesting; references also carry the class of    *)
(* the object they refer to (property P20).                                *)
(*                                                                         *)
(* A document has sites, i.e. places with a mark. Loading a target needs   *)
(* the sites on the way to it.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Sites,
  TypeOf,         \* site -> its type
  ClassOf,        \* site -> class that was written
  ClassesOf,      \* site -> classes that are right (references only, else {})
  Needs,          \* target -> sites
  Types, Versions, Classes,    \* what may be found in marks
  MaxWrong

VARIABLES mark, got
vars == <<mark, got>>

This == "this"     \* the version of the model

NoClass == "-"
Right(s, m) == m.t = TypeOf[s] /\ m.v = This /\ (ClassesOf[s] # {} => m.c \in ClassesOf[s])
Wrong == {s \in Sites : ~Right(s, mark[s])}

Targets == DOMAIN Needs
None == [target |-> "-", res |-> "-"]

Original(s) ==
  [t |-> TypeOf[s], v |-> This,
   c |-> IF ClassesOf[s] = {} THEN NoClass ELSE ClassOf[s]]

Init ==
  /\ mark = [s \in Sites |-> Original(s)]
  /\ got = None

Altered == {s \in Sites : mark[s] # Original(s)}

\* one component of a mark is different
Alter(s) ==
  /\ s \notin Altered /\ Cardinality(Altered) < MaxWrong
  /\ \/ \E t \in Types \ {mark[s].t} : mark' = [mark EXCEPT ![s].t = t]
     \/ \E v \in Versions \ {mark[s].v} : mark' = [mark EXCEPT ![s].v = v]
     \/ /\ ClassesOf[s] # {}
        /\ \E c \in Classes \ {mark[s].c} : mark' = [mark EXCEPT ![s].c = c]
  /\ got' = None

\* What an access returns. Whether sites that are not needed are looked at is
\* left open.
Load(target) ==
  /\ got' \in [target : {target}, res :
       IF Wrong = {} THEN {"object"}
       ELSE IF Wrong \intersect Needs[target] # {} THEN {"error"}
       ELSE {"object", "error"}]
  /\ UNCHANGED mark

Next == (\E s \in Sites : Alter(s)) \/ (\E target \in Targets : Load(target))
Spec == Init /\ [][Next]_vars

\* never an object from a foreign mark
Refused == got.res = "object" => \A s \in Needs[got.target] : Right(s, mark[s])
\* what is right is accepted
Accepted == got.res = "error" => Wrong # {}

Expected(target) ==
  IF Wrong = {} THEN "object" ELSE IF Wrong \intersect Needs[target] # {} THEN "error" ELSE "any"

EmitState ==
  got = None =>
    PrintT("P " \o ToJson([m |-> [s \in Altered |-> mark[s]],
                           x |-> [target \in Targets |-> Expected(target)]]))
=============================================================================
