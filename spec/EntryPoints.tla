----------------------------- MODULE EntryPoints ----------------------------
(***************************************************************************)
(* The two entry points of repositories, tree version list ("tvl") and     *)
(* UUID set ("us"), and sessions (processes) that load, change and write   *)
(* them (property P08).                                                    *)
(*                                                                         *)
(* The content of a tree version list is a function from versions to       *)
(* values, that of a UUID set a function from identifiers to such          *)
(* functions.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Sessions, Repos, Versions, Uuids, Values, Ops

VARIABLES
  store,     \* repository -> which -> stored object
  sess,      \* session -> which -> object in memory
  last,      \* history: what the last completed write wrote
  act
vars == <<store, sess, last, act>>

Which == {"tvl", "us"}
Empty == [x \in {} |-> 0]
None == [has |-> FALSE, c |-> Empty]
Absent == [has |-> FALSE, c |-> Empty, at |-> {}, home |-> ""]

Init == /\ store = [r \in Repos |-> [w \in Which |-> None]]
        /\ sess = [s \in Sessions |-> [w \in Which |-> Absent]]
        /\ last = [r \in Repos |-> [w \in Which |-> None]]
        /\ act = [op |-> "init", ok |-> TRUE]

\* A session loads the top-level objects of a repository.
Load(s, r) ==
  /\ "load" \in Ops
  /\ sess' = [sess EXCEPT ![s] = [w \in Which |->
       IF store[r][w].has
       THEN [has |-> TRUE, c |-> store[r][w].c, at |-> {r}, home |-> r]
       ELSE Absent]]
  /\ act' = [op |-> "load", s |-> s, r |-> r, ok |-> TRUE,
             res |-> {w \in Which : store[r][w].has}]
  /\ UNCHANGED <<store, last>>

New(s, w) ==
  /\ "new" \in Ops
  /\ sess' = [sess EXCEPT ![s][w] = [Absent EXCEPT !.has = TRUE]]
  /\ act' = [op |-> "new", s |-> s, w |-> w, ok |-> TRUE]
  /\ UNCHANGED <<store, last>>

Update(s, w, c) == sess' = [sess EXCEPT ![s][w].c = c, ![s][w].at = {}]

SetTvl(s, v, x) ==
  /\ "set" \in Ops
  /\ sess[s]["tvl"].has
  /\ Update(s, "tvl", (v :> x) @@ sess[s]["tvl"].c)
  /\ act' = [op |-> "set", s |-> s, w |-> "tvl", v |-> v, x |-> x, ok |-> TRUE]
  /\ UNCHANGED <<store, last>>

\* set a new version list
SetUs(s, u, v, x) ==
  /\ "set" \in Ops
  /\ sess[s]["us"].has
  /\ Update(s, "us", (u :> (v :> x)) @@ sess[s]["us"].c)
  /\ act' = [op |-> "set", s |-> s, w |-> "us", u |-> u, v |-> v, x |-> x, ok |-> TRUE]
  /\ UNCHANGED <<store, last>>

\* set a version list without entries
SetEmpty(s, u) ==
  /\ "set" \in Ops
  /\ sess[s]["us"].has
  /\ Update(s, "us", (u :> Empty) @@ sess[s]["us"].c)
  /\ act' = [op |-> "empty", s |-> s, u |-> u, ok |-> TRUE]
  /\ UNCHANGED <<store, last>>

\* change a version list of the set
Change(s, u, v, x) ==
  /\ "change" \in Ops
  /\ u \in DOMAIN sess[s]["us"].c
  /\ Update(s, "us", (u :> ((v :> x) @@ sess[s]["us"].c[u])) @@ sess[s]["us"].c)
  /\ act' = [op |-> "change", s |-> s, u |-> u, v |-> v, x |-> x, ok |-> TRUE]
  /\ UNCHANGED <<store, last>>

\* Write an object to a repository. An object that is stored there already is
\* not written again. Objects that were loaded may have parts that are not
\* loaded, they are written to their own repository only.
Write(s, w, r) ==
  /\ "write" \in Ops
  /\ LET o == sess[s][w] IN
     /\ o.has /\ o.home \in {"", r}
     /\ IF r \in o.at THEN UNCHANGED <<store, sess, last>>
        ELSE /\ store' = [store EXCEPT ![r][w] = [has |-> TRUE, c |-> o.c]]
             /\ last' = [last EXCEPT ![r][w] = [has |-> TRUE, c |-> o.c]]
             /\ sess' = [sess EXCEPT ![s][w].at = @ \cup {r}]
  /\ act' = [op |-> "write", s |-> s, w |-> w, r |-> r, ok |-> TRUE]

Next ==
  \E s \in Sessions :
    \/ \E r \in Repos : Load(s, r) \/ \E w \in Which : Write(s, w, r)
    \/ \E w \in Which : New(s, w)
    \/ \E u \in Uuids : SetEmpty(s, u)
    \/ \E v \in Versions, x \in Values :
         \/ SetTvl(s, v, x)
         \/ \E u \in Uuids : SetUs(s, u, v, x) \/ Change(s, u, v, x)

Spec == Init /\ [][Next]_vars

LeadsToLast == store = last
\* An object that counts as saved has the content of some completed write;
\* loading returns the last one, changing one identifier changes no other.
Loaded ==
  [][/\ act'.op = "load" =>
          \A w \in Which : /\ sess'[act'.s][w].has = last[act'.r][w].has
                           /\ sess'[act'.s][w].c = last[act'.r][w].c
     /\ act'.op \in {"set", "empty", "change"} /\ "u" \in DOMAIN act' =>
          \A u \in DOMAIN sess[act'.s]["us"].c \ {act'.u} :
            sess'[act'.s]["us"].c[u] = sess[act'.s]["us"].c[u]
     /\ act'.op # "write" => store' = store]_vars

Size(c) == Cardinality(DOMAIN c)
CONSTANTS MaxSize
Bound == \A s \in Sessions : \A w \in Which : Size(sess[s][w].c) <= MaxSize

Flat(w, o) ==
  IF ~o.has THEN <<>>
  ELSE <<IF w = "tvl" THEN {<<v, o.c[v]>> : v \in DOMAIN o.c}
         ELSE {<<u, {<<v, o.c[u][v]>> : v \in DOMAIN o.c[u]}>> : u \in DOMAIN o.c}>>
GenView == <<store, sess>>
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([store |-> [r \in Repos |-> [w \in Which |-> Flat(w, store[r][w])]],
                 sess |-> [s \in Sessions |-> [w \in Which |-> Flat(w, sess[s][w])]],
                 init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
