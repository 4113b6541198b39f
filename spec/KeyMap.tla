------------------------------- MODULE KeyMap -------------------------------
(***************************************************************************)
(* Version lists and tree version lists as maps from (version, prefix      *)
(* path) to (time stamp, element), and UUID sets as maps from identifiers  *)
(* to version lists (properties P07, P08, P15).                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Keys,
  Stamps,
  Vals,       \* elements: <<kind, value>>
  Shifts,     \* requested prefix -> [key -> key with prefix]
  UngetNew,   \* can elements that were never saved be ungot?
  Ops, MaxLevel

VARIABLES
  map,        \* key -> [t: time stamp, e: element]
  stored,     \* keys whose elements were saved since they were set
  act

vars == <<map, stored, act>>

Init == /\ map = [k \in {} |-> 0]
        /\ stored = {}
        /\ act = [op |-> "init", ok |-> TRUE]

\* set a pair: whatever the key was mapped to is replaced
Set(k, t, e) ==
  /\ "set" \in Ops
  /\ map' = (k :> [t |-> t, e |-> e]) @@ map
  /\ stored' = stored \ {k}
  /\ act' = [op |-> "set", k |-> k, t |-> t, e |-> e, ok |-> TRUE]

\* set the element that is there already, with a time stamp
Restamp(k, t) ==
  /\ "restamp" \in Ops
  /\ k \in DOMAIN map
  /\ map' = [map EXCEPT ![k].t = t]
  /\ act' = [op |-> "restamp", k |-> k, t |-> t, ok |-> TRUE]
  /\ UNCHANGED stored

\* change the element that is there
Change(k, e) ==
  /\ "change" \in Ops
  /\ k \in DOMAIN map /\ map[k].e[1] = e[1]
  /\ map' = [map EXCEPT ![k].e = e]
  /\ act' = [op |-> "change", k |-> k, e |-> e, ok |-> TRUE]
  /\ UNCHANGED stored

Get(k) ==
  /\ "get" \in Ops
  /\ act' = [op |-> "get", k |-> k, ok |-> k \in DOMAIN map]
  /\ UNCHANGED <<map, stored>>

Unget(k) ==
  /\ "unget" \in Ops
  /\ LET ok == k \in DOMAIN map /\ (UngetNew \/ k \in stored) IN
     /\ act' = [op |-> "unget", k |-> k, ok |-> ok]
     /\ stored' = IF ok THEN stored \cup {k} ELSE stored
  /\ UNCHANGED map

Save ==
  /\ "save" \in Ops
  /\ act' = [op |-> "save", ok |-> TRUE]
  /\ stored' = DOMAIN map
  /\ UNCHANGED map

Reload(how) ==
  /\ "reload" \in Ops
  /\ act' = [op |-> "reload", how |-> how, ok |-> TRUE]
  /\ stored' = DOMAIN map
  /\ UNCHANGED map

\* Copy to another repository and go on with the copy; the source keeps
\* its content.
Shift(f, s) == [k \in {s[x] : x \in DOMAIN f} |-> f[CHOOSE x \in DOMAIN f : s[x] = k]]

Copy(p) ==
  /\ "copy" \in Ops
  /\ DOMAIN map \subseteq DOMAIN Shifts[p]
  /\ map' = Shift(map, Shifts[p])
  /\ stored' = DOMAIN map'
  /\ act' = [op |-> "copy", p |-> p, ok |-> TRUE]

Next ==
  \/ \E k \in Keys :
       \/ \E t \in Stamps : (\E e \in Vals : Set(k, t, e)) \/ Restamp(k, t)
       \/ \E e \in Vals : Change(k, e)
       \/ Get(k) \/ Unget(k)
  \/ Save
  \/ \E how \in {"unload", "new", "partly"} : Reload(how)
  \/ \E p \in DOMAIN Shifts : Copy(p)

Spec == Init /\ [][Next]_vars

TypeOK == DOMAIN map \subseteq Keys /\ stored \subseteq DOMAIN map

\* Setting one pair changes no other, nothing else changes the map.
Frame ==
  [][/\ act'.op \in {"set", "restamp", "change"} =>
          /\ DOMAIN map' = DOMAIN map \cup {act'.k}
          /\ \A k \in DOMAIN map \ {act'.k} : map'[k] = map[k]
     /\ act'.op = "set" => map'[act'.k] = [t |-> act'.t, e |-> act'.e]
     /\ act'.op \in {"get", "unget", "save", "reload"} => map' = map
     /\ act'.op = "copy" =>
          /\ Cardinality(DOMAIN map') = Cardinality(DOMAIN map)
          /\ \A k \in DOMAIN map : map'[Shifts[act'.p][k]] = map[k]]_vars

Bound == TLCGet("level") <= MaxLevel
GenView == <<map, stored>>
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([m |-> {<<k, map[k].t, map[k].e>> : k \in DOMAIN map},
                 init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
