----------------------------- MODULE DatasetTree -----------------------------
(***************************************************************************)
(* Dataset trees (property P06): which datasets they contain, while        *)
(* datasets and subtrees are added and removed, in memory and reloaded.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Names, Depth, Vals,
  Subs,       \* subtrees: [ds: path -> value, dirs: set of paths]
  MaxLevel, Ops

VARIABLES
  ds,         \* path -> root record
  dirs,       \* directories in memory, without the root
  act

vars == <<ds, dirs, act>>

Paths == UNION {[1 .. n -> Names] : n \in 1 .. Depth}
AllPaths == {<<>>} \cup Paths
\* the directories that a dataset at p needs
Way(p) == {SubSeq(p, 1, n) : n \in 1 .. Len(p)}
Below(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Restrict(f, S) == [x \in S |-> f[x]]
Tail2(p, q) == SubSeq(q, Len(p) + 1, Len(q))

Init == /\ ds = [p \in {} |-> 0]
        /\ dirs = {}
        /\ act = [op |-> "init", ok |-> TRUE]

AddDataset(p, v) ==
  /\ "add" \in Ops
  /\ LET ok == p \notin DOMAIN ds IN
     /\ act' = [op |-> "add", p |-> p, v |-> v, ok |-> ok]
     /\ IF ok THEN ds' = (p :> v) @@ ds /\ dirs' = dirs \cup Way(p)
        ELSE UNCHANGED <<ds, dirs>>

\* Inserting a subtree: its datasets appear below p. The place has to be empty.
AddSubtree(p, s) ==
  /\ "sub" \in Ops
  /\ \A q \in DOMAIN s : Len(p) + Len(q) <= Depth
  /\ LET ok == p # <<>> /\ p \notin dirs IN
     /\ act' = [op |-> "sub", p |-> p, s |-> {<<q, s[q]>> : q \in DOMAIN s}, ok |-> ok]
     /\ IF ok
        THEN /\ ds' = [x \in {p \o q : q \in DOMAIN s} |-> s[Tail2(p, x)]] @@ ds
             /\ dirs' = dirs \cup Way(p) \cup UNION {Way(p \o q) : q \in DOMAIN s}
        ELSE UNCHANGED <<ds, dirs>>

DeleteSubtree(p) ==
  /\ "delete" \in Ops
  /\ LET ok == p \in dirs IN
     /\ act' = [op |-> "delete", p |-> p, ok |-> ok]
     /\ IF ok
        THEN /\ ds' = Restrict(ds, {q \in DOMAIN ds : ~Below(q, p)})
             /\ dirs' = {q \in dirs : ~Below(q, p)}
        ELSE UNCHANGED <<ds, dirs>>

Used == UNION {Way(p) : p \in DOMAIN ds}

Save == /\ "save" \in Ops
        /\ act' = [op |-> "save", ok |-> TRUE]
        /\ UNCHANGED <<ds, dirs>>

Reload(how, p) ==
  /\ "reload" \in Ops
  /\ act' = [op |-> "reload", how |-> how, p |-> p, ok |-> TRUE]
  /\ dirs' = Used
  /\ UNCHANGED ds

Next ==
  \/ \E p \in AllPaths :
       \/ \E v \in Vals : AddDataset(p, v)
       \/ \E s \in Subs : AddSubtree(p, s)
       \/ DeleteSubtree(p)
       \/ p \in DOMAIN ds /\ Reload("partly", p)
  \/ Save
  \/ \E how \in {"unload", "new"} : Reload(how, <<>>)

Spec == Init /\ [][Next]_vars

WellFormed == /\ \A p \in dirs : Way(p) \subseteq dirs
              /\ Used \subseteq dirs

\* Only what is addressed changes.
Frame ==
  [][/\ ~act'.ok => UNCHANGED <<ds, dirs>>
     /\ act'.op = "add" /\ act'.ok => ds' = (act'.p :> act'.v) @@ ds /\ act'.p \notin DOMAIN ds
     /\ act'.op = "sub" /\ act'.ok =>
          /\ \A q \in DOMAIN ds : ~Below(q, act'.p) /\ ds'[q] = ds[q]
          /\ \A q \in DOMAIN ds' \ DOMAIN ds : Below(q, act'.p)
     /\ act'.op = "delete" =>
          /\ DOMAIN ds' \subseteq DOMAIN ds
          /\ \A q \in DOMAIN ds : IF act'.ok /\ Below(q, act'.p) THEN q \notin DOMAIN ds'
                                  ELSE ds'[q] = ds[q]
     /\ act'.op \in {"save", "reload"} => ds' = ds]_vars

Bound == TLCGet("level") <= MaxLevel
GenView == <<ds, dirs>>
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([l |-> {<<p, ds[p]>> : p \in DOMAIN ds}, d |-> dirs,
                 init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
