------------------------------ MODULE FileTree ------------------------------
(***************************************************************************)
(* A path tree as a map from paths to entries (property P05): file trees   *)
(* and generic trees, in memory, saved, partly loaded and reloaded.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Names,      \* names of path elements
  Depth,      \* length of the longest path
  Vals,       \* contents of entries
  Subs,       \* subtrees that can be added: set of functions from paths to values
  MaxLevel,
  Ops

VARIABLES
  leaves,     \* path -> value
  dirs,       \* directories in memory, without the root
  act

vars == <<leaves, dirs, act>>

Paths == UNION {[1 .. n -> Names] : n \in 1 .. Depth}
AllPaths == {<<>>} \cup Paths

Prefixes(p) == {SubSeq(p, 1, n) : n \in 1 .. Len(p) - 1}
Below(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Restrict(f, S) == [x \in S |-> f[x]]

Init == /\ leaves = [p \in {} |-> 0]
        /\ dirs = {}
        /\ act = [op |-> "init", ok |-> TRUE]

Free(p) == /\ p # <<>>
           /\ p \notin DOMAIN leaves \cup dirs
           /\ \A q \in Prefixes(p) : q \notin DOMAIN leaves

Put(p, v) == /\ leaves' = (p :> v) @@ leaves
             /\ dirs' = dirs \cup Prefixes(p)

\* add an entry: nothing may exist at its path, and no entry above
Add(p, v) ==
  /\ "add" \in Ops
  /\ act' = [op |-> "add", p |-> p, v |-> v, ok |-> Free(p)]
  /\ IF Free(p) THEN Put(p, v) ELSE UNCHANGED <<leaves, dirs>>

\* add an extractor run: creates the entry, if necessary
AddRun(p, v) ==
  /\ "run" \in Ops
  /\ LET ok == Free(p) \/ p \in DOMAIN leaves IN
     /\ act' = [op |-> "run", p |-> p, v |-> v, ok |-> ok]
     /\ IF ok THEN Put(p, v) ELSE UNCHANGED <<leaves, dirs>>

\* add a subtree
AddSub(p, s) ==
  /\ "sub" \in Ops
  /\ \A q \in DOMAIN s : Len(p) + Len(q) <= Depth
  /\ act' = [op |-> "sub", p |-> p, s |-> {<<q, s[q]>> : q \in DOMAIN s}, ok |-> Free(p)]
  /\ IF Free(p)
     THEN /\ leaves' = [x \in {p \o q : q \in DOMAIN s} |->
                          s[SubSeq(x, Len(p) + 1, Len(x))]] @@ leaves
          /\ dirs' = dirs \cup Prefixes(p) \cup {p}
                          \cup UNION {Prefixes(p \o q) \ Prefixes(p) : q \in DOMAIN s}
     ELSE UNCHANGED <<leaves, dirs>>

\* remove an entry or a directory
Remove(p) ==
  /\ "remove" \in Ops
  /\ LET ok == p \in DOMAIN leaves \cup dirs IN
     /\ act' = [op |-> "remove", p |-> p, ok |-> ok]
     /\ IF ok
        THEN /\ leaves' = Restrict(leaves, {q \in DOMAIN leaves : ~Below(q, p)})
             /\ dirs' = {q \in dirs : ~Below(q, p)}
        ELSE UNCHANGED <<leaves, dirs>>

\* Save, and go on with: the same object, the unloaded object, a new object,
\* a new object of which the way to p was loaded. Directories that contain
\* nothing are not saved, but they stay in memory.
Used == UNION {Prefixes(p) : p \in DOMAIN leaves}

Save ==
  /\ "save" \in Ops
  /\ act' = [op |-> "save", ok |-> TRUE]
  /\ UNCHANGED <<leaves, dirs>>

Reload(how, p) ==
  /\ "reload" \in Ops
  /\ act' = [op |-> "reload", how |-> how, p |-> p, ok |-> TRUE]
  /\ dirs' = Used
  /\ UNCHANGED leaves

Next ==
  \/ \E p \in AllPaths :
       \/ \E v \in Vals : Add(p, v) \/ AddRun(p, v)
       \/ \E s \in Subs : AddSub(p, s)
       \/ Remove(p)
       \/ p \in DOMAIN leaves /\ Reload("partly", p)
  \/ Save
  \/ \E how \in {"unload", "new"} : Reload(how, <<>>)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == /\ DOMAIN leaves \subseteq Paths
          /\ dirs \subseteq Paths

\* A path is an entry, a directory or nothing; entries are in directories.
WellFormed == /\ DOMAIN leaves \cap dirs = {}
              /\ \A p \in DOMAIN leaves \cup dirs : Prefixes(p) \subseteq dirs

\* What is not addressed stays as it is, errors change nothing.
Frame ==
  [][/\ ~act'.ok => UNCHANGED <<leaves, dirs>>
     /\ act'.op \in {"add", "run"} /\ act'.ok =>
          leaves' = [q \in DOMAIN leaves \cup {act'.p} |->
                       IF q = act'.p THEN act'.v ELSE leaves[q]]
     /\ act'.op = "remove" =>
          \A q \in DOMAIN leaves : Below(q, act'.p) \/ (q \in DOMAIN leaves' /\ leaves'[q] = leaves[q])
     /\ act'.op \in {"save", "reload"} => leaves' = leaves]_vars

Bound == TLCGet("level") <= MaxLevel
GenView == <<leaves, dirs>>
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([l |-> {<<p, leaves[p]>> : p \in DOMAIN leaves}, d |-> dirs,
                 init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
