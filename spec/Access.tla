------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* What access to and updates of a stored structure need from the object   *)
(* store, and what saving writes to it (property P04).                     *)
(*                                                                         *)
(* A structure is a set of nodes, named by their paths. A stored node      *)
(* refers to its stored children by their location, which depends on the   *)
(* content only: a location is modelled as the stored content itself.      *)
(* ref[p] is the location of the node at p, as it was saved last.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Root,          \* kind of the root
  FileNames, DatasetNames, VersionNames, UuidNames,
  MaxNodes, GrowTo, \* most nodes at all, nodes when use may start
  Ops, MaxLevel, MaxValue,
  Sample         \* consider randomly chosen places only (for simulation)

VARIABLES
  node,          \* path -> [k: kind, v: value]
  phase,         \* "grow", "use"
  ref,           \* stored path -> content
  need,          \* stored nodes that are loaded
  dirty,         \* nodes that differ from what is stored, or have such a node below
  fresh,         \* next value
  act

vars == <<node, phase, ref, need, dirty, fresh, act>>

\* the value depends on the state, so that TLC evaluates it anew in each state
Pick(S) == IF Sample /\ S # {} /\ act.op # "never" THEN {RandomElement(S)} ELSE S
Restrict(f, S) == [x \in S |-> f[x]]
Prefixes(p) == {SubSeq(p, 1, n) : n \in 0 .. Len(p)}
Below(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Sub(S, p) == {q \in S : Below(q, p)}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
KidsIn(S, p) == {q \in S : Len(q) = Len(p) + 1 /\ Below(q, p)}
Kids(p) == KidsIn(DOMAIN node, p)

\* <<name, kind>> of the possible children
Possible(k) ==
  CASE k = "us" -> UuidNames \X {"vl"}
    [] k = "vl" -> VersionNames \X {"mrr"}
    [] k = "tvl" -> VersionNames \X {"dt"}
    [] k = "dt" -> ({"R"} \X {"mrr"}) \cup (DatasetNames \X {"dt"})
    [] k = "mrr" -> {<<"M", "md">>, <<"F", "ft">>}
    [] k = "ft" -> FileNames \X {"ft", "md"}
    [] k = "md" -> {}
NeedsKids == {"ft", "dt", "us", "vl", "tvl"}

\* content of the node at p in the structure n
RECURSIVE Content(_, _)
Content(n, p) ==
  [k |-> n[p].k, v |-> n[p].v,
   c |-> [x \in {Last(q) : q \in KidsIn(DOMAIN n, p)} |-> Content(n, Append(p, x))]]
RECURSIVE Complete(_, _)
Complete(n, p) ==
  /\ n[p].k \in NeedsKids => KidsIn(DOMAIN n, p) # {}
  /\ \A q \in KidsIn(DOMAIN n, p) : Complete(n, q)
AllComplete == Complete(node, <<>>)

Init == /\ node = (<<>> :> [k |-> Root, v |-> 0])
        /\ phase = "grow"
        /\ ref = [p \in {} |-> 0] /\ need = {} /\ dirty = {} /\ fresh = 1
        /\ act = [op |-> "init", ok |-> TRUE]

CanGrow(p, x) ==
  /\ \/ Cardinality(DOMAIN node) < GrowTo
     \/ node[p].k \in NeedsKids /\ Kids(p) = {} /\ x[2] # node[p].k
  /\ Append(p, x[1]) \notin DOMAIN node

Grow(p, x) ==
  /\ phase = "grow"
  /\ CanGrow(p, x)
  /\ node' = (Append(p, x[1]) :> [k |-> x[2], v |-> IF x[2] = "md" THEN fresh ELSE 0]) @@ node
  /\ fresh' = IF x[2] = "md" THEN fresh + 1 ELSE fresh
  /\ act' = [op |-> "grow", ok |-> TRUE]
  /\ UNCHANGED <<phase, ref, need, dirty>>

Store ==
  /\ phase = "grow"
  /\ AllComplete
  /\ Cardinality(DOMAIN node) >= GrowTo \/ \A p \in DOMAIN node : Possible(node[p].k) = {}
  /\ phase' = "use"
  /\ ref' = [p \in DOMAIN node |-> Content(node, p)]
  /\ act' = [op |-> "store", ok |-> TRUE]
  /\ UNCHANGED <<node, need, dirty, fresh>>

Stored == DOMAIN ref

\* the loaded nodes after an access to p
Load(p) == need \cup (Prefixes(p) \cap Stored)

Access(p) ==
  /\ "access" \in Ops
  /\ need' = Load(p)
  /\ act' = [op |-> "access", p |-> p, k |-> node[p].k, ok |-> TRUE,
             res |-> CASE node[p].k = "md" -> node[p].v
                       [] OTHER -> {Last(q) : q \in Kids(p)}]
  /\ UNCHANGED <<node, phase, ref, dirty, fresh>>

\* is there something with name x below p?
Contains(p, x) ==
  /\ "contains" \in Ops
  /\ node[p].k \in {"ft", "dt"}
  /\ LET q == Append(p, x)
         dataset == node[p].k = "dt" IN
     /\ need' = Load(p) \cup (IF dataset THEN {q} \cap Stored ELSE {})
     /\ act' = [op |-> "contains", p |-> p, x |-> x, k |-> node[p].k, ok |-> TRUE,
                res |-> IF dataset THEN Append(q, "R") \in DOMAIN node ELSE q \in DOMAIN node]
  /\ UNCHANGED <<node, phase, ref, dirty, fresh>>

\* all paths in a file tree or dataset tree: no entry is needed
Listing(p) ==
  /\ "list" \in Ops
  /\ node[p].k \in {"ft", "dt"}
  /\ need' = Load(p) \cup {q \in Sub(Stored, p) : node[q].k = node[p].k
                             /\ \A r \in Prefixes(q) : Len(r) >= Len(p) => node[r].k = node[p].k}
  /\ act' = [op |-> "list", p |-> p, k |-> node[p].k, ok |-> TRUE,
             res |-> {SubSeq(q, Len(p) + 1, Len(q)) : q \in
                        {q \in Sub(DOMAIN node, p) : q # p /\ node[Parent(q)].k = node[p].k
                           /\ node[q].k # node[p].k
                           /\ \A r \in Prefixes(Parent(q)) : Len(r) >= Len(p) => node[r].k = node[p].k}}]
  /\ UNCHANGED <<node, phase, ref, dirty, fresh>>

\* Set the node at p to a new structure s (path -> node), p may exist
Put(p, s) ==
  LET keep == DOMAIN node \ Sub(DOMAIN node, p)
      new == {p \o q : q \in DOMAIN s}
  IN
  /\ Cardinality(keep \cup new) <= MaxNodes
  /\ node' = [x \in keep \cup new |->
                IF x \in keep THEN node[x] ELSE s[SubSeq(x, Len(p) + 1, Len(x))]]
  /\ ref' = Restrict(ref, Stored \ Sub(Stored, p))
  /\ need' = (Load(Parent(p)) \ Sub(Stored, p))
  /\ dirty' = (dirty \ Sub(DOMAIN node, p)) \cup new \cup Prefixes(Parent(p))
  /\ fresh' = fresh + 1

Leaf == <<>> :> [k |-> "md", v |-> fresh]
Node(k) == [k |-> k, v |-> 0]
Record(x) ==
  (<<>> :> Node("mrr")) @@
  CASE x = "none" -> [q \in {} |-> Node("md")]
    [] x = "M" -> (<<"M">> :> [k |-> "md", v |-> fresh])
    [] x = "F" -> (<<"F">> :> Node("ft")) @@ (<<"F", "a">> :> [k |-> "md", v |-> fresh])
Tree(x) == (<<>> :> Node("dt")) @@ [q \in {<<"R">> \o y : y \in DOMAIN Record(x)} |-> Record(x)[Tail(q)]]

\* new run in a metadata object that exists
Run(p) ==
  /\ "run" \in Ops /\ node[p].k = "md"
  /\ node' = [node EXCEPT ![p].v = fresh]
  /\ need' = Load(p)
  /\ dirty' = dirty \cup Prefixes(p)
  /\ fresh' = fresh + 1
  /\ act' = [op |-> "run", p |-> p, v |-> fresh, ok |-> TRUE]
  /\ UNCHANGED <<phase, ref>>

\* new file
AddFile(p, x) ==
  /\ "file" \in Ops /\ node[p].k = "ft" /\ Append(p, x) \notin DOMAIN node
  /\ Put(Append(p, x), Leaf)
  /\ act' = [op |-> "file", p |-> Append(p, x), v |-> fresh, ok |-> TRUE]
  /\ UNCHANGED phase

\* metadata or file tree of a dataset
SetPart(p, x) ==
  /\ "part" \in Ops /\ node[p].k = "mrr"
  /\ Put(Append(p, x), IF x = "M" THEN Leaf
                       ELSE (<<>> :> Node("ft")) @@ (<<"a">> :> [k |-> "md", v |-> fresh]))
  /\ act' = [op |-> "part", p |-> Append(p, x), v |-> fresh, ok |-> TRUE]
  /\ UNCHANGED phase

\* new dataset in a dataset tree, in a directory of its own or in an existing one
AddDataset(p, x, y) ==
  /\ "dataset" \in Ops /\ node[p].k = "dt"
  /\ LET q == IF x = "" THEN p ELSE Append(p, x) IN
     /\ x # "" => q \notin DOMAIN node
     /\ x = "" => Append(p, "R") \notin DOMAIN node
     /\ IF x = "" THEN Put(Append(p, "R"), Record(y)) ELSE Put(q, Tree(y))
     /\ act' = [op |-> "dataset", p |-> q, y |-> y, v |-> fresh, ok |-> TRUE]
  /\ UNCHANGED phase

\* remove a file or a dataset; its directory must not become empty
Remove(p) ==
  /\ "remove" \in Ops
  /\ p # <<>> /\ node[Parent(p)].k \in {"ft", "dt"}
  /\ Cardinality(Kids(Parent(p))) > 1
  /\ node' = Restrict(node, DOMAIN node \ Sub(DOMAIN node, p))
  /\ ref' = Restrict(ref, Stored \ Sub(Stored, p))
  /\ need' = Load(Parent(p)) \ Sub(Stored, p)
  /\ dirty' = (dirty \ Sub(DOMAIN node, p)) \cup Prefixes(Parent(p))
  /\ act' = [op |-> "remove", p |-> p, k |-> node[Parent(p)].k, ok |-> TRUE]
  /\ UNCHANGED <<phase, fresh>>

\* set the element of a version
SetVersion(p, x, y) ==
  /\ "version" \in Ops /\ node[p].k \in {"vl", "tvl"}
  /\ Put(Append(p, x), IF node[p].k = "vl" THEN Record(y) ELSE Tree(y))
  /\ act' = [op |-> "version", p |-> Append(p, x), k |-> node[p].k, y |-> y, v |-> fresh, ok |-> TRUE]
  /\ UNCHANGED phase

\* set the version list of a dataset
SetList(p, x, n, y) ==
  /\ "versionlist" \in Ops /\ node[p].k = "us"
  /\ Put(Append(p, x), (<<>> :> Node("vl")) @@
         [q \in {<<n>> \o z : z \in DOMAIN Record(y)} |-> Record(y)[Tail(q)]])
  /\ act' = [op |-> "versionlist", p |-> Append(p, x), n |-> n, y |-> y, v |-> fresh, ok |-> TRUE]
  /\ UNCHANGED phase

\* Save what is below p. It writes nodes that are dirty, with the references that
\* their children got: those of children that are not dirty are still the same.
RECURSIVE Written(_, _)
Written(D, p) ==
  IF p \notin D THEN ref[p]
  ELSE [k |-> node[p].k, v |-> node[p].v,
        c |-> [x \in {Last(q) : q \in Kids(p)} |-> Written(D, Append(p, x))]]

SaveBelow(p) ==
  /\ ref' = [q \in Stored \cup Sub(DOMAIN node, p) |->
               IF Below(q, p) THEN Written(dirty, q) ELSE ref[q]]
  /\ dirty' = dirty \ Sub(dirty, p)

Save ==
  /\ "save" \in Ops
  /\ SaveBelow(<<>>)
  /\ need' = need \cup (DOMAIN node \ Stored)
  /\ act' = [op |-> "save", ok |-> TRUE]
  /\ UNCHANGED <<node, phase, fresh>>

\* save and unload one part
Unget(p) ==
  /\ "unget" \in Ops
  /\ p \in Stored /\ p # <<>>
  /\ node[Parent(p)].k \in {"us", "vl", "tvl", "ft"} /\ node[p].k # "ft"
  /\ SaveBelow(p)
  /\ need' = Load(Parent(p)) \ Sub(DOMAIN node, p)
  /\ act' = [op |-> "unget", p |-> p, k |-> node[Parent(p)].k, ok |-> TRUE]
  /\ UNCHANGED <<node, phase, fresh>>

\* unload everything (how = "purge"), or start again with what is stored
Unload(how) ==
  /\ how \in Ops
  /\ dirty = {}
  /\ need' = {}
  /\ act' = [op |-> how, ok |-> TRUE]
  /\ UNCHANGED <<node, phase, ref, dirty, fresh>>

OfKind(ks) == Pick({p \in DOMAIN node : node[p].k \in ks})

Use ==
  /\ phase = "use"
  /\ \/ \E p \in Pick(DOMAIN node) : Access(p)
     \/ \E p \in Pick(DOMAIN node) : Remove(p)
     \/ \E p \in Pick(DOMAIN node) : Unget(p)
     \/ \E p \in OfKind({"md"}) : Run(p)
     \/ \E p \in OfKind({"ft", "dt"}) : Listing(p)
     \/ \E p \in OfKind({"ft", "dt"}) : \E x \in Pick(FileNames \cup DatasetNames) : Contains(p, x)
     \/ \E p \in OfKind({"ft"}) : \E x \in Pick(FileNames) : AddFile(p, x)
     \/ \E p \in OfKind({"mrr"}) : \E x \in Pick({"M", "F"}) : SetPart(p, x)
     \/ \E y \in Pick({"none", "M", "F"}) :
          \/ \E p \in OfKind({"dt"}) : \E x \in Pick(DatasetNames \cup {""}) : AddDataset(p, x, y)
          \/ \E p \in OfKind({"vl", "tvl"}) : \E x \in Pick(VersionNames) : SetVersion(p, x, y)
          \/ \E p \in OfKind({"us"}) : \E x \in Pick(UuidNames), n \in Pick(VersionNames) :
               SetList(p, x, n, y)
     \/ Save
     \/ \E how \in {"purge", "load"} : Unload(how)

Next ==
  \/ \E p \in Pick({p \in DOMAIN node : phase = "grow" /\ \E x \in Possible(node[p].k) : CanGrow(p, x)}) :
       \E x \in Pick({x \in Possible(node[p].k) : CanGrow(p, x)}) : Grow(p, x)
  \/ Store
  \/ Use

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* What is not marked as dirty is stored as it is: skipping it is right
Skipped == phase = "use" =>
  /\ \A p \in DOMAIN node \ dirty : p \in Stored /\ ref[p] = Content(node, p)
  /\ Stored \subseteq DOMAIN node

\* Loading follows the way from the root
WayClosed == \A p \in need : Prefixes(p) \subseteq need

\* Only what is on the way to the target becomes loaded or dirty
OnTheWay ==
  [][phase = "use" =>
       /\ \A q \in need' \ need :
            \/ act'.op = "save" /\ q \notin DOMAIN ref
            \/ act'.op \in {"contains", "list"} /\ (Below(act'.p, q) \/ Below(q, act'.p))
            \/ Below(act'.p, q)
       /\ \A q \in dirty' \ dirty :
            Below(act'.p, q) \/ (q \notin DOMAIN node) \/ Below(q, act'.p)
       /\ act'.op \in {"access", "contains", "list", "purge", "load"} => dirty' = dirty /\ ref' = ref
    ]_vars

\* Saving leaves the references of other parts alone
OffTheWay ==
  [][act'.op \in {"save", "unget"} => \A p \in DOMAIN ref \ dirty : ref'[p] = ref[p]]_vars

Bound == TLCGet("level") <= MaxLevel /\ fresh <= MaxValue
GenView == <<node, phase, ref, need, dirty>>
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([n |-> {<<p, node[p].k, node[p].v>> : p \in DOMAIN node},
                 stored |-> Stored, need |-> need, dirty |-> dirty,
                 content |-> Content(node, <<>>),
                 init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
