----------------------------- MODULE TreeUpdate -----------------------------
(***************************************************************************)
(* Bulk update of a stored tree (property P24).                            *)
(*                                                                         *)
(* A tree is a function from paths to "dir" or a blob; with a path all its *)
(* prefixes are in the domain. An update is a sequence of entries          *)
(*    [p |-> path, k |-> "f", b |-> blob, c |-> the empty tree]            *)
(*    [p |-> path, k |-> "d", b |-> "", c |-> tree]                        *)
(* The second kind puts a stored tree at the path.                         *)
(*                                                                         *)
(* Union states what the result should be, AddPaths how it is assembled,   *)
(* level by level.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, Randomization

CONSTANTS Names, Depth, Blobs, MaxLen,
          Branch    \* number of updates that are tried in a state, 0: all

VARIABLES tree, act
vars == <<tree, act>>

Empty == [p \in {} |-> ""]
Paths == UNION {[1..n -> Names] : n \in 1..Depth}
StrictPrefixes(p) == {SubSeq(p, 1, n) : n \in 1..(Len(p) - 1)}
IsBelow(p, q) == Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q
Refused == [ok |-> FALSE, tree |-> Empty]

----------------------------------------------------------------------------
(* What should come out *)
Kind(t, p) == IF t[p] = "dir" THEN "d" ELSE "f"

Valid(t, u) ==
  /\ \A i, j \in DOMAIN u : i # j => u[i].p # u[j].p /\ ~IsBelow(u[i].p, u[j].p)
  /\ \A i \in DOMAIN u :
       /\ \A q \in StrictPrefixes(u[i].p) : q \in DOMAIN t => Kind(t, q) = "d"
       /\ u[i].p \in DOMAIN t => Kind(t, u[i].p) = u[i].k

Union(t, u) ==
  IF ~Valid(t, u) THEN Refused
  ELSE
    LET touched == {u[i].p : i \in DOMAIN u}
        kept == {p \in DOMAIN t : \A q \in touched : p # q /\ ~IsBelow(p, q)}
        files == [p \in {u[i].p : i \in {j \in DOMAIN u : u[j].k = "f"}} |->
                    u[CHOOSE i \in DOMAIN u : u[i].p = p].b]
        below == UNION {{u[i].p \o q : q \in DOMAIN u[i].c} : i \in DOMAIN u}
        content == [p \in below |->
                      LET i == CHOOSE i \in DOMAIN u : IsBelow(p, u[i].p)
                      IN u[i].c[SubSeq(p, Len(u[i].p) + 1, Len(p))]]
        dirs == {u[i].p : i \in {j \in DOMAIN u : u[j].k = "d"}}
                \cup UNION {StrictPrefixes(q) : q \in touched}
    IN [ok |-> TRUE,
        tree |-> files @@ content @@ [p \in dirs |-> "dir"] @@ [p \in kept |-> t[p]]]

----------------------------------------------------------------------------
(* How it is done *)
Leaves(u) == SelectSeq(u, LAMBDA e : Len(e.p) = 1)
Deeper(u) == SelectSeq(u, LAMBDA e : Len(e.p) > 1)
Strip(e) == [e EXCEPT !.p = Tail(@)]
Within(u, d) ==
  LET s == SelectSeq(Deeper(u), LAMBDA e : Head(e.p) = d)
  IN [n \in DOMAIN s |-> Strip(s[n])]
Sub(t, d) ==
  LET below == {p \in DOMAIN t : IsBelow(p, <<d>>)}
  IN [q \in {Tail(p) : p \in below} |-> t[<<d>> \o q]]
Put(d, sub) ==
  (<<d>> :> "dir") @@ [p \in {<<d>> \o q : q \in DOMAIN sub} |-> sub[Tail(p)]]

RECURSIVE AddPaths(_, _)
AddPaths(t, u) ==
  LET leaves == Leaves(u)
      dirs == {Head(e.p) : e \in {Deeper(u)[n] : n \in DOMAIN Deeper(u)}}
      leafnames == {leaves[n].p[1] : n \in DOMAIN leaves}
      sub == [d \in dirs |-> AddPaths(Sub(t, d), Within(u, d))]
      bad == \/ leafnames \cap dirs # {}
             \/ Cardinality(leafnames) # Len(leaves)
             \/ \E n \in DOMAIN leaves :
                  leaves[n].p \in DOMAIN t /\ Kind(t, leaves[n].p) # leaves[n].k
             \/ \E d \in dirs : <<d>> \in DOMAIN t /\ Kind(t, <<d>>) = "f"
             \/ \E d \in dirs : ~sub[d].ok
      rest == {p \in DOMAIN t : p[1] \notin dirs \cup leafnames}
      leaf(d) == LET e == leaves[CHOOSE n \in DOMAIN leaves : leaves[n].p[1] = d]
                 IN IF e.k = "f" THEN <<d>> :> e.b ELSE Put(d, e.c)
      part == [d \in dirs \cup leafnames |->
                 IF d \in dirs THEN Put(d, sub[d].tree) ELSE leaf(d)]
      all == UNION {DOMAIN part[d] : d \in DOMAIN part}
  IN IF bad THEN Refused
     ELSE [ok |-> TRUE,
           tree |-> [p \in rest \cup all |->
                       IF p \in rest THEN t[p] ELSE part[p[1]][p]]]

----------------------------------------------------------------------------
Entry(p, k, b, c) == [p |-> p, k |-> k, b |-> b, c |-> c]
ABlob == CHOOSE b \in Blobs : TRUE
AName == CHOOSE n \in Names : TRUE
Entries ==
  {Entry(p, "f", b, Empty) : p \in Paths, b \in Blobs}
  \cup {Entry(p, "d", "", Empty) : p \in Paths}
  \cup {Entry(p, "d", "", <<AName>> :> ABlob) : p \in {q \in Paths : Len(q) < Depth}}
Updates == UNION {[1..n -> Entries] : n \in 1..MaxLen}
\* those that are possible in some tree
Clean == {u \in Updates :
            \A i, j \in DOMAIN u : i # j => u[i].p # u[j].p /\ ~IsBelow(u[i].p, u[j].p)}
Tried == IF Branch = 0 THEN Updates
         ELSE RandomSubset(Branch, Clean) \cup RandomSubset(Branch \div 2, Updates)

Init == tree = Empty /\ act = [op |-> "init", ok |-> TRUE]

Add(u) ==
  LET r == AddPaths(tree, u)
  IN /\ tree' = IF r.ok THEN r.tree ELSE tree
     /\ act' = [op |-> IF r.ok THEN "add" ELSE "refused", u |-> u, ok |-> r.ok]

Next == \E u \in Tried : Add(u)
Spec == Init /\ [][Next]_vars

TypeOK == \A p \in DOMAIN tree :
            /\ tree[p] \in Blobs \cup {"dir"}
            /\ \A q \in StrictPrefixes(p) : q \in DOMAIN tree /\ tree[q] = "dir"

Reverse(u) == [n \in DOMAIN u |-> u[Len(u) + 1 - n]]
\* The result is the union or a refusal, in whatever order the paths are given.
IsUnion ==
  [][act'.op \in {"add", "refused"} =>
       LET r == Union(tree, act'.u)
       IN /\ act'.ok = r.ok
          /\ r.ok => tree' = r.tree
          /\ AddPaths(tree, Reverse(act'.u)) = AddPaths(tree, act'.u)]_vars

----------------------------------------------------------------------------
Pairs(t) == {<<p, t[p]>> : p \in DOMAIN t}
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
GenView == tree
Bound == TRUE
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([m |-> Pairs(tree), init |-> act.op = "init"]))
EmitEdge ==
  LET u == act'.u
  IN PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o
       ToJson([op |-> act'.op, ok |-> act'.ok,
               u |-> [n \in DOMAIN u |-> [p |-> u[n].p, k |-> u[n].k, b |-> u[n].b,
                                          content |-> Pairs(u[n].c)]]]))
=============================================================================
