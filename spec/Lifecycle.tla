----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Life cycle of mappable objects: building, changing, loading, unloading, *)
(* writing (as a whole or in parts, to several realms) and copying.        *)
(*                                                                         *)
(* The specification has the structure of the implementation: an object    *)
(* knows whether it is loaded (m), on which realms it was saved (s), the   *)
(* realm and reference it would be loaded from (rl, r), and the references *)
(* of its parts at the time it was saved or loaded (sr).                   *)
(*                                                                         *)
(* A reference is the content-address of a stored object. Content          *)
(* addressing is modelled by using the deep content itself as address:     *)
(*    [k |-> kind, v |-> value, c |-> [name -> address of part]].          *)
(* Trees without entries have the address None; they are not stored.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Realms,      \* repositories
  Vals,        \* values a leaf can have
  Skel,        \* name of the initial structure, see Skeleton
  Start,       \* "new": start with a new structure, "stored": with a loaded one
  MaxLevel,    \* bound for the length of behaviours
  Ops,         \* names of the enabled operations
  Ends,        \* errors with partial effects, which end a behaviour, are included
  Fix          \* names of the repairs that are in place (see DESIGN.md)

VARIABLES
  root,        \* the object structure in memory
  store,       \* realm -> addresses of stored objects
  reg,         \* realm -> objects registered for protection from gc
  entry,       \* realm -> address the entry point refers to
  guar,        \* {<<realm, address>>}: what has to survive gc
  mode,        \* "run", or "end" after an error with partial effects
  act          \* the last operation, its arguments and its expected outcome

vars == <<root, store, reg, entry, guar, mode, act>>

Empty  == [x \in {} |-> 0]
NoRef  == [k |-> "-"]
None   == [k |-> "none"]
NoRealm == "-"
Trees   == {"n", "ft", "dt"}
Proxies == {"ft", "dt"}

Target(r) == IF r.k = "top" THEN r.a ELSE r

(***************************************************************************)
(* Objects                                                                 *)
(***************************************************************************)
New(k, v, c) == [k |-> k, m |-> TRUE, s |-> {}, rl |-> NoRealm, r |-> NoRef,
                 v |-> v, c |-> c, sr |-> Empty]

Unloaded(k, S, R, a) == [k |-> k, m |-> FALSE, s |-> S, rl |-> R, r |-> a,
                         v |-> 0, c |-> Empty, sr |-> Empty]
Stub(k, R, a) == Unloaded(k, {R}, R, a)

AddrKind(k) == IF k \in Trees THEN "n" ELSE IF k = "tvl" THEN "vl" ELSE k

Node(k, v, c) ==
  IF k \in Trees
  THEN LET live == {n \in DOMAIN c : c[n].k # "none"} IN
       IF live = {} THEN None
       ELSE [k |-> AddrKind(k), v |-> v, c |-> [n \in live |-> c[n]]]
  ELSE [k |-> AddrKind(k), v |-> v, c |-> c]

\* A root record that was saved with an empty file tree is loaded without one:
\* the addresses differ, but the content is considered to be the same.
Kids(a) == IF a.k = "mrr" THEN {n \in DOMAIN a.c : a.c[n].k # "none"} ELSE DOMAIN a.c

RECURSIVE Norm(_)
Norm(a) == IF a.k \in {"none", "-"} THEN a
           ELSE [a EXCEPT !.c = [n \in Kids(a) |-> Norm(a.c[n])]]

\* The address that an object would be stored at.
RECURSIVE Addr(_)
Addr(o) == IF ~o.m THEN Target(o.r)
           ELSE Node(o.k, o.v, [n \in DOMAIN o.c |-> Addr(o.c[n])])

\* The logical content of an object
Content(o) == Norm(Addr(o))

\* The address of a copy of an object
RECURSIVE CopyAddr(_)
CopyAddr(o) == IF ~o.m THEN Norm(Target(o.r))
               ELSE Node(o.k, o.v, [n \in DOMAIN o.c |-> CopyAddr(o.c[n])])

KidKind(k, n, a) ==
  CASE k \in Trees         -> a.k
    [] k = "mrr"           -> IF n = "M" THEN "md" ELSE "ft"
    [] k \in {"vl", "tvl"} -> IF a.k = "mrr" THEN "mrr" ELSE "dt"
    [] k = "us"            -> "vl"

Locs(c) == [n \in DOMAIN c |-> c[n].r]

EnsureMapped(o) ==
  IF o.m THEN o
  ELSE IF o.r.k = "none" THEN [o EXCEPT !.m = TRUE, !.sr = Empty]
  ELSE LET a == Target(o.r)
           \* what is saved on several realms has its parts there, too
           S == IF "parts" \in Fix THEN o.s ELSE {o.rl}
           kids == [n \in Kids(a) |->
                      Unloaded(KidKind(o.k, n, a.c[n]), S, o.rl, a.c[n])]
       IN [o EXCEPT !.m = TRUE, !.v = a.v, !.c = kids, !.sr = Locs(kids)]

RECURSIVE IsSaved(_, _)
IsSaved(o, R) ==
  /\ R \in o.s
  /\ o.m => /\ \A n \in DOMAIN o.c : IsSaved(o.c[n], R)
            /\ "sub" \in Fix => o.sr = Locs(o.c)

Touch(o) == [o EXCEPT !.s = {}]

(***************************************************************************)
(* Stored objects that belong to an address, and garbage collection.       *)
(* A metadata address stands for a stored reference to a metadata blob.    *)
(***************************************************************************)
Blob(a) == [k |-> "mdb", v |-> a.v]

RECURSIVE Closure(_)
Closure(a) ==
  IF a.k = "none" THEN {}
  ELSE {a} \cup (IF a.k = "md" THEN {Blob(a)} ELSE {})
           \cup (IF a.k = "mdb" THEN {}
                 ELSE UNION {Closure(a.c[n]) : n \in DOMAIN a.c})

\* What git considers reachable: it follows trees, but not references that
\* are part of the text of a blob.
RECURSIVE GitReach(_)
GitReach(a) ==
  IF a.k = "none" THEN {}
  ELSE {a} \cup (IF a.k \in {"n", "us"}
                 THEN UNION {GitReach(a.c[n]) : n \in DOMAIN a.c} ELSE {})

(***************************************************************************)
(* Writing. Results: ok, o: the object after the operation, st: objects    *)
(* stored, rg: objects registered for protection.                          *)
(***************************************************************************)
Registered(k, a) ==
  CASE k = "md"            -> {Blob(a)}
    [] k = "mrr"           -> {a.c[n] : n \in Kids(a)}
    [] k \in {"vl", "tvl"} -> {a.c[n] : n \in {x \in DOMAIN a.c : a.c[x].k = "mrr"}}
    [] OTHER               -> {}

ProxyReg(o) == IF o.k \in Proxies /\ Target(o.r).k # "none" THEN {Target(o.r)} ELSE {}

\* f: the write is forced, although the object is saved; root records pass that on
RECURSIVE WriteOut(_, _, _)
WriteOut(o, R, f) ==
  IF ~o.m
  THEN [ok |-> R \in o.s, o |-> o, st |-> {}, rg |-> ProxyReg(o)]
  ELSE IF IsSaved(o, R) /\ ~f
  THEN LET o2 == [o EXCEPT !.rl = R] IN
       [ok |-> TRUE, o |-> o2, st |-> {}, rg |-> ProxyReg(o2)]
  ELSE LET w   == [n \in DOMAIN o.c |-> WriteOut(o.c[n], R, f /\ o.k = "mrr")] IN
       IF \E n \in DOMAIN w : ~w[n].ok
       THEN [ok |-> FALSE, o |-> o, st |-> {}, rg |-> {}]
       ELSE LET kids == [n \in DOMAIN w |-> w[n].o]
                a    == Node(o.k, o.v, [n \in DOMAIN w |-> Target(kids[n].r)])
                \* the states saved in other realms are outdated if the content changed
                old  == IF "reset" \in Fix /\ o.r # NoRef /\ o.r # a THEN {} ELSE o.s
                o2   == [o EXCEPT !.c = kids, !.r = a, !.rl = R, !.s = old \cup {R},
                                  !.sr = Locs(kids)]
            IN [ok |-> TRUE, o |-> o2,
                st |-> UNION {w[n].st : n \in DOMAIN w}
                       \cup (IF a.k = "none" THEN {}
                             ELSE IF a.k = "md" THEN {a, Blob(a)} ELSE {a}),
                rg |-> UNION {w[n].rg : n \in DOMAIN w}
                       \cup Registered(o.k, a) \cup ProxyReg(o2)]
Write(o, R) == WriteOut(o, R, FALSE)

(***************************************************************************)
(* Unloading                                                               *)
(***************************************************************************)
RECURSIVE CanPurge(_)
CanPurge(o) == o.m => /\ IF "purge" \in Fix THEN IsSaved(o, o.rl) ELSE o.s # {}
                      /\ \A n \in DOMAIN o.c : CanPurge(o.c[n])

Purged(o) == [o EXCEPT !.m = FALSE, !.c = Empty, !.v = 0]

(***************************************************************************)
(* Navigation: a path is a sequence of names.                              *)
(***************************************************************************)
RECURSIVE At(_, _)
At(o, p) == IF p = <<>> THEN o ELSE At(o.c[Head(p)], Tail(p))

RECURSIVE Put(_, _, _)
Put(o, p, x) == IF p = <<>> THEN x
                ELSE [o EXCEPT !.c[Head(p)] = Put(@, Tail(p), x)]

\* Load everything on the way to p, and the object at p.
RECURSIVE Load(_, _)
Load(o, p) == LET l == EnsureMapped(o) IN
              IF p = <<>> THEN l
              ELSE [l EXCEPT !.c[Head(p)] = Load(@, Tail(p))]

\* All paths of the logical content.
RECURSIVE AllPaths(_)
AllPaths(a) == {<<>>} \cup
  IF a.k \in {"none", "md", "tx"} THEN {}
  ELSE UNION {{<<n>> \o q : q \in AllPaths(a.c[n])} : n \in Kids(a)}

\* Paths including empty directories that are in memory
RECURSIVE MemPaths(_)
MemPaths(o) == IF o.m THEN {<<>>} \cup UNION {{<<n>> \o q : q \in MemPaths(o.c[n])} : n \in DOMAIN o.c}
               ELSE AllPaths(Target(o.r))

\* Paths of objects in memory, loaded or not
RECURSIVE Attached(_)
Attached(o) == {<<>>} \cup
  IF o.m THEN UNION {{<<n>> \o q : q \in Attached(o.c[n])} : n \in DOMAIN o.c} ELSE {}

KindAt(o, p) == Load(o, p).k
\* kind of the object at p without the need to load
RECURSIVE Kind(_, _)
Kind(o, p) == IF p = <<>> THEN o.k ELSE Kind(EnsureMapped(o).c[Head(p)], Tail(p))

(***************************************************************************)
(* Structures                                                              *)
(***************************************************************************)
Leaves == {"md", "tx"}
Md(v) == New("md", v, Empty)
Tx(v) == New("tx", v, Empty)
V0 == CHOOSE v \in Vals : \A w \in Vals : v <= w

Fresh(k) ==
  CASE k = "md"  -> Md(V0)
    [] k = "tx"  -> Tx(V0)
    [] k = "ft"  -> New("ft", 0, [x \in {"a"} |-> Md(V0)])
    [] k = "mrr" -> New("mrr", 0, [x \in {"M"} |-> Md(V0)])
    [] k = "vl"  -> New("vl", 0, [x \in {"p"} |-> New("mrr", 0, [y \in {"M"} |-> Md(V0)])])
    [] k = "dt"  -> New("dt", 0, Empty)
    [] k = "n"   -> New("n", 0, Empty)

Skeleton ==
  CASE Skel = "ft"  -> New("ft", 0, [a |-> Md(V0), d |-> New("n", 0, [b |-> Md(V0)])])
    [] Skel = "ft2" -> New("ft", 0, [a |-> Md(V0), d |-> New("n", 0,
                             [b |-> Md(V0), e |-> New("n", 0, [c |-> Md(V0)])])])
    [] Skel = "nt"  -> New("n", 0, [a |-> Tx(V0), d |-> New("n", 0, [b |-> Tx(V0)])])
    [] Skel = "md"  -> Md(V0)
    [] Skel = "mrr" -> New("mrr", 0, [M |-> Md(V0), F |-> New("ft", 0, [a |-> Md(V0)])])
    [] Skel = "vl"  -> New("vl", 0, [p |-> New("mrr", 0, [M |-> Md(V0)]),
                                     q |-> New("mrr", 0, [M |-> Md(V0)])])
    [] Skel = "us"  -> New("us", 0, [u |-> New("vl", 0, [p |-> New("mrr", 0,
                             [M |-> Md(V0), F |-> New("ft", 0, [a |-> Md(V0)])])])])
    [] Skel = "tvl" -> New("tvl", 0, [p |-> New("dt", 0,
                             [R |-> New("mrr", 0, [M |-> Md(V0)]),
                              s |-> New("n", 0, [R |-> New("mrr", 0, [M |-> Md(V0)])])])])
    [] Skel = "us0" -> New("us", 0, Empty)
    [] Skel = "us1" -> New("us", 0, [u |-> New("vl", 0, Empty)])
    [] Skel = "tvn" -> New("tvl", 0, Empty)
    [] Skel = "tv0" -> New("tvl", 0, [p |-> New("dt", 0, Empty),
                                      q |-> New("dt", 0, [R |-> New("mrr", 0, Empty)])])

A0 == CHOOSE R \in Realms : \A Q \in Realms : R = Q \/ R = "A"

Init ==
  /\ mode = "run"
  /\ act = [op |-> "init", ok |-> TRUE]
  /\ IF Start = "new"
     THEN /\ root = Skeleton
          /\ store = [R \in Realms |-> {}]
          /\ reg = [R \in Realms |-> {}]
          /\ entry = [R \in Realms |-> NoRef]
          /\ guar = {}
     ELSE LET w == Write(Skeleton, A0) IN
          /\ root = Stub(Skeleton.k, A0,
                         IF Skeleton.k \in {"tvl", "us"} THEN [k |-> "top", a |-> w.o.r] ELSE w.o.r)
          /\ store = [R \in Realms |-> IF R = A0 THEN w.st ELSE {}]
          /\ reg = [R \in Realms |-> IF R = A0 THEN w.rg ELSE {}]
          /\ entry = [R \in Realms |-> IF R = A0 /\ Skeleton.k \in {"tvl", "us"} THEN w.o.r ELSE NoRef]
          /\ guar = IF Skeleton.k \in Proxies THEN {<<A0, w.o.r>>} ELSE {}

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Can(op) == mode = "run" /\ op \in Ops

\* loading and reading
Get(p) ==
  /\ Can("get") /\ p \in MemPaths(root)
  /\ root' = Load(root, p)
  /\ act' = [op |-> "get", p |-> p, ok |-> TRUE]
  /\ UNCHANGED <<store, reg, entry, guar, mode>>

\* change the value of a leaf
Set(p, v) ==
  /\ Can("set") /\ p \in MemPaths(root) /\ Kind(root, p) \in {"md", "tx"}
  /\ LET l == Load(root, p) IN
     root' = Put(l, p, [Touch(At(l, p)) EXCEPT !.v = v])
  /\ act' = [op |-> "set", p |-> p, v |-> v, ok |-> TRUE]
  /\ UNCHANGED <<store, reg, entry, guar, mode>>

\* add or replace a part: entries of trees can only be added
Slots(k) == CASE k \in {"ft"} -> {<<"a", "md">>, <<"z", "md">>}
              [] k = "n"   -> {<<"z", IF Skel = "nt" THEN "tx" ELSE "md">>}
              [] k = "mrr" -> {<<"M", "md">>, <<"F", "ft">>}
              [] k = "vl"  -> {<<"p", "mrr">>, <<"q", "mrr">>}
              [] k = "tvl" -> {<<"p", "dt">>}
              [] k = "us"  -> {<<"w", "vl">>}
              [] OTHER     -> {}

\* In a dataset tree an inner node holds root records instead of metadata.
InDatasetTree(p) == \E i \in 0 .. Len(p) : Kind(root, SubSeq(p, 1, i)) = "dt"

Add(p, n, k) ==
  /\ Can("add") /\ p \in MemPaths(root)
  /\ <<n, k>> \in Slots(Kind(root, p))
  /\ ~(Kind(root, p) = "n" /\ InDatasetTree(p))
  /\ LET l == Load(root, p)
         o == At(l, p)
         ok == ~(o.k \in Trees /\ n \in DOMAIN o.c)
     IN /\ root' = IF ok THEN Put(l, p, [Touch(o) EXCEPT !.c = (n :> Fresh(k)) @@ @]) ELSE l
        /\ act' = [op |-> "add", p |-> p, n |-> n, k |-> k, ok |-> ok]
  /\ UNCHANGED <<store, reg, entry, guar, mode>>

\* remove an entry of a tree
Del(p, n) ==
  /\ Can("del") /\ p \in MemPaths(root) /\ Kind(root, p) \in Trees
  /\ LET l == Load(root, p)
         o == At(l, p)
     IN /\ n \in DOMAIN o.c
        /\ root' = Put(l, p, [Touch(o) EXCEPT !.c = [x \in DOMAIN o.c \ {n} |-> o.c[x]]])
        /\ act' = [op |-> "del", p |-> p, n |-> n, ok |-> TRUE]
  /\ UNCHANGED <<store, reg, entry, guar, mode>>

\* effects of a successful write w of an object at path p to realm R
Stored(p, w, R) ==
  /\ store' = [store EXCEPT ![R] = @ \cup w.st]
  /\ reg' = [reg EXCEPT ![R] = @ \cup w.rg]
  /\ entry' = IF p = <<>> /\ root.k \in {"tvl", "us"} /\ w.st # {}
              THEN [entry EXCEPT ![R] = w.o.r] ELSE entry
  /\ guar' = IF w.o.k \in Proxies /\ Target(w.o.r).k # "none"
             THEN guar \cup {<<R, Target(w.o.r)>>} ELSE guar

\* write the object at p; without destination if R = NoRealm
WriteAt(p, R, f) ==
  /\ Can("write") /\ p \in Attached(root) /\ (f => "force" \in Ops)
  /\ LET o == At(root, p)
         D == IF R = NoRealm THEN o.rl ELSE R
         w == WriteOut(o, D, f)
     IN IF D = NoRealm
        THEN /\ act' = [op |-> "write", p |-> p, r |-> R, f |-> f, ok |-> FALSE]
             /\ UNCHANGED <<root, store, reg, entry, guar, mode>>
        ELSE IF w.ok
        THEN /\ root' = Put(root, p, w.o)
             /\ Stored(p, w, D)
             /\ act' = [op |-> "write", p |-> p, r |-> R, d |-> D, f |-> f, ok |-> TRUE,
                        was |-> IsSaved(o, D)]
             /\ UNCHANGED mode
        ELSE \* a failed write of a file tree is undone completely
             /\ o.k = "ft" \/ ~o.m \/ Ends
             /\ mode' = IF o.k = "ft" \/ ~o.m THEN "run" ELSE "end"
             /\ act' = [op |-> "write", p |-> p, r |-> R, d |-> D, f |-> f, ok |-> FALSE]
             /\ UNCHANGED <<root, store, reg, entry, guar>>

Purge(p) ==
  /\ Can("purge") /\ p \in Attached(root)
  /\ LET o == At(root, p) IN
     /\ o.m
     /\ IF CanPurge(o)
        THEN /\ root' = Put(root, p, Purged(o))
             /\ act' = [op |-> "purge", p |-> p, ok |-> TRUE]
             /\ UNCHANGED mode
        ELSE /\ act' = [op |-> "purge", p |-> p, ok |-> FALSE]
             /\ ~IsSaved(o, o.rl) \/ Ends
             /\ mode' = IF IsSaved(o, o.rl) THEN "end" ELSE "run"
             /\ UNCHANGED root
  /\ UNCHANGED <<store, reg, entry, guar>>

\* save and unload a part (unget_metadata, unget_version_list, unget_versioned_element)
Unget(p, R) ==
  /\ Can("unget") /\ p \in Attached(root) /\ p # <<>>
  /\ LET o  == At(root, p)
         pk == At(root, SubSeq(p, 1, Len(p) - 1)).k
         D  == IF R = NoRealm THEN o.rl ELSE R
     IN /\ D # NoRealm
        /\ \/ o.k = "md" /\ pk # "mrr" /\ o.m
           \/ pk = "us" /\ R = NoRealm
           \/ pk \in {"vl"}
           \/ pk = "tvl" /\ R # NoRealm
        /\ LET w == Write(o, D) IN
           /\ w.ok /\ CanPurge(w.o)
           /\ root' = Put(root, p, IF w.o.m THEN Purged(w.o) ELSE w.o)
           /\ Stored(p, w, D)
           /\ act' = [op |-> "unget", p |-> p, r |-> R, d |-> D, ok |-> TRUE]
  /\ UNCHANGED mode

\* Listing loads the trees that are listed, not their entries.
RECURSIVE Listed(_)
Listed(o) ==
  LET l == EnsureMapped(o)
      deep(n) == \/ o.k \in Trees /\ l.c[n].k = "n"
                 \/ o.k = "tvl"
  IN [l EXCEPT !.c = [n \in DOMAIN l.c |-> IF deep(n) THEN Listed(l.c[n]) ELSE l.c[n]]]

\* list all parts
List ==
  /\ Can("list")
  /\ root' = Listed(root)
  /\ act' = [op |-> "list", ok |-> TRUE]
  /\ UNCHANGED <<store, reg, entry, guar, mode>>

\* change the value of a leaf that was found by listing: what is listed is part of the structure
Sweep(p, v) ==
  /\ Can("sweep") /\ p \in MemPaths(root) /\ p # <<>> /\ Kind(root, p) \in {"md", "tx"}
  /\ LET l == Load(Listed(root), p) IN
     root' = Put(l, p, [Touch(At(l, p)) EXCEPT !.v = v])
  /\ act' = [op |-> "sweep", p |-> p, v |-> v, ok |-> TRUE]
  /\ UNCHANGED <<store, reg, entry, guar, mode>>

\* Deep copy; of the source nothing changes
CopyReg(a, k) == \* registrations while copying
  LET RECURSIVE CR(_, _)
      CR(x, kk) == IF x.k = "none" THEN {}
                   ELSE Registered(kk, x)
                        \cup (IF kk \in Proxies THEN {x} ELSE {})
                        \cup (IF x.k = "md" THEN {} ELSE
                              UNION {CR(x.c[n], KidKind(kk, n, x.c[n])) : n \in DOMAIN x.c})
  IN CR(a, k)

Copy(p, R) ==
  /\ Can("copy") /\ p \in Attached(root)
  /\ LET o == At(root, p)
         a == CopyAddr(o)
     IN /\ store' = [store EXCEPT ![R] = @ \cup Closure(a)]
        /\ reg' = [reg EXCEPT ![R] = @ \cup CopyReg(a, o.k)]
        /\ entry' = IF o.k \in {"tvl", "us"} THEN [entry EXCEPT ![R] = a] ELSE entry
        /\ guar' = IF o.k \in Proxies /\ a.k # "none" THEN guar \cup {<<R, a>>} ELSE guar
        /\ act' = [op |-> "copy", p |-> p, r |-> R, ok |-> TRUE]
  /\ UNCHANGED <<root, mode>>

\* A new session opens what was saved last.
Reopen ==
  /\ Can("reopen")
  /\ root.rl # NoRealm /\ IsSaved(root, root.rl) /\ root.r.k # "none"
  /\ root.k \in {"tvl", "us"} => Norm(entry[root.rl]) = Norm(Target(root.r))
  /\ root' = Stub(root.k, root.rl,
                  IF root.k \in {"tvl", "us"} THEN [k |-> "top", a |-> entry[root.rl]]
                  ELSE root.r)
  /\ act' = [op |-> "reopen", ok |-> TRUE, d |-> root.rl]
  /\ UNCHANGED <<store, reg, entry, guar, mode>>

Next ==
  \/ \E p \in MemPaths(root) :
       \/ Get(p)
       \/ \E v \in Vals : Set(p, v) \/ Sweep(p, v)
       \/ \E s \in Slots(Kind(root, p)) : Add(p, s[1], s[2])
       \/ \E n \in {"a", "b", "d", "e", "s", "z"} : Del(p, n)
  \/ \E p \in Attached(root) :
       \/ \E R \in Realms \cup {NoRealm} :
            \/ \E f \in BOOLEAN : WriteAt(p, R, f)
            \/ Unget(p, R)
       \/ Purge(p)
       \/ \E R \in Realms : Copy(p, R)
  \/ List
  \/ Reopen

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* P02, P16: what counts as saved is stored, completely and up to date.
SavedTruth ==
  \A p \in Attached(root) : \A R \in Realms :
    LET o == At(root, p) IN
    IsSaved(o, R) => /\ Norm(Target(o.r)) = Content(o)
                     /\ Closure(Target(o.r)) \subseteq store[R]

\* What is not loaded can be loaded from its realm.
Loadable ==
  \A p \in Attached(root) :
    LET o == At(root, p) IN
    ~o.m => /\ o.rl \in o.s
            /\ Closure(Target(o.r)) \subseteq store[o.rl]

\* P02: a successful write refers to the current content
WriteComplete ==
  [][act'.op = "write" /\ act'.ok =>
       LET o == At(root', act'.p) IN
       /\ Norm(Target(o.r)) = Content(At(root, act'.p))
       /\ Closure(Target(o.r)) \subseteq store'[act'.d]]_vars

\* P01, P03: nothing but changes changes content.
Transparent ==
  [][act'.op \in {"get", "write", "purge", "unget", "list", "copy", "reopen"}
       => Content(root') = Content(root)]_vars

\* P03: unloading is refused only if there is something to lose
PurgeRefusal ==
  [][act'.op = "purge" =>
       LET o == At(root, act'.p) IN
       IF act'.ok THEN \E R \in Realms : IsSaved(o, R)
       ELSE \/ mode' = "end"
            \/ ~IsSaved(o, o.rl)]_vars

\* P03: reading does not make an object count as modified
ReadingKeepsSaved ==
  [][act'.op \in {"get", "list"} =>
       \A p \in Attached(root) : \A R \in Realms :
         IsSaved(At(root', p), R) = IsSaved(At(root, p), R)]_vars

\* P02: writing an unchanged object gives the same reference and stores nothing
Idempotent ==
  [][act'.op = "write" /\ act'.ok /\ IsSaved(At(root, act'.p), act'.d)
       => /\ LET was == At(root, act'.p).r is == At(root', act'.p).r
             IN IF act'.f THEN Norm(Target(is)) = Norm(Target(was)) ELSE is = was
          /\ act'.f \/ store' = store]_vars

\* P16: the source realm is always one of the realms an object is saved on
RealmKnown ==
  \A p \in Attached(root) :
    LET o == At(root, p) IN o.s # {} => o.rl \in o.s

\* P12
GcSafe ==
  /\ \A g \in guar : Closure(g[2]) \subseteq UNION {GitReach(x) : x \in reg[g[1]]}
  /\ \A R \in Realms : entry[R] # NoRef =>
       Closure(entry[R]) \subseteq
         UNION {GitReach(x) : x \in reg[R]} \cup GitReach(entry[R])

\* Registered objects are stored.
RegStored == \A R \in Realms : reg[R] \subseteq store[R]

\* P10: entry points refer to complete structures
EntryComplete == \A R \in Realms : entry[R] # NoRef => Closure(entry[R]) \subseteq store[R]

(***************************************************************************)
(* Generation of behaviours                                                *)
(***************************************************************************)
Bound == TLCGet("level") <= MaxLevel

GenView == <<root, entry, mode>>

Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>

\* m: loaded, s: where it counts as saved
Flags == {[p |-> p, m |-> At(root, p).m, s |-> {R \in Realms : IsSaved(At(root, p), R)}] :
            p \in Attached(root)}

\* printed once per state
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([c |-> Content(root), f |-> Flags, mode |-> mode,
                 e |-> [R \in Realms |-> Norm(entry[R])], init |-> act.op = "init"]))

\* printed once per transition
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
