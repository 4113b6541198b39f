------------------------------ MODULE TopLevel ------------------------------
(***************************************************************************)
(* Look-up and creation of metadata root records through the two indices   *)
(* (property P09): the tree version list leads from a root dataset version *)
(* and prefix path to a dataset tree, the UUID set from a dataset to its   *)
(* version list.                                                           *)
(*                                                                         *)
(* A query is [id, ver, pre, path, sid, sver]: the root dataset, the       *)
(* prefix path, and with path # "" the sub-dataset at this path.           *)
(*                                                                         *)
(* Entries of trees are records [id, ver, val, was]: "was" is the value    *)
(* that was saved last, 0 if it never was. Entries of version lists either *)
(* are the record of a tree (the same object), or one of their own: after  *)
(* the indices were loaded they hold records of their own, until a look-up *)
(* connects them.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Queries, Values, Ops, MaxLevel

VARIABLES
  T,        \* in memory: <<ver, pre>> -> path -> record
  L,        \* in memory: id -> <<ver, pre>> -> entry
  hasT, hasL,
  saved,    \* in the repository: [hasT, hasL, T, L] with values
  handles,  \* <<key, path>> of the records that look-ups returned
  torn,     \* history: entries for which the indices disagreed when loaded,
            \* because only one of them had been saved
  act
mem == <<T, L, hasT, hasL, handles>>
vars == <<T, L, hasT, hasL, handles, saved, torn, act>>

Empty == [x \in {} |-> 0]
Key(q) == <<q.ver, q.pre>>
IsSub(q) == q.path # ""
Own(r) == [own |-> TRUE, id |-> r.id, ver |-> r.ver, val |-> r.val, key |-> <<>>, path |-> ""]
Same(k, p) == [own |-> FALSE, id |-> "", ver |-> "", val |-> 0, key |-> k, path |-> p]

Init == /\ T = Empty /\ L = Empty /\ hasT = FALSE /\ hasL = FALSE /\ handles = {}
        /\ saved = [hasT |-> FALSE, hasL |-> FALSE, T |-> Empty, L |-> Empty]
        /\ torn = {}
        /\ act = [op |-> "init", ok |-> TRUE]

----------------------------------------------------------------------------
(* Creation. A state is [t |-> trees, l |-> version lists]. *)
Put(f, k, v) == (k :> v) @@ f
New(id, ver) == [id |-> id, ver |-> ver, val |-> 1, was |-> 0]

EnsureList(s, id) == IF id \in DOMAIN s.l THEN s ELSE [s EXCEPT !.l = Put(@, id, Empty)]
EnsureTree(s, k) == IF k \in DOMAIN s.t THEN s ELSE [s EXCEPT !.t = Put(@, k, Empty)]
EnsureRecord(s, k, p, r) ==
  IF p \in DOMAIN s.t[k] THEN s ELSE [s EXCEPT !.t[k] = Put(@, p, r)]

\* The entry of the version list is the record of the tree: if there is none,
\* or if both represent the same stored object.
Connect(s, id, lk, k, p) ==
  LET r == s.t[k][p] IN
  IF lk \notin DOMAIN s.l[id] THEN [s EXCEPT !.l[id] = Put(@, lk, Same(k, p))]
  ELSE LET e == s.l[id][lk]
           other == IF e.own THEN [id |-> e.id, ver |-> e.ver, val |-> e.val, was |-> e.val]
                    ELSE s.t[e.key][e.path]
       IN IF /\ other.was = other.val /\ other.was # 0
             /\ <<r.id, r.ver, r.was>> = <<other.id, other.ver, other.was>>
          THEN [s EXCEPT !.l[id][lk] = Same(k, p)] ELSE s

Create(q, s0) ==
  LET k == Key(q)
      root == Connect(
                EnsureRecord(EnsureTree(EnsureList(s0, q.id), k), k, "", New(q.id, q.ver)),
                q.id, k, k, "")
  IN IF ~IsSub(q) THEN root
     ELSE Connect(
            EnsureRecord(EnsureList(root, q.sid), k, q.path, New(q.sid, q.sver)),
            q.sid, <<q.sver, "">>, k, q.path)

(* Look-up: the record, if all that leads to it exists *)
Found(q, s) ==
  LET k == Key(q) IN
  /\ q.id \in DOMAIN s.l /\ k \in DOMAIN s.t /\ "" \in DOMAIN s.t[k]
  /\ IsSub(q) => q.sid \in DOMAIN s.l /\ q.path \in DOMAIN s.t[k]

\* a look-up connects, too, what is there
Touched(q, s) ==
  LET k == Key(q)
      join(x, id, lk, p) ==
        IF id \in DOMAIN x.l /\ lk \in DOMAIN x.l[id] THEN Connect(x, id, lk, k, p) ELSE x
      root(x) == IF q.id \in DOMAIN x.l /\ k \in DOMAIN x.t /\ "" \in DOMAIN x.t[k]
                 THEN join(x, q.id, k, "") ELSE x
  IN IF IsSub(q)
     THEN IF Found(q, s) THEN join(root(s), q.sid, <<q.sver, "">>, q.path) ELSE root(s)
     ELSE root(s)

----------------------------------------------------------------------------
\* A version list holds one record per version and prefix path: the one that
\* was first. Those that were looked up in more than one tree are not compared.
Trees(i, lk) == {q \in Queries : \/ IsSub(q) /\ q.sid = i /\ lk = <<q.sver, "">>
                                 \/ ~IsSub(q) /\ q.id = i /\ lk = Key(q)
                                 \/ IsSub(q) /\ q.id = i /\ lk = Key(q)}
Place(q, i, lk) == IF IsSub(q) /\ q.sid = i /\ lk = <<q.sver, "">>
                   THEN <<Key(q), q.path>> ELSE <<Key(q), "">>
Unique(i, lk) == Cardinality({Place(q, i, lk) : q \in Trees(i, lk)}) = 1


\* entries for which the saved indices disagree
Home(i, lk) == CHOOSE h \in {Place(q, i, lk) : q \in Trees(i, lk)} : TRUE
Disagree ==
  LET entries == {<<q.id, Key(q)>> : q \in Queries}
                 \cup {<<q.sid, <<q.sver, "">>>> : q \in {x \in Queries : IsSub(x)}}
      inT(h) == saved.hasT /\ h[1] \in DOMAIN saved.T /\ h[2] \in DOMAIN saved.T[h[1]]
      inL(e) == saved.hasL /\ e[1] \in DOMAIN saved.L /\ e[2] \in DOMAIN saved.L[e[1]]
  IN {e \in entries :
        /\ Unique(e[1], e[2]) /\ inL(e)
        /\ LET h == Home(e[1], e[2])
           IN ~inT(h) \/ saved.T[h[1]][h[2]] # saved.L[e[1]][e[2]]}

----------------------------------------------------------------------------
\* What a session sees after loading the indices
LoadT == IF ~saved.hasT THEN Empty
         ELSE [k \in DOMAIN saved.T |-> [p \in DOMAIN saved.T[k] |->
                LET r == saved.T[k][p]
                IN [id |-> r.id, ver |-> r.ver, val |-> r.val, was |-> r.val]]]
LoadL == IF ~saved.hasL THEN Empty
         ELSE [i \in DOMAIN saved.L |-> [k \in DOMAIN saved.L[i] |-> Own(saved.L[i][k])]]

Result(q, s) == <<Key(q), q.path, s.t[Key(q)][q.path].id, s.t[Key(q)][q.path].ver,
                  s.t[Key(q)][q.path].val>>

\* fresh: load the indices first
Lookup(q, fresh, create) ==
  /\ "lookup" \in Ops
  /\ IF fresh THEN TRUE ELSE hasT /\ hasL
  /\ LET t0 == IF fresh THEN LoadT ELSE T
         l0 == IF fresh THEN LoadL ELSE L
         t == IF fresh THEN saved.hasT \/ create ELSE hasT
         l == IF fresh THEN saved.hasL \/ create ELSE hasL
         both == t /\ l
         s0 == [t |-> t0, l |-> l0]
         s1 == IF ~both THEN s0 ELSE IF create THEN Create(q, s0) ELSE Touched(q, s0)
         found == both /\ (create \/ Found(q, s0))
     IN \* without both there are no objects
        /\ T' = IF both THEN s1.t ELSE Empty
        /\ L' = IF both THEN s1.l ELSE Empty
        /\ hasT' = both /\ hasL' = both
        /\ handles' = (IF fresh THEN {} ELSE handles)
                      \cup (IF found THEN {<<Key(q), q.path>>} ELSE {})
        /\ act' = [op |-> "lookup", q |-> q, fresh |-> fresh, create |-> create, ok |-> TRUE,
                   res |-> IF found THEN Result(q, s1) ELSE <<>>]
        /\ torn' = IF fresh THEN torn \cup Disagree ELSE torn
  /\ UNCHANGED saved

\* look-up without creation where an index does not exist
Without(q, missing) ==
  /\ "lookup" \in Ops
  /\ hasT /\ hasL
  /\ act' = [op |-> "without", q |-> q, missing |-> missing, ok |-> TRUE, res |-> <<>>]
  /\ UNCHANGED <<mem, saved, torn>>

\* change a record that was returned
Change(h, v) ==
  /\ "change" \in Ops
  /\ h \in handles
  /\ T[h[1]][h[2]].val # v
  /\ T' = [T EXCEPT ![h[1]][h[2]].val = v]
  /\ act' = [op |-> "change", h |-> h, v |-> v, ok |-> TRUE]
  /\ UNCHANGED <<L, hasT, hasL, handles, torn, saved>>

Plain(r) == [id |-> r.id, ver |-> r.ver, val |-> r.val]
Resolve(e) == IF e.own THEN Plain(e) ELSE Plain(T[e.key][e.path])
PlainT == [k \in DOMAIN T |-> [p \in DOMAIN T[k] |-> Plain(T[k][p])]]
PlainL == [i \in DOMAIN L |-> [k \in DOMAIN L[i] |-> Resolve(L[i][k])]]

\* write one of the indices; the records in it are saved with it
Save(w) ==
  /\ "save" \in Ops
  /\ hasT /\ hasL
  /\ IF w = "tvl"
     THEN /\ saved' = [saved EXCEPT !.hasT = TRUE, !.T = PlainT]
          /\ T' = [k \in DOMAIN T |-> [p \in DOMAIN T[k] |-> [T[k][p] EXCEPT !.was = T[k][p].val]]]
     ELSE /\ saved' = [saved EXCEPT !.hasL = TRUE, !.L = PlainL]
          /\ LET in(k, p) == \E i \in DOMAIN L : \E x \in DOMAIN L[i] :
                               ~L[i][x].own /\ L[i][x].key = k /\ L[i][x].path = p
             IN T' = [k \in DOMAIN T |-> [p \in DOMAIN T[k] |->
                        IF in(k, p) THEN [T[k][p] EXCEPT !.was = T[k][p].val] ELSE T[k][p]]]
  /\ act' = [op |-> "save", w |-> w, ok |-> TRUE]
  /\ UNCHANGED <<L, hasT, hasL, handles, torn>>

\* save both and unload them: they are loaded again on demand
Unload ==
  /\ "unload" \in Ops
  /\ hasT /\ hasL
  /\ saved' = [hasT |-> TRUE, hasL |-> TRUE, T |-> PlainT, L |-> PlainL]
  /\ T' = [k \in DOMAIN T |-> [p \in DOMAIN T[k] |-> [T[k][p] EXCEPT !.was = T[k][p].val]]]
  /\ L' = [i \in DOMAIN L |-> [k \in DOMAIN L[i] |-> Own(Resolve(L[i][k]))]]
  /\ handles' = {}
  /\ act' = [op |-> "unload", ok |-> TRUE]
  /\ UNCHANGED <<hasT, hasL, torn>>

Next ==
  \/ \E q \in Queries, fresh \in BOOLEAN, create \in BOOLEAN : Lookup(q, fresh, create)
  \/ \E q \in Queries, w \in {"tvl", "us", "both"} : Without(q, w)
  \/ \E h \in handles, v \in Values : Change(h, v)
  \/ \E w \in {"tvl", "us"} : Save(w)
  \/ Unload

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Both indices agree in memory on every record that was returned
Agreement ==
  \A i \in DOMAIN L : \A lk \in DOMAIN L[i] :
    Unique(i, lk) /\ <<i, lk>> \notin torn =>
      LET e == L[i][lk] IN Home(i, lk) \in handles => ~e.own /\ <<e.key, e.path>> = Home(i, lk)

\* and in the repository, after both were saved
SavedAgreement ==
  [][act'.op = "unload" => Disagree' \subseteq torn]_vars

LookupRight ==
  [][act'.op = "lookup" =>
       LET q == act'.q k == Key(q) IN
       /\ ~act'.create => (act'.fresh \/ (DOMAIN T' = DOMAIN T /\ DOMAIN L' = DOMAIN L))
       /\ act'.create =>
            /\ act'.res # <<>>
            /\ q.path \in DOMAIN T'[k] /\ "" \in DOMAIN T'[k]
            /\ k \in DOMAIN L'[q.id]
            /\ IsSub(q) => <<q.sver, "">> \in DOMAIN L'[q.sid]
       /\ ~act'.fresh =>
            \A kk \in DOMAIN T : \A p \in DOMAIN T[kk] : T'[kk][p] = T[kk][p]
    ]_vars

Bound == TLCGet("level") <= MaxLevel
GenView == mem \o <<saved>>
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
PairsT(t) == {<<k, {<<p, t[k][p].id, t[k][p].ver, t[k][p].val>> : p \in DOMAIN t[k]}>> : k \in DOMAIN t}
PairsL(l) == {<<i, {<<k, l[i][k].id, l[i][k].ver, l[i][k].val>> : k \in DOMAIN l[i]}>> : i \in DOMAIN l}
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([t |-> PairsT(PlainT), l |-> PairsL(PlainL),
                 st |-> IF saved.hasT THEN <<PairsT(saved.T)>> ELSE <<>>,
                 sl |-> IF saved.hasL THEN <<PairsL(saved.L)>> ELSE <<>>,
                 has |-> hasT /\ hasL, init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
